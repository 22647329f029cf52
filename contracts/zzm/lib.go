package zzm

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/companyzero/zkc/zzv"
)

//@ model (*bytes.Buffer).WriteString
func BufWriteString(b *bytes.Buffer, s string) (int, error) { return BufWrite(b, []byte(s)) }

//@ model (*bytes.Buffer).WriteByte
func BufWriteByte(b *bytes.Buffer, c byte) error {
	BufWrite(b, []byte{c})
	return nil
}

//@ model (*bytes.Buffer).Reset
func BufReset(b *bytes.Buffer) { zzv.GSet(b, "buf", []byte(nil)) }

//@ model (*bytes.Buffer).Grow
func BufGrow(b *bytes.Buffer, n int) {
	if n < 0 {
		panic("bytes.Buffer.Grow: negative count")
	}
}

//@ model bytes.NewBufferString
func NewBufferString(s string) *bytes.Buffer { return NewBuffer([]byte(s)) }

//@ model (*bytes.Reader).Len
func ReaderLen(r *bytes.Reader) int {
	if p, ok := rest(r); ok {
		return len(p)
	}
	return zzv.FreshInt("readerlen", 0, 1<<40)
}

// strings.Builder: its contents are a ghost field too.
func sbOf(b *strings.Builder) string {
	if v := zzv.GGet(b, "sb"); v != nil {
		return v.(string)
	}
	return ""
}

//@ model (*strings.Builder).WriteString
func SbWriteString(b *strings.Builder, s string) (int, error) {
	zzv.GSet(b, "sb", sbOf(b)+s)
	return len(s), nil
}

//@ model (*strings.Builder).Write
func SbWrite(b *strings.Builder, p []byte) (int, error) { return SbWriteString(b, string(p)) }

//@ model (*strings.Builder).WriteByte
func SbWriteByte(b *strings.Builder, c byte) error {
	SbWriteString(b, string([]byte{c}))
	return nil
}

//@ model (*strings.Builder).String
func SbString(b *strings.Builder) string { return sbOf(b) }

//@ model (*strings.Builder).Len
func SbLen(b *strings.Builder) int { return len(sbOf(b)) }

//@ model (*strings.Builder).Reset
func SbReset(b *strings.Builder) { zzv.GSet(b, "sb", "") }

//@ model (*strings.Builder).Grow
func SbGrow(b *strings.Builder, n int) {
	if n < 0 {
		panic("strings.Builder.Grow: negative count")
	}
}

//@ model io.WriteString
func IoWriteString(w io.Writer, s string) (int, error) { return w.Write([]byte(s)) }

//@ model fmt.Fprintf
func Fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(fmt.Sprintf(format, a...)))
}

//@ model bytes.Join
func BytesJoin(s [][]byte, sep []byte) []byte {
	var r []byte
	for i := range s {
		if i > 0 {
			r = append(r, sep...)
		}
		r = append(r, s[i]...)
	}
	return r
}

//@ model strings.Join
func StringsJoin(s []string, sep string) string {
	r := ""
	for i := range s {
		if i > 0 {
			r += sep
		}
		r += s[i]
	}
	return r
}
