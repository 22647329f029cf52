package zzm

import (
	"encoding/base64"
	"strings"
	"bytes"
	"io"

	"github.com/companyzero/zkc/zzv"
)

// hex: injective encoding, decoding is its inverse.
//
//@ model encoding/hex.EncodeToString
func HexEncode(b []byte) string { return zzv.CtorString("hex", 2*len(b), b) }

//@ model encoding/hex.DecodeString
func HexDecode(s string) ([]byte, error) {
	if b, ok := zzv.Uncons("hex", s, 0); ok {
		return append([]byte(nil), b...), nil
	}
	if len(s)%2 == 0 && zzv.UFBool("ishex", s) {
		return append([]byte(nil), zzv.UFBytes("unhex", len(s)/2, s)...), nil
	}
	return zzv.FreshBytes("badhex", -1), zzv.NewErr()
}

// bytes.Buffer: its contents are a ghost field.
func bufOf(b *bytes.Buffer) []byte {
	if v := zzv.GGet(b, "buf"); v != nil {
		return v.([]byte)
	}
	return nil
}

//@ model (*encoding/base64.Encoding).EncodeToString
func B64Encode(e *base64.Encoding, b []byte) string {
	s := zzv.CtorString("b64", -1, b)
	zzv.Assume(strings.TrimSpace(s) == s)
	zzv.Assume(!strings.Contains(s, "\n"))
	return s
}

//@ model (*encoding/base64.Encoding).DecodeString
func B64Decode(e *base64.Encoding, s string) ([]byte, error) {
	if b, ok := zzv.Uncons("b64", s, 0); ok {
		return b, nil
	}
	if !zzv.UFBool("isb64", s) {
		return nil, zzv.NewErr()
	}
	return zzv.UFBytes("unb64", -1, s), nil
}

//@ model (*bytes.Buffer).Bytes
func BufBytes(b *bytes.Buffer) []byte { return bufOf(b) }

//@ model (*bytes.Buffer).String
func BufString(b *bytes.Buffer) string { return string(bufOf(b)) }

//@ model (*bytes.Buffer).Len
func BufLen(b *bytes.Buffer) int { return len(bufOf(b)) }

//@ model (*bytes.Buffer).Write
func BufWrite(b *bytes.Buffer, p []byte) (int, error) {
	o := bufOf(b)
	zzv.GSet(b, "buf", append(o[:len(o):len(o)], p...))
	return len(p), nil
}

//@ model bytes.NewBuffer
func NewBuffer(p []byte) *bytes.Buffer {
	b := new(bytes.Buffer)
	zzv.GSet(b, "buf", p)
	return b
}

//@ model bytes.NewReader
func NewReader(p []byte) *bytes.Reader {
	r := new(bytes.Reader)
	zzv.GSet(r, "rest", p)
	return r
}

// rest is what is left to read of a reader whose contents are known.
func rest(r io.Reader) ([]byte, bool) {
	switch x := r.(type) {
	case *bytes.Reader:
		if v := zzv.GGet(x, "rest"); v != nil {
			return v.([]byte), true
		}
	case *bytes.Buffer:
		return bufOf(x), true
	}
	return nil, false
}

func advance(r io.Reader, p []byte) {
	switch x := r.(type) {
	case *bytes.Reader:
		zzv.GSet(x, "rest", p)
	case *bytes.Buffer:
		zzv.GSet(x, "buf", p)
	}
}

// xdr: an injective encoding of the whole value; decoding anything else
// yields an arbitrary value or an error.
//
//@ model github.com/davecgh/go-xdr/xdr2.Marshal
func XdrMarshal(w io.Writer, v interface{}) (int, error) {
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	b := zzv.Enc("xdr", v)
	return w.Write(b)
}

//@ model github.com/davecgh/go-xdr/xdr2.Unmarshal
func XdrUnmarshal(r io.Reader, v interface{}) (int, error) {
	if p, ok := rest(r); ok {
		if n, known := zzv.Dec("xdr", p, v); known {
			advance(r, p[n:])
			return n, nil
		}
		n := zzv.FreshInt("xdr", 0, len(p))
		advance(r, p[n:])
		zzv.Havoc(v)
		if zzv.Choose() {
			return n, zzv.NewErr()
		}
		return n, nil
	}
	zzv.Havoc(v)
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	return 0, nil
}

//@ model github.com/davecgh/go-xdr/xdr2.UnmarshalLimited
func XdrUnmarshalLimited(r io.Reader, v interface{}, max uint) (int, error) { return XdrUnmarshal(r, v) }
