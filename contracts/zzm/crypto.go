// Package zzm holds the assumed contracts (ghost models) of the libraries the
// product calls.  Interpreted by the verifier, never compiled in.
package zzm

import (
	"hash"
	"io"

	"github.com/companyzero/zkc/zzv"
)

// ghash is a hash.Hash: the digest is an uninterpreted function of the key
// and of everything written since the last Reset.
type ghash struct {
	mac bool
	key []byte
	buf []byte
}

func (h *ghash) Write(p []byte) (int, error) {
	h.buf = append(h.buf[:len(h.buf):len(h.buf)], p...)
	return len(p), nil
}
func (h *ghash) Sum(b []byte) []byte {
	return append(b, h.digest()...)
}
func (h *ghash) digest() []byte {
	if h.mac {
		return zzv.Ctor("hmac-sha256", 32, h.key, h.buf)
	}
	return zzv.Ctor("sha256", 32, h.buf)
}
func (h *ghash) Reset()         { h.buf = nil }
func (h *ghash) Size() int      { return 32 }
func (h *ghash) BlockSize() int { return 64 }

//@ model crypto/sha256.New
func Sha256New() hash.Hash { return &ghash{} }

//@ model crypto/sha256.Sum256
func Sha256Sum256(b []byte) (out [32]byte) {
	copy(out[:], zzv.Ctor("sha256", 32, b))
	return
}

//@ model crypto/hmac.New
func HmacNew(f func() hash.Hash, key []byte) hash.Hash {
	return &ghash{mac: true, key: append([]byte(nil), key...)}
}

// RandFull is io.ReadFull of a randomness source that does not fail.
func RandFull(r io.Reader, buf []byte) (int, error) {
	copy(buf, zzv.FreshBytes("rand", len(buf)))
	return len(buf), nil
}

//@ model io.ReadFull
func ReadFull(r io.Reader, buf []byte) (int, error) {
	copy(buf, zzv.FreshBytes("read", len(buf)))
	if zzv.Choose() {
		return len(buf), nil
	}
	return zzv.FreshInt("short", 0, len(buf)), zzv.NewErr()
}

//@ model crypto/rand.Read
func RandRead(buf []byte) (int, error) {
	copy(buf, zzv.FreshBytes("rand", len(buf)))
	if zzv.Choose() {
		return len(buf), nil
	}
	return 0, zzv.NewErr()
}

//@ model golang.org/x/crypto/nacl/secretbox.Seal
func BoxSeal(out, message []byte, nonce *[24]byte, key *[32]byte) []byte {
	return append(out, zzv.Ctor("seal", len(message)+16, nonce[:], key[:], message)...)
}

//@ model golang.org/x/crypto/nacl/secretbox.Open
func BoxOpen(out, box []byte, nonce *[24]byte, key *[32]byte) ([]byte, bool) {
	m, ok := zzv.Open(box, nonce[:], key[:])
	if !ok {
		return nil, false
	}
	return append(out, m...), true
}

//@ model golang.org/x/crypto/curve25519.ScalarBaseMult
func ScalarBaseMult(dst, in *[32]byte) {
	p := zzv.UFBytes("scalarbase", 32, in[:])
	zzv.Assume(!zzv.UFBool("loworder", p))
	copy(dst[:], p)
}

//@ model golang.org/x/crypto/curve25519.X25519
func X25519(scalar, point []byte) ([]byte, error) {
	if len(scalar) != 32 || len(point) != 32 {
		return nil, zzv.NewErr()
	}
	if zzv.UFBool("loworder", point) {
		return nil, zzv.NewErr()
	}
	return zzv.DH(scalar, point), nil
}
