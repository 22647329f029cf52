package zzm

import (
	"crypto"
	"hash"
	"io"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/zzv"
	"golang.org/x/crypto/ed25519"
)

var _ crypto.Hash

// KEM: a ciphertext names the seed and the public key it was made for; the
// private key of that public key recovers the shared key.
//
//@ model github.com/companyzero/sntrup4591761.Encapsulate
func KemEncapsulate(s io.Reader, pk *[sntrup4591761.PublicKeySize]byte) (*[sntrup4591761.CiphertextSize]byte, *[sntrup4591761.SharedKeySize]byte, error) {
	if zzv.Choose() {
		return nil, nil, zzv.NewErr()
	}
	return KemEnc(zzv.FreshBytes("kemseed", 32), pk)
}

// KemEncapsulateOK: with a randomness source that does not fail.
func KemEncapsulateOK(s io.Reader, pk *[sntrup4591761.PublicKeySize]byte) (*[sntrup4591761.CiphertextSize]byte, *[sntrup4591761.SharedKeySize]byte, error) {
	return KemEnc(zzv.FreshBytes("kemseed", 32), pk)
}

func KemEnc(seed []byte, pk *[sntrup4591761.PublicKeySize]byte) (*[sntrup4591761.CiphertextSize]byte, *[sntrup4591761.SharedKeySize]byte, error) {
	c := new([sntrup4591761.CiphertextSize]byte)
	k := new([sntrup4591761.SharedKeySize]byte)
	copy(c[:], zzv.Ctor("kemct", sntrup4591761.CiphertextSize, seed, pk[:]))
	copy(k[:], zzv.Ctor("kemkey", 32, seed, pk[:]))
	return c, k, nil
}

// KemPub is the public key of a private key.
func KemPub(sk []byte) []byte { return zzv.UFBytes("kempub", sntrup4591761.PublicKeySize, sk) }

//@ model github.com/companyzero/sntrup4591761.Decapsulate
func KemDecapsulate(c *[sntrup4591761.CiphertextSize]byte, sk *[sntrup4591761.PrivateKeySize]byte) (*[sntrup4591761.SharedKeySize]byte, int) {
	k := new([sntrup4591761.SharedKeySize]byte)
	if seed, ok := zzv.Uncons("kemct", c[:], 0); ok {
		pk, _ := zzv.Uncons("kemct", c[:], 1)
		if zzv.EqB(pk, KemPub(sk[:])) {
			copy(k[:], zzv.Ctor("kemkey", 32, seed, pk))
			return k, 1
		}
	}
	if zzv.UFBool("kemok", c[:], sk[:]) {
		copy(k[:], zzv.UFBytes("kemdec", 32, c[:], sk[:]))
		return k, 1
	}
	return k, 0
}

//@ model github.com/companyzero/sntrup4591761.GenerateKey
func KemGenerate(s io.Reader) (*[sntrup4591761.PublicKeySize]byte, *[sntrup4591761.PrivateKeySize]byte, error) {
	if zzv.Choose() {
		return nil, nil, zzv.NewErr()
	}
	return KemGenerateOK(s)
}

func KemGenerateOK(s io.Reader) (*[sntrup4591761.PublicKeySize]byte, *[sntrup4591761.PrivateKeySize]byte, error) {
	pk := new([sntrup4591761.PublicKeySize]byte)
	sk := new([sntrup4591761.PrivateKeySize]byte)
	copy(sk[:], zzv.FreshBytes("kemsk", sntrup4591761.PrivateKeySize))
	copy(pk[:], KemPub(sk[:]))
	return pk, sk, nil
}

// scrypt: an injective function of all its parameters.
//
//@ model golang.org/x/crypto/scrypt.Key
func Scrypt(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {
	if N <= 1 || N&(N-1) != 0 {
		return nil, zzv.NewErr()
	}
	return zzv.Ctor("scrypt", keyLen, password, salt, N, r, p), nil
}

// ed25519: signatures verify when made with the matching private key; what
// else verifies is an uninterpreted predicate of key, message and signature.
//
//@ model golang.org/x/crypto/ed25519.Sign
func EdSign(sk ed25519.PrivateKey, msg []byte) []byte {
	return zzv.Ctor("edsig", 64, zzv.UFBytes("edpub", 32, []byte(sk)), msg)
}

//@ model golang.org/x/crypto/ed25519.Verify
func EdVerify(pk ed25519.PublicKey, msg, sig []byte) bool {
	if p, ok := zzv.Uncons("edsig", sig, 0); ok {
		m, _ := zzv.Uncons("edsig", sig, 1)
		if zzv.And(zzv.EqB(p, []byte(pk)), zzv.EqB(m, msg)) {
			return true
		}
	}
	return zzv.UFBool("edverify", []byte(pk), msg, sig)
}

//@ model golang.org/x/crypto/ed25519.GenerateKey
func EdGenerate(r io.Reader) (ed25519.PublicKey, ed25519.PrivateKey, error) {
	if zzv.Choose() {
		return nil, nil, zzv.NewErr()
	}
	sk := zzv.FreshBytes("edsk", 64)
	return append([]byte(nil), zzv.UFBytes("edpub", 32, sk)...), sk, nil
}

//@ model crypto/sha512.New
func Sha512New() hash.Hash { return &ghash512{} }

type ghash512 struct{ buf []byte }

func (h *ghash512) Write(p []byte) (int, error) {
	h.buf = append(h.buf[:len(h.buf):len(h.buf)], p...)
	return len(p), nil
}
func (h *ghash512) Sum(b []byte) []byte { return append(b, zzv.Ctor("sha512", 64, h.buf)...) }
func (h *ghash512) Reset()              { h.buf = nil }
func (h *ghash512) Size() int           { return 64 }
func (h *ghash512) BlockSize() int      { return 128 }

// BoxOpenExact is BoxOpen with the fact that sealing is deterministic: what
// opens is the box that sealing the message gives.
func BoxOpenExact(out, box []byte, nonce *[24]byte, key *[32]byte) ([]byte, bool) {
	m, ok := zzv.Open(box, nonce[:], key[:])
	if !ok {
		return nil, false
	}
	zzv.Assume(zzv.EqB(box, zzv.Ctor("seal", len(m)+16, nonce[:], key[:], m)))
	return append(out, m...), true
}
