package blobshare

import (
	"io"

	"github.com/companyzero/zkc/zzv"
)

var zzLast []byte
var zzReader io.Reader

// zzRead is io.ReadFull, remembering what was read and from where.
func zzRead(r io.Reader, buf []byte) (int, error) {
	zzReader = r
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	zzLast = zzv.FreshBytes("rand", len(buf))
	copy(buf, zzLast)
	return len(buf), nil
}

// Encrypt, then Decrypt.
//@ verify C08 nopanic
//@ use io.ReadFull := zzRead
func zzvRoundTrip(data []byte, key *[32]byte) {
	old := zzv.Snap(data)
	oldk := *key
	enc, nonce, err := Encrypt(data, key)
	if err != nil {
		zzv.Assert("nothing is returned with an error", enc == nil && nonce == nil)
		zzv.Reach("random source fails")
		return
	}
	zzv.Assert("the nonce is fresh randomness", zzv.EqB(nonce[:], zzLast) && len(zzLast) == 24)
	zzv.Assert("the blob is sealed under key and nonce", zzv.EqB(enc, zzv.Ctor("seal", len(data)+16, nonce[:], key[:], data)))
	zzv.Assert("the input is left alone", zzv.Same(data, old) && *key == oldk)
	dec, err := Decrypt(key, nonce, enc)
	zzv.Assert("decrypting succeeds", err == nil)
	zzv.Assert("decrypting returns the data", zzv.EqB(dec, data))
	zzv.Reach("end")
}

// Decrypt accepts only what was sealed under this key and nonce.
//@ verify C08 C23 nopanic
//@ use golang.org/x/crypto/nacl/secretbox.Open := zzm.BoxOpenExact
func zzvDecryptAny(key *[32]byte, nonce *[24]byte, data []byte) {
	old := zzv.Snap(data)
	dec, err := Decrypt(key, nonce, data)
	zzv.Assert("the input is left alone", zzv.Same(data, old))
	if err != nil {
		zzv.Assert("nothing is returned with an error", dec == nil)
		zzv.Reach("refused")
		return
	}
	zzv.Assert("only an intact blob under the same key and nonce opens", zzv.EqB(data, zzv.Ctor("seal", len(dec)+16, nonce[:], key[:], dec)))
	zzv.Reach("accepted")
}

// A blob sealed under another key or nonce, or altered, is refused.
//@ verify C08 nopanic
//@ use io.ReadFull := zzRead
//@ use golang.org/x/crypto/nacl/secretbox.Open := zzm.BoxOpenExact
func zzvWrongKey(data []byte, key, key2 *[32]byte, nonce2 *[24]byte, enc2 []byte) {
	enc, nonce, err := Encrypt(data, key)
	if err != nil {
		return
	}
	zzv.Assume(*key != *key2 || *nonce != *nonce2)
	_, err = Decrypt(key2, nonce2, enc)
	zzv.Assert("another key or nonce is refused", err != nil)
	d3, err := Decrypt(key, nonce, enc2)
	zzv.Assert("another blob does not open to the same data", err != nil || !zzv.EqB(d3, data) || zzv.EqB(enc, enc2))
	zzv.Reach("end")
}

//@ verify C08 nopanic
func zzvPackSaltNonce(salt *[32]byte, nonce *[24]byte, data []byte) {
	old := zzv.Snap(data)
	p := PackSaltNonce(salt, nonce, data)
	zzv.Assert("packed length", len(p) == 56+len(data))
	s, n, d, err := UnpackSaltNonce(p)
	zzv.Assert("unpacking succeeds", err == nil)
	zzv.Assert("salt survives", *s == *salt)
	zzv.Assert("nonce survives", *n == *nonce)
	zzv.Assert("data survives", zzv.EqB(d, data) && zzv.Same(data, old))
	zzv.Reach("end")
}

//@ verify C08 nopanic
func zzvPackNonce(nonce *[24]byte, data []byte) {
	old := zzv.Snap(data)
	p := PackNonce(nonce, data)
	zzv.Assert("packed length", len(p) == 24+len(data))
	n, d, err := UnpackNonce(p)
	zzv.Assert("unpacking succeeds", err == nil)
	zzv.Assert("nonce survives", *n == *nonce)
	zzv.Assert("data survives", zzv.EqB(d, data) && zzv.Same(data, old))
	zzv.Reach("end")
}

// Unpacking arbitrary bytes.
//@ verify C08 C23 nopanic
func zzvUnpackAny(p []byte) {
	old := zzv.Snap(p)
	s, n, d, err := UnpackSaltNonce(p)
	zzv.Assert("exactly the short blobs are refused", (err != nil) == (len(p) < 56))
	if err == nil {
		zzv.Assert("the parts make up the blob", zzv.EqB(append(append(append([]byte(nil), s[:]...), n[:]...), d...), p))
		zzv.Reach("long")
	}
	n, d, err = UnpackNonce(p)
	zzv.Assert("exactly the short blobs are refused (nonce only)", (err != nil) == (len(p) < 24))
	if err == nil {
		zzv.Assert("the parts make up the blob (nonce only)", zzv.EqB(append(append([]byte(nil), n[:]...), d...), p))
	}
	zzv.Assert("the input is left alone", zzv.Same(p, old))
	zzv.Reach("end")
}

// A new key is derived again from the password and its salt, and the
// derivation depends on the whole password, the salt and the parameters.
//@ verify C08 nopanic
//@ use io.ReadFull := zzRead
func zzvKey(pw, pw2 []byte, salt2 *[32]byte, cost, blk, par int) {
	SetNrp(cost, blk, par)
	old := zzv.Snap(pw)
	k, salt, err := NewKey(pw)
	if err != nil {
		zzv.Assert("nothing is returned with an error", k == nil && salt == nil)
		zzv.Reach("failed")
		return
	}
	zzv.Assert("the salt is fresh randomness", zzv.EqB(salt[:], zzLast) && len(zzLast) == 32)
	zzv.Assert("the password is left alone", zzv.Same(pw, old))
	k1, err := DeriveKey(pw, salt)
	zzv.Assert("the key is derived again from password and salt", err == nil && *k1 == *k)
	k2, err := DeriveKey(pw2, salt2)
	zzv.Assert("derivation with the same parameters succeeds", err == nil)
	zzv.Assert("another password or salt gives another key", *k2 != *k || (zzv.EqB(pw, pw2) && *salt == *salt2))
	zzv.Assert("the key is the whole scrypt output", zzv.EqB(k[:], zzv.Ctor("scrypt", 32, pw, salt[:], cost, blk, par)))
	zzv.Reach("end")
}
