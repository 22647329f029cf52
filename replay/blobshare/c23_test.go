package blobshare

import (
	mrand "math/rand"
	"testing"
)

func TestReplayC23(t *testing.T) {
	SetNrp(16, 1, 1)
	g := mrand.New(mrand.NewSource(23))
	var key [32]byte
	var nonce [24]byte
	for n := 0; n < 300; n++ {
		b := make([]byte, n)
		g.Read(b)
		UnpackNonce(b)
		UnpackSaltNonce(b)
		Decrypt(&key, &nonce, b)
		if s, no, d, err := UnpackSaltNonce(b); err == nil && n%10 == 0 {
			if k, err := DeriveKey(b[:n%9], s); err == nil {
				Decrypt(k, no, d)
			}
		}
		if no, d, err := UnpackNonce(b); err == nil {
			Decrypt(&key, no, d)
		}
	}
	UnpackNonce(nil)
	UnpackSaltNonce(nil)
	Decrypt(&key, &nonce, nil)
}
