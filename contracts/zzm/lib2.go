package zzm

import "github.com/companyzero/zkc/zzv"

//@ model crypto/sha512.Sum512
func Sha512Sum512(b []byte) (out [64]byte) {
	copy(out[:], zzv.Ctor("sha512", 64, b))
	return
}

//@ model encoding/hex.Encode
func HexEncodeTo(dst, src []byte) int {
	if len(dst) < 2*len(src) {
		panic("index out of range")
	}
	return copy(dst, HexEncode(src))
}

//@ model encoding/hex.EncodedLen
func HexEncodedLen(n int) int { return n * 2 }

//@ model encoding/hex.DecodedLen
func HexDecodedLen(n int) int { return n / 2 }
