package blobshare

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"strings"
	"testing"
)

// rbTry reports a panic as an error of the driver.
func rbTry(t *testing.T, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("%s panics: %v", what, e)
		}
	}()
	f()
}

func rbRand(n int) []byte {
	b := make([]byte, n)
	rand.Read(b)
	return b
}

var rbSizes = []int{0, 1, 2, 15, 16, 17, 23, 24, 25, 31, 32, 33, 55, 56, 57, 63, 64, 65, 255, 256, 1000, 4096, 65535, 65536, 65537, 1 << 20}

func TestReplayC08Round(t *testing.T) {
	seen := map[string]bool{}
	for i := 0; i < 300; i++ {
		n := i
		if i < len(rbSizes) {
			n = rbSizes[i]
		}
		m := rbRand(n)
		var key, salt [32]byte
		rand.Read(key[:])
		rand.Read(salt[:])
		k0, m0 := key, append([]byte(nil), m...)
		rbTry(t, "round trip", func() {
			c, nonce, err := Encrypt(m, &key)
			if err != nil {
				t.Fatal(err)
			}
			if seen[string(nonce[:])] {
				t.Fatal("nonce repeats")
			}
			seen[string(nonce[:])] = true
			if key != k0 || !bytes.Equal(m, m0) {
				t.Fatal("encryption alters its arguments")
			}
			c0, n0 := append([]byte(nil), c...), *nonce
			g, err := Decrypt(&key, nonce, c)
			if err != nil || !bytes.Equal(g, m) {
				t.Fatalf("size %d does not decrypt to itself: %v", n, err)
			}
			if key != k0 || *nonce != n0 || !bytes.Equal(c, c0) {
				t.Fatal("decryption alters its arguments")
			}
			p := PackSaltNonce(&salt, nonce, c)
			s1, n1, c1, err := UnpackSaltNonce(p)
			if err != nil || *s1 != salt || *n1 != *nonce || !bytes.Equal(c1, c) {
				t.Fatalf("pack/unpack with salt, size %d", n)
			}
			if !bytes.Equal(p[56:], c) || len(p) != 56+len(c) {
				t.Fatal("unpacking alters the packed bytes")
			}
			g, err = Decrypt(&key, n1, c1)
			if err != nil || !bytes.Equal(g, m) {
				t.Fatal("packed blob does not decrypt")
			}
			p = PackNonce(nonce, c)
			n1, c1, err = UnpackNonce(p)
			if err != nil || *n1 != *nonce || !bytes.Equal(c1, c) {
				t.Fatalf("pack/unpack, size %d", n)
			}
			if *nonce != n0 || !bytes.Equal(c, c0) {
				t.Fatal("packing alters its arguments")
			}
		})
	}
}

func TestReplayC08Refused(t *testing.T) {
	for _, n := range []int{0, 1, 5, 16, 24, 40, 300} {
		m := rbRand(n)
		var key [32]byte
		rand.Read(key[:])
		c, nonce, err := Encrypt(m, &key)
		if err != nil {
			t.Fatal(err)
		}
		refuse := func(what string, k *[32]byte, no *[24]byte, b []byte) {
			rbTry(t, what, func() {
				if g, err := Decrypt(k, no, b); err == nil || g != nil {
					t.Fatalf("%s (size %d) is accepted", what, n)
				}
			})
		}
		for i := range c {
			for bit := uint(0); bit < 8; bit++ {
				d := append([]byte(nil), c...)
				d[i] ^= 1 << bit
				refuse(fmt.Sprintf("blob altered at %d", i), &key, nonce, d)
			}
			refuse(fmt.Sprintf("blob cut to %d", i), &key, nonce, c[:i])
			refuse(fmt.Sprintf("blob without its first %d", i+1), &key, nonce, c[i+1:])
		}
		refuse("longer blob", &key, nonce, append(append([]byte(nil), c...), 0))
		refuse("nil blob", &key, nonce, nil)
		for i := 0; i < 32; i++ {
			k := key
			k[i] ^= 0x80
			refuse("another key", &k, nonce, c)
		}
		for i := 0; i < 24; i++ {
			no := *nonce
			no[i] ^= 1
			refuse("another nonce", &key, &no, c)
		}
	}
}

func TestReplayC08Short(t *testing.T) {
	for n := 0; n < 70; n++ {
		b := rbRand(n)
		for _, exact := range []bool{true, false} {
			in := b
			if exact {
				in = append(make([]byte, 0, n), b...)
				in = in[:n:n]
			} else {
				in = append(make([]byte, 0, 200), b...)
			}
			rbTry(t, "unpacking a short blob", func() {
				_, _, d, err := UnpackSaltNonce(in)
				if (err == nil) != (n >= 56) || (err == nil && len(d) != n-56) {
					t.Fatalf("UnpackSaltNonce of %d bytes: %v", n, err)
				}
				_, d, err = UnpackNonce(in)
				if (err == nil) != (n >= 24) || (err == nil && len(d) != n-24) {
					t.Fatalf("UnpackNonce of %d bytes: %v", n, err)
				}
			})
		}
	}
}

func TestReplayC08Key(t *testing.T) {
	SetNrp(16, 8, 1)
	defer SetNrp(16384, 8, 1)
	for i := 0; i < 40; i++ {
		pw := rbRand(i)
		p0 := append([]byte(nil), pw...)
		k, salt, err := NewKey(pw)
		if err != nil {
			t.Fatal(err)
		}
		s0 := *salt
		k2, err := DeriveKey(pw, salt)
		if err != nil || *k2 != *k {
			t.Fatal("the key cannot be derived again from password and salt")
		}
		if !bytes.Equal(pw, p0) || *salt != s0 {
			t.Fatal("derivation alters its arguments")
		}
		k3, err := DeriveKey(append(append([]byte(nil), pw...), 1), salt)
		if err != nil || *k3 == *k {
			t.Fatal("another password derives the same key")
		}
		for _, f := range []func(string) string{
			func(p string) string { return p + "\n" },
			func(p string) string { return p + " " },
			func(p string) string { return "\t" + p },
			func(p string) string { return "\x00" + p },
			strings.ToUpper,
			strings.ToLower,
			strings.Title,
			func(p string) string { return p + p },
			func(p string) string { return p[:len(p)-1] },
		} {
			base := []byte(fmt.Sprintf("Pass Word %d x", i))
			o := []byte(f(string(base)))
			ka, err := DeriveKey(base, salt)
			if err != nil {
				t.Fatal(err)
			}
			kb, err := DeriveKey(o, salt)
			if err != nil || *ka == *kb {
				t.Fatalf("%q and %q derive the same key", base, o)
			}
		}
		s := *salt
		s[i%32] ^= 1
		k3, err = DeriveKey(pw, &s)
		if err != nil || *k3 == *k {
			t.Fatal("another salt derives the same key")
		}
		_, salt2, _ := NewKey(pw)
		if *salt2 == *salt {
			t.Fatal("salt repeats")
		}
	}
}
