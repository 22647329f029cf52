package ratchet

import (
	"bytes"
	"crypto/rand"
	mrand "math/rand"
	"testing"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/ratchet/disk"
)

// Damaged messages, key exchanges and states are refused, they do not crash.
func TestReplayC23Messages(t *testing.T) {
	g := mrand.New(mrand.NewSource(23))
	for round := 0; round < 2; round++ {
		a, b := rrPair(t)
		for i := 0; i < 150; i++ {
			s, r := a, b
			if g.Intn(2) == 0 {
				s, r = b, a
			}
			m := rrMsg(g)
			c := rrSend(t, s, m)
			for k := 0; k < 6; k++ {
				bad := append([]byte(nil), c...)
				switch k {
				case 0:
					bad = bad[:g.Intn(len(bad))]
				case 1:
					bad[g.Intn(len(bad))] ^= byte(1 + g.Intn(255))
				case 2:
					bad = append(bad, m...)
				case 3:
					bad = nil
				case 4:
					g.Read(bad)
				case 5:
					if i < 140 {
						bad = bad[:min23(i, len(bad))]
					}
				}
				if !bytes.Equal(bad, c) {
					r.Decrypt(bad)
				}
			}
			if g.Intn(3) > 0 {
				rrRecv(t, r, c, m, "in order")
			}
		}
	}
}

func min23(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Messages before the key exchange is complete.
func TestReplayC23Half(t *testing.T) {
	g := mrand.New(mrand.NewSource(24))
	a0, b0, ka, kb := rrHalf(t)
	for n := 0; n < 16; n++ {
		ca, cb := *a0, *b0
		a, b := &ca, &cb
		junk := make([]byte, 70*n)
		g.Read(junk)
		if n%3 == 0 {
			b.Decrypt(junk)
		}
		x := *kb
		switch n % 8 {
		case 0:
			x.Public = nil
		case 1:
			x.Cipher = KeyExchange{}.Cipher
		case 2:
			x.Public = junk
		case 3:
			g.Read(x.Cipher[:])
		case 4:
			x = KeyExchange{}
		case 5:
			x.Public = append(append([]byte(nil), x.Public...), 1)
		case 6:
			x.Cipher[n] ^= 1
		case 7:
			if len(x.Public) > 0 {
				x.Public = x.Public[:len(x.Public)-1]
			}
		}
		// once it is complete its keys are gone
		if a.CompleteKeyExchange(&x, n%2 == 0) != nil {
			a.CompleteKeyExchange(kb, n%2 == 0)
		}
		b.CompleteKeyExchange(ka, n%2 != 0)
		a.Decrypt(junk)
	}
}

func TestReplayC23Stored(t *testing.T) {
	g := mrand.New(mrand.NewSource(25))
	a, b := rrPair(t)
	for i := 0; i < 5; i++ {
		rrSend(t, a, nil)
		m := rrMsg(g)
		rrRecv(t, b, rrSend(t, a, m), m, "in order")
	}
	c := rrSend(t, a, []byte("x"))
	cut := func(p *[]byte) {
		switch g.Intn(4) {
		case 0:
			*p = nil
		case 1:
			if len(*p) > 0 {
				*p = (*p)[:g.Intn(len(*p))]
			}
		case 2:
			*p = append(append([]byte(nil), *p...), 7)
		case 3:
			*p = make([]byte, g.Intn(40))
		}
	}
	for n := 0; n < 2000; n++ {
		s := rrState(b)
		f := []*[]byte{&s.RootKey, &s.SendHeaderKey, &s.RecvHeaderKey, &s.NextSendHeaderKey, &s.NextRecvHeaderKey,
			&s.SendChainKey, &s.RecvChainKey, &s.SendRatchetPrivate, &s.RecvRatchetPublic, &s.Private, &s.MyHalf, &s.TheirHalf}
		for i := range s.SavedKeys {
			f = append(f, &s.SavedKeys[i].HeaderKey)
			for j := range s.SavedKeys[i].MessageKeys {
				f = append(f, &s.SavedKeys[i].MessageKeys[j].Key)
			}
		}
		for k := 1 + g.Intn(2); k > 0; k-- {
			cut(f[g.Intn(len(f))])
		}
		if n%9 == 0 {
			s.SavedKeys = append(s.SavedKeys, disk.RatchetState_SavedKeys{})
		}
		r := New(b.rand)
		if r.Unmarshal(s) == nil {
			r.MyPrivateKey, r.MySigningPublic, r.TheirIdentityPublic = b.MyPrivateKey, b.MySigningPublic, b.TheirIdentityPublic
			r.TheirSigningPublic, r.TheirPublicKey = b.TheirSigningPublic, b.TheirPublicKey
			r.Decrypt(c)
			r.Encrypt(nil, []byte("y"))
			rrState(r)
		}
	}
}

// A peer seals a ratchet key of another length.
func TestReplayC23Point(t *testing.T) {
	a, _, _, _ := rrHalf(t)
	pub := new([sntrup4591761.PublicKeySize]byte)
	copy(pub[:], a.MyPrivateKey[len(a.MyPrivateKey)-len(pub):])
	c, k, err := sntrup4591761.Encapsulate(rand.Reader, pub)
	if err != nil {
		t.Fatal(err)
	}
	key, salt, err := blobshare.NewKey(k[:])
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []int{0, 1, 31, 33, 64} {
		e, nonce, err := blobshare.Encrypt(make([]byte, n), key)
		if err != nil {
			t.Fatal(err)
		}
		kx := &KeyExchange{Public: blobshare.PackSaltNonce(salt, nonce, e)}
		copy(kx.Cipher[:], c[:])
		for _, alice := range []bool{true, false} {
			if x := *a; x.CompleteKeyExchange(kx, alice) == nil {
				break
			}
		}
	}
}
