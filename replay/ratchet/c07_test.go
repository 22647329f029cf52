package ratchet

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/companyzero/zkc/blobshare"
)

func TestReplayC07(t *testing.T) {
	for i := 0; i < 3; i++ {
		a, b := rrPair(t)
		sa, sb := rrState(a), rrState(b)
		if !bytes.Equal(sa.RootKey, sb.RootKey) || !bytes.Equal(sa.SendHeaderKey, sb.RecvHeaderKey) || !bytes.Equal(sa.SendChainKey, sb.RecvChainKey) ||
			!bytes.Equal(sa.NextSendHeaderKey, sb.NextRecvHeaderKey) || !bytes.Equal(sa.NextRecvHeaderKey, sb.NextSendHeaderKey) {
			t.Fatal("states are not mirrored")
		}
		if sa.Ratchet == sb.Ratchet || len(sa.Private) != 0 || len(sb.Private) != 0 {
			t.Fatal("flags after the exchange")
		}
		rrRecv(t, b, rrSend(t, a, []byte("1")), []byte("1"), "first")
		rrRecv(t, a, rrSend(t, b, []byte("2")), []byte("2"), "second")
		a, b = rrPair(t)
		rrRecv(t, a, rrSend(t, b, []byte("2")), []byte("2"), "alice first")
		rrRecv(t, b, rrSend(t, a, []byte("1")), []byte("1"), "second")
	}
}

func rrPoint(n *big.Int) []byte {
	var p [32]byte
	b := n.Bytes()
	for i := range b {
		p[i] = b[len(b)-1-i]
	}
	return p[:]
}

func TestReplayC07Points(t *testing.T) {
	two := big.NewInt(2)
	p := new(big.Int).Sub(new(big.Int).Exp(two, big.NewInt(255), nil), big.NewInt(19))
	bad := [][]byte{}
	for _, d := range []int64{0, 1, 2} {
		bad = append(bad, rrPoint(big.NewInt(d)))
	}
	for d := int64(0); d < 19; d++ {
		bad = append(bad, rrPoint(new(big.Int).Add(p, big.NewInt(d))))
	}
	full := bytes.Repeat([]byte{0xff}, 32)
	bad = append(bad, full, []byte{}, make([]byte, 31), make([]byte, 33), bytes.Repeat([]byte{9}, 31), bytes.Repeat([]byte{9}, 33))
	send := func(pt []byte) error {
		a, b, _, _ := rrHalf(t)
		_ = b
		kx := new(KeyExchange)
		if err := b.FillKeyExchange(kx); err != nil {
			t.Fatal(err)
		}
		key, salt, err := blobshare.NewKey(b.MyHalf[:])
		if err != nil {
			t.Fatal(err)
		}
		enc, nonce, err := blobshare.Encrypt(pt, key)
		if err != nil {
			t.Fatal(err)
		}
		kx.Public = blobshare.PackSaltNonce(salt, nonce, enc)
		return a.CompleteKeyExchange(kx, true)
	}
	for _, x := range bad {
		if send(x) == nil {
			t.Fatalf("point %x accepted", x)
		}
	}
	for _, x := range [][]byte{rrPoint(big.NewInt(3)), rrPoint(big.NewInt(9)), rrPoint(new(big.Int).Sub(p, big.NewInt(1)))} {
		if err := send(x); err != nil {
			t.Fatalf("point %x refused: %v", x, err)
		}
	}
}

func TestReplayC07Hostile(t *testing.T) {
	a, b, ka, kb := rrHalf(t)
	_ = b
	for n := 0; n <= len(kb.Public); n++ {
		if n == len(kb.Public) || n%7 == 0 || n < 60 {
			x := *kb
			x.Public = kb.Public[:n]
			if n == len(kb.Public) {
				x.Public = append(append([]byte(nil), kb.Public...), 0)
			}
			if n > 56 && n%21 != 0 {
				continue
			}
			if a.CompleteKeyExchange(&x, false) == nil {
				t.Fatalf("truncated to %d accepted", n)
			}
		}
	}
	for _, n := range []int{0, 31, 32, 55, 56, len(kb.Public) - 1} {
		x := *kb
		x.Public = append([]byte(nil), kb.Public...)
		x.Public[n] ^= 1
		if a.CompleteKeyExchange(&x, false) == nil {
			t.Fatalf("altered at %d accepted", n)
		}
	}
	x := *kb
	x.Cipher[3] ^= 1
	if a.CompleteKeyExchange(&x, false) == nil {
		t.Fatal("altered cipher accepted")
	}
	if a.CompleteKeyExchange(ka, false) == nil {
		t.Fatal("reflected accepted")
	}
	if err := a.CompleteKeyExchange(kb, false); err != nil {
		t.Fatal(err)
	}
}
