package ratchet

// Helpers of the replay drivers: concrete histories run on the real code when
// an obligation fails, to find a failing input.

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"fmt"
	"io"
	mrand "math/rand"
	"sort"
	"testing"
	"time"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/ratchet/disk"
	"golang.org/x/crypto/ed25519"
)

type rrClient struct {
	priv *[sntrup4591761.PrivateKeySize]byte
	pub  *[sntrup4591761.PublicKeySize]byte
	sig  *[ed25519.PublicKeySize]byte
	id   *[sha256.Size]byte
}

func rrNewClient(t *testing.T) *rrClient {
	pub, priv, err := sntrup4591761.GenerateKey(rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	c := &rrClient{priv: priv, pub: pub, sig: new([32]byte), id: new([32]byte)}
	rand.Read(c.sig[:])
	*c.id = sha256.Sum256(c.sig[:])
	return c
}

func rrSetup(r *Ratchet, me, them *rrClient) {
	r.MyPrivateKey = me.priv
	r.MySigningPublic = me.sig
	r.TheirIdentityPublic = them.id
	r.TheirSigningPublic = them.sig
	r.TheirPublicKey = them.pub
}

func rrHalf(t *testing.T) (a, b *Ratchet, ka, kb *KeyExchange) {
	ca, cb := rrNewClient(t), rrNewClient(t)
	a, b = New(rand.Reader), New(rand.Reader)
	rrSetup(a, ca, cb)
	rrSetup(b, cb, ca)
	ka, kb = new(KeyExchange), new(KeyExchange)
	if err := a.FillKeyExchange(ka); err != nil {
		t.Fatal(err)
	}
	if err := b.FillKeyExchange(kb); err != nil {
		t.Fatal(err)
	}
	return
}

var rrA, rrB *disk.RatchetState

func rrPair(t *testing.T) (a, b *Ratchet) {
	a, b, ka, kb := rrHalf(t)
	if err := a.CompleteKeyExchange(kb, false); err != nil {
		t.Fatal(err)
	}
	if err := b.CompleteKeyExchange(ka, true); err != nil {
		t.Fatal(err)
	}
	return
}

// rrState is the observable state of a ratchet, skipped keys sorted.
func rrState(r *Ratchet) *disk.RatchetState {
	s := r.Marshal(time.Unix(0, 0), 1<<62)
	rrSort(s)
	return s
}

func rrSort(s *disk.RatchetState) {
	for i := range s.SavedKeys {
		m := s.SavedKeys[i].MessageKeys
		sort.Slice(m, func(x, y int) bool { return m[x].Num < m[y].Num })
	}
	sort.Slice(s.SavedKeys, func(x, y int) bool {
		return bytes.Compare(s.SavedKeys[x].HeaderKey, s.SavedKeys[y].HeaderKey) < 0
	})
}

func rrDump(s *disk.RatchetState) string { return fmt.Sprintf("%+v", *s) }

// rrFrom rebuilds a ratchet from a state.
func rrFrom(t *testing.T, s *disk.RatchetState, rnd io.Reader) *Ratchet {
	r := New(rnd)
	if err := r.Unmarshal(s); err != nil {
		t.Fatal(err)
	}
	return r
}

func rrMsg(g *mrand.Rand) []byte {
	n := g.Intn(60)
	if g.Intn(4) == 0 {
		n = 0
	}
	m := make([]byte, n)
	g.Read(m)
	return m
}

type rrLink struct {
	from, to *Ratchet
	sent     [][2][]byte // ciphertext, plaintext
	done     []bool
}

func rrSend(t *testing.T, r *Ratchet, m []byte) []byte {
	c, err := r.Encrypt(nil, m)
	if err != nil {
		t.Fatalf("encrypt: %v", err)
	}
	return c
}

func rrRecv(t *testing.T, r *Ratchet, c, want []byte, what string) {
	m, err := r.Decrypt(c)
	if err != nil {
		t.Fatalf("%s: decrypt: %v", what, err)
	}
	if !bytes.Equal(m, want) {
		t.Fatalf("%s: got %x want %x", what, m, want)
	}
}
