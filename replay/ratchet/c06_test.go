package ratchet

import (
	mrand "math/rand"
	"testing"
	"time"

	"github.com/companyzero/zkc/ratchet/disk"
)

func TestReplayC06(t *testing.T) {
	g := mrand.New(mrand.NewSource(6))
	a, b := rrPair(t)
	type hm struct {
		r    **Ratchet
		c, m []byte
	}
	var held []hm
	for i := 0; i < 200; i++ {
		s, r := &a, &b
		if g.Intn(2) == 0 {
			s, r = &b, &a
		}
		for k := g.Intn(4); k > 0; k-- {
			m := rrMsg(g)
			held = append(held, hm{r, rrSend(t, *s, m), m})
		}
		m := rrMsg(g)
		rrRecv(t, *r, rrSend(t, *s, m), m, "in order")
		for _, x := range []**Ratchet{&a, &b} {
			st := rrState(*x)
			n := rrFrom(t, st, (*x).rand)
			n2 := rrState(n)
			if rrDump(n2) != rrDump(st) {
				t.Fatalf("reloaded state differs\n%v\n%v", rrDump(st), rrDump(n2))
			}
			if g.Intn(2) == 0 {
				*x = n
			}
		}
		if len(held) > 0 && g.Intn(2) == 0 {
			j := g.Intn(len(held))
			h := held[j]
			held = append(held[:j], held[j+1:]...)
			rrRecv(t, *h.r, h.c, h.m, "late, after reload")
		}
	}
}

// half finished key exchange, lifetimes, refused lengths.
func TestReplayC06Half(t *testing.T) {
	a, b, ka, kb := rrHalf(t)
	a2, b2 := rrFrom(t, rrState(a), a.rand), rrFrom(t, rrState(b), b.rand)
	a2.MyPrivateKey, b2.MyPrivateKey = a.MyPrivateKey, b.MyPrivateKey
	if err := a2.CompleteKeyExchange(kb, false); err != nil {
		t.Fatal(err)
	}
	if err := b2.CompleteKeyExchange(ka, true); err != nil {
		t.Fatal(err)
	}
	rrRecv(t, b2, rrSend(t, a2, []byte("x")), []byte("x"), "after reload")
	rrRecv(t, a2, rrSend(t, b2, []byte("x")), []byte("x"), "after reload")
}

func TestReplayC06Lifetime(t *testing.T) {
	a, b := rrPair(t)
	now := time.Unix(1000000, 0)
	b.Now = func() time.Time { return now }
	old := rrSend(t, a, []byte("old"))
	rrRecv(t, b, rrSend(t, a, nil), nil, "")
	now = now.Add(time.Hour)
	young := rrSend(t, a, []byte("young"))
	rrRecv(t, b, rrSend(t, a, nil), nil, "")
	for _, c := range []struct {
		life       time.Duration
		old, young bool
	}{{2 * time.Hour, true, true}, {time.Hour, true, true}, {time.Hour - 1, false, true}, {0, false, true}} {
		n := rrFrom(t, b.Marshal(now, c.life), b.rand)
		_, e1 := n.Decrypt(old)
		_, e2 := n.Decrypt(young)
		if (e1 == nil) != c.old || (e2 == nil) != c.young {
			t.Fatalf("lifetime %v: old %v young %v", c.life, e1, e2)
		}
	}
}

func TestReplayC06Strict(t *testing.T) {
	a, b := rrPair(t)
	rrSend(t, a, nil)
	rrRecv(t, b, rrSend(t, a, nil), nil, "")
	fields := func(s *disk.RatchetState) []*[]byte {
		f := []*[]byte{&s.RootKey, &s.SendHeaderKey, &s.RecvHeaderKey, &s.NextSendHeaderKey, &s.NextRecvHeaderKey, &s.SendChainKey, &s.RecvChainKey, &s.SendRatchetPrivate, &s.RecvRatchetPublic, &s.Private, &s.MyHalf, &s.TheirHalf}
		for i := range s.SavedKeys {
			f = append(f, &s.SavedKeys[i].HeaderKey)
			for j := range s.SavedKeys[i].MessageKeys {
				f = append(f, &s.SavedKeys[i].MessageKeys[j].Key)
			}
		}
		return f
	}
	for i := range fields(rrState(b)) {
		for _, n := range []int{1, 31, 33, 64} {
			s := rrState(b)
			*fields(s)[i] = make([]byte, n)
			if err := New(b.rand).Unmarshal(s); err == nil {
				t.Fatalf("field %d with %d bytes accepted", i, n)
			}
		}
	}
}

// saving and loading several times does not change the age of stored keys.
func TestReplayC06Age(t *testing.T) {
	a, b := rrPair(t)
	now := time.Unix(1000000, 0)
	b.Now = func() time.Time { return now }
	old := rrSend(t, a, []byte("old"))
	rrRecv(t, b, rrSend(t, a, nil), nil, "")
	for i := 0; i < 3; i++ {
		n := New(b.rand)
		if err := n.Unmarshal(b.Marshal(now.Add(time.Duration(i)*40*time.Minute), time.Hour)); err != nil {
			t.Fatal(err)
		}
		b = n
		if i == 1 {
			c := rrFrom(t, b.Marshal(now, 2*time.Hour), b.rand)
			rrRecv(t, c, old, []byte("old"), "within its lifetime")
		}
	}
	if _, err := b.Decrypt(old); err == nil {
		t.Fatal("a key older than its lifetime survived")
	}
}
