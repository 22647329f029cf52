package ratchet

import (
	mrand "math/rand"
	"testing"
)

// every rejected ciphertext leaves the state alone.
func TestReplayC02(t *testing.T) {
	g := mrand.New(mrand.NewSource(1))
	a, b := rrPair(t)
	try := func(r *Ratchet, c []byte, what string) {
		before := rrDump(rrState(r))
		_, err := r.Decrypt(c)
		if err == nil {
			t.Fatalf("%s: accepted", what)
		}
		if after := rrDump(rrState(r)); after != before {
			t.Fatalf("%s: state changed by a rejected message (%v)\nbefore %v\nafter  %v", what, err, before, after)
		}
	}
	for i := 0; i < 60; i++ {
		s, r := a, b
		if g.Intn(2) == 0 {
			s, r = b, a
		}
		var held [][]byte
		var hm [][]byte
		for k := g.Intn(4); k > 0; k-- {
			m := rrMsg(g)
			held = append(held, rrSend(t, s, m))
			hm = append(hm, m)
		}
		m := rrMsg(g)
		c := rrSend(t, s, m)
		attack := func(c []byte, what string) {
			for n := 0; n < len(c); n += 1 + g.Intn(25) {
				try(r, c[:n], what+" truncated")
			}
			for n := 0; n < len(c); n += 1 + g.Intn(15) {
				x := append([]byte(nil), c...)
				x[n] ^= 1 << uint(g.Intn(8))
				try(r, x, what+" altered")
			}
			try(r, append(append([]byte(nil), c...), 0), what+" extended")
			x := make([]byte, len(c))
			g.Read(x)
			try(r, x, "random")
			try(r, nil, "empty")
			try(s, c, what+" reflected")
		}
		attack(c, "new message")
		rrRecv(t, r, c, m, "in order")
		for j, h := range held {
			attack(h, "held message")
			if g.Intn(3) > 0 {
				rrRecv(t, r, h, hm[j], "late")
				try(r, h, "replayed")
			}
		}
		if i%10 == 9 {
			// too many skipped, then one that would be the 81st.
			s, r := a, b
			rrRecv(t, r, rrSend(t, s, m), m, "sync")
			for k := 0; k < maxMissingMessages+1; k++ {
				rrSend(t, s, nil)
			}
			try(r, rrSend(t, s, m), "beyond the limit")
			a, b = rrPair(t)
		}
	}
	// a new step after losses at the end of the old one.
	for lost := 0; lost < 4; lost++ {
		a, b := rrPair(t)
		rrRecv(t, b, rrSend(t, a, []byte("1")), []byte("1"), "")
		for k := 0; k < lost; k++ {
			rrSend(t, a, nil)
		}
		rrRecv(t, a, rrSend(t, b, []byte("2")), []byte("2"), "")
		for k := 0; k < lost; k++ {
			rrSend(t, a, nil)
		}
		c := rrSend(t, a, []byte("3"))
		for n := 0; n < len(c); n++ {
			x := append([]byte(nil), c...)
			x[n] ^= 4
			try(b, x, "new step, altered")
			try(b, c[:n], "new step, truncated")
		}
		rrRecv(t, b, c, []byte("3"), "new step")
	}
	// a new step with too many lost in the old one.
	a, b = rrPair(t)
	rrRecv(t, b, rrSend(t, a, []byte("1")), []byte("1"), "")
	for k := 0; k < maxMissingMessages+1; k++ {
		rrSend(t, a, nil)
	}
	rrRecv(t, a, rrSend(t, b, []byte("2")), []byte("2"), "")
	try(b, rrSend(t, a, []byte("3")), "new step, beyond the limit in the old one")
}
