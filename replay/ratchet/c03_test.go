package ratchet

import (
	mrand "math/rand"
	"testing"
)

// an accepted ciphertext is never accepted again.
func TestReplayC03(t *testing.T) {
	for seed := int64(0); seed < 4; seed++ {
		g := mrand.New(mrand.NewSource(seed))
		a, b := rrPair(t)
		type rec struct {
			r *Ratchet
			c []byte
		}
		var old []rec
		type late struct {
			r    *Ratchet
			c, m []byte
		}
		var held []late
		for i := 0; i < 150; i++ {
			s, r := a, b
			if g.Intn(2) == 0 {
				s, r = b, a
			}
			for k := g.Intn(3); k > 0; k-- {
				m := rrMsg(g)
				held = append(held, late{r, rrSend(t, s, m), m})
			}
			m := rrMsg(g)
			c := rrSend(t, s, m)
			rrRecv(t, r, c, m, "in order")
			old = append(old, rec{r, c})
			if len(held) > 0 && g.Intn(2) == 0 {
				h := held[g.Intn(len(held))]
				if _, err := h.r.Decrypt(h.c); err == nil {
					old = append(old, rec{h.r, h.c})
				}
			}
			for j := len(old) - 1; j >= 0; j-- {
				if j < len(old)-12 && g.Intn(8) > 0 {
					continue
				}
				if p, err := old[j].r.Decrypt(old[j].c); err == nil {
					t.Fatalf("step %d: message %d accepted again: %x", i, j, p)
				}
			}
		}
	}
}

// the message numbers do not wrap.
func TestReplayC03Wrap(t *testing.T) {
	a, b := rrPair(t)
	c0 := rrSend(t, a, []byte("zero"))
	rrRecv(t, b, c0, []byte("zero"), "first")
	sa, sb := rrState(a), rrState(b)
	sa.SendCount, sb.RecvCount = 1<<32-3, 1<<32-3
	a, b = rrFrom(t, sa, a.rand), rrFrom(t, sb, b.rand)
	var cs [][]byte
	for i := 0; i < 6; i++ {
		c, err := a.Encrypt(nil, []byte{byte(i)})
		if err != nil {
			break
		}
		cs = append(cs, c)
		if _, err := b.Decrypt(c); err != nil {
			break
		}
		for j := range cs {
			if _, err := b.Decrypt(cs[j]); err == nil {
				t.Fatalf("message %d accepted again", j)
			}
		}
	}
}
