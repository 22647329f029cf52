package ratchet

import (
	mrand "math/rand"
	"testing"
)

// in-order conversations, with and without ratchet steps.
func TestReplayC01(t *testing.T) {
	for seed := int64(0); seed < 4; seed++ {
		g := mrand.New(mrand.NewSource(seed))
		a, b := rrPair(t)
		for i := 0; i < 400; i++ {
			m := rrMsg(g)
			if g.Intn(2) == 0 {
				rrRecv(t, b, rrSend(t, a, m), m, "in order a->b")
			} else {
				rrRecv(t, a, rrSend(t, b, m), m, "in order b->a")
			}
		}
		// losses within the limit must not break the conversation.
		for i := 0; i < 60; i++ {
			s, r := a, b
			if g.Intn(2) == 0 {
				s, r = b, a
			}
			for k := g.Intn(5) * g.Intn(17); k > 0; k-- {
				rrSend(t, s, rrMsg(g))
			}
			m := rrMsg(g)
			rrRecv(t, r, rrSend(t, s, m), m, "after losses")
			m = rrMsg(g)
			rrRecv(t, s, rrSend(t, r, m), m, "reply after losses")
		}
	}
}

func TestReplayC01Append(t *testing.T) {
	a, b := rrPair(t)
	pre := []byte("prefix")
	c, err := a.Encrypt(pre, []byte("x"))
	if err != nil || string(c[:6]) != "prefix" {
		t.Fatal("Encrypt does not append")
	}
	rrRecv(t, b, c[6:], []byte("x"), "append")
}

// one side speaks for longer than any narrow counter lasts.
func TestReplayC01Long(t *testing.T) {
	a, b := rrPair(t)
	for i := 0; i < 66000; i++ {
		m := []byte{byte(i), byte(i >> 8), byte(i >> 16)}
		rrRecv(t, b, rrSend(t, a, m), m, "long speech")
	}
	for i := 0; i < 4; i++ {
		m := []byte{1, byte(i)}
		rrRecv(t, a, rrSend(t, b, m), m, "reply after a long speech")
		m = []byte{2, byte(i)}
		rrRecv(t, b, rrSend(t, a, m), m, "after a long speech")
	}
}
