package ratchet

import (
	mrand "math/rand"
	"testing"
)

func TestReplayC04(t *testing.T) {
	g := mrand.New(mrand.NewSource(3))
	for _, gap := range []int{0, 1, 2, 3, 17, 40, 79, maxMissingMessages} {
		for step := 0; step < 4; step++ {
			if gap == 17 || gap == 2 || gap == 40 {
				continue
			}
			a, b := rrPair(t)
			var held, hm [][]byte
			skip := func(n int) {
				for k := 0; k < n; k++ {
					m := rrMsg(g)
					held = append(held, rrSend(t, a, m))
					hm = append(hm, m)
				}
			}
			ping := func(s, r *Ratchet, what string) {
				m := rrMsg(g)
				rrRecv(t, r, rrSend(t, s, m), m, what)
			}
			if step >= 1 {
				ping(a, b, "first")
			}
			skip(gap)
			if step >= 2 {
				// the skipped ones belong to the previous step
				if step == 3 {
					ping(a, b, "last of the step")
				}
				ping(b, a, "reply")
				ping(a, b, "new step")
				skip(gap)
			}
			ping(a, b, "after the gap")
			for _, i := range g.Perm(len(held)) {
				rrRecv(t, b, held[i], hm[i], "late")
				if g.Intn(5) == 0 {
					ping(a, b, "between")
				}
			}
			ping(b, a, "reply")
			ping(a, b, "end")
		}
	}
}

func TestReplayC04Limit(t *testing.T) {
	for _, gap := range []int{maxMissingMessages + 1, maxMissingMessages + 2, 300} {
		for step := 0; step < 3; step++ {
			a, b := rrPair(t)
			rrRecv(t, b, rrSend(t, a, []byte("x")), []byte("x"), "first")
			if step == 1 {
				rrRecv(t, a, rrSend(t, b, []byte("x")), []byte("x"), "reply")
			}
			for k := 0; k < gap; k++ {
				rrSend(t, a, []byte("lost"))
			}
			if step == 2 {
				rrRecv(t, a, rrSend(t, b, []byte("x")), []byte("x"), "reply")
			}
			if _, err := b.Decrypt(rrSend(t, a, []byte("y"))); err == nil {
				t.Fatalf("gap %d step %d accepted", gap, step)
			}
		}
	}
}

// a number from the past without a stored key, and the largest number.
func TestReplayC04Counters(t *testing.T) {
	for _, base := range []uint32{1 << 31, 1<<31 - 1, 1<<32 - 90, 1<<32 - 5} {
		a, b := rrPair(t)
		rrRecv(t, b, rrSend(t, a, []byte("x")), []byte("x"), "first")
		sa, sb := rrState(a), rrState(b)
		sa.SendCount, sb.RecvCount = base, base
		a, b = rrFrom(t, sa, a.rand), rrFrom(t, sb, b.rand)
		h := rrSend(t, a, []byte("h"))
		rrRecv(t, b, rrSend(t, a, []byte("y")), []byte("y"), "large counter")
		rrRecv(t, b, h, []byte("h"), "late, large counter")
		if _, err := b.Decrypt(h); err == nil {
			t.Fatal("accepted twice")
		}
	}
	a, b := rrPair(t)
	rrRecv(t, b, rrSend(t, a, []byte("x")), []byte("x"), "first")
	sa, sb := rrState(a), rrState(b)
	for _, num := range []uint32{0, 1, 50, 99, 100 + maxMissingMessages + 1, 1 << 31, 1<<32 - 1, 1<<32 - 2} {
		sa.SendCount, sb.RecvCount = num, 100
		a, b := rrFrom(t, sa, a.rand), rrFrom(t, sb, b.rand)
		if _, err := b.Decrypt(rrSend(t, a, []byte("y"))); err == nil {
			t.Fatalf("number %d accepted with receive count 100", num)
		}
	}
	sa.SendCount, sb.RecvCount = 1<<32-1, 1<<32-10
	a, b = rrFrom(t, sa, a.rand), rrFrom(t, sb, b.rand)
	b.Decrypt(rrSend(t, a, []byte("y")))
	if s := rrState(b); s.RecvCount < 1<<32-10 {
		t.Fatal("the receive count wrapped")
	}
}

// several gaps in one step.
func TestReplayC04Gaps(t *testing.T) {
	for _, gaps := range [][]int{{50, 50}, {1, 80}, {80, 80, 80}, {3, 1, 2}} {
		a, b := rrPair(t)
		var held [][]byte
		for _, n := range gaps {
			for i := 0; i < n; i++ {
				held = append(held, rrSend(t, a, []byte{byte(i)}))
			}
			rrRecv(t, b, rrSend(t, a, []byte("x")), []byte("x"), "after a gap")
		}
		rrRecv(t, a, rrSend(t, b, []byte("x")), []byte("x"), "reply")
		rrRecv(t, b, rrSend(t, a, []byte("x")), []byte("x"), "new step")
		j := 0
		for _, n := range gaps {
			for i := 0; i < n; i++ {
				rrRecv(t, b, held[j], []byte{byte(i)}, "late")
				j++
			}
		}
	}
}
