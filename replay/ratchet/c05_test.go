package ratchet

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	mrand "math/rand"
	"strings"
	"testing"

	"fmt"

	"github.com/companyzero/zkc/ratchet/disk"
)

func rrHas(s *disk.RatchetState, k []byte) bool {
	d := rrDump(s)
	return strings.Contains(d, fmt.Sprintf("%+v", k))
}

func rrDerive(k []byte, label string) []byte {
	h := hmac.New(sha256.New, k)
	h.Write([]byte(label))
	return h.Sum(nil)
}

func TestReplayC05(t *testing.T) {
	g := mrand.New(mrand.NewSource(5))
	a, b := rrPair(t)
	zero := make([]byte, 32)
	sendKeys := map[string]bool{}
	for i := 0; i < 200; i++ {
		s, r := a, b
		if g.Intn(2) == 0 {
			s, r = b, a
		}
		type hm struct{ c, m []byte }
		var held []hm
		for k := g.Intn(4); k > 0; k-- {
			m := rrMsg(g)
			held = append(held, hm{rrSend(t, s, m), m})
		}
		before := rrState(s)
		m := rrMsg(g)
		c := rrSend(t, s, m)
		after := rrState(s)
		if bytes.Equal(before.SendChainKey, after.SendChainKey) {
			t.Fatal("the sending chain key was not advanced")
		}
		if before.Ratchet && (bytes.Equal(before.SendRatchetPrivate, after.SendRatchetPrivate) || bytes.Equal(after.SendRatchetPrivate, zero)) {
			t.Fatal("a new direction without a new private value")
		}
		if !before.Ratchet && !bytes.Equal(after.SendChainKey, rrDerive(before.SendChainKey, "chain key step")) {
			t.Fatal("the sending chain key is not the next of the chain")
		}
		for _, k := range [][]byte{before.SendChainKey, rrDerive(before.SendChainKey, "message key")} {
			if !bytes.Equal(k, zero) && rrHas(after, k) {
				t.Fatal("a used key remains in the sender's state")
			}
		}
		if sendKeys[string(before.SendChainKey)] && !before.Ratchet {
			t.Fatal("chain key used twice")
		}
		if !before.Ratchet {
			sendKeys[string(before.SendChainKey)] = true
		}
		rb := rrState(r)
		rrRecv(t, r, c, m, "in order")
		ra := rrState(r)
		if !bytes.Equal(rb.RecvChainKey, zero) && rrHas(ra, rb.RecvChainKey) {
			t.Fatal("the old receiving chain key remains")
		}
		if !rb.Ratchet && ra.Ratchet && !bytes.Equal(ra.SendRatchetPrivate, zero) {
			t.Fatal("the used private value remains after the step")
		}
		if !rb.Ratchet && ra.Ratchet && rrHas(ra, rb.RootKey) {
			t.Fatal("the old root key remains after the step")
		}
		cur := append([]byte(nil), before.SendChainKey...)
		if !before.Ratchet && rrHas(ra, rrDerive(cur, "message key")) {
			t.Fatal("the received message's key remains")
		}
		for _, h := range held {
			pre := rrState(r)
			rrRecv(t, r, h.c, h.m, "late")
			post := rrState(r)
			n := func(s *disk.RatchetState) (n int) {
				for _, x := range s.SavedKeys {
					n += len(x.MessageKeys)
				}
				return
			}
			if n(post) != n(pre)-1 {
				t.Fatal("a used skipped key was not erased")
			}
		}
	}
}
