package main

import (
	"bytes"
	"crypto/rand"
	"fmt"
	mrand "math/rand"
	"strings"
	"testing"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/rpc"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func zzCalm(*zzStorm, string) {}

func TestReplayC23Peers(t *testing.T) {
	s := zzNewStorm(t, 1, zzCalm)
	s.peersMessages(600)
	s.garbledPushes(150)
}

func TestReplayC23Server(t *testing.T) {
	zzNewStorm(t, 6, zzCalm).serverMessages(40, 40)
}

func TestReplayC23Commands(t *testing.T) {
	zzNewStorm(t, 2, zzCalm).commands(600)
}

func TestReplayC23Files(t *testing.T) {
	zzNewStorm(t, 3, zzCalm).files(6)
}

func TestReplayC23Failing(t *testing.T) {
	zzNewStorm(t, 4, zzCalm).failing(20)
}

// TestReplayC23Text: text that peers send is drawn.
func TestReplayC23Text(t *testing.T) {
	zzScreen(t)
	a, b := zzClient(t, "ann"), zzClient(t, "bob")
	zzMeet(t, a, b)
	g := mrand.New(mrand.NewSource(5))
	parts := []string{"\x1b[", "\x1b", "m", "\n", "1;31", "0", "\xff", "\xc3", "é", "世", "\t", "\r", "\x00", ";", "99999999999999999999", "-1", " ", "word", strings.Repeat("w", 90), "\x1b[1;31;40m", "\x1b[0m", "%v", "%!"}
	for i := 0; i < 1000; i++ {
		s := ""
		for j := g.Intn(12); j >= 0; j-- {
			s += parts[g.Intn(len(parts))]
		}
		zzTrap(t, "a message of a peer", func() {
			b.handlePm(rpc.Message{}, rpc.Push{From: a.id.Public.Identity}, rpc.PrivateMessage{Text: s})
		})
		if i%50 == 0 {
			zzDrawn()
		}
	}
	zzDrawn()
	b.focus(1)
	zzDrawn()
}

// Strangers send parts of a key exchange, with a server that has a directory and without.
func TestReplayC23Strangers(t *testing.T) {
	me := zzClient(t, "me")
	send := func(b []byte) {
		for _, dir := range []bool{true, false} {
			me.directory = dir
			var p rpc.Push
			p.From[0] = 7
			p.Payload = b
			zzTrap(t, fmt.Sprintf("%v bytes of a stranger, with directory: %v", len(b), dir), func() {
				me.handlePush(rpc.Message{Command: rpc.TaggedCmdPush}, p)
				zzSent(me)
				zzDrawn()
			})
		}
	}
	send(nil)
	for i := 0; i < 1500; i++ {
		c, k, err := sntrup4591761.Encapsulate(rand.Reader, &me.id.Public.Key)
		if err != nil {
			t.Fatal(err)
		}
		b := c[:]
		for len(b) > 0 && b[len(b)-1] == 0 {
			b = b[:len(b)-1] // reads as the same ciphertext
			send(b)
		}
		if i < 60 {
			send(append(c[:], make([]byte, i)...))
			send(c[:len(c)*i/60])
			for _, x := range []interface{}{rpc.IdentityKX{Identity: me.id.Public}, rpc.KX{}, rpc.IdentityKX{}, i} {
				var bb bytes.Buffer
				xdr.Marshal(&bb, x)
				y := bb.Bytes()
				if i%2 == 1 {
					y = y[:len(y)*i/60]
				}
				if e, nonce, err := blobshare.Encrypt(y, k); err == nil {
					send(append(c[:], blobshare.PackNonce(nonce, e)...))
				}
			}
		}
	}
}
