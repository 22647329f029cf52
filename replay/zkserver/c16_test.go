package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strconv"
	"testing"
	"time"

	"github.com/companyzero/zkc/rpc"
)

func TestReplayC16Replies(t *testing.T) {
	z, _ := zzUsers(t, 2)
	c := zzLogin(t, z, 1)
	depth := ""
	for _, p := range c.wel.Properties {
		if p.Key == rpc.PropTagDepth {
			depth = p.Value
		}
	}
	if depth != strconv.Itoa(tagDepth) {
		t.Fatalf("tag depth announced as %q, enforced is %d", depth, tagDepth)
	}
	to := zzIdentity(t, 2).Public.Identity
	for round := 0; round < 3; round++ {
		for tag := uint32(0); tag < tagDepth; tag++ {
			var (
				pong rpc.Pong
				rr   rpc.RendezvousReply
				pr   rpc.RendezvousPullReply
				ack  rpc.Acknowledge
				px   rpc.ProxyReply
				fr   rpc.IdentityFindReply
			)
			c.ask(rpc.TaggedCmdPing, tag, rpc.Ping{}, rpc.TaggedCmdPong, &pong)
			c.ask(rpc.TaggedCmdRendezvous, tag, rpc.Rendezvous{Blob: []byte{byte(tag)}, Expiration: "1"}, rpc.TaggedCmdRendezvousReply, &rr)
			c.ask(rpc.TaggedCmdRendezvousPull, tag, rpc.RendezvousPull{Token: rr.Token}, rpc.TaggedCmdRendezvousPullReply, &pr)
			if rr.Error != "" || pr.Error != "" || !bytes.Equal(pr.Blob, []byte{byte(tag)}) {
				t.Fatalf("rendezvous: %v, %v", rr, pr)
			}
			c.ask(rpc.TaggedCmdRendezvousPull, tag, rpc.RendezvousPull{Token: "no"}, rpc.TaggedCmdRendezvousPullReply, &pr)
			c.ask(rpc.TaggedCmdCache, tag, rpc.Cache{To: to, Payload: []byte("x")}, rpc.TaggedCmdAcknowledge, &ack)
			c.ask(rpc.TaggedCmdCache, tag, rpc.Cache{To: [32]byte{9}, Payload: []byte("x")}, rpc.TaggedCmdAcknowledge, &ack)
			c.ask(rpc.TaggedCmdProxy, tag, rpc.Proxy{To: to, Payload: []byte("x")}, rpc.TaggedCmdProxyReply, &px)
			c.ask(rpc.TaggedCmdProxy, tag, rpc.Proxy{To: [32]byte{9}, Payload: []byte("x")}, rpc.TaggedCmdProxyReply, &px)
			c.ask(rpc.TaggedCmdIdentityFind, tag, rpc.IdentityFind{Nick: "nobody"}, rpc.TaggedCmdIdentityFindReply, &fr)
		}
	}
	// several requests at once
	for round := 0; round < 20; round++ {
		n := 1 + round%tagDepth
		for i := 0; i < n; i++ {
			if !c.send(rpc.TaggedCmdPing, uint32((i*7+round)%tagDepth), rpc.Ping{}) {
				t.Fatal("write")
			}
		}
		got := map[uint32]int{}
		for i := 0; i < n; i++ {
			if !c.recv(10*time.Second) || c.hdr.Command != rpc.TaggedCmdPong {
				t.Fatalf("%d of %d requests answered (%v)", i, n, c.hdr)
			}
			got[c.hdr.Tag]++
		}
		for i := 0; i < n; i++ {
			if got[uint32((i*7+round)%tagDepth)] != 1 {
				t.Fatalf("tags answered: %v", got)
			}
		}
	}
}

func TestReplayC16BadTag(t *testing.T) {
	z, d := zzUsers(t, 2)
	to := zzIdentity(t, 2).Public.Identity
	for _, tag := range []uint32{tagDepth, tagDepth + 1, 2 * tagDepth, 64, 255, 256, 1 << 16, 1 << 31, 0x7fffffff, 0xffffffff} {
		for i, cmd := range []string{rpc.TaggedCmdPing, rpc.TaggedCmdAcknowledge, rpc.TaggedCmdCache} {
			c := zzLogin(t, z, 1)
			var p interface{} = rpc.Ping{}
			if i == 2 {
				p = rpc.Cache{To: to, Payload: []byte("y")}
			}
			if i == 1 {
				p = rpc.Acknowledge{}
			}
			c.send(cmd, tag, p)
			if c.recv(10 * time.Second) {
				t.Fatalf("%v under tag %d was answered", cmd, tag)
			}
			if !c.ended() {
				t.Fatalf("%v under tag %d did not end the session", cmd, tag)
			}
			if len(zzBox(t, d, 2)) != 0 {
				t.Fatalf("a message under tag %d was delivered", tag)
			}
		}
	}
	zzLogin(t, z, 1)
}

// zzPushes reads announcements and acknowledges them in a random order.
func TestReplayC16Pushes(t *testing.T) {
	for _, n := range []int{1, 5, tagDepth, tagDepth + 1, 3 * tagDepth} {
		z, d := zzUsers(t, 3)
		me, other := zzIdentity(t, 1).Public.Identity, zzIdentity(t, 3).Public.Identity
		from := zzIdentity(t, 2).Public.Identity
		rnd := rand.New(rand.NewSource(int64(n)))
		name := map[string]string{} // by payload
		deliver := func(i int) {
			f, err := z.account.Deliver(me, from, []byte(fmt.Sprint("m", i)), i%2 == 0)
			if err != nil {
				t.Fatal(err)
			}
			name[fmt.Sprint("m", i)] = f[len(f)-len("20060102150405.000000000"):]
		}
		for i := 0; i < n/2; i++ {
			deliver(i)
		}
		if _, err := z.account.Deliver(other, from, []byte("other"), false); err != nil {
			t.Fatal(err)
		}
		c := zzLogin(t, z, 1)
		for i := n / 2; i < n; i++ {
			deliver(i)
		}
		out := map[uint32]string{}
		seen := map[string]bool{}
		left, again := n, false
		for left > 0 {
			for len(out) < left && len(out) < tagDepth {
				if !c.recv(10 * time.Second) {
					t.Fatalf("%d messages: %d outstanding, %d left, none announced", n, len(out), left)
				}
				if c.hdr.Command != rpc.TaggedCmdPush || c.hdr.Tag >= tagDepth {
					t.Fatalf("%v", c.hdr)
				}
				var p rpc.Push
				c.get(&p)
				if out[c.hdr.Tag] != "" {
					t.Fatalf("tag %d is outstanding and was used again", c.hdr.Tag)
				}
				if seen[string(p.Payload)] {
					t.Fatalf("%s announced twice", p.Payload)
				}
				seen[string(p.Payload)] = true
				out[c.hdr.Tag] = string(p.Payload)
			}
			if left > tagDepth && !again {
				if c.recv(200 * time.Millisecond) {
					t.Fatal("more announcements than tags")
				}
				// what is not acknowledged is announced again
				c.bye()
				c = zzLogin(t, z, 1)
				out, seen = map[uint32]string{}, map[string]bool{}
				again = true
				continue
			}
			// acknowledge a few
			k := 1 + rnd.Intn(len(out))
			for tag, p := range out {
				if k == 0 {
					break
				}
				k--
				before := zzBox(t, d, 1)
				c.send(rpc.TaggedCmdAcknowledge, tag, rpc.Acknowledge{})
				var after []string
				for i := 0; i < 1000; i++ {
					after = zzBox(t, d, 1)
					if len(after) < len(before) {
						break
					}
					time.Sleep(5 * time.Millisecond)
				}
				if len(after) != len(before)-1 {
					t.Fatalf("acknowledging %s deleted %d messages", p, len(before)-len(after))
				}
				for _, f := range after {
					if f == name[p] {
						t.Fatalf("acknowledging %s did not delete it", p)
					}
				}
				delete(out, tag)
				left--
			}
		}
		if l := zzBox(t, d, 1); len(l) != 0 {
			t.Fatalf("%d messages left", len(l))
		}
		if l := zzBox(t, d, 3); len(l) != 1 {
			t.Fatalf("%d messages of another identity left", len(l))
		}
		c.bye()
	}
}

// Acknowledging what is not outstanding.
func TestReplayC16BadAck(t *testing.T) {
	z, d := zzUsers(t, 2)
	me := zzIdentity(t, 1).Public.Identity
	for round := 0; round < 3; round++ {
		c := zzLogin(t, z, 1)
		c.send(rpc.TaggedCmdAcknowledge, 5, rpc.Acknowledge{})
		if !c.ended() {
			t.Fatal("acknowledging a tag that is not in use did not end the session")
		}
	}
	for i := 0; i < 4; i++ {
		if _, err := z.account.Deliver(me, me, []byte{byte(i)}, false); err != nil {
			t.Fatal(err)
		}
	}
	c := zzLogin(t, z, 1)
	var tags []uint32
	for i := 0; i < 4; i++ {
		if !c.recv(10 * time.Second) {
			t.Fatal("no announcement")
		}
		tags = append(tags, c.hdr.Tag)
	}
	c.send(rpc.TaggedCmdAcknowledge, tags[1], rpc.Acknowledge{})
	c.send(rpc.TaggedCmdAcknowledge, tags[1], rpc.Acknowledge{})
	if !c.ended() {
		t.Fatal("acknowledging a message twice did not end the session")
	}
	if l := zzBox(t, d, 1); len(l) != 3 {
		t.Fatalf("%d messages left, not 3", len(l))
	}
}

// The disk is slow while a message is acknowledged.
func TestReplayC16SlowDisk(t *testing.T) {
	z, d := zzUsers(t, 2)
	me, from := zzIdentity(t, 1).Public.Identity, zzIdentity(t, 2).Public.Identity
	for i := 0; i < tagDepth+3; i++ {
		if _, err := z.account.Deliver(me, from, []byte{byte(i)}, false); err != nil {
			t.Fatal(err)
		}
	}
	c := zzLogin(t, z, 1)
	var tag uint32
	for i := 0; i < tagDepth; i++ {
		if !c.recv(10 * time.Second) {
			t.Fatal("no announcement")
		}
		tag = c.hdr.Tag
	}
	time.Sleep(300 * time.Millisecond)
	z.account.Lock()
	c.send(rpc.TaggedCmdAcknowledge, tag, rpc.Acknowledge{})
	time.Sleep(300 * time.Millisecond)
	z.account.Unlock()
	for i := 0; i < 3; i++ {
		if !c.recv(10*time.Second) || c.hdr.Command != rpc.TaggedCmdPush {
			t.Fatal("no announcement")
		}
		if !c.send(rpc.TaggedCmdAcknowledge, c.hdr.Tag, rpc.Acknowledge{}) {
			t.Fatal("session ended")
		}
	}
	for i := 0; i < 100 && len(zzBox(t, d, 1)) != tagDepth-1; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := len(zzBox(t, d, 1)); n != tagDepth-1 {
		t.Fatalf("%d messages stored, not %d", n, tagDepth-1)
	}
	var p rpc.Pong
	c.ask(rpc.TaggedCmdPing, 1, rpc.Ping{}, rpc.TaggedCmdPong, &p)
}
