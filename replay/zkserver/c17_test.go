package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
)

// zzPayloads of many kinds.
func zzPayloads() (l [][]byte) {
	for i := 0; i < 16; i++ {
		l = append(l, []byte{byte(i), byte(i * 17), 1, 2, 3}[:1+i%5], []byte{9, 9, byte(i * 17)})
	}
	for _, s := range []string{" x ", "\t\r\n", "x\n", "\x00\x00\x00\x00\x00", "a\x00", "\x00a", "\xef\xbb\xbfx", "\"", "A"} {
		l = append(l, []byte(s))
	}
	l = append(l, []byte{}, []byte{0}, []byte("x"), []byte("\n\r\t\x00%s%d[]="), bytes.Repeat([]byte{0xff}, 300))
	big := make([]byte, 100000)
	for i := range big {
		big[i] = byte(i * 7)
	}
	return append(l, big)
}

// Messages between users: sender, payload and flag are the sender's.
func TestReplayC17Delivery(t *testing.T) {
	z, d := zzUsers(t, 4)
	var c [4]*zzClient
	for i := 1; i <= 3; i++ {
		c[i] = zzLogin(t, z, i)
	}
	tag := uint32(0)
	for i := 1; i <= 3; i++ {
		for j := 1; j <= 3; j++ { // to oneself, too
			for n, p := range append(zzPayloads(), zzPayloads()...) {
				proxy := n < len(zzPayloads())
				to := zzIdentity(t, j).Public.Identity
				if proxy {
					c[i].send(rpc.TaggedCmdProxy, tag, rpc.Proxy{To: to, Payload: p})
				} else {
					c[i].send(rpc.TaggedCmdCache, tag, rpc.Cache{To: to, Payload: p})
				}
				pushed := false
				for k := 0; k < 2; k++ { // reply and announcement
					r := c[i]
					if k == 1 {
						r = c[j]
						if pushed {
							continue
						}
					}
				again:
					if !r.recv(10 * time.Second) {
						t.Fatalf("%d -> %d: no reply or no message", i, j)
					}
					switch r.hdr.Command {
					case rpc.TaggedCmdPush:
						var m rpc.Push
						r.get(&m)
						if r != c[j] || m.From != zzIdentity(t, i).Public.Identity || !bytes.Equal(m.Payload, p) {
							t.Fatalf("%d -> %d: received by %p from %x with %d bytes, not %d", i, j, r, m.From, len(m.Payload), len(p))
						}
						if r.hdr.Cleartext != proxy {
							t.Fatalf("cleartext %v, sent as %v", r.hdr.Cleartext, proxy)
						}
						pushed = true
						r.send(rpc.TaggedCmdAcknowledge, r.hdr.Tag, rpc.Acknowledge{})
						if k == 0 {
							goto again
						}
					case rpc.TaggedCmdAcknowledge:
						var a rpc.Acknowledge
						r.get(&a)
						if proxy || a.Error != "" || r.hdr.Tag != tag {
							t.Fatalf("%v %v", r.hdr, a)
						}
					case rpc.TaggedCmdProxyReply:
						var a rpc.ProxyReply
						r.get(&a)
						if !proxy || a.Error != "" || a.To != to || r.hdr.Tag != tag {
							t.Fatalf("%v %v", r.hdr, a)
						}
					}
				}
				tag = (tag + 1) % tagDepth
				for k := 0; k < 1000 && len(zzBox(t, d, j)) != 0; k++ {
					time.Sleep(5 * time.Millisecond)
				}
			}
		}
	}
}

// zzStore is what is announced to an identity that comes online.
func zzStore(t *testing.T, z *ZKS, i, n int) (l []rpc.Push, clear []bool) {
	c := zzLogin(t, z, i)
	defer c.bye()
	for k := 0; k < n; k++ {
		if !c.recv(10 * time.Second) {
			t.Fatalf("%d of %d messages announced", k, n)
		}
		var m rpc.Push
		c.get(&m)
		l, clear = append(l, m), append(clear, c.hdr.Cleartext)
	}
	return
}

// Several users send to one that is offline, all at once.
func TestReplayC17Concurrent(t *testing.T) {
	const n = 8
	z, _ := zzUsers(t, 5)
	to := zzIdentity(t, 5).Public.Identity
	var c []*zzClient
	for i := 1; i <= 4; i++ {
		c = append(c, zzLogin(t, z, i))
	}
	var wg sync.WaitGroup
	for i := range c {
		wg.Add(1)
		go func(c *zzClient, i int) {
			defer wg.Done()
			for k := 0; k < n; k++ {
				p := []byte(fmt.Sprint(i, " ", k, " ", strings.Repeat("x", 100*k)))
				if k%2 == 0 {
					c.send(rpc.TaggedCmdCache, uint32(k), rpc.Cache{To: to, Payload: p})
				} else {
					c.send(rpc.TaggedCmdProxy, uint32(k), rpc.Proxy{To: to, Payload: p})
				}
			}
			for k := 0; k < n; k++ {
				if !c.recv(10*time.Second) || int(c.hdr.Tag) != k {
					t.Errorf("reply %d: %v", k, c.hdr)
				}
				if k%2 == 0 {
					var a rpc.Acknowledge
					c.get(&a)
					if a.Error != "" {
						t.Error(a.Error)
					}
				} else {
					var a rpc.ProxyReply
					c.get(&a)
					if a.Error != "" || a.To != to {
						t.Error(a)
					}
				}
			}
		}(c[i], i+1)
	}
	wg.Wait()
	if t.Failed() {
		return
	}
	next := map[int]int{}
	// at most tagDepth are announced, which is what was sent
	l, clear := zzStore(t, z, 5, 4*n)
	for x, m := range l {
		var i, k int
		fmt.Sscan(string(m.Payload), &i, &k)
		if m.From != zzIdentity(t, i).Public.Identity {
			t.Fatalf("message of %d is announced as that of %x", i, m.From)
		}
		if string(m.Payload) != fmt.Sprint(i, " ", k, " ", strings.Repeat("x", 100*k)) {
			t.Fatal("payload changed")
		}
		if k != next[i] {
			t.Fatalf("message %d of %d announced, %d expected", k, i, next[i])
		}
		next[i]++
		if clear[x] != (k%2 == 1) {
			t.Fatal("cleartext flag changed")
		}
	}
}

// A failed delivery is reported, and nothing is stored for anybody.
func TestReplayC17Refused(t *testing.T) {
	z, d := zzUsers(t, 3)
	if err := z.account.Disable(zzIdentity(t, 3).Public.Identity); err != nil {
		t.Fatal(err)
	}
	c := zzLogin(t, z, 1)
	for i, to := range [][zkidentity.IdentitySize]byte{{}, {1}, zzIdentity(t, 3).Public.Identity} {
		var a rpc.Acknowledge
		c.ask(rpc.TaggedCmdCache, 1, rpc.Cache{To: to, Payload: []byte("x")}, rpc.TaggedCmdAcknowledge, &a)
		if a.Error == "" {
			t.Fatalf("message to %x accepted", to)
		}
		if (a.ErrorCode == rpc.ErrorCodeUserDisabled) != (i == 2) {
			t.Fatalf("message to %x: code %v", to, a.ErrorCode)
		}
		var p rpc.ProxyReply
		c.ask(rpc.TaggedCmdProxy, 2, rpc.Proxy{To: to, Payload: []byte("x")}, rpc.TaggedCmdProxyReply, &p)
		if p.Error == "" || p.To != to {
			t.Fatalf("message to %x accepted", to)
		}
	}
	if len(zzBox(t, d, 1))+len(zzBox(t, d, 2)) != 0 {
		t.Fatal("a refused message was stored for somebody else")
	}
	// a full disk
	var a rpc.Acknowledge
	zzFull(t, 4, func() {
		c.ask(rpc.TaggedCmdCache, 1, rpc.Cache{To: zzIdentity(t, 2).Public.Identity, Payload: []byte("x")}, rpc.TaggedCmdAcknowledge, &a)
	})
	if a.Error == "" {
		t.Fatal("a message that could not be stored was accepted")
	}
}

// The transport's identity is what counts.
func TestReplayC17Stamp(t *testing.T) {
	z, _ := zzUsers(t, 3)
	to := zzIdentity(t, 2).Public.Identity
	for round := 0; round < 3; round++ {
		for _, i := range []int{1, 3} {
			c := zzLogin(t, z, i)
			// a request that ends in somebody else's identity
			other := zzIdentity(t, 4-i).Public.Identity
			var a rpc.Acknowledge
			c.ask(rpc.TaggedCmdCache, 0, struct {
				To      [32]byte
				Payload []byte
				From    [32]byte
			}{to, []byte{byte(i)}, other}, rpc.TaggedCmdAcknowledge, &a)
			if a.Error != "" {
				t.Fatal(a.Error)
			}
			c.bye()
		}
	}
	l, _ := zzStore(t, z, 2, 6)
	for _, m := range l {
		if len(m.Payload) != 1 || m.From != zzIdentity(t, int(m.Payload[0])).Public.Identity {
			t.Fatalf("%x announced as from %x", m.Payload, m.From)
		}
	}
}
