package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"encoding/hex"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func zzSoon(f func() bool) bool {
	for i := 0; i < 600; i++ {
		if f() {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

// Messages that the server pushes.
func TestReplayC29Push(t *testing.T) {
	a, b := zzClient(t, "alice"), zzClient(t, "bob")
	zzMeet(t, a, b)
	f := zzLink(t, b)
	zzRun(b)
	for i := 0; i < 6; i++ {
		text := fmt.Sprintf("hello number %v.", i)
		tag := uint32([]int{3, 0, 2, 7, 1 << 20, 0}[i])
		p := zzSeal(t, a, b, rpc.PrivateMessage{Text: text, Mode: rpc.MessageModeNormal})
		bad := i == 3
		if bad {
			p.Payload[len(p.Payload)-1] ^= 1
		}
		f.tell(rpc.TaggedCmdPush, tag, p)
		var k rpc.Acknowledge
		m, ok := f.next("a pushed message", rpc.TaggedCmdAcknowledge, &k)
		if !ok {
			break
		}
		if m.Tag != tag {
			t.Errorf("message %v was pushed under tag %v, acknowledged under %v", i, tag, m.Tag)
		}
		n := len(zzShows(b, text))
		if !bad && n == 0 {
			t.Errorf("message %v is acknowledged and was not handled", i)
		}
		if bad && n != 0 {
			t.Errorf("message %v is shown as something else than was sent", i)
		}
	}
	f.none("everything is acknowledged")
	cs := zzShows(b, "hello number")
	if len(cs) != 1 {
		t.Errorf("the messages of one peer are shown in %v windows", len(cs))
	}
	for _, c := range cs {
		var got []string
		for _, l := range zzLines(c) {
			if i := strings.Index(l, "hello number"); i >= 0 {
				got = append(got, l[i:])
			}
		}
		if w := "hello number 0.,hello number 1.,hello number 2.,hello number 4.,hello number 5."; strings.Join(got, ",") != w {
			t.Errorf("shown is %v", got)
		}
	}
	zzTags(t, "after pushes", b, zzDepth)
	f.kx.Conn.Close()
	f.over("the server left")
}

// Acknowledgements.
func TestReplayC29Ack(t *testing.T) {
	a, b := zzClient(t, "alice"), zzClient(t, "bob")
	zzMeet(t, a, b)
	f := zzLink(t, a)
	zzRun(a)
	var mtx sync.Mutex
	ran := make(map[int]int)
	tags := make(map[int]uint32)
	send := func(i int) bool {
		id := b.id.Public.Identity
		a.scheduleCRPCCB(true, &id, rpc.PrivateMessage{Text: fmt.Sprint("number ", i)}, func() {
			mtx.Lock()
			ran[i]++
			mtx.Unlock()
		})
		var c rpc.Cache
		m, ok := f.next("a message", rpc.TaggedCmdCache, &c)
		if !ok {
			return false
		}
		if c.To != id {
			t.Errorf("a message goes to somebody else")
		}
		for k, x := range tags {
			if x == m.Tag {
				t.Errorf("message %v goes out under the tag of message %v, which is not acknowledged", i, k)
			}
		}
		if m.Tag >= zzDepth {
			t.Errorf("message %v goes out under tag %v, of %v", i, m.Tag, zzDepth)
		}
		tags[i] = m.Tag
		return true
	}
	want := make(map[int]int)
	check := func(what string) {
		t.Helper()
		if !zzSoon(func() bool {
			mtx.Lock()
			defer mtx.Unlock()
			return fmt.Sprint(ran) == fmt.Sprint(want)
		}) {
			mtx.Lock()
			t.Errorf("%v: told were %v, want %v", what, ran, want)
			mtx.Unlock()
		}
	}
	ack := func(i int, e string) {
		f.tell(rpc.TaggedCmdAcknowledge, tags[i], rpc.Acknowledge{Error: e})
		want[i]++
		check(fmt.Sprintf("the acknowledgement of message %v", i))
		delete(tags, i)
	}
	for i := 0; i < 3; i++ {
		if !send(i) {
			return
		}
	}
	check("nothing is acknowledged")
	zzTags(t, "three messages are on their way", a, 1)
	ack(1, "")
	ack(0, "it failed")
	if !send(3) || !send(4) {
		return
	}
	zzTags(t, "three more are", a, 1)
	ack(4, "it failed")
	ack(2, "it failed")
	ack(3, "")
	zzTags(t, "nothing is", a, zzDepth)
	// what nobody waits for
	for i := 0; i < 2*zzDepth; i++ {
		if err := a.cache(b.id.Public.Identity, []byte{1}); err != nil {
			t.Fatal(err)
		}
		var c rpc.Cache
		m, ok := f.next("a request", rpc.TaggedCmdCache, &c)
		if !ok {
			return
		}
		f.tell(rpc.TaggedCmdAcknowledge, m.Tag, rpc.Acknowledge{})
		if x := uint32(i) % zzDepth; zzSoon(func() bool { _, err := a.tagStack.Pop(); return err == nil }) {
			// have all tags used
			for {
				if _, err := a.tagStack.Pop(); err != nil {
					break
				}
			}
			for j := uint32(0); j < zzDepth; j++ {
				a.tagStack.Push((x + j) % zzDepth)
			}
		}
	}
	time.Sleep(50 * time.Millisecond)
	check("an acknowledgement that nobody waits for")
	// not even sent
	f.tell(rpc.TaggedCmdAcknowledge, 2, rpc.Acknowledge{})
	time.Sleep(50 * time.Millisecond)
	check("an acknowledgement of nothing")
	zzTags(t, "an acknowledgement of nothing", a, zzDepth)
	f.kx.Conn.Close()
	f.over("the server left")
}

// Replies under tags that there are not.
func TestReplayC29Tags(t *testing.T) {
	for _, r := range []struct {
		cmd  string
		body interface{}
	}{
		{rpc.TaggedCmdPong, rpc.Pong{}},
		{rpc.TaggedCmdRendezvousReply, rpc.RendezvousReply{Token: "1"}},
		{rpc.TaggedCmdRendezvousPullReply, rpc.RendezvousPullReply{Error: "no"}},
		{rpc.TaggedCmdAcknowledge, rpc.Acknowledge{}},
		{rpc.TaggedCmdIdentityFindReply, rpc.IdentityFindReply{Nick: "x", Error: "no"}},
		{rpc.TaggedCmdProxyReply, rpc.ProxyReply{Error: "no"}},
	} {
		for _, tag := range []uint32{zzDepth - 1, zzDepth, 1 << 31, 1<<32 - 1} {
			r, tag := r, tag
			what := fmt.Sprintf("%v under tag %v", r.cmd, tag)
			t.Run(what, func(t *testing.T) {
				t.Parallel()
				a, b := zzClient(t, "alice"), zzClient(t, "bob")
				zzMeet(t, a, b)
				f := zzLink(t, a)
				for i := 0; i < zzDepth; i++ {
					a.tagStack.Pop()
				}
				zzRun(a)
				f.tell(r.cmd, tag, r.body)
				if tag < zzDepth {
					if !zzSoon(func() bool {
						x, err := a.tagStack.Pop()
						if err == nil && x != tag {
							t.Errorf("%v: freed is %v", what, x)
						}
						return err == nil
					}) {
						t.Errorf("%v: the tag is not freed", what)
					}
					if f.ended(20 * time.Millisecond) {
						t.Errorf("%v: the session is over", what)
					}
					f.kx.Conn.Close()
				} else {
					zzTrap(t, what, func() {
						time.Sleep(30 * time.Millisecond)
						a.cacheCRPC(b.id.Public.Identity, rpc.PrivateMessage{Text: "after that"}, nil)
					})
				}
				f.over(what)
				zzTags(t, what, a, -1)
			})
		}
	}
}

// The identity directory.
func TestReplayC29Find(t *testing.T) {
	a := zzClient(t, "alice")
	f := zzLink(t, a)
	zzRun(a)
	who := func(nick string) *zkidentity.FullIdentity {
		i, err := zkidentity.New(nick, nick)
		if err != nil {
			t.Skip(err)
		}
		return i
	}
	find := func(nick string) uint32 {
		t.Helper()
		if err := a.find(nick); err != nil {
			t.Fatalf("%v is not looked up: %v", nick, err)
		}
		var q rpc.IdentityFind
		m, ok := f.next("a lookup", rpc.TaggedCmdIdentityFind, &q)
		if ok && q.Nick != nick {
			t.Errorf("%v is looked up for %v", q.Nick, nick)
		}
		if !ok {
			t.FailNow()
		}
		return m.Tag
	}
	bob, eve := who("bob"), who("eve")
	reply := func(tag uint32, nick string, p zkidentity.PublicIdentity) {
		f.tell(rpc.TaggedCmdIdentityFindReply, tag, rpc.IdentityFindReply{Nick: nick, Identity: p})
	}
	key := func(what string, i *zkidentity.FullIdentity) {
		t.Helper()
		var c rpc.Cache
		m, ok := f.next(what, rpc.TaggedCmdCache, &c)
		if !ok {
			return
		}
		if c.To != i.Public.Identity {
			t.Errorf("%v: keys are exchanged with %x", what, c.To)
		}
		f.tell(rpc.TaggedCmdAcknowledge, m.Tag, rpc.Acknowledge{})
	}
	// nobody asked
	x, _ := a.tagStack.Pop()
	reply(x, "eve", eve.Public)
	f.none("an identity that nobody asked for")
	// somebody else than asked for
	tag := find("bob")
	reply(tag, "eve", eve.Public)
	f.none("an identity that nobody asked for")
	if err := a.find("bob"); err == nil {
		t.Errorf("a lookup without an answer is asked for twice")
		var q rpc.IdentityFind
		f.next("a lookup", rpc.TaggedCmdIdentityFind, &q)
	}
	// not what it says
	x, _ = a.tagStack.Pop()
	bad := bob.Public
	bad.Key[5] ^= 1
	reply(x, "bob", bad)
	f.none("an identity that is not signed")
	// so it is asked for once more
	tag = find("bob")
	reply(tag, "bob", bob.Public)
	key("an identity that was asked for", bob)
	x, _ = a.tagStack.Pop()
	reply(x, "bob", bob.Public)
	f.none("an identity that was found already")
	// the server knows nobody
	tag = find("carol")
	f.tell(rpc.TaggedCmdIdentityFindReply, tag, rpc.IdentityFindReply{Nick: "carol", Error: "nobody"})
	f.none("nobody is found")
	zzSoon(func() bool { return a.pendingGone("carol") })
	// who needs not be asked for
	for _, n := range []string{"", "alice"} {
		if a.find(n) == nil {
			t.Errorf("%q is looked up", n)
			var q rpc.IdentityFind
			f.next("a lookup", rpc.TaggedCmdIdentityFind, &q)
		}
	}
	zzTags(t, "all lookups are answered", a, zzDepth)
	f.kx.Conn.Close()
	f.over("the server left")
}

func (z *ZKC) pendingGone(nick string) bool {
	z.pendingIdentitiesMutex.Lock()
	defer z.pendingIdentitiesMutex.Unlock()
	return z.pendingIdentities[nick] == nil
}

// Requests and their tags.
func TestReplayC29Requests(t *testing.T) {
	a, b := zzClient(t, "alice"), zzClient(t, "bob")
	zzMeet(t, a, b)
	f := zzLink(t, a)
	zzRun(a)
	out := make(map[uint32]string)
	note := func(m rpc.Message, ok bool) {
		t.Helper()
		if !ok {
			t.FailNow()
		}
		if w, used := out[m.Tag]; used || m.Tag >= zzDepth {
			t.Errorf("%v goes out under tag %v, that of %q", m.Command, m.Tag, w)
		}
		out[m.Tag] = m.Command
	}
	must := func(err error) {
		t.Helper()
		if err != nil {
			t.Fatal(err)
		}
	}
	big := bytes.Repeat([]byte{7, 0, 255}, 1000)
	must(a.cache(b.id.Public.Identity, big))
	var c rpc.Cache
	note(f.next("cache", rpc.TaggedCmdCache, &c))
	if c.To != b.id.Public.Identity || !bytes.Equal(c.Payload, big) {
		t.Errorf("what is delivered is something else")
	}
	must(a.rendezvous(big))
	var r rpc.Rendezvous
	note(f.next("rendezvous", rpc.TaggedCmdRendezvous, &r))
	if !bytes.Equal(r.Blob, big) {
		t.Errorf("what is left for another is something else")
	}
	must(a.fetch("1234567"))
	var p rpc.RendezvousPull
	note(f.next("fetch", rpc.TaggedCmdRendezvousPull, &p))
	if p.Token != "1234567" {
		t.Errorf("fetched is %v", p.Token)
	}
	rf := filepath.Join(a.settings.Root, inboundDir, hex.EncodeToString(b.id.Public.Identity[:]), ratchetFilename)
	have := func() bool {
		_, err := os.Stat(rf)
		return err == nil
	}
	if err := a.reset("nobody"); err == nil {
		t.Errorf("the ratchet of nobody is reset")
	}
	zzTags(t, "nobody's ratchet", a, 1)
	hold, _ := a.tagStack.Pop()
	if err := a.reset("bob"); err == nil || !have() {
		t.Errorf("without a tag the ratchet is reset (%v) and the peer not told", err)
	}
	if a.cache(b.id.Public.Identity, big) == nil || a.rendezvous(big) == nil || a.fetch("1") == nil || a.find("carol") == nil {
		t.Errorf("without a tag something is asked")
	}
	f.none("without a tag")
	if !a.pendingGone("carol") {
		t.Errorf("a lookup that was not sent is in progress")
	}
	must(a.tagStack.Push(hold))
	must(a.reset("bob"))
	var x rpc.Proxy
	note(f.next("reset", rpc.TaggedCmdProxy, &x))
	if have() {
		t.Errorf("the ratchet is still there")
	}
	var pc rpc.ProxyCmd
	if _, err := xdr.Unmarshal(bytes.NewReader(x.Payload), &pc); err != nil || x.To != b.id.Public.Identity || pc.Command != rpc.ProxyCmdResetRatchet {
		t.Errorf("the peer is told %q, %v", pc.Command, err)
	}
	zzTags(t, "all are in use", a, 0)
	// replies
	for tag, cmd := range out {
		switch cmd {
		case rpc.TaggedCmdCache:
			f.tell(rpc.TaggedCmdAcknowledge, tag, rpc.Acknowledge{})
		case rpc.TaggedCmdRendezvous:
			f.tell(rpc.TaggedCmdRendezvousReply, tag, rpc.RendezvousReply{Token: "1"})
		case rpc.TaggedCmdRendezvousPull:
			f.tell(rpc.TaggedCmdRendezvousPullReply, tag, rpc.RendezvousPullReply{Error: "nothing"})
		case rpc.TaggedCmdProxy:
			f.tell(rpc.TaggedCmdProxyReply, tag, rpc.ProxyReply{To: b.id.Public.Identity})
		}
	}
	time.Sleep(100 * time.Millisecond)
	zzTags(t, "all are answered", a, zzDepth)
	if err := a.reset("bob"); err == nil {
		t.Errorf("a ratchet that is not there is reset")
	}
	f.none("a reset that failed")
	zzTags(t, "a reset that failed", a, zzDepth)
	// as it was given
	zzTrap(t, "writing", func() {
		m := rpc.Message{Command: rpc.TaggedCmdCache, Tag: 3}
		must(a.writeMessage(&m, rpc.Cache{To: b.id.Public.Identity, Payload: big}))
		g, ok := f.next("a message", rpc.TaggedCmdCache, &c)
		if ok && (g.Tag != 3 || g.Cleartext || c.To != b.id.Public.Identity || !bytes.Equal(c.Payload, big)) {
			t.Errorf("what is written is something else")
		}
	})
	f.kx.Conn.Close()
	f.over("the server left")
	zzTrap(t, "requests while offline", func() {
		m := rpc.Message{Command: rpc.TaggedCmdPing}
		if a.writeMessage(&m, rpc.Ping{}) == nil || a.cache(b.id.Public.Identity, big) == nil || a.rendezvous(big) == nil || a.fetch("1") == nil || a.find("carol") == nil || a.reset("bob") == nil {
			t.Errorf("something is sent while offline")
		}
		if a.welcomeUser(&rpc.Welcome{}) == nil {
			t.Errorf("a session that is lost already is welcomed")
		}
	})
	zzTags(t, "offline", a, zzDepth)
}

// Pings.
func TestReplayC29Heartbeat(t *testing.T) {
	a := zzClient(t, "alice")
	f := zzLink(t, a)
	a.lastDuration = 2500 * time.Millisecond
	a.lastTick = time.Now()
	zzRun(a)
	for i := 0; i < 2; i++ {
		var p rpc.Ping
		m, ok := f.next("a heartbeat", rpc.TaggedCmdPing, &p)
		if !ok {
			return
		}
		zzTags(t, "a ping is unanswered", a, zzDepth-1)
		select {
		case g, ok := <-f.c:
			t.Errorf("while a ping is unanswered comes %v, %v", g.m.Command, ok)
		case <-time.After(1200 * time.Millisecond):
		}
		f.tell(rpc.TaggedCmdPong, m.Tag, rpc.Pong{})
		time.Sleep(50 * time.Millisecond)
		zzTags(t, "a ping is answered", a, zzDepth)
	}
	var p rpc.Ping
	if _, ok := f.next("a heartbeat", rpc.TaggedCmdPing, &p); ok {
		f.over("no answer")
	}
}

// A message that can not be sent keeps neither its tag nor its callback.
func TestReplayC29Unsent(t *testing.T) {
	defer zzDrawn()
	a, b := zzClient(t, "alice"), zzClient(t, "bob")
	zzMeet(t, a, b)
	f := zzLink(t, a)
	f.kx.Conn.Close()
	a.kx.Conn.Close()
	called := false
	for i := 0; i < 3; i++ {
		err := a.cacheCRPC(b.id.Public.Identity, rpc.PrivateMessage{Text: "lost", Mode: rpc.MessageModeNormal}, func() { called = true })
		if err == nil {
			t.Errorf("a message that could not be written was reported as sent")
			return
		}
	}
	zzTags(t, "after messages that could not be sent", a, zzDepth)
	for i, c := range a.tagCallback {
		if c != nil {
			t.Errorf("tag %v: the acknowledgement of a message that was not sent is awaited", i)
		}
	}
	if called {
		t.Errorf("a message that was not sent was acknowledged")
	}
}
