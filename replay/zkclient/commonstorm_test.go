package main

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	mrand "math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// zzOdd fills v with values that nobody would use.
func zzOdd(g *mrand.Rand, v reflect.Value, words []string) {
	switch v.Kind() {
	case reflect.String:
		if g.Intn(4) > 0 {
			v.SetString(words[g.Intn(len(words))])
			return
		}
		odd := []string{"", " ", "..", "../x", "a/b", "\x00", "%v%s", strings.Repeat("n", 300), strings.Repeat("x", 5000), "\x1b[31m", "\xff\xfe", "x.jpg", "/", "-", "new\nline", "all"}
		v.SetString(odd[g.Intn(len(odd))])
	case reflect.Int, reflect.Int64, reflect.Int32:
		odd := []int64{0, 1, -1, 2, 1 << 62, -1 << 63, time.Now().Unix(), 1 << 31}
		v.SetInt(odd[g.Intn(len(odd))])
	case reflect.Uint, reflect.Uint64, reflect.Uint32:
		odd := []uint64{0, 1, 2, 3, 100, 1 << 20, 1 << 63, 1<<64 - 1, 128, 127}
		v.SetUint(odd[g.Intn(len(odd))])
	case reflect.Uint8:
		v.SetUint(uint64(g.Intn(256)))
	case reflect.Bool:
		v.SetBool(g.Intn(2) == 0)
	case reflect.Slice:
		n := []int{0, 1, 2, 3, 129}[g.Intn(5)]
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		fallthrough
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Array && g.Intn(3) > 0 {
			w := words[g.Intn(len(words))]
			reflect.Copy(v, reflect.ValueOf([]byte(w+strings.Repeat("\x00", v.Len()))))
			return
		}
		for i := 0; i < v.Len(); i++ {
			zzOdd(g, v.Index(i), words)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				zzOdd(g, v.Field(i), words)
			}
		}
	}
}

// zzLocks lists the locks of a client and of what it owns.
func zzLocks(z *ZKC) map[string]sync.Locker {
	m := make(map[string]sync.Locker)
	var walk func(n string, v reflect.Value, depth int)
	walk = func(n string, v reflect.Value, depth int) {
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct || !v.CanAddr() {
			return
		}
		switch v.Type().String() {
		case "sync.Mutex":
			m[n] = (*sync.Mutex)(unsafe.Pointer(v.UnsafeAddr()))
			return
		case "sync.RWMutex":
			m[n] = (*sync.RWMutex)(unsafe.Pointer(v.UnsafeAddr()))
			return
		}
		if depth > 1 || !strings.Contains(v.Type().PkgPath(), "zkc") && !strings.HasPrefix(v.Type().String(), "main.") {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			walk(n+"."+v.Type().Field(i).Name, v.Field(i), depth+1)
		}
	}
	walk("client", reflect.ValueOf(z), 0)
	return m
}

// zzHeld lists the locks that stay held.
func zzHeld(z *ZKC) (out []string) {
	for n, l := range zzLocks(z) {
		t, ok := l.(interface{ TryLock() bool })
		if !ok {
			continue
		}
		free := false
		for i := 0; i < 2000 && !free; i++ {
			if free = t.TryLock(); !free {
				time.Sleep(time.Millisecond)
			}
		}
		if free {
			l.Unlock()
		} else {
			out = append(out, n)
		}
	}
	return
}

type zzStorm struct {
	t      *testing.T
	g      *mrand.Rand
	me     *ZKC
	peers  []*ZKC
	words  []string
	rs     map[*ZKC]*ratchet.Ratchet
	after  func(what string)
	opened bool
}

func zzNewStorm(t *testing.T, seed int64, after func(s *zzStorm, what string)) *zzStorm {
	s := &zzStorm{t: t, g: mrand.New(mrand.NewSource(seed)), me: zzClient(t, "me"), rs: map[*ZKC]*ratchet.Ratchet{}}
	s.after = func(what string) { after(s, what) }
	s.words = []string{"me", "bob", "room", "mine", "nobody", "other", string(s.me.id.Public.Identity[:])}
	for _, n := range []string{"bob", "room", "bob"} {
		p := zzClient(t, n)
		zzMeet(t, s.me, p)
		s.peers = append(s.peers, p)
		s.words = append(s.words, string(p.id.Public.Identity[:]))
	}
	s.settle()
	return s
}

// settle gives the client its groups.
func (s *zzStorm) settle() {
	z := s.me
	z.Lock()
	defer z.Unlock()
	id := func(l ...*ZKC) (out [][zkidentity.IdentitySize]byte) {
		for _, c := range l {
			out = append(out, c.id.Public.Identity)
		}
		return
	}
	z.groups = map[string]rpc.GroupList{
		"mine": {Name: "mine", Generation: 2, Members: id(z, s.peers[0])},
		"room": {Name: "room", Generation: 2, Members: id(s.peers[0], z, s.peers[1])},
		"solo": {Name: "solo", Generation: 1, Members: id(z)},
	}
	for n := range z.groups {
		z._gcSaveDisk(n)
	}
}

// drain forgets what the client would send.
func (s *zzStorm) drain() { zzSent(s.me); zzDrawn() }

// do runs a step.
func (s *zzStorm) do(what string, f func()) {
	s.t.Helper()
	zzTrap(s.t, what, f)
	zzTrap(s.t, what+" (and drawing it)", s.drain)
	s.after(what)
}

// busy runs f while others use the client: messages are encrypted, as the
// scheduler does, and each lock is taken now and then.
func (s *zzStorm) busy(f func()) {
	z := s.me
	quit := make(chan struct{})
	defer close(quit)
	again := func(d time.Duration) bool {
		select {
		case <-quit:
			return false
		case <-time.After(d):
			return true
		}
	}
	for _, l := range zzLocks(z) {
		go func(l sync.Locker) {
			for again(time.Microsecond) {
				for i := 0; i < 50; i++ {
					l.Lock()
					l.Unlock()
				}
			}
		}(l)
	}
	go func() {
		for i := 0; again(200 * time.Microsecond); i++ {
			z.cacheCRPC(s.peers[i%len(s.peers)].id.Public.Identity, rpc.PrivateMessage{Text: "x"}, nil)
		}
	}()
	f()
}

var zzPayloads = []interface{}{
	rpc.PrivateMessage{}, rpc.GroupInvite{}, rpc.GroupJoin{}, rpc.GroupPart{}, rpc.GroupKill{}, rpc.GroupKick{}, rpc.GroupUpdate{}, rpc.GroupList{}, rpc.GroupMessage{}, rpc.ChunkNew{}, rpc.Chunk{}, rpc.JanitorMessage{},
}

// peersMessages delivers odd messages of peers.
func (s *zzStorm) peersMessages(n int) {
	for i := 0; i < n; i++ {
		x := reflect.New(reflect.TypeOf(zzPayloads[s.g.Intn(len(zzPayloads))])).Elem()
		zzOdd(s.g, x, s.words)
		if j, ok := x.Interface().(rpc.JanitorMessage); ok && j.Command != "" && s.g.Intn(4) > 0 {
			j.Command = rpc.CRPCJanitorDeleted
			x.Set(reflect.ValueOf(j))
		}
		from := s.peers[s.g.Intn(len(s.peers))]
		if i%20 == 0 {
			s.do("another window", func() {
				s.me.getConversation(from.id.Public.Identity)
				s.me.nextConversation()
			})
		}
		p, ok := s.seal(from, x.Interface())
		if !ok {
			continue
		}
		what := fmt.Sprintf("a message of a peer: %T %.300v", x.Interface(), x.Interface())
		s.do(what, func() { s.me.handlePush(rpc.Message{Command: rpc.TaggedCmdPush}, p) })
		if i%40 == 39 {
			s.settle()
		}
	}
}

// seal is what a peer sends; ok is false when it cannot.
func (s *zzStorm) seal(from *ZKC, x interface{}) (p rpc.Push, ok bool) {
	if !s.me.ratchetExists(from.id.Public.Identity) || !from.ratchetExists(s.me.id.Public.Identity) {
		return
	}
	r, err := from.loadRatchet(s.me.id.Public.Identity, false)
	if err != nil {
		return
	}
	m, err := from.crpc(r, x)
	if err != nil || from.updateRatchet(r, false) != nil {
		return
	}
	return rpc.Push{From: from.id.Public.Identity, Received: time.Now().Unix(), Payload: m}, true
}

// garbledPushes delivers what nobody sealed.
func (s *zzStorm) garbledPushes(n int) {
	for i := 0; i < n; i++ {
		from := s.peers[s.g.Intn(len(s.peers))]
		p, ok := s.seal(from, rpc.PrivateMessage{Text: "hello"})
		if !ok {
			continue
		}
		clear := false
		switch s.g.Intn(7) {
		case 0:
			p.Payload = p.Payload[:s.g.Intn(len(p.Payload))]
		case 1:
			p.Payload[s.g.Intn(len(p.Payload))] ^= 1 << uint(s.g.Intn(8))
		case 2:
			p.Payload = make([]byte, s.g.Intn(100))
			rand.Read(p.Payload)
		case 3:
			rand.Read(p.From[:])
		case 4:
			p.From = s.me.id.Public.Identity
		case 5, 6:
			clear = true
			var b bytes.Buffer
			xdr.Marshal(&b, rpc.ProxyCmd{Command: uint32(s.g.Intn(3)), Message: s.words[s.g.Intn(len(s.words))]})
			p.Payload = b.Bytes()
			if s.g.Intn(2) == 0 {
				p.Payload = p.Payload[:s.g.Intn(len(p.Payload))]
			}
			if s.g.Intn(2) == 0 {
				rand.Read(p.From[:])
			}
		}
		what := fmt.Sprintf("a push that was garbled: %x", p.Payload)
		s.do(what, func() { s.me.handlePush(rpc.Message{Command: rpc.TaggedCmdPush, Cleartext: clear}, p) })
	}
}

var zzCmds = []string{"/acceptnewcert", "/version", "/help", "/fetch", "/gc", "/gc new", "/gc invite", "/gc join", "/gc kick", "/gc update", "/gc me", "/gc m", "/gc part", "/gc kill", "/info", "/list", "/list c", "/list a", "/list gc", "/list groupchat", "/list invites", "/list joins", "/m", "/me", "/msg", "/q", "/query", "/send", "/wc", "/w", "/win", "/addressbook", "/ab", "/ab del", "/save", "/restore", "/find", "/reset", "hello", "/", " ", "/nonsense"}

// commands types odd commands.
func (s *zzStorm) commands(n int) {
	z := s.me
	f := filepath.Join(z.settings.Root, "a file")
	ioutil.WriteFile(f, make([]byte, 1000), 0600)
	g := filepath.Join(z.settings.Root, "afile")
	ioutil.WriteFile(g, make([]byte, 1000), 0600)
	args := []string{"bob", "room", "mine", "solo", "nobody", "me", "0", "1", "-1", "2", "99999999999999999999", "", " ", "%v", "\x1b[m", f, g, "/nosuchfile", z.settings.Root, "room", "x:y", "force", ":", "0000000000000000000000000000000000000000000000000000000000000000"}
	for i := 0; i < n; i++ {
		c := zzCmds[s.g.Intn(len(zzCmds))]
		for j := s.g.Intn(4); j > 0; j-- {
			c += " " + args[s.g.Intn(len(args))]
		}
		on := s.g.Intn(4) > 0
		s.do("typing "+c, func() {
			z.Lock()
			z.online = on
			z.Unlock()
			z.mw.action(c)
		})
		switch s.g.Intn(6) {
		case 0:
			s.do("next window", z.nextConversation)
		case 1:
			s.do("previous window", z.prevConversation)
		case 2:
			s.do("completion", func() { z.completeNickCommandLine(strings.Split(c, " ")) })
		case 3:
			s.do("window of a peer", func() { z.getConversation(s.peers[s.g.Intn(3)].id.Public.Identity) })
		}
		for _, p := range s.peers {
			if !z.ratchetExists(p.id.Public.Identity) || !z.identityExists(p.id.Public.Identity) {
				// that one was removed
				os.RemoveAll(filepath.Join(z.settings.Root, inboundDir, hex.EncodeToString(p.id.Public.Identity[:])))
				zzMeet(s.t, z, p)
			}
		}
		if i%40 == 39 {
			s.settle()
			z.Lock()
			z.online = true
			z.Unlock()
		}
	}
	z.Lock()
	z.online = true
	z.Unlock()
}

// files garbles each of the files of the client and reads them.
func (s *zzStorm) files(n int) {
	z := s.me
	s.do("saving windows", func() { saveConversations(z) })
	for i, p := range s.peers[:2] {
		if x, ok := s.seal(p, rpc.GroupInvite{Name: fmt.Sprint("g", i), Token: uint64(i), Members: []string{"x"}, Expires: time.Now().Unix() + 3600}); ok {
			s.do("an invitation", func() { z.handlePush(rpc.Message{}, x) })
		}
	}
	s.do("inviting", func() { z.mw.action("/gc invite mine room") })
	root := z.settings.Root
	for name, was := range zzTree(root) {
		p := filepath.Join(root, name)
		for i := 0; i < n; i++ {
			b := []byte(was)
			switch {
			case i == 0:
				b = nil
			case len(b) == 0:
				b = []byte("x")
			case s.g.Intn(2) == 0:
				b = b[:s.g.Intn(len(b))]
			default:
				for k := 1 + s.g.Intn(4); k > 0; k-- {
					b[s.g.Intn(len(b))] = []byte{0, 1, 255, 'x', '\n', '=', '[', byte(s.g.Intn(256))}[s.g.Intn(8)]
				}
			}
			ioutil.WriteFile(p, b, 0600)
			s.do(fmt.Sprintf("file %v is %.100q", name, b), func() {
				z.loadIdentities()
				z.loadGroupchat()
				restoreConversations(z)
				for _, x := range s.peers {
					id := x.id.Public.Identity
					z.loadRatchet(id, false)
					z.loadRatchet(id, true)
					z.loadIdentity(id)
				}
				for _, c := range []string{"/list invites", "/list joins", "/gc join g0", "/gc invite mine bob", "/m bob hello"} {
					z.mw.action(c)
				}
				if x, ok := s.seal(s.peers[0], rpc.GroupJoin{Name: "mine", Token: 1}); ok {
					z.handlePush(rpc.Message{}, x)
				}
			})
			ioutil.WriteFile(p, []byte(was), 0600)
		}
	}
	s.settle()
}

// failing is what happens while directories are missing.
func (s *zzStorm) failing(n int) {
	root := s.me.settings.Root
	fi, err := ioutil.ReadDir(root)
	if err != nil {
		s.t.Skip(err)
	}
	for _, d := range fi {
		p := filepath.Join(root, d.Name())
		if os.Rename(p, p+".away") != nil {
			continue
		}
		if d.IsDir() {
			ioutil.WriteFile(p, nil, 0600)
		} else {
			os.Mkdir(p, 0700)
		}
		s.peersMessages(n)
		s.do("save", func() { saveConversations(s.me) })
		for _, c := range []string{"/gc new fresh", "/gc invite mine bob", "/gc part room", "/gc kick mine bob", "/gc kill mine", "/list invites", "/list joins", "/gc join g0", "/gc m room hello", "/m bob hello", "/me waves", "/reset bob", "/ab del nobody", "/acceptnewcert"} {
			s.do("typing "+c+" without "+d.Name(), func() { s.me.mw.action(c) })
		}
		os.RemoveAll(p)
		os.Rename(p+".away", p)
		s.settle()
	}
}

var _ = unsafe.Pointer(nil)

var zzReplies = []struct {
	cmd  string
	body interface{}
}{
	{rpc.TaggedCmdPong, rpc.Pong{}}, {rpc.TaggedCmdRendezvousReply, rpc.RendezvousReply{}}, {rpc.TaggedCmdPush, rpc.Push{}}, {rpc.TaggedCmdAcknowledge, rpc.Acknowledge{}}, {rpc.TaggedCmdIdentityFindReply, rpc.IdentityFindReply{}}, {rpc.TaggedCmdProxyReply, rpc.ProxyReply{}}, {rpc.TaggedCmdPing, rpc.Ping{}}, {rpc.TaggedCmdCache, rpc.Cache{}}, {"nonsense", rpc.Pong{}}, {"", rpc.Pong{}}, {rpc.SessionCmdWelcome, rpc.Welcome{}}, {rpc.TaggedCmdRendezvousPullReply, rpc.RendezvousPullReply{}},
}

// serverMessages is a server that sends odd things.
func (s *zzStorm) serverMessages(sessions, n int) {
	z := s.me
	for i := 0; i < sessions; i++ {
		var f *zzFar
		s.do("a session", func() { f = zzLink(s.t, z); z.done = make(chan struct{}) })
		z.tagCallback[1] = &cb{to: s.peers[0].id.Public.Identity}
		over := make(chan struct{})
		go func() {
			z.handleRPC()
			close(over)
		}()
		for j := 0; j < n && !f.ended(time.Millisecond); j++ {
			r := zzReplies[s.g.Intn(len(zzReplies))]
			x := reflect.New(reflect.TypeOf(r.body)).Elem()
			zzOdd(s.g, x, s.words)
			if p, ok := x.Interface().(rpc.RendezvousPullReply); ok && p.Error == "" {
				p.Error = "refused" // an answer asks the user
				x.Set(reflect.ValueOf(p))
			}
			var bb bytes.Buffer
			tag := uint32(s.g.Intn(zzDepth + 1))
			if s.g.Intn(8) == 0 {
				tag = 1<<32 - 1
			} else if t, err := z.tagStack.Pop(); err == nil {
				tag = t
			}
			xdr.Marshal(&bb, rpc.Message{Command: r.cmd, Tag: tag, Cleartext: s.g.Intn(2) == 0})
			xdr.Marshal(&bb, x.Interface())
			b := bb.Bytes()
			switch s.g.Intn(12) {
			case 0:
				b = b[:s.g.Intn(len(b))]
			case 1:
				b[s.g.Intn(len(b))] ^= 0x80
			}
			if len(b) == 0 {
				continue
			}
			z.pendingIdentitiesMutex.Lock()
			for _, w := range s.words {
				now := time.Now()
				z.pendingIdentities[w] = &now
			}
			z.pendingIdentitiesMutex.Unlock()
			f.kx.Conn.SetWriteDeadline(time.Now().Add(5 * time.Second))
			if f.kx.Write(b) != nil {
				break
			}
			time.Sleep(2 * time.Millisecond)
			s.drain()
			s.after(fmt.Sprintf("a message of the server: %v under tag %v: %.300v", r.cmd, tag, x.Interface()))
		}
		f.kx.Conn.Close()
		select {
		case <-over:
		case <-time.After(20 * time.Second):
			s.t.Fatal("a session whose connection was closed does not end")
		}
		s.drain()
		s.after("the end of a session")
	}
	z.Lock()
	z.online = true
	z.Unlock()
}
