package main

import (
	"bytes"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/tagstack"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

const zzDepth = 4

var zzOne sync.Mutex

// zzFar is the server's side of a session.
type zzFar struct {
	t  *testing.T
	z  *ZKC
	kx *session.KX
	c  chan zzGot // what the client sent

	sync.Mutex
	closed bool // the client closed its connection
}

type zzGot struct {
	m    rpc.Message
	body []byte // what came with it
}

type zzNear struct {
	net.Conn
	f *zzFar
}

func (n *zzNear) Close() error {
	n.f.Lock()
	n.f.closed = true
	n.f.Unlock()
	return n.Conn.Close()
}

func (f *zzFar) gone() bool {
	f.Lock()
	defer f.Unlock()
	return f.closed
}

// zzLink takes a client online; nothing runs yet.
func zzLink(t *testing.T, z *ZKC) *zzFar {
	t.Helper()
	zzOne.Lock() // the ephemeral keys are those of the process
	defer zzOne.Unlock()
	session.Init()
	f := &zzFar{t: t, z: z, c: make(chan zzGot, 256)}
	a, b := net.Pipe()
	t.Cleanup(func() { a.Close(); b.Close() })
	srv, err := zkidentity.New("server", "server")
	if err != nil {
		t.Skip(err)
	}
	f.kx = &session.KX{Conn: b, MaxMessageSize: z.msgSize, OurPublicKey: &srv.Public.Key, OurPrivateKey: &srv.PrivateKey}
	done := make(chan error, 1)
	go func() {
		var cmd string
		_, err := xdr.Unmarshal(b, &cmd)
		if err == nil {
			err = f.kx.Respond()
		}
		done <- err
	}()
	z.serverIdentity = &srv.Public
	z.kx, err = z.sessionPhase(&zzNear{Conn: a, f: f})
	if err == nil {
		err = <-done
	}
	if err != nil {
		t.Fatal(err)
	}
	z.online = true
	z.offline = true // no new session afterwards
	z.directory = true
	z.tagStack = tagstack.New(zzDepth)
	z.tagCallback = make([]*cb, zzDepth)
	z.lastDuration = time.Hour
	z.lastTick = time.Now().Add(time.Hour)
	go func() {
		defer close(f.c)
		for {
			b, err := f.kx.Read()
			if err != nil {
				return
			}
			var g zzGot
			n, err := xdr.Unmarshal(bytes.NewReader(b), &g.m)
			if err != nil {
				t.Errorf("the client sent no message: %v", err)
				return
			}
			g.body = b[n:]
			f.c <- g
		}
	}()
	return f
}

// zzRun starts what a client does while online.
func zzRun(z *ZKC) {
	z.scheduler()
	for i := 0; i < 200; i++ {
		time.Sleep(time.Millisecond)
	}
	go z.handleRPC()
}

func (f *zzFar) tell(cmd string, tag uint32, body interface{}) {
	f.t.Helper()
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, rpc.Message{Command: cmd, Tag: tag})
	if err == nil {
		_, err = xdr.Marshal(&bb, body)
	}
	if err == nil {
		err = f.kx.Write(bb.Bytes())
	}
	if err != nil && !f.ended(time.Second) {
		f.t.Errorf("the client does not take %v: %v", cmd, err)
	}
}

// next is the next thing that the client sends.
func (f *zzFar) next(what, cmd string, body interface{}) (rpc.Message, bool) {
	f.t.Helper()
	select {
	case g, ok := <-f.c:
		if !ok {
			f.t.Errorf("%v: the client is gone", what)
			return rpc.Message{}, false
		}
		if g.m.Command != cmd {
			f.t.Errorf("%v: the client sent %v", what, g.m.Command)
			return rpc.Message{}, false
		}
		n, err := xdr.Unmarshal(bytes.NewReader(g.body), body)
		if err != nil || n != len(g.body) {
			f.t.Errorf("%v: what goes with %v is not that: %v, %v of %v bytes", what, cmd, err, n, len(g.body))
			return rpc.Message{}, false
		}
		return g.m, true
	case <-time.After(5 * time.Second):
		f.t.Errorf("%v: the client sends nothing", what)
		return rpc.Message{}, false
	}
}

func (f *zzFar) none(what string) {
	f.t.Helper()
	select {
	case g, ok := <-f.c:
		if ok {
			f.t.Errorf("%v: the client sent %v", what, g.m.Command)
		}
	case <-time.After(150 * time.Millisecond):
	}
}

// ended tells whether the session is over.
func (f *zzFar) ended(d time.Duration) bool {
	for e := time.Now().Add(d); time.Now().Before(e); time.Sleep(5 * time.Millisecond) {
		f.z.RLock()
		over := !f.z.online && f.z.kx == nil
		f.z.RUnlock()
		if over {
			return true
		}
	}
	return false
}

func (f *zzFar) over(what string) {
	f.t.Helper()
	if !f.ended(5 * time.Second) {
		f.t.Errorf("%v: the session goes on", what)
	} else if !f.gone() {
		f.t.Errorf("%v: the connection stays open", what)
	}
}

// zzTags takes all tags there are and puts them back.
func zzTags(t *testing.T, what string, z *ZKC, n int) {
	t.Helper()
	seen := make(map[uint32]bool)
	var all []uint32
	for {
		x, err := z.tagStack.Pop()
		if err != nil {
			break
		}
		if x >= zzDepth || seen[x] {
			t.Errorf("%v: tag %v is handed out, of %v; before it %v", what, x, zzDepth, all)
		}
		seen[x] = true
		all = append(all, x)
	}
	if n >= 0 && len(all) != n {
		t.Errorf("%v: %v tags are free, want %v", what, len(all), n)
	}
	for i := len(all) - 1; i >= 0; i-- {
		z.tagStack.Push(all[i])
	}
}
