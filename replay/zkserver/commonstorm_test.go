package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	mrand "math/rand"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkserver/socketapi"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// zzOdd fills v with values that nobody would use.
func zzOdd(g *mrand.Rand, v reflect.Value, words []string) {
	switch v.Kind() {
	case reflect.String:
		if g.Intn(3) > 0 {
			v.SetString(words[g.Intn(len(words))])
			return
		}
		odd := []string{"", " ", "..", "../x", "\x00", "%v%s", strings.Repeat("n", 300), strings.Repeat("x", 5000), "0", "-1", "168", "169", "1", "99999999999999999999", "new\nline", "[table]", "a=b", "# x"}
		v.SetString(odd[g.Intn(len(odd))])
	case reflect.Int, reflect.Int64, reflect.Int32:
		odd := []int64{0, 1, -1, 2, 1 << 30, -1 << 31}
		v.SetInt(odd[g.Intn(len(odd))])
	case reflect.Uint, reflect.Uint64, reflect.Uint32:
		odd := []uint64{0, 1, 2, 3, 100, 1 << 20, 1 << 31}
		v.SetUint(odd[g.Intn(len(odd))])
	case reflect.Uint8:
		v.SetUint(uint64(g.Intn(256)))
	case reflect.Bool:
		v.SetBool(g.Intn(2) == 0)
	case reflect.Slice:
		n := []int{0, 1, 2, 3, 129, 1000}[g.Intn(6)]
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		fallthrough
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Array && g.Intn(3) > 0 {
			w := words[g.Intn(len(words))]
			reflect.Copy(v, reflect.ValueOf([]byte(w+strings.Repeat("\x00", v.Len()))))
			return
		}
		for i := 0; i < v.Len(); i++ {
			zzOdd(g, v.Index(i), words)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				zzOdd(g, v.Field(i), words)
			}
		}
	}
}

// zzHeld lists the locks of the server that stay held.
func zzHeld(z *ZKS) (out []string) {
	m := make(map[string]*sync.Mutex)
	var walk func(n string, v reflect.Value, depth int)
	walk = func(n string, v reflect.Value, depth int) {
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct || !v.CanAddr() {
			return
		}
		if v.Type().String() == "sync.Mutex" {
			m[n] = (*sync.Mutex)(unsafe.Pointer(v.UnsafeAddr()))
			return
		}
		if depth > 1 {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			walk(n+"."+v.Type().Field(i).Name, v.Field(i), depth+1)
		}
	}
	walk("server", reflect.ValueOf(z), 0)
	for n, l := range m {
		t, ok := interface{}(l).(interface{ TryLock() bool })
		if !ok {
			continue
		}
		free := false
		for i := 0; i < 3000 && !free; i++ {
			if free = t.TryLock(); !free {
				time.Sleep(time.Millisecond)
			}
		}
		if free {
			l.Unlock()
		} else {
			out = append(out, n)
		}
	}
	return
}

type zzStorm struct {
	t     *testing.T
	g     *mrand.Rand
	z     *ZKS
	d     string
	words []string
	after func(what string)
}

func zzNewStorm(t *testing.T, seed int64, after func(s *zzStorm, what string)) *zzStorm {
	s := &zzStorm{t: t, g: mrand.New(mrand.NewSource(seed))}
	s.z, s.d = zzUsers(t, 3)
	s.z.settings.Directory = true
	s.after = func(what string) { after(s, what) }
	for i := 0; i < 5; i++ {
		id := zzIdentity(t, i).Public
		s.words = append(s.words, string(id.Identity[:]), id.Nick, hex.EncodeToString(id.Identity[:]))
	}
	return s
}

var zzCommands = []struct {
	cmd  string
	body interface{}
}{
	{rpc.TaggedCmdCache, rpc.Cache{}}, {rpc.TaggedCmdProxy, rpc.Proxy{}}, {rpc.TaggedCmdRendezvous, rpc.Rendezvous{}}, {rpc.TaggedCmdRendezvousPull, rpc.RendezvousPull{}}, {rpc.TaggedCmdIdentityFind, rpc.IdentityFind{}}, {rpc.TaggedCmdPing, rpc.Ping{}}, {rpc.TaggedCmdAcknowledge, rpc.Acknowledge{}}, {rpc.TaggedCmdPush, rpc.Push{}}, {"nonsense", rpc.Ping{}}, {"", rpc.Ping{}},
}

// clients send odd requests.
func (s *zzStorm) clients(sessions, n int) {
	for i := 0; i < sessions; i++ {
		c := zzTry(s.t, s.z, 1+i%3)
		if c == nil {
			s.t.Fatalf("client %v is not served", 1+i%3)
		}
		what := "a session"
		for j := 0; j < n; j++ {
			r := zzCommands[s.g.Intn(len(zzCommands))]
			x := reflect.New(reflect.TypeOf(r.body)).Elem()
			zzOdd(s.g, x, s.words)
			var bb bytes.Buffer
			tag := uint32(s.g.Intn(12))
			if s.g.Intn(10) == 0 {
				tag = 1<<32 - 1
			}
			xdr.Marshal(&bb, rpc.Message{Command: r.cmd, Tag: tag, Cleartext: s.g.Intn(2) == 0})
			xdr.Marshal(&bb, x.Interface())
			b := bb.Bytes()
			switch s.g.Intn(12) {
			case 0:
				b = b[:1+s.g.Intn(len(b)-1)]
			case 1:
				b[s.g.Intn(len(b))] ^= 0x80
			}
			what = fmt.Sprintf("%v under tag %v: %.300v", r.cmd, tag, x.Interface())
			c.conn.SetWriteDeadline(time.Now().Add(5 * time.Second))
			if c.kx.Write(b) != nil {
				break
			}
			if s.g.Intn(2) == 0 && !c.recv(20*time.Millisecond) {
				break
			}
		}
		c.conn.Close()
		if !c.ended() {
			s.t.Fatalf("the session does not end after %v", what)
		}
		s.after("a session that ended with " + what)
	}
}

// strangers are connections that are no sessions.
func (s *zzStorm) strangers(n int) {
	for i := 0; i < n; i++ {
		var bb bytes.Buffer
		cmd := []string{rpc.InitialCmdSession, rpc.InitialCmdIdentify, rpc.InitialCmdCreateAccount, "", "nonsense"}[s.g.Intn(5)]
		xdr.Marshal(&bb, cmd)
		x := reflect.New(reflect.TypeOf(rpc.CreateAccount{})).Elem()
		zzOdd(s.g, x, s.words)
		xdr.Marshal(&bb, x.Interface())
		b := bb.Bytes()
		switch s.g.Intn(4) {
		case 0:
			b = b[:s.g.Intn(len(b))]
		case 1:
			b[s.g.Intn(len(b))] ^= 0x80
		}
		s.z.settings.CreatePolicy = []string{"yes", "no", "token", "odd"}[s.g.Intn(4)]
		c, gone := zzConnect(s.t, s.z)
		c.Write(b)
		time.Sleep(3 * time.Millisecond)
		c.Close()
		select {
		case <-gone:
		case <-time.After(20 * time.Second):
			s.t.Fatalf("a connection that sent %v does not end", cmd)
		}
		s.after("a connection that sent " + cmd)
	}
}

// admin sends odd commands to the administration socket.
func (s *zzStorm) admin(n int) {
	for i := 0; i < n; i++ {
		a, b := net.Pipe()
		done := make(chan struct{})
		go func() {
			s.z.socketHandler(b)
			close(done)
		}()
		go ioutil.ReadAll(a)
		a.SetDeadline(time.Now().Add(5 * time.Second))
		cmd := []string{socketapi.SCUserDisable, socketapi.SCUserEnable, "", "odd"}[s.g.Intn(4)]
		id := append(s.words, "", "x", strings.Repeat("g", 64), "../../x")[s.g.Intn(len(s.words)+4)]
		j, _ := json.Marshal(socketapi.SocketCommandID{Version: socketapi.SCVersion, Command: cmd})
		k, _ := json.Marshal(socketapi.SocketCommandUserDisable{Identity: id})
		j = append(j, k...)
		if s.g.Intn(4) == 0 {
			j = j[:s.g.Intn(len(j))]
		}
		a.Write(j)
		time.Sleep(2 * time.Millisecond)
		a.Close()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			s.t.Fatalf("%v %q does not end", cmd, id)
		}
		s.after(fmt.Sprintf("%v %q", cmd, id))
	}
	for i := 1; i < 4; i++ {
		if !zzHas(s.t, s.z, i) {
			s.z.account.Enable(zzIdentity(s.t, i).Public.Identity)
		}
	}
}

// files garbles what is stored.
func (s *zzStorm) files(n int) {
	c := zzLogin(s.t, s.z, 1)
	c.send(rpc.TaggedCmdCache, 1, rpc.Cache{To: zzIdentity(s.t, 2).Public.Identity, Payload: []byte("hello")})
	c.recv(5 * time.Second)
	c.send(rpc.TaggedCmdRendezvous, 2, rpc.Rendezvous{Blob: []byte("hello"), Expiration: "1"})
	c.recv(5 * time.Second)
	c.bye()
	var all []string
	filepath.Walk(s.d, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && filepath.Base(p) != "log" {
			all = append(all, p)
		}
		return nil
	})
	for _, p := range all {
		was, err := ioutil.ReadFile(p)
		if err != nil {
			continue
		}
		for i := 0; i < n; i++ {
			b := append([]byte{}, was...)
			switch {
			case i == 0 || len(b) == 0:
				b = nil
			case s.g.Intn(2) == 0:
				b = b[:s.g.Intn(len(b))]
			default:
				for k := 1 + s.g.Intn(4); k > 0; k-- {
					b[s.g.Intn(len(b))] = []byte{0, 1, 255, 'x', '\n', '=', '[', byte(s.g.Intn(256))}[s.g.Intn(8)]
				}
			}
			ioutil.WriteFile(p, b, 0600)
			for u := 1; u < 3; u++ {
				c := zzTry(s.t, s.z, u)
				if c == nil {
					continue
				}
				c.send(rpc.TaggedCmdRendezvousPull, 3, rpc.RendezvousPull{Token: "00"})
				c.recv(100 * time.Millisecond)
				c.send(rpc.TaggedCmdRendezvous, 4, rpc.Rendezvous{Blob: []byte("hi"), Expiration: "1"})
				c.recv(100 * time.Millisecond)
				c.send(rpc.TaggedCmdIdentityFind, 4, rpc.IdentityFind{Nick: "nick2"})
				c.recv(100 * time.Millisecond)
				c.send(rpc.TaggedCmdCache, 5, rpc.Cache{To: zzIdentity(s.t, 3-u).Public.Identity, Payload: []byte("hello")})
				c.recv(100 * time.Millisecond)
				c.conn.Close()
				if !c.ended() {
					s.t.Fatalf("file %v is %.100q: the session does not end", filepath.Base(p), b)
				}
			}
			s.after(fmt.Sprintf("file %v is %.100q", filepath.Base(p), b))
			ioutil.WriteFile(p, was, 0600)
		}
	}
}

// full is a server whose disk is full.
func (s *zzStorm) full(n int) {
	zzFull(s.t, 0, func() { s.clients(n, 30) })
	zzFull(s.t, 0, func() { s.strangers(n) })
	zzFull(s.t, 0, func() { s.admin(n) })
}
