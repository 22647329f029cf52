package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/companyzero/zkc/debug"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/account"
	"github.com/companyzero/zkc/zkserver/settings"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// zzServer is a server with all of its files in a scratch directory.
func zzServer(t *testing.T) (*ZKS, string) {
	d, err := ioutil.TempDir("", "zzsrv")
	if err != nil {
		t.Skip(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	z := &ZKS{sessions: make(map[string]*sessionContext), settings: settings.New()}
	z.settings.Root = d
	z.settings.Users = filepath.Join(d, "users")
	z.settings.MOTD = filepath.Join(d, "motd")
	z.settings.LogFile = filepath.Join(d, "log")
	z.Debug, err = debug.New(z.settings.LogFile, z.settings.TimeFormat)
	if err != nil {
		t.Skip(err)
	}
	z.Register(idApp, "[APP]")
	z.Register(idRPC, "[RPC]")
	z.Register(idS, "[SES]")
	z.Register(idSock, "[SOC]")
	z.account, err = account.New(z.settings.Users)
	if err != nil {
		t.Skip(err)
	}
	return z, d
}

// zzFull runs f with every write beyond n bytes failing.
func zzFull(t *testing.T, n uint64, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil {
		t.Skip()
	}
	if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}) != nil {
		t.Skip()
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

// zzGet waits for a reply.
func zzGet(t *testing.T, c chan *RPCWrapper) *RPCWrapper {
	t.Helper()
	select {
	case m := <-c:
		return m
	case <-time.After(10 * time.Second):
		t.Fatal("no reply")
	}
	return nil
}

var (
	zzKX   sync.Mutex
	zzWrap func(net.Conn) net.Conn // what the server's side goes through
	zzIDs  []*zkidentity.FullIdentity
)

// zzIdentity i, made once.
func zzIdentity(t *testing.T, i int) *zkidentity.FullIdentity {
	for len(zzIDs) <= i {
		f, err := zkidentity.New(fmt.Sprint("name", len(zzIDs)), fmt.Sprint("nick", len(zzIDs)))
		if err != nil {
			t.Fatal(err)
		}
		zzIDs = append(zzIDs, f)
	}
	return zzIDs[i]
}

type zzClient struct {
	t    *testing.T
	id   *zkidentity.FullIdentity
	kx   *session.KX
	conn net.Conn
	gone chan struct{} // the server is done with the connection
	hdr  rpc.Message
	body *bytes.Reader
	wel  rpc.Welcome
}

// zzUsers is a server with n accounts.
func zzUsers(t *testing.T, n int) (*ZKS, string) {
	z, d := zzServer(t)
	z.id = zzIdentity(t, 0)
	for i := 1; i <= n; i++ {
		if err := z.account.Create(zzIdentity(t, i).Public, false); err != nil {
			t.Fatal(err)
		}
	}
	return z, d
}

func zzConnect(t *testing.T, z *ZKS) (net.Conn, chan struct{}) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	acc := make(chan net.Conn, 1)
	go func() {
		c, err := l.Accept()
		if err == nil {
			acc <- c
		}
	}()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Skip(err)
	}
	gone := make(chan struct{})
	s := <-acc
	if zzWrap != nil {
		s = zzWrap(s)
	}
	go func() {
		z.preSession(s)
		close(gone)
	}()
	t.Cleanup(func() {
		c.Close()
		select {
		case <-gone:
		case <-time.After(10 * time.Second):
			t.Error("the server does not let go of a closed connection")
		}
	})
	c.SetDeadline(time.Now().Add(60 * time.Second))
	return c, gone
}

// zzTry starts a session; nil when the server refuses.
func zzTry(t *testing.T, z *ZKS, i int) *zzClient {
	c := &zzClient{t: t, id: zzIdentity(t, i)}
	c.conn, c.gone = zzConnect(t, z)
	// the ephemeral keys belong to the process, which is both sides here
	zzKX.Lock()
	defer zzKX.Unlock()
	session.Init()
	if _, err := xdr.Marshal(c.conn, rpc.InitialCmdSession); err != nil {
		return nil
	}
	c.kx = new(session.KX)
	c.kx.Conn = c.conn
	c.kx.MaxMessageSize = uint(z.settings.MaxMsgSize)
	c.kx.OurPublicKey = &c.id.Public.Key
	c.kx.OurPrivateKey = &c.id.PrivateKey
	c.kx.TheirPublicKey = &z.id.Public.Key
	if err := c.kx.Initiate(); err != nil {
		t.Logf("key exchange: %v", err)
		return nil
	}
	if !c.recv(10*time.Second) || c.hdr.Command != rpc.SessionCmdWelcome {
		t.Logf("no welcome: %v", c.hdr)
		return nil
	}
	c.get(&c.wel)
	return c
}

func zzLogin(t *testing.T, z *ZKS, i int) *zzClient {
	t.Helper()
	c := zzTry(t, z, i)
	if c == nil {
		t.Fatalf("no session for identity %d", i)
	}
	return c
}

func (c *zzClient) send(cmd string, tag uint32, payload interface{}) bool {
	var b bytes.Buffer
	if _, err := xdr.Marshal(&b, rpc.Message{Command: cmd, Tag: tag}); err != nil {
		c.t.Fatal(err)
	}
	if payload != nil {
		if _, err := xdr.Marshal(&b, payload); err != nil {
			c.t.Fatal(err)
		}
	}
	return c.kx.Write(b.Bytes()) == nil
}

// recv reads the next message; false when there is none.
func (c *zzClient) recv(d time.Duration) bool {
	c.conn.SetReadDeadline(time.Now().Add(d))
	b, err := c.kx.Read()
	if err != nil {
		return false
	}
	c.body = bytes.NewReader(b)
	c.hdr = rpc.Message{}
	if _, err = xdr.Unmarshal(c.body, &c.hdr); err != nil {
		c.t.Fatal(err)
	}
	return true
}

func (c *zzClient) get(v interface{}) {
	c.t.Helper()
	if _, err := xdr.Unmarshal(c.body, v); err != nil {
		c.t.Fatal(err)
	}
}

// ask sends a request and reads its reply.
func (c *zzClient) ask(cmd string, tag uint32, payload interface{}, reply string, v interface{}) {
	c.t.Helper()
	if !c.send(cmd, tag, payload) || !c.recv(10*time.Second) {
		c.t.Fatalf("%v under tag %d: no reply", cmd, tag)
	}
	if c.hdr.Command != reply || c.hdr.Tag != tag {
		c.t.Fatalf("%v under tag %d answered by %v under tag %d", cmd, tag, c.hdr.Command, c.hdr.Tag)
	}
	c.get(v)
}

// ended waits until the server has ended the session.
func (c *zzClient) ended() bool {
	select {
	case <-c.gone:
		return true
	case <-time.After(10 * time.Second):
		return false
	}
}

func (c *zzClient) bye() {
	c.conn.Close()
	if !c.ended() {
		c.t.Fatal("the session of a closed connection does not end")
	}
}

// zzBox lists the stored messages of an identity.
func zzBox(t *testing.T, d string, i int) (l []string) {
	id := zzIdentity(t, i).Public.Identity
	fi, err := ioutil.ReadDir(filepath.Join(d, "users", hex.EncodeToString(id[:]), "cache"))
	if err != nil {
		t.Fatal(err)
	}
	for _, v := range fi {
		l = append(l, v.Name())
	}
	sort.Strings(l)
	return
}

func zzKey(t *testing.T, i int) string {
	id := zzIdentity(t, i).Public.Identity
	return hex.EncodeToString(id[:])
}

func zzRegistered(z *ZKS, k string) bool {
	z.Lock()
	defer z.Unlock()
	_, ok := z.sessions[k]
	return ok
}

// zzHas tells whether identity i has an account.
func zzHas(t *testing.T, z *ZKS, i int) bool {
	return z.account.Enabled(zzIdentity(t, i).Public.Identity)
}
