package main

import (
	"encoding/hex"
	"encoding/json"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkserver/socketapi"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// zzAdminCmd sends a command to the administration socket.
func zzAdminCmd(t *testing.T, z *ZKS, cmd, id string) string {
	t.Helper()
	a, b := net.Pipe()
	done := make(chan struct{})
	go func() {
		z.socketHandler(b)
		close(done)
	}()
	a.SetDeadline(time.Now().Add(20 * time.Second))
	e := json.NewEncoder(a)
	e.Encode(socketapi.SocketCommandID{Version: socketapi.SCVersion, Command: cmd})
	e.Encode(socketapi.SocketCommandUserDisable{Identity: id})
	var r socketapi.SocketCommandUserDisableReply
	if err := json.NewDecoder(a).Decode(&r); err != nil {
		t.Fatalf("%v %q: no reply", cmd, id)
	}
	a.Close()
	<-done
	return r.Error
}

func zzPing(c *zzClient) bool {
	return c.send(rpc.TaggedCmdPing, 0, rpc.Ping{}) && c.recv(10*time.Second) && c.hdr.Command == rpc.TaggedCmdPong
}

func TestReplayC25Refused(t *testing.T) {
	z, _ := zzUsers(t, 3)
	if c := zzTry(t, z, 4); c != nil {
		t.Fatal("an unknown identity got a session")
	}
	z.account.Disable(zzIdentity(t, 2).Public.Identity)
	if c := zzTry(t, z, 2); c != nil {
		t.Fatal("a disabled account got a session")
	}
	z.account.Enable(zzIdentity(t, 2).Public.Identity)
	if c := zzLogin(t, z, 2); !zzPing(c) {
		t.Fatal("an enabled account is not served")
	}
	// no handshake, no service
	for _, m := range []string{"", "x", rpc.InitialCmdSession, rpc.TaggedCmdPing, strings.Repeat("y", 500)} {
		c, gone := zzConnect(t, z)
		xdr.Marshal(c, m)
		xdr.Marshal(c, []byte("nothing that decrypts"))
		c.(*net.TCPConn).CloseWrite()
		select {
		case <-gone:
		case <-time.After(10 * time.Second):
			t.Fatalf("mode %q: the connection stays open", m)
		}
		c.Close()
	}
}

// However a session ends, the account is offline and can come back.
func TestReplayC25End(t *testing.T) {
	for i, end := range []func(*zzClient){
		func(c *zzClient) { c.conn.Close() },
		func(c *zzClient) { c.send("nonsense", 1, nil) },
		func(c *zzClient) { c.send(rpc.TaggedCmdPing, tagDepth, rpc.Ping{}) },
		func(c *zzClient) { c.send(rpc.TaggedCmdAcknowledge, 1, rpc.Acknowledge{}) },
		func(c *zzClient) { c.kx.Write([]byte{1, 2, 3}) },
		func(c *zzClient) { c.kx.Write(nil) },
		func(c *zzClient) { c.conn.Write([]byte("\x00\x00\x00\x04abcd")) },
		func(c *zzClient) { c.send(rpc.TaggedCmdCache, 1, nil) },
		func(c *zzClient) { c.send(rpc.TaggedCmdRendezvous, 1, nil) },
		func(c *zzClient) { c.send(rpc.TaggedCmdRendezvousPull, 1, nil) },
		func(c *zzClient) { c.send(rpc.TaggedCmdProxy, 1, nil) },
		func(c *zzClient) { c.send(rpc.TaggedCmdIdentityFind, 1, nil) },
	} {
		z, _ := zzUsers(t, 2)
		for round := 0; round < 3; round++ {
			c := zzLogin(t, z, 1)
			if !zzPing(c) || !zzRegistered(z, zzKey(t, 1)) {
				t.Fatal("no session")
			}
			end(c)
			if !c.ended() {
				t.Fatalf("end %d: the session goes on", i)
			}
			if zzRegistered(z, zzKey(t, 1)) {
				t.Fatalf("end %d: the session is still registered", i)
			}
		}
		c := zzLogin(t, z, 1)
		if !zzPing(c) {
			t.Fatalf("end %d: the account is not served again", i)
		}
		c.bye()
	}
}

// A session that cannot be completed leaves nothing behind.
func TestReplayC25Setup(t *testing.T) {
	z, d := zzUsers(t, 2)
	z.settings.Directory = true
	u := filepath.Join(d, "users", zzKey(t, 1))
	f, err := filepath.Glob(filepath.Join(u, "*"))
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range f {
		if fi, err := os.Stat(n); err != nil || fi.IsDir() {
			continue
		}
		// the account's files are away for a while
		if err := os.Rename(n, filepath.Join(d, "away")); err != nil {
			t.Fatal(err)
		}
		if c := zzTry(t, z, 1); c != nil {
			c.ended()
		}
		if err := os.Rename(filepath.Join(d, "away"), n); err != nil {
			t.Fatal(err)
		}
		if zzRegistered(z, zzKey(t, 1)) {
			t.Fatalf("without %v: a session that did not start is registered", filepath.Base(n))
		}
		c := zzLogin(t, z, 1)
		if !zzPing(c) {
			t.Fatalf("without %v: the account stays unusable", filepath.Base(n))
		}
		c.bye()
	}
}

// A second connection ends the first session, and a third is served.
func TestReplayC25Takeover(t *testing.T) {
	z, _ := zzUsers(t, 2)
	other := zzLogin(t, z, 2)
	for round := 0; round < 3; round++ {
		a := zzLogin(t, z, 1)
		if !zzPing(a) {
			t.Fatal("no session")
		}
		b := zzTry(t, z, 1)
		if !a.ended() {
			t.Fatal("the old session goes on")
		}
		if b != nil {
			b.conn.Close()
			b.ended()
		}
		c := zzLogin(t, z, 1)
		if !zzPing(c) {
			t.Fatal("the account is not served again")
		}
		if !zzRegistered(z, zzKey(t, 1)) {
			t.Fatal("the session is not registered")
		}
		c.bye()
	}
	if !zzPing(other) {
		t.Fatal("another account's session ended")
	}
}

func TestReplayC25Disable(t *testing.T) {
	z, d := zzUsers(t, 3)
	other := zzLogin(t, z, 2)
	k := zzKey(t, 1)
	for _, id := range []string{k, strings.ToUpper(k), strings.ToUpper(k[:9]) + k[9:]} {
		c := zzLogin(t, z, 1)
		if !zzPing(c) {
			t.Fatal("no session")
		}
		if e := zzAdminCmd(t, z, socketapi.SCUserDisable, id); e != "" {
			t.Fatal(e)
		}
		if !c.ended() {
			t.Fatalf("disabling %v does not end its session", id)
		}
		if zzTry(t, z, 1) != nil {
			t.Fatal("a disabled account got a session")
		}
		if !zzPing(other) {
			t.Fatal("disabling an account ended another's session")
		}
		if e := zzAdminCmd(t, z, socketapi.SCUserEnable, id); e != "" {
			t.Fatal(e)
		}
	}
	for _, id := range []string{"", "00", k[:62], k[:63], k + "00", strings.Repeat("ab", 31), strings.Repeat("ab", 33), strings.Repeat("ab", 32), "zz" + k[2:], " " + k, "../" + k, hex.EncodeToString([]byte("."))} {
		for _, cmd := range []string{socketapi.SCUserDisable, socketapi.SCUserEnable} {
			if zzAdminCmd(t, z, cmd, id) == "" {
				t.Fatalf("%v %q is reported to have worked", cmd, id)
			}
		}
	}
	for i := 1; i <= 3; i++ {
		if !zzHas(t, z, i) {
			t.Fatalf("account %d is gone", i)
		}
		if _, err := os.Stat(filepath.Join(d, "users", zzKey(t, i))); err != nil {
			t.Fatal(err)
		}
	}
	if !zzPing(other) {
		t.Fatal("another account's session ended")
	}
}

// zzGate holds one write of the server back.
type zzGate struct {
	net.Conn
	n    int // writes so far
	hold int // the one to hold back
	at   chan struct{}
	free chan struct{}
}

func (g *zzGate) Write(b []byte) (int, error) {
	if g.n++; g.n == g.hold {
		close(g.at)
		<-g.free
	}
	return g.Conn.Write(b)
}

// An account disabled between the check and the session.
func TestReplayC25DisableRace(t *testing.T) {
	z, _ := zzUsers(t, 1)
	g := &zzGate{}
	zzWrap = func(c net.Conn) net.Conn { g.Conn = c; return g }
	defer func() { zzWrap = nil }()
	zzLogin(t, z, 1).bye()
	n := g.n // the last write was the welcome
	for i := n - 4; i <= n; i++ {
		if i < 1 {
			continue
		}
		g = &zzGate{hold: i, at: make(chan struct{}), free: make(chan struct{})}
		got := make(chan *zzClient, 1)
		go func() { got <- zzTry(t, z, 1) }()
		select {
		case <-g.at:
		case <-time.After(10 * time.Second):
			t.Fatal("no welcome")
		}
		if e := zzAdminCmd(t, z, socketapi.SCUserDisable, zzKey(t, 1)); e != "" {
			t.Fatal(e)
		}
		close(g.free)
		if c := <-got; c != nil {
			select {
			case <-c.gone:
			case <-time.After(5 * time.Second):
				t.Fatal("a disabled account keeps its session")
			}
		}
		if e := zzAdminCmd(t, z, socketapi.SCUserEnable, zzKey(t, 1)); e != "" {
			t.Fatal(e)
		}
	}
	g = &zzGate{}
	// when the administrator has the lock first, the session is not visible
	z.Lock()
	got := make(chan *zzClient, 1)
	go func() { got <- zzTry(t, z, 1) }()
	for i := 0; i < 1000; i++ {
		b := make([]byte, 1<<20)
		for _, s := range strings.Split(string(b[:runtime.Stack(b, true)]), "\n\n") {
			if strings.Contains(s, ").handleSession(") && strings.Contains(s, "Mutex).") {
				i = 1000
			}
		}
		time.Sleep(5 * time.Millisecond)
	}
	r := z.handleIdentityDisable(socketapi.SocketCommandUserDisable{Identity: zzKey(t, 1)})
	z.Unlock()
	if r.Error != "" {
		t.Fatal(r.Error)
	}
	if c := <-got; c != nil {
		select {
		case <-c.gone:
		case <-time.After(5 * time.Second):
			t.Fatal("a disabled account keeps its session")
		}
	}
	if e := zzAdminCmd(t, z, socketapi.SCUserEnable, zzKey(t, 1)); e != "" {
		t.Fatal(e)
	}
	// and at any time
	for round := 0; round < 40; round++ {
		got := make(chan *zzClient, 1)
		go func() { got <- zzTry(t, z, 1) }()
		time.Sleep(time.Duration(round*300) * time.Microsecond)
		if e := zzAdminCmd(t, z, socketapi.SCUserDisable, zzKey(t, 1)); e != "" {
			t.Fatal(e)
		}
		if c := <-got; c != nil {
			select {
			case <-c.gone:
			case <-time.After(5 * time.Second):
				t.Fatal("a disabled account keeps its session")
			}
		}
		if e := zzAdminCmd(t, z, socketapi.SCUserEnable, zzKey(t, 1)); e != "" {
			t.Fatal(e)
		}
	}
}

// A client that sends and never reads.
func TestReplayC25Deaf(t *testing.T) {
	z, _ := zzUsers(t, 2)
	c := zzLogin(t, z, 1)
	c.conn.(*net.TCPConn).SetReadBuffer(2048)
	c.conn.SetWriteDeadline(time.Now().Add(3 * time.Second))
	big := strings.Repeat("n", 60000)
	for i := 0; i < 2000; i++ {
		if !c.send(rpc.TaggedCmdIdentityFind, uint32(i%tagDepth), rpc.IdentityFind{Nick: big}) {
			break
		}
	}
	c.conn.Close()
	if !c.ended() {
		t.Fatal("the session of a closed connection does not end")
	}
	d := zzLogin(t, z, 1)
	if !zzPing(d) {
		t.Fatal("the account is not served again")
	}
	d.bye()
}

// The writers of a session end with it.
func TestReplayC25Writers(t *testing.T) {
	z, _ := zzUsers(t, 2)
	z.settings.CreatePolicy = "no"
	count := func() int {
		b := make([]byte, 1<<20)
		s := string(b[:runtime.Stack(b, true)])
		return strings.Count(s, ").sessionWriter(") + strings.Count(s, ").sessionNtfn(")
	}
	settle := func(n int) int {
		k := 0
		for i := 0; i < 400; i++ {
			if k = count(); k <= n {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		return k
	}
	base := settle(0)
	for round := 0; round < 5; round++ {
		c := zzLogin(t, z, 1)
		if !zzPing(c) {
			t.Fatal("no session")
		}
		c.bye()
	}
	if k := settle(base); k > base {
		t.Fatalf("%d writers of ended sessions remain", k-base)
	}
}

// A session that comes up while the account is being disabled.
func TestReplayC25DisableWaits(t *testing.T) {
	for round := 0; round < 5; round++ {
		z, _ := zzUsers(t, 1)
		zzIdentity(t, 1)
		z.Lock()
		a, b := net.Pipe()
		go z.socketHandler(b)
		e := json.NewEncoder(a)
		e.Encode(socketapi.SocketCommandID{Version: socketapi.SCVersion, Command: socketapi.SCUserDisable})
		e.Encode(socketapi.SocketCommandUserDisable{Identity: zzKey(t, 1)})
		time.Sleep(100 * time.Millisecond)
		got := make(chan *zzClient, 1)
		go func() { got <- zzTry(t, z, 1) }()
		time.Sleep(time.Duration(100*round) * time.Millisecond)
		z.account.Lock()
		z.Unlock()
		time.Sleep(100 * time.Millisecond)
		z.account.Unlock()
		a.SetDeadline(time.Now().Add(20 * time.Second))
		var r socketapi.SocketCommandUserDisableReply
		if err := json.NewDecoder(a).Decode(&r); err != nil || r.Error != "" {
			t.Fatal(err, r)
		}
		a.Close()
		if c := <-got; c != nil {
			select {
			case <-c.gone:
			case <-time.After(5 * time.Second):
				t.Fatal("a disabled account keeps its session")
			}
		}
	}
}
