package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"errors"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/tools"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"github.com/nsf/termbox-go"
)

// zzGate is a connection that is waited for.
type zzGate struct {
	net.Conn
	at   chan struct{}
	once sync.Once
	c    chan net.Conn
}

func (g *zzGate) wait() net.Conn {
	g.once.Do(func() {
		close(g.at)
		g.Conn = <-g.c
	})
	return g.Conn
}

func (g *zzGate) Read(b []byte) (int, error)  { return g.wait().Read(b) }
func (g *zzGate) Write(b []byte) (int, error) { return g.wait().Write(b) }

// zzReady is a server about to answer a key exchange.
type zzReady struct {
	kx  *session.KX
	g   *zzGate
	res chan error
}

// zzPool prepares key exchanges: client and server share what the session
// package keeps in memory, and the client wipes it.
func (h *zzHost) zzPool(id *zkidentity.FullIdentity, n int) {
	session.Init()
	h.ready = nil
	for i := 0; i < n; i++ {
		g := &zzGate{at: make(chan struct{}), c: make(chan net.Conn, 1)}
		r := &zzReady{g: g, res: make(chan error, 1), kx: &session.KX{Conn: g, MaxMessageSize: 1 << 20, OurPublicKey: &id.Public.Key, OurPrivateKey: &id.PrivateKey}}
		go func() { r.res <- r.kx.Respond() }()
		<-g.at
		h.ready = append(h.ready, r)
	}
}

// zzHost is a server as far as going online takes it.
type zzHost struct {
	addr  string
	id    *zkidentity.FullIdentity   // it has the key of
	show  *zkidentity.PublicIdentity // it says it is
	props []rpc.ServerProperty
	deny  string // accounts are refused
	bye   bool   // nobody is welcome
	ver   int

	sync.Mutex
	cert tls.Certificate
	cmds []string
	acc  []rpc.CreateAccount
	recs []bool // the client had a record of the server when it was welcomed
	rec  func() bool
	open int
	all  int

	ready []*zzReady
}

func zzCertFor(t *testing.T) tls.Certificate {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Skip(err)
	}
	n, _ := rand.Int(rand.Reader, big.NewInt(1<<60))
	c := &x509.Certificate{SerialNumber: n, Subject: pkix.Name{CommonName: "server"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	b, err := x509.CreateCertificate(rand.Reader, c, c, &k.PublicKey, k)
	if err != nil {
		t.Skip(err)
	}
	return tls.Certificate{Certificate: [][]byte{b}, PrivateKey: k}
}

func zzProps(kv ...string) (out []rpc.ServerProperty) {
	m := map[string]string{
		rpc.PropTagDepth:          "10",
		rpc.PropServerTime:        "1500000000",
		rpc.PropMaxAttachmentSize: "4096",
		rpc.PropMaxChunkSize:      "512",
		rpc.PropMaxMsgSize:        "8192",
		rpc.PropDirectory:         "false",
	}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i]] = kv[i+1]
	}
	for k, v := range m {
		if v != "-" {
			out = append(out, rpc.ServerProperty{Key: k, Value: v, Required: true})
		}
	}
	return
}

func zzListen(t *testing.T, n int) *zzHost {
	t.Helper()
	h := &zzHost{cert: zzCertFor(t), props: zzProps(), ver: rpc.ProtocolVersion}
	var err error
	h.id, err = zkidentity.New("server", "server")
	if err != nil {
		t.Skip(err)
	}
	h.show = &h.id.Public
	h.zzPool(h.id, n)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	t.Cleanup(func() { l.Close() })
	h.addr = l.Addr().String()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go h.serve(c)
		}
	}()
	return h
}

func (h *zzHost) serve(raw net.Conn) {
	h.Lock()
	h.open++
	h.all++
	cert := h.cert
	h.Unlock()
	defer func() {
		raw.Close()
		h.Lock()
		h.open--
		h.Unlock()
	}()
	raw.SetDeadline(time.Now().Add(60 * time.Second))
	c := tls.Server(raw, &tls.Config{Certificates: []tls.Certificate{cert}, MinVersion: tls.VersionTLS12})
	for {
		var cmd string
		if _, err := xdr.UnmarshalLimited(c, &cmd, 64); err != nil {
			return
		}
		h.Lock()
		h.cmds = append(h.cmds, cmd)
		h.Unlock()
		switch cmd {
		case rpc.InitialCmdIdentify:
			if _, err := xdr.Marshal(c, *h.show); err != nil {
				return
			}
		case rpc.InitialCmdCreateAccount:
			var ca rpc.CreateAccount
			if _, err := xdr.Unmarshal(c, &ca); err != nil {
				return
			}
			h.Lock()
			h.acc = append(h.acc, ca)
			h.Unlock()
			if _, err := xdr.Marshal(c, rpc.CreateAccountReply{Error: h.deny}); err != nil {
				return
			}
		case rpc.InitialCmdSession:
			h.Lock()
			var r *zzReady
			if len(h.ready) > 0 {
				r, h.ready = h.ready[0], h.ready[1:]
			}
			h.Unlock()
			if r == nil {
				return
			}
			r.g.c <- c
			if <-r.res != nil {
				return
			}
			kx := r.kx
			if h.rec != nil {
				// no welcome until there is one
				ok := false
				for i := 0; i < 200 && !ok; i++ {
					time.Sleep(10 * time.Millisecond)
					ok = h.rec()
				}
				h.Lock()
				h.recs = append(h.recs, ok)
				h.Unlock()
			}
			var bb bytes.Buffer
			if h.bye {
				xdr.Marshal(&bb, rpc.Message{Command: rpc.SessionCmdUnwelcome})
				xdr.Marshal(&bb, rpc.Unwelcome{Version: h.ver, Reason: "go away"})
			} else {
				xdr.Marshal(&bb, rpc.Message{Command: rpc.SessionCmdWelcome})
				xdr.Marshal(&bb, rpc.Welcome{Version: h.ver, ServerTime: time.Now().Unix(), Properties: h.props})
			}
			if kx.Write(bb.Bytes()) != nil {
				return
			}
			for {
				if _, err := kx.Read(); err != nil {
					return
				}
			}
		default:
			return
		}
	}
}

// zzGone waits until the client left all its connections but n.
func (h *zzHost) zzGone(n int) bool {
	for i := 0; i < 500; i++ {
		h.Lock()
		o := h.open
		h.Unlock()
		if o <= n {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

func (h *zzHost) zzDid() (out string) {
	h.Lock()
	defer h.Unlock()
	return strings.Join(h.cmds, " ")
}

// zzKnows makes the client one that has an account with the server.
func zzKnows(t *testing.T, h *zzHost) *ZKC {
	z := zzClient(t, "alice")
	z.online, z.tagStack, z.tagCallback = false, nil, nil
	z.serverAddress = h.addr
	p := h.id.Public
	z.serverIdentity = &p
	z.cert = append([]byte(nil), h.cert.Certificate[0]...)
	t.Cleanup(func() { zzBye(z) })
	return z
}

func zzBye(z *ZKC) {
	z.Lock()
	z.offline = true
	if z.kx != nil {
		z.kx.Close()
	}
	z.Unlock()
	for i := 0; i < 500 && z.isOnline(); i++ {
		time.Sleep(10 * time.Millisecond)
	}
}

func zzTry(t *testing.T, z *ZKC) (err error) {
	t.Helper()
	zzTrap(t, "goOnline", func() { _, err = z.goOnline() })
	return
}

// zzOff asserts that the client is offline and left the server alone.
func zzOff(t *testing.T, what string, z *ZKC, h *zzHost, err error) {
	t.Helper()
	if err == nil || z.isOnline() || z.kx != nil {
		t.Fatalf("%v: the client is online (%v)", what, err)
	}
	if !h.zzGone(0) {
		t.Fatalf("%v: the connection that is not used stays open", what)
	}
}

func TestReplayC28Online(t *testing.T) {
	h := zzListen(t, 60)
	z := zzKnows(t, h)
	id, cert := z.serverIdentity, append([]byte(nil), z.cert...)
	kept := func(what string) {
		t.Helper()
		if z.serverIdentity != id || !reflect.DeepEqual(*id, h.id.Public) || !bytes.Equal(z.cert, cert) {
			t.Fatalf("%v: the server that was accepted was replaced", what)
		}
	}
	if err := zzTry(t, z); err != nil || !z.isOnline() {
		t.Fatalf("the server that was accepted is refused: %v", err)
	}
	if len(z.tagCallback) != 10 || z.chunkSize != 512 || z.msgSize != 8192 || z.attachmentSize != 4096 {
		t.Fatal("the properties of the server are not used")
	}
	if x, ok := z.kx.TheirIdentity().([32]byte); !ok || x != h.id.Public.Identity {
		t.Fatal("the session is not with the server that was accepted")
	}
	kx := z.kx
	if err := zzTry(t, z); err == nil || z.kx != kx || !z.isOnline() {
		t.Fatal("a client that is online connects again")
	}
	kept("online")
	zzBye(z)
	z.offline = false
	if !h.zzGone(0) {
		t.Fatal("going offline leaves the connection")
	}

	// other certificates
	good := h.cert
	tail := append([]byte(nil), good.Certificate[0]...)
	tail[len(tail)-1] ^= 1
	long := zzCertFor(t)
	for i, c := range []tls.Certificate{
		zzCertFor(t),
		{Certificate: [][]byte{tail}, PrivateKey: good.PrivateKey},
		long,
		{Certificate: [][]byte{long.Certificate[0], good.Certificate[0]}, PrivateKey: long.PrivateKey},
		{Certificate: [][]byte{good.Certificate[0], long.Certificate[0]}, PrivateKey: good.PrivateKey},
	} {
		what := "another certificate " + strconv.Itoa(i)
		did := h.zzDid()
		h.Lock()
		h.cert = c
		h.Unlock()
		z.provisionalCert = nil
		err := zzTry(t, z)
		zzOff(t, what, z, h, err)
		kept(what)
		if h.zzDid() != did {
			t.Fatalf("%v: the client talks to a server that was not accepted", what)
		}
		if len(c.Certificate) > 1 {
			continue
		}
		if !errors.Is(err, errCert) || !bytes.Equal(z.provisionalCert, c.Certificate[0]) {
			t.Fatalf("%v: the change is not reported: %v", what, err)
		}
		sum := sha256.Sum256(c.Certificate[0])
		if err = z.goOnlineAndPrint(); !errors.Is(err, errCert) {
			t.Fatalf("%v: the change is not reported: %v", what, err)
		}
		if len(zzShows(z, hex.EncodeToString(sum[:]))) == 0 && z.conversation[0].console != nil {
			t.Fatalf("%v: the new certificate is not shown", what)
		}
		kept(what)
	}
	for _, c := range [][]byte{nil, {}, cert[:len(cert)-1], append(append([]byte(nil), cert...), 0)} {
		h.Lock()
		h.cert = good
		h.Unlock()
		did := h.zzDid()
		z.cert = c
		err := zzTry(t, z)
		if h.zzDid() != did || err == nil || !bytes.Equal(z.cert, c) {
			t.Fatal("the client talks to a server whose certificate was not accepted")
		}
		zzOff(t, "no certificate", z, h, err)
	}
	z.cert = cert

	// another identity behind the certificate
	other, err := zkidentity.New("server", "server")
	if err != nil {
		t.Skip(err)
	}
	ready := h.ready
	h.zzPool(other, 1)
	err = zzTry(t, z)
	zzOff(t, "another identity", z, h, err)
	h.ready = ready
	kept("another identity")

	// no identity at all
	z.serverIdentity = nil
	err = zzTry(t, z)
	zzOff(t, "no identity", z, h, err)
	z.serverIdentity = id

	// what the server says of itself
	for _, kv := range [][]string{
		{rpc.PropTagDepth, "0"}, {rpc.PropTagDepth, "-1"}, {rpc.PropTagDepth, "-2"}, {rpc.PropTagDepth, "33"}, {rpc.PropTagDepth, "-9223372036854775808"},
		{rpc.PropTagDepth, "x"}, {rpc.PropTagDepth, "-"}, {rpc.PropTagDepth, "4294967297"},
		{rpc.PropMaxChunkSize, "0"}, {rpc.PropMaxChunkSize, "-"}, {rpc.PropMaxChunkSize, "8193"}, {rpc.PropMaxChunkSize, "-1"},
		{rpc.PropMaxMsgSize, "0"}, {rpc.PropMaxMsgSize, "-"}, {rpc.PropMaxMsgSize, "511"}, {rpc.PropMaxMsgSize, "18446744073709551615"},
		{rpc.PropMaxMsgSize, "18446744073709551615", rpc.PropMaxChunkSize, "18446744073709551615"},
		{rpc.PropMaxMsgSize, "9223372036854775808", rpc.PropMaxChunkSize, "9223372036854775808"},
		{rpc.PropMaxAttachmentSize, "0"}, {rpc.PropMaxAttachmentSize, "-"}, {rpc.PropServerTime, "-"}, {rpc.PropServerTime, "now"},
		{rpc.PropDirectory, "maybe"}, {"unheardof", "1"},
	} {
		h.props = zzProps(kv...)
		err = zzTry(t, z)
		zzOff(t, strings.Join(kv, " "), z, h, err)
		kept(strings.Join(kv, " "))
	}
	for _, d := range []string{"1", "32"} {
		h.props = zzProps(rpc.PropTagDepth, d)
		if err = zzTry(t, z); err != nil || strconv.Itoa(len(z.tagCallback)) != d {
			t.Fatalf("tag depth %v is not used: %v", d, err)
		}
		zzBye(z)
		z.offline = false
		h.zzGone(0)
	}
	h.props = zzProps()
	h.ver++
	err = zzTry(t, z)
	zzOff(t, "another version", z, h, err)
	h.ver--
	h.bye = true
	err = zzTry(t, z)
	zzOff(t, "unwelcome", z, h, err)
	if !z.offline {
		t.Fatal("a client that is not welcome tries again")
	}
	kept("unwelcome")
}

// zzRead is a client that starts with what another one recorded.
func zzRead(t *testing.T, z *ZKC) *ZKC {
	t.Helper()
	db, err := inidb.New(filepath.Join(z.settings.Root, tools.ZKCServerFilename), false, 10)
	if err != nil {
		return nil
	}
	y := new(ZKC)
	if err = y.parseMyServer(db); err != nil {
		t.Fatalf("the server that was recorded is not read: %v", err)
	}
	if err = y.parseMyIdentity(db); err != nil {
		t.Fatalf("the identity that was recorded is not read: %v", err)
	}
	return y
}

func zzRecorded(t *testing.T, what string, z *ZKC, id zkidentity.PublicIdentity, cert []byte) {
	t.Helper()
	y := zzRead(t, z)
	if y == nil {
		t.Fatalf("%v: the server is not recorded", what)
	}
	if !reflect.DeepEqual(*y.serverIdentity, id) || !bytes.Equal(y.cert, cert) || y.serverAddress != z.serverAddress || !reflect.DeepEqual(*y.id, *z.id) {
		t.Fatalf("%v: what is read is not what was recorded", what)
	}
}

func TestReplayC28NewCertificate(t *testing.T) {
	h := zzListen(t, 8)
	z := zzKnows(t, h)
	id := *z.serverIdentity
	accept := func() (err error) {
		zzTrap(t, cmdAcceptnewcert, func() { err = z.mw.action(cmdAcceptnewcert) })
		return
	}
	os.MkdirAll(filepath.Dir(filepath.Join(z.settings.Root, tools.ZKCServerFilename)), 0700)
	if err := z.saveServerRecord(&id, z.cert); err != nil {
		t.Skip(err)
	}
	zzRecorded(t, "account", z, id, z.cert)
	old := append([]byte(nil), z.cert...)
	if accept() == nil || !bytes.Equal(z.cert, old) {
		t.Fatal("a certificate that nobody showed is accepted")
	}
	if err := zzTry(t, z); err != nil {
		t.Fatal(err)
	}
	if accept() == nil || !bytes.Equal(z.cert, old) {
		t.Fatal("a certificate that nobody showed is accepted")
	}
	zzBye(z)
	z.offline = false
	h.zzGone(0)
	zzRecorded(t, "online", z, id, old)

	h.Lock()
	h.cert = zzCertFor(t)
	one := h.cert
	h.Unlock()
	if !errors.Is(zzTry(t, z), errCert) {
		t.Fatal("another certificate is not refused")
	}
	zzRecorded(t, "shown", z, id, old)
	h.Lock()
	h.cert = zzCertFor(t)
	two := h.cert
	h.Unlock()

	// it can not be recorded
	zzFull(t, 0, func() {
		if accept() == nil || !bytes.Equal(z.cert, old) {
			t.Error("a certificate that is not recorded is accepted")
		}
	})
	if err := accept(); err != nil {
		t.Fatalf("the certificate that was shown is not accepted: %v", err)
	}
	if !bytes.Equal(z.cert, one.Certificate[0]) {
		t.Fatal("another certificate than the one that was shown is accepted")
	}
	zzRecorded(t, "accepted", z, id, one.Certificate[0])
	if accept() == nil {
		t.Fatal("a certificate is accepted twice")
	}
	err := zzTry(t, z)
	zzOff(t, "yet another certificate", z, h, err)
	if !errors.Is(err, errCert) || !bytes.Equal(z.provisionalCert, two.Certificate[0]) {
		t.Fatalf("yet another certificate is not refused: %v", err)
	}
	zzRecorded(t, "accepted", z, id, one.Certificate[0])
	h.Lock()
	h.cert = one
	h.Unlock()
	if err = zzTry(t, z); err != nil {
		t.Fatalf("the certificate that was accepted is refused: %v", err)
	}
	if !reflect.DeepEqual(*z.serverIdentity, id) {
		t.Fatal("another identity is accepted along with a certificate")
	}
}

// zzAsks returns the question the user is asked.
func zzAsks(z *ZKC) *acceptWindow {
	if z.ttkAW == nil {
		return nil
	}
	v := reflect.ValueOf(z.ttkAW).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Type.String() == "ttk.Windower" {
			w := *(*ttk.Windower)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
			if aw, ok := w.(*acceptWindow); ok {
				return aw
			}
		}
	}
	return nil
}

func TestReplayC28Account(t *testing.T) {
	zzScreen(t)
	form := func(h *zzHost, z *ZKC) *welcomeWindow {
		ww := &welcomeWindow{zkc: z}
		z.ttkWW = ttk.NewWindow(ww)
		ww.name, ww.nick, ww.server, ww.token = "Alice", "alice", h.addr, "12 34"
		zzTrap(t, "form", func() { ww.KeyHandler(z.ttkWW, ttk.Key{Key: termbox.KeyEnter, Widget: ww.tokenInput}) })
		zzDrawn()
		return ww
	}
	answer := func(z *ZKC, aw *acceptWindow, s string) {
		aw.question = s
		zzTrap(t, "answer", func() { aw.KeyHandler(z.ttkAW, ttk.Key{Key: termbox.KeyEnter, Widget: aw.questionInput}) })
		zzDrawn()
	}
	fresh := func(h *zzHost) *ZKC {
		z := zzKnows(t, h)
		z.serverIdentity, z.cert = nil, nil
		os.MkdirAll(filepath.Dir(filepath.Join(z.settings.Root, tools.ZKCServerFilename)), 0700)
		h.rec = func() bool {
			db, err := inidb.New(filepath.Join(z.settings.Root, tools.ZKCServerFilename), false, 10)
			return err == nil && new(ZKC).parseMyServer(db) == nil
		}
		return z
	}

	// an honest server
	h := zzListen(t, 4)
	z := fresh(h)
	form(h, z)
	aw := zzAsks(z)
	if aw == nil {
		t.Fatal("the user is not asked about a server")
	}
	if !reflect.DeepEqual(*aw.pid, h.id.Public) || !bytes.Equal(aw.cs.PeerCertificates[0].Raw, h.cert.Certificate[0]) {
		t.Fatal("the user is asked about another server")
	}
	for _, s := range []string{"", "no", "y", "ye", " yes", "yess"} {
		answer(z, aw, s)
		if h.zzDid() != rpc.InitialCmdIdentify || z.serverIdentity != nil || z.cert != nil || zzRead(t, z) != nil {
			t.Fatalf("answer %q: the server is used", s)
		}
	}
	answer(z, aw, "yes")
	if !z.isOnline() || *z.serverIdentity != h.id.Public || !bytes.Equal(z.cert, h.cert.Certificate[0]) {
		t.Fatal("the server that was accepted is not used")
	}
	if len(h.acc) != 1 || h.acc[0].Token != "1234" || h.acc[0].PublicIdentity != z.id.Public || !z.id.Public.Verify() {
		t.Fatal("the account is not that of the user")
	}
	zzRecorded(t, "account", z, h.id.Public, h.cert.Certificate[0])
	if len(h.recs) != 1 || !h.recs[0] {
		t.Fatal("the client is online with an account that is not recorded")
	}

	// a server that shows an identity whose key it does not have
	h = zzListen(t, 4)
	z = fresh(h)
	real, err := zkidentity.New("server", "server")
	if err != nil {
		t.Skip(err)
	}
	for i := 0; i < 4; i++ {
		p := h.id.Public
		switch i {
		case 0:
			p.Identity = real.Public.Identity
		case 1:
			p.Identity[31] ^= 1
		case 2:
			p.Name = "another"
		case 3:
			p = real.Public
			p.Key = h.id.Public.Key
		}
		h.show, z.ttkAW = &p, nil
		form(h, z)
		if aw = zzAsks(z); aw != nil {
			t.Fatalf("the user is asked about an identity that is forged (%v)", i)
		}
	}
	h.zzGone(0)
	h.show, z.ttkAW = &real.Public, nil
	form(h, z)
	if aw = zzAsks(z); aw == nil {
		t.Fatal("the user is not asked about a server")
	}
	answer(z, aw, "yes")
	if z.isOnline() || z.serverIdentity != nil || z.cert != nil || zzRead(t, z) != nil {
		t.Fatal("a server that can not prove its identity is used")
	}

	// accounts that are not made
	for _, what := range []string{"deny", "bye", "full", "props"} {
		h = zzListen(t, 4)
		z = fresh(h)
		form(h, z)
		if aw = zzAsks(z); aw == nil {
			t.Fatal("the user is not asked about a server")
		}
		switch what {
		case "deny":
			h.deny = "no"
		case "bye":
			h.bye = true
		case "props":
			h.props = zzProps(rpc.PropTagDepth, "33")
		}
		if what == "full" {
			zzFull(t, 0, func() { answer(z, aw, "yes") })
		} else {
			answer(z, aw, "yes")
		}
		if z.isOnline() || z.kx != nil {
			t.Fatalf("%v: the client is online", what)
		}
		switch what {
		case "deny":
			if zzRead(t, z) != nil || z.serverIdentity != nil {
				t.Fatalf("%v: a server without account is recorded", what)
			}
		case "bye", "props":
			// the account was made
			zzRecorded(t, what, z, h.id.Public, h.cert.Certificate[0])
		}
	}

	// a server that is known
	h = zzListen(t, 4)
	for _, same := range []bool{true, false} {
		z = zzKnows(t, h)
		os.MkdirAll(filepath.Dir(filepath.Join(z.settings.Root, tools.ZKCServerFilename)), 0700)
		h.rec = nil
		if !same {
			h.Lock()
			h.cert = zzCertFor(t)
			h.Unlock()
		}
		n, old := len(h.acc), z.cert
		form(h, z)
		if same {
			if !z.isOnline() || len(h.acc) != n+1 {
				t.Fatal("a server that is known is not used")
			}
			zzRecorded(t, "known", z, h.id.Public, h.cert.Certificate[0])
		} else if z.isOnline() || len(h.acc) != n || !bytes.Equal(z.cert, old) || zzRead(t, z) != nil {
			t.Fatal("another certificate of a server that is known is accepted")
		}
	}
}
