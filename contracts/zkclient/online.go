package main

import (
	"crypto/tls"
	"crypto/x509"
	"errors"
	"io"
	"math"
	"net"
	"path"
	"strings"
	"time"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/tagstack"
	"github.com/companyzero/zkc/tools"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zzv"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"github.com/nsf/termbox-go"
)

// Going online.  zzNet is the connection, zzPres the certificate it came with,
// zzOnKX the session on it.
var (
	zzNet     net.Conn
	zzPres    []byte
	zzTLS     *tls.ConnectionState
	zzOnKX    *session.KX
	zzShut    bool
	zzProven  bool // the key exchange with the server completed
	zzGreeted bool // the server welcomed us
	zzReaders int
	zzRec     bool // the server record was saved
	zzPid     *zkidentity.PublicIdentity
	zzOldID   *zkidentity.PublicIdentity
	zzOldCert []byte
	zzSteps   int
)

func zzSetupOn(z *ZKC) {
	zzSetupZ(z)
	zzNet, zzPres, zzTLS, zzOnKX, zzPid = nil, nil, nil, nil, nil
	zzShut, zzProven, zzGreeted, zzRec, zzReaders, zzSteps = false, false, false, false, 0, 0
	zzOldID, zzOldCert = z.serverIdentity, z.cert
}

func zzMkConn() {
	zzNet = new(tls.Conn)
	zzPres = zzv.FreshBytes("cert", -1)
	c := new(x509.Certificate)
	c.Raw = zzPres
	zzTLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{c}}
}

func zzDialed(z *ZKC) (net.Conn, *tls.ConnectionState, error) {
	zzv.Assert("one connection is made, while offline", zzNet == nil && !z.online)
	zzv.Assert("connecting excludes other attempts", zzv.LockState(&z.RWMutex) == 1)
	if zzv.Choose() {
		return nil, nil, zzv.NewErr()
	}
	zzMkConn()
	return zzNet, zzTLS, nil
}

func zzShutConn(c *tls.Conn) error {
	zzv.Assert("a connection in use is not closed", zzReaders == 0)
	zzShut = true
	return nil
}

func zzSessOn(z *ZKC, conn net.Conn) (*session.KX, error) {
	zzv.Assert("a session is started on the connection that was made, once", conn == zzNet && !zzShut && !zzProven)
	zzv.Assert("a session is started only with the certificate that was accepted", zzv.EqB(zzPres, z.cert))
	zzv.Assert("a session is started only with the server identity that was accepted", z.serverIdentity != nil && (z.serverIdentity == zzOldID || z.serverIdentity == zzPid))
	zzv.Assert("the session is set up under the lock", zzv.LockState(&z.RWMutex) == 1)
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzProven = true
	zzOnKX = new(session.KX)
	return zzOnKX, nil
}

func zzWelcomeOn(z *ZKC, kx *session.KX) (*rpc.Welcome, error) {
	zzv.Assert("the session that was set up is used", zzProven && kx == zzOnKX && !zzShut)
	zzv.Assert("the session is set up under the lock", zzv.LockState(&z.RWMutex) == 1)
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzGreeted = true
	z.kx, z.online = kx, true
	return new(rpc.Welcome), nil
}

func zzReader(z *ZKC) {
	zzv.Assert("the session is read once it is set up", zzGreeted && z.online && z.kx == zzOnKX && !zzShut)
	zzReaders++
}

//@ verify C28 C22 C23 nopanic locks
//@ use (*zkclient.ZKC).preSessionPhase := zzDialed
//@ use (*zkclient.ZKC).sessionPhase := zzSessOn
//@ use (*zkclient.ZKC).welcomePhase := zzWelcomeOn
//@ use go (*zkclient.ZKC).handleRPC := zzReader
//@ use (*crypto/tls.Conn).Close := zzShutConn
//@ use (*zkclient.ZKC).printf := zzPrint
func zzvGoOnline(z *ZKC) {
	zzSetupOn(z)
	zzv.Assume(z.serverIdentity != nil)
	was := z.online
	w, err := z.goOnline()
	zzv.Assert("connecting accepts neither another certificate nor another identity", zzv.EqB(z.cert, zzOldCert) && z.serverIdentity == zzOldID)
	if err == nil {
		zzv.Assert("online means that the session is set up and read", w != nil && !was && zzReaders == 1 && zzv.EqB(zzPres, zzOldCert))
		zzv.Reach("online")
		return
	}
	zzv.Assert("a connection that is not used is closed", zzNet == nil || zzShut)
	zzv.Assert("a failure leaves the client as it was", z.online == was && zzReaders == 0)
	if zzNet != nil && !zzv.EqB(zzPres, zzOldCert) {
		zzv.Assert("a changed certificate is reported", errors.Is(err, errCert) && zzv.EqB(z.provisionalCert, zzPres))
		zzv.Reach("changed")
	} else {
		zzv.Reach("failed")
	}
}

// What is shown when the certificate changed.
var zzCertOut bool

func zzOnlineOrNot(z *ZKC) (*rpc.Welcome, error) {
	if zzv.Choose() {
		zzPres = zzv.FreshBytes("cert", -1)
		z.provisionalCert = zzPres
		return nil, errCert
	}
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	return new(rpc.Welcome), nil
}
func zzFP(b []byte) string { return zzv.CtorString("fp", -1, b) }
func zzPrintFP(z *ZKC, id int, ts time.Time, local bool, format string, args ...interface{}) {
	if len(args) == 1 {
		if s, ok := args[0].(string); ok && zzPres != nil && zzv.EqB(s, zzFP(zzPres)) {
			zzCertOut = true
		}
	}
}
func zzWelcomeU(z *ZKC, w *rpc.Welcome) error {
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

//@ verify C28 C23 C22 nopanic locks
//@ use (*zkclient.ZKC).goOnline := zzOnlineOrNot
//@ use (*zkclient.ZKC).printf := zzPrintFP
//@ use (*zkclient.ZKC).welcomeUser := zzWelcomeU
//@ use tools.Fingerprint := zzFP
func zzvShowCert(z *ZKC) {
	zzSetupOn(z)
	zzCertOut = false
	err := z.goOnlineAndPrint()
	if zzPres != nil {
		zzv.Assert("the certificate that may be accepted is shown", zzCertOut && errors.Is(err, errCert))
		zzv.Reach("changed")
	}
}

// Connecting.
func zzDial(d *net.Dialer, network, addr string, c *tls.Config) (*tls.Conn, error) {
	zzv.Assert("the server that was chosen is connected to", zzv.EqB(addr, zzC.serverAddress) && addr != "")
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	t := new(tls.Conn)
	zzNet = t
	return t, nil
}
func zzTLSState(c *tls.Conn) tls.ConnectionState {
	zzv.Assert("the connection that was made is looked at", c == zzNet)
	var s tls.ConnectionState
	zzv.Havoc(&s.PeerCertificates)
	zzv.NoNils(s.PeerCertificates)
	return s
}

//@ verify C28 C22 C23 nopanic locks
//@ use crypto/tls.DialWithDialer := zzDial
//@ use (*crypto/tls.Conn).ConnectionState := zzTLSState
//@ use (*crypto/tls.Conn).Close := zzShutConn
//@ use (*debug.Debug).Dbg := zzDbgLog
func zzvDial(z *ZKC) {
	zzSetupOn(z)
	conn, cs, err := z.preSessionPhase()
	if err == nil {
		zzv.Assert("a connection comes with the certificate of the server", conn == zzNet && cs != nil && len(cs.PeerCertificates) == 1 && !zzShut)
		zzv.Reach("connected")
	} else {
		zzv.Assert("a connection that is refused is closed", zzNet == nil || zzShut)
		zzv.Reach("refused")
	}
}

// The session: a key exchange with the server identity that was accepted.
var zzAskedS int

func zzSessCmd(w io.Writer, v interface{}) (int, error) {
	zzv.Assert("only the command that starts a session precedes the key exchange", v == interface{}(rpc.InitialCmdSession) && zzAskedS == 0)
	c, ok := w.(*tls.Conn)
	zzv.Assert("the command goes to the server", ok && net.Conn(c) == zzNet)
	zzAskedS++
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	return 4, nil
}
func zzInit(kx *session.KX) error {
	zzv.Assert("the exchange follows the command", zzAskedS == 1 && !zzProven)
	c, ok := kx.Conn.(*tls.Conn)
	zzv.Assert("the exchange is on the connection that was made", ok && net.Conn(c) == zzNet)
	zzv.Assert("the exchange is with the server identity that was accepted", kx.TheirPublicKey != nil && zzv.Same(*kx.TheirPublicKey, zzOldID.Key))
	zzv.Assert("the exchange is with this client's own key", kx.OurPublicKey != nil && kx.OurPrivateKey != nil && zzv.Same(*kx.OurPublicKey, zzC.id.Public.Key) && zzv.Same(*kx.OurPrivateKey, zzC.id.PrivateKey))
	zzv.Assert("messages are as large as the server was told", kx.MaxMessageSize == zzC.msgSize)
	zzOnKX = kx
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzProven = true
	return nil
}

//@ verify C28 C22 C23 nopanic locks
//@ use github.com/davecgh/go-xdr/xdr2.Marshal := zzSessCmd
//@ use (*session.KX).Initiate := zzInit
//@ use (*crypto/tls.Conn).Close := zzShutConn
func zzvSession(z *ZKC, key, prv int) {
	zzSetupOn(z)
	zzMkConn()
	zzAskedS = 0
	kx, err := z.sessionPhase(zzNet)
	if err == nil {
		zzv.Assert("a session is one whose key exchange completed", kx == zzOnKX && zzProven && z.serverIdentity == zzOldID)
		zzv.Reach("session")
	} else {
		zzv.Assert("a failed key exchange yields no session", kx == nil)
		zzv.Reach("no session")
	}
	if zzOldID == nil {
		zzv.Assert("no session without a server identity", err != nil)
	}
}

// The welcome.
func zzReadW(kx *session.KX) ([]byte, error) {
	zzv.Assert("the welcome is read from the session", kx == zzOnKX && zzSteps == 0)
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	return zzv.FreshBytes("cmd", -1), nil
}
func zzIsIOW(err error) bool { return zzv.Choose() }
func zzTags(depth int) *tagstack.TagStack {
	zzv.Assert("the tag depth is one that can be used", depth >= 1 && depth <= tagDepth)
	return new(tagstack.TagStack)
}

var zzWelc *rpc.Welcome

func zzDecW(r io.Reader, v interface{}, max uint) (int, error) {
	zzv.Assert("what is received is bounded", max == zzC.msgSize)
	n, err := xdr.Unmarshal(r, v)
	if err != nil {
		return n, err
	}
	if w, ok := v.(*rpc.Welcome); ok {
		zzWelc = w
	}
	return n, nil
}

//@ verify C28 C22 C23 nopanic locks cutknown
//@ use (*session.KX).Read := zzReadW
//@ use github.com/davecgh/go-xdr/xdr2.UnmarshalLimited := zzDecW
//@ use github.com/davecgh/go-xdr/xdr2.IsIO := zzIsIOW
//@ use tagstack.New := zzTags
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*debug.Debug).Dbg := zzDbgLog
func zzvWelcome(z *ZKC) {
	zzSetupOn(z)
	zzv.Assume(!z.online)
	zzOnKX, zzWelc = new(session.KX), nil
	old, sz := z.kx, z.msgSize
	w, err := z.welcomePhase(zzOnKX)
	zzv.Assert("a welcome accepts neither another certificate nor another identity", zzv.EqB(z.cert, zzOldCert) && z.serverIdentity == zzOldID)
	if err != nil {
		zzv.Assert("a client that is not welcome stays offline", !z.online && z.kx == old && z.msgSize == sz)
		zzv.Reach("refused")
		return
	}
	zzv.Assert("a client is online once it is welcome", w != nil && zzWelc != nil && zzv.Same(*w, *zzWelc) && z.online && z.kx == zzOnKX)
	zzv.Assert("only this version of the protocol is used", w.Version == rpc.ProtocolVersion)
	zzv.Assert("there is a callback for each tag", z.tagStack != nil && len(z.tagCallback) >= 1 && len(z.tagCallback) <= tagDepth)
	zzv.Assert("a chunk fits in a message", z.chunkSize > 0 && z.chunkSize <= uint64(z.msgSize) && z.msgSize <= math.MaxInt32 && z.attachmentSize > 0)
	zzv.Reach("welcome")
}

// Creating an account: zzPid and zzTLS are what the user accepted.
var (
	zzTok   string
	zzAccOK bool
	zzDig   bool
)

func zzDigest2(fi *zkidentity.FullIdentity) error {
	zzv.Assert("the identity of this client is signed", fi == zzC.id)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzDig = true
	return nil
}
func zzAccSend(w io.Writer, v interface{}) (int, error) {
	c, ok := w.(*tls.Conn)
	zzv.Assert("the account is created on the connection that was accepted", ok && net.Conn(c) == zzNet)
	zzv.Assert("nothing is sent in the clear of a session", !zzProven)
	switch zzSteps {
	case 0:
		zzv.Assert("the command that creates an account is sent first", v == interface{}(rpc.InitialCmdCreateAccount))
	case 1:
		ca, ok := v.(rpc.CreateAccount)
		zzv.Assert("the identity of this client is registered, with the token given", ok && zzDig && zzv.Same(ca.PublicIdentity, zzC.id.Public) && zzv.EqB(ca.Token, zzTok))
	default:
		zzv.Assert("an account is created once", false)
	}
	zzSteps++
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	return 4, nil
}
func zzAccRecv(z *ZKC, r io.Reader, v interface{}) (int, error) {
	c, ok := r.(*tls.Conn)
	zzv.Assert("the answer is read after the request", zzSteps == 2 && ok && net.Conn(c) == zzNet && !zzAccOK)
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	p, ok := v.(*rpc.CreateAccountReply)
	zzv.Assert("the answer is an account creation reply", ok)
	zzv.Havoc(p)
	zzAccOK = p.Error == ""
	zzSteps++
	return 4, nil
}
func zzRecord(z *ZKC, pid *zkidentity.PublicIdentity, cert []byte) error {
	zzv.Assert("only the server that was accepted is recorded", pid == zzPid && zzv.EqB(cert, zzPres))
	zzv.Assert("a server is recorded once it proved its identity and made an account", zzProven && zzAccOK)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzRec = true
	return nil
}
func zzWelcomeAcc(z *ZKC, kx *session.KX) (*rpc.Welcome, error) {
	zzv.Assert("the server is recorded before the client goes online", zzRec)
	return zzWelcomeOn(z, kx)
}
func zzWelMsg(mw *mainWindow)     {}
func zzFocusW(w *ttk.Window)      {}
func zzFocusC(z *ZKC, id int)     {}

//@ verify C28 C22 C23 nopanic locks
//@ use github.com/davecgh/go-xdr/xdr2.Marshal := zzAccSend
//@ use (*zkclient.ZKC).unmarshal := zzAccRecv
//@ use (*zkidentity.FullIdentity).RecalculateDigest := zzDigest2
//@ use (*zkclient.ZKC).sessionPhase := zzSessOn
//@ use (*zkclient.ZKC).saveServerRecord := zzRecord
//@ use (*zkclient.ZKC).welcomePhase := zzWelcomeAcc
//@ use go (*zkclient.ZKC).handleRPC := zzReader
//@ use (*zkclient.mainWindow).welcomeMessage := zzWelMsg
//@ use (*zkclient.ZKC).welcomeUser := zzWelcomeU
//@ use (*zkclient.ZKC).focus := zzFocusC
//@ use github.com/companyzero/ttk.Focus := zzFocusW
//@ use (*crypto/tls.Conn).Close := zzShutConn
func zzvCreateAccount(z *ZKC, token string) {
	zzSetupOn(z)
	zzv.Assume(!z.online && z.mw != nil)
	zzMkConn()
	zzPid = new(zkidentity.PublicIdentity)
	zzv.Havoc(zzPid)
	zzTok, zzAccOK, zzDig = token, false, false
	err := z.finalizeAccountCreation(zzNet, zzTLS, zzPid, token)
	if zzReaders == 1 {
		zzv.Assert("the client talks to the server that was accepted and recorded", zzRec && z.serverIdentity == zzPid && zzv.EqB(z.cert, zzPres))
		zzv.Reach("online")
	} else {
		zzv.Assert("a client without account is not online", err != nil && !z.online)
		zzv.Assert("a client that is not online has no session", !zzProven || zzShut)
		zzv.Reach("offline")
	}
	if !zzProven {
		zzv.Assert("a server that did not prove its identity is forgotten", z.serverIdentity == zzOldID && zzv.EqB(z.cert, zzOldCert))
	}
}

// What is recorded is what is read back.
var zzSrvDB *inidb.INIDB

func zzSrvOpen(file string, create bool, depth int) (*inidb.INIDB, error) {
	zzv.Assert("the server record is used", zzv.EqB(file, path.Join(zzC.settings.Root, tools.ZKCServerFilename)) && create)
	if zzv.Choose() {
		e := zzv.NewErr()
		zzv.Assume(!errors.Is(e, inidb.ErrCreated))
		return nil, e
	}
	if zzv.Choose() {
		zzSrvDB = inidb.ZzNew(file, depth)
		return zzSrvDB, inidb.ErrCreated
	}
	zzSrvDB = inidb.ZzOpen(file, depth)
	return zzSrvDB, nil
}
func zzSrvSave(i *inidb.INIDB) error {
	zzv.Assert("the server record is saved", i == zzSrvDB)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzRec = true
	return nil
}

//@ verify C28 C23 C22 nopanic locks
//@ use inidb.New := zzSrvOpen
//@ use (*inidb.INIDB).Save := zzSrvSave
func zzvRecord(z, y *ZKC, pid zkidentity.PublicIdentity, cert []byte) {
	zzSetupOn(z)
	zzSrvDB = nil
	err := z.saveServerRecord(&pid, cert)
	if err != nil {
		zzv.Reach("failed")
		return
	}
	zzv.Assert("success means that the server is recorded", zzRec)
	err = y.parseMyServer(zzSrvDB)
	if err == nil {
		zzv.Assert("the server that is read is the one recorded", y.serverIdentity != nil && zzv.Same(*y.serverIdentity, pid) && zzv.EqB(y.cert, cert) && zzv.EqB(y.serverAddress, z.serverAddress))
		zzv.Reach("server")
	}
	err = y.parseMyIdentity(zzSrvDB)
	if err == nil {
		zzv.Assert("the identity that is read is the one recorded", y.id != nil && zzv.Same(*y.id, *z.id))
		zzv.Reach("identity")
	}
}

// The user is asked: what is shown is what is accepted.
var (
	zzSeenCert, zzSeenID bool
	zzFinal          int
)

func zzLabel(w *ttk.Window, x, y int, format string, args ...interface{}) *ttk.Label {
	if len(args) == 1 {
		if s, ok := args[0].(string); ok {
			if zzv.EqB(s, zzFP(zzPres)) {
				zzSeenCert = true
			}
			if zzv.EqB(s, zkidentity.Fingerprint(zzPid.Identity)) {
				zzSeenID = true
			}
		}
	}
	return new(ttk.Label)
}
func zzStatusL(w *ttk.Window, y int, j ttk.Justify, format string, args ...interface{}) *ttk.Label {
	return new(ttk.Label)
}
func zzAttr(l *ttk.Label, a ttk.Attributes) {}
func zzEditW(w *ttk.Window, x, y, width int, target *string) *ttk.Edit { return new(ttk.Edit) }
func zzRemote(c *tls.Conn) net.Addr                                     { return nil }

//@ verify C28 C23 nopanic
//@ use (*github.com/companyzero/ttk.Window).AddLabel := zzLabel
//@ use (*github.com/companyzero/ttk.Window).AddStatus := zzStatusL
//@ use (*github.com/companyzero/ttk.Window).AddEdit := zzEditW
//@ use (*github.com/companyzero/ttk.Label).SetAttributes := zzAttr
//@ use (*crypto/tls.Conn).RemoteAddr := zzRemote
//@ use tools.Fingerprint := zzFP
func zzvAsk(aw *acceptWindow, w *ttk.Window) {
	zzv.Assume(w != nil)
	zzMkConn()
	zzPid = new(zkidentity.PublicIdentity)
	zzv.Havoc(zzPid)
	aw.conn, aw.cs, aw.pid = zzNet, zzTLS, zzPid
	zzSeenCert, zzSeenID = false, false
	aw.Init(w)
	zzv.Assert("the user is shown what identifies the server", zzSeenCert && zzSeenID)
	zzv.Reach("shown")
}

func zzFinalA(z *ZKC, conn net.Conn, cs *tls.ConnectionState, pid *zkidentity.PublicIdentity, token string) error {
	zzv.Assert("only a server the user accepted is used", strings.ToLower(zzAnswer) == "yes")
	zzv.Assert("the server that was shown is used", z == zzC && conn == zzNet && cs == zzTLS && pid == zzPid && zzv.EqB(token, zzTok))
	zzFinal++
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

var zzAnswer string

func zzAwStatus(aw *acceptWindow, w *ttk.Window, bad bool, format string, args ...interface{}) {}

//@ verify C28 C23 nopanic
//@ use (*zkclient.ZKC).finalizeAccountCreation := zzFinalA
//@ use (*zkclient.acceptWindow).Status := zzAwStatus
//@ use github.com/companyzero/ttk.Focus := zzFocusW
//@ use (*zkclient.ZKC).focus := zzFocusC
func zzvAccept(aw *acceptWindow, w *ttk.Window, k ttk.Key) {
	zzv.Assume(aw.zkc != nil)
	zzSetupOn(aw.zkc)
	zzMkConn()
	zzPid = new(zkidentity.PublicIdentity)
	aw.conn, aw.cs, aw.pid = zzNet, zzTLS, zzPid
	zzAnswer, zzTok, zzFinal = aw.question, aw.token, 0
	aw.KeyHandler(w, k)
	zzv.Assert("a server is accepted once", zzFinal <= 1)
	if zzFinal == 1 {
		zzv.Reach("accepted")
	} else {
		zzv.Reach("not accepted")
	}
}

// The form: the server is dialed, and the user asked unless it is known.
var (
	zzGotP  *zkidentity.PublicIdentity
	zzVerOK bool
)

func zzDialF(z *ZKC) (net.Conn, *tls.ConnectionState, error) {
	zzv.Assert("one connection is made", zzNet == nil)
	if zzv.Choose() {
		return nil, nil, zzv.NewErr()
	}
	zzMkConn()
	return zzNet, zzTLS, nil
}
func zzIdentCmd(w io.Writer, v interface{}) (int, error) {
	c, ok := w.(*tls.Conn)
	zzv.Assert("the server is asked for its identity", v == interface{}(rpc.InitialCmdIdentify) && ok && net.Conn(c) == zzNet)
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	return 4, nil
}
func zzIdentGot(z *ZKC, r io.Reader, v interface{}) (int, error) {
	c, ok := r.(*tls.Conn)
	zzv.Assert("the identity comes from the server", ok && net.Conn(c) == zzNet)
	p, ok := v.(*zkidentity.PublicIdentity)
	zzv.Assert("the server is asked for its identity", ok)
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	zzv.Havoc(p)
	zzGotP, zzVerOK = p, false
	return 4, nil
}
func zzVerifyW(p *zkidentity.PublicIdentity) bool {
	if zzv.Choose() {
		return false
	}
	zzVerOK = zzVerOK || (zzGotP != nil && zzv.Same(*p, *zzGotP))
	return true
}
func zzAskUser(x ttk.Windower) *ttk.Window {
	aw, ok := x.(*acceptWindow)
	zzv.Assert("the user is asked", ok && zzFinal == 0)
	zzv.Assert("the user is asked about the server that was dialed", aw.zkc == zzC && aw.conn == zzNet && aw.cs == zzTLS)
	zzv.Assert("the user is asked about an identity that was verified", zzGotP != nil && zzVerOK && zzv.Same(*aw.pid, *zzGotP))
	zzFinal++
	zzv.Reach("asked")
	return new(ttk.Window)
}
func zzFinalW(z *ZKC, conn net.Conn, cs *tls.ConnectionState, pid *zkidentity.PublicIdentity, token string) error {
	zzv.Assert("only a known server is used without asking", zzOldID != nil && zzFinal == 0 && zzv.Same(*pid, *zzOldID))
	zzv.Assert("only the certificate of a known server is used without asking", z == zzC && conn == zzNet && cs == zzTLS && zzv.EqB(zzPres, zzOldCert))
	zzFinal++
	zzv.Reach("known")
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzWwStatus(ww *welcomeWindow, w *ttk.Window, bad bool, format string, args ...interface{}) {}
func zzNextW(w *ttk.Window)                                                                     {}

//@ verify C28 C23 nopanic
//@ use (*zkclient.ZKC).preSessionPhase := zzDialF
//@ use github.com/davecgh/go-xdr/xdr2.Marshal := zzIdentCmd
//@ use (*zkclient.ZKC).unmarshal := zzIdentGot
//@ use (*zkidentity.PublicIdentity).Verify := zzVerifyW
//@ use (*zkclient.ZKC).finalizeAccountCreation := zzFinalW
//@ use (*zkclient.welcomeWindow).Status := zzWwStatus
//@ use github.com/companyzero/ttk.NewWindow := zzAskUser
//@ use github.com/companyzero/ttk.Focus := zzFocusW
//@ use (*github.com/companyzero/ttk.Window).FocusNext := zzNextW
//@ use (*github.com/companyzero/ttk.Window).FocusPrevious := zzNextW
//@ use (*crypto/tls.Conn).Close := zzShutConn
func zzvForm(ww *welcomeWindow, w *ttk.Window, k ttk.Key) {
	zzv.Assume(ww.zkc != nil && w != nil && ww.tokenInput != nil)
	zzSetupOn(ww.zkc)
	k.Widget = ww.tokenInput
	zzv.Assume(k.Key == termbox.KeyEnter)
	zzGotP, zzVerOK, zzFinal = nil, false, 0
	ww.KeyHandler(w, k)
	zzv.Assert("filling in the form accepts no server", ww.zkc.serverIdentity == zzOldID && zzv.EqB(ww.zkc.cert, zzOldCert))
}

// /acceptnewcert
func zzRecordN(z *ZKC, pid *zkidentity.PublicIdentity, cert []byte) error {
	zzv.Assert("a new certificate is accepted under the lock", zzv.LockState(&z.RWMutex) == 1)
	zzv.Assert("the identity of the server is kept", pid == z.serverIdentity && pid == zzOldID)
	zzv.Assert("the certificate that was shown is recorded", zzv.EqB(cert, zzPres) && zzPres != nil)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzRec = true
	return nil
}

func zzTrim1(s, cut string) string { return s }
func zzSplit1(s, sep string) []string {
	zzv.Assert("the command is split", s == cmdAcceptnewcert && sep == " ")
	return []string{s}
}

//@ verify C28 C22 C23 nopanic locks
//@ use strings.Trim := zzTrim1
//@ use strings.Split := zzSplit1
//@ use (*zkclient.ZKC).saveServerRecord := zzRecordN
//@ use (*zkclient.ZKC).printf := zzPrint
func zzvNewCert(mw *mainWindow) {
	zzv.Assume(mw.zkc != nil)
	zzSetupOn(mw.zkc)
	z := mw.zkc
	zzPres = z.provisionalCert
	on := z.online
	err := mw.action(cmdAcceptnewcert)
	if err != nil {
		zzv.Assert("a certificate that is not recorded is not accepted", zzv.EqB(z.cert, zzOldCert))
		zzv.Reach("refused")
	} else {
		zzv.Assert("the certificate that was shown is accepted", !on && zzRec && zzv.EqB(z.cert, zzPres) && z.provisionalCert == nil)
		zzv.Reach("accepted")
	}
	zzv.Assert("the identity of the server is kept", z.serverIdentity == zzOldID)
}
