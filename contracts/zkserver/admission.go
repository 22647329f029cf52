package main

import (
	"encoding/hex"
	"encoding/json"
	"io"
	"net"
	"path"
	"strconv"
	"strings"
	"time"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/account"
	"github.com/companyzero/zkc/zkserver/socketapi"
	"github.com/companyzero/zkc/zzv"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// Before a session: zzAuth is the transport whose handshake succeeded.
var (
	zzMode    string
	zzAuth    *session.KX
	zzAskedD  bool
	zzAskedE  bool
	zzIsDis   bool
	zzIsEn    bool
	zzSess    int
	zzCA      rpc.CreateAccount
	zzHaveCA  bool
	zzConn    net.Conn
	zzConnEnd bool
	zzOut1    []byte
	zzOuts    int
)

func zzPreDecode(r io.Reader, v interface{}, max uint) (int, error) {
	zzv.Assert("nothing is read after a session", zzSess == 0)
	n, err := xdr.Unmarshal(r, v)
	if err != nil {
		return n, err
	}
	switch p := v.(type) {
	case *string:
		zzMode = *p
		zzHaveCA = false
	case *rpc.CreateAccount:
		zzCA, zzHaveCA = *p, true
	}
	return n, nil
}

func zzRespond(kx *session.KX) error {
	zzv.Assert("a handshake is made on request", zzMode == rpc.InitialCmdSession)
	zzv.Assert("the handshake uses the server's keys", kx.OurPublicKey == &zzZ.id.Public.Key && kx.OurPrivateKey == &zzZ.id.PrivateKey)
	zzv.Assert("the handshake uses the client's connection", kx.Conn == zzConn)
	zzv.Assert("the message size enforced is the one configured", uint64(kx.MaxMessageSize) == zzZ.settings.MaxMsgSize)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzAuth = kx
	return nil
}

func zzTheirP(kx *session.KX) interface{} {
	zzv.Assert("an identity is used after its handshake", kx == zzAuth && zzAuth != nil)
	return zzMe
}

func zzPreDisabled(a *account.Account, who [32]byte) bool {
	zzv.Assert("the authenticated identity is checked", zzAuth != nil && zzv.EqB(who[:], zzMe[:]))
	zzAskedD, zzIsDis = true, zzv.Choose()
	return zzIsDis
}

func zzPreEnabled(a *account.Account, who [32]byte) bool {
	zzv.Assert("the authenticated identity is checked", zzAuth != nil && zzv.EqB(who[:], zzMe[:]))
	zzAskedE, zzIsEn = true, zzv.Choose()
	return zzIsEn
}

func zzHandleSession(z *ZKS, kx *session.KX) error {
	zzv.Assert("a session needs a completed handshake", kx == zzAuth && zzAuth != nil)
	zzv.Assert("a disabled account gets no session", zzAskedD && !zzIsDis)
	zzv.Assert("an unknown identity gets no session", zzAskedE && zzIsEn)
	zzv.Assert("a connection carries one session", zzSess == 0)
	zzSess++
	zzv.Reach("session")
	return nil
}

func zzHandleCreate(z *ZKS, c net.Conn, ca rpc.CreateAccount) error {
	zzv.Assert("an account is created on request, as requested", zzMode == rpc.InitialCmdCreateAccount && zzHaveCA && zzv.Same(ca, zzCA) && c == zzConn)
	zzHaveCA = false
	zzv.Reach("create")
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

func zzPreWrite(kx *session.KX, b []byte) error {
	zzv.Assert("nothing is sent before the handshake", kx == zzAuth && zzAuth != nil)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

func zzIdWrite(w io.Writer, b []byte) (int, error) {
	zzv.Assert("the server identifies itself only when allowed", zzMode == rpc.InitialCmdIdentify && zzZ.settings.AllowIdentify)
	zzv.Assert("only the public identity is sent", zzv.EqB(b, zzv.Enc("xdr", zzZ.id.Public)))
	zzv.Reach("identify")
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	return len(b), nil
}

func zzConnClose(c net.Conn) error { zzConnEnd = true; return nil }

func zzAddr(c net.Conn) net.Addr { return nil }

//@ verify C16 C17 C22 C23 C25 nopanic locks cutknown
//@ use github.com/davecgh/go-xdr/xdr2.UnmarshalLimited := zzPreDecode
//@ use (*session.KX).Respond := zzRespond
//@ use (*session.KX).TheirIdentity := zzTheirP
//@ use (*session.KX).Write := zzPreWrite
//@ use (*zkserver/account.Account).Disabled := zzPreDisabled
//@ use (*zkserver/account.Account).Enabled := zzPreEnabled
//@ use (*zkserver.ZKS).handleSession := zzHandleSession
//@ use (*zkserver.ZKS).handleAccountCreate := zzHandleCreate
//@ use (io.Writer).Write := zzIdWrite
//@ use (net.Conn).Close := zzConnClose
//@ use (net.Conn).RemoteAddr := zzAddr
//@ use (*debug.Debug).T := zzLog
//@ use (*debug.Debug).Error := zzLog
//@ use (*debug.Debug).Dbg := zzLog
//@ use (*debug.Debug).Info := zzLog
//@ use (*debug.Debug).Warn := zzLog
func zzvPreSession(z *ZKS, c net.Conn, me [32]byte) {
	zzSetup(z)
	zzv.Assume(z.id != nil && c != nil)
	zzZ, zzConn, zzMe = z, c, me
	zzMode, zzAuth, zzSess, zzHaveCA, zzConnEnd = "", nil, 0, false, false
	zzAskedD, zzAskedE, zzIsDis, zzIsEn = false, false, false, false
	z.preSession(c)
	zzv.Assert("the connection is closed in the end", zzConnEnd)
	if zzSess == 1 {
		zzv.Reach("served")
	}
}

// --- account creation

var (
	zzTokHad   bool
	zzTokVal   string
	zzOther    string // any other token
	zzOthHad   bool
	zzOthVal   string
	zzUsedUp   bool
	zzCreated  int
	zzCreateOK bool
	zzNowT     time.Time
)

func zzNow1() time.Time { return zzNowT }

func zzExpired(v string) bool {
	t, err := strconv.ParseInt(v, 10, 64)
	return err != nil || time.Unix(t, 0).Before(zzNowT)
}

func zzTokLock(z *ZKS) { zzHeld++ }

func zzTokOpen(file string, create bool, depth int) (*inidb.INIDB, error) {
	zzv.Assert("tokens are needed for the token policy only", zzZ.settings.CreatePolicy == "token")
	if zzv.Choose() {
		return nil, zzDBErr()
	}
	zzv.Assert("the pending database is used", zzv.EqB(file, path.Join(zzZ.settings.Root, pendingPath)))
	zzOpened = 0
	if zzv.LockState(&zzZ.pendingMtx) == 1 {
		zzOpened = zzHeld
	}
	if zzv.Choose() {
		zzTokHad, zzOthHad = false, false
		return inidb.ZzNew(file, depth), inidb.ErrCreated
	}
	i := inidb.ZzOpen(file, depth)
	v, err := i.Get("", zzCA.Token)
	zzTokHad, zzTokVal = err == nil, v
	v, err = i.Get("", zzOther)
	zzOthHad, zzOthVal = err == nil, v
	return i, nil
}

func zzTokSave(i *inidb.INIDB) error {
	zzv.Assert("tokens are saved by the session that read them last", zzv.LockState(&zzZ.pendingMtx) == 1 && zzOpened == zzHeld)
	if zzv.Choose() {
		return zzDBErr()
	}
	_, err := i.Get("", zzCA.Token)
	zzUsedUp = err != nil
	v, err := i.Get("", zzOther)
	if zzv.EqB(zzOther, zzCA.Token) {
		return nil
	}
	zzv.Assert("no token is made up", zzv.Imp(err == nil, zzv.And(zzOthHad, zzv.EqB(v, zzOthVal))))
	if zzOthHad && !zzExpired(zzOthVal) {
		zzv.Assert("other tokens stay valid", zzv.And(err == nil, zzv.EqB(v, zzOthVal)))
		zzv.Reach("kept")
	}
	return nil
}

func zzCreate(a *account.Account, pid zkidentity.PublicIdentity, force bool) error {
	zzv.Assert("the account created is the one requested", zzv.Same(pid, zzCA.PublicIdentity) && a == zzZ.account)
	zzv.Assert("an existing account is never replaced", !force)
	zzv.Assert("a request creates one account", zzCreated == 0)
	zzCreated++
	p := zzZ.settings.CreatePolicy
	zzv.Assert("accounts are created only under a policy that allows it", p == "yes" || p == "token")
	if p == "token" {
		zzv.Assert("creating an account needs a stored token that has not expired", zzTokHad && !zzExpired(zzTokVal))
		zzv.Assert("the token is used up before the account is created", zzUsedUp)
		zzv.Reach("token")
	}
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzCreateOK = true
	return nil
}

// every attempt to answer counts
func zzReplyEnc(w io.Writer, v interface{}) (int, error) {
	zzTries++
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	return w.Write(zzv.Enc("xdr", v))
}

var zzTries int

func zzReplyWrite(w io.Writer, b []byte) (int, error) {
	zzOuts++
	zzOut1 = b
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	return len(b), nil
}

//@ verify C22 C23 C24 nopanic locks
//@ use inidb.New := zzTokOpen
//@ use (*inidb.INIDB).Save := zzTokSave
//@ use time.Now := zzNow1
//@ use lock zkserver.ZKS.pendingMtx := zzTokLock
//@ use (*zkserver/account.Account).Create := zzCreate
//@ use (io.Writer).Write := zzReplyWrite
//@ use github.com/davecgh/go-xdr/xdr2.Marshal := zzReplyEnc
//@ use (net.Conn).RemoteAddr := zzAddr
//@ use (*debug.Debug).T := zzLog
//@ use (*debug.Debug).Error := zzLog
//@ use (*debug.Debug).Dbg := zzLog
//@ use (*debug.Debug).Info := zzLog
func zzvAccountCreate(z *ZKS, c net.Conn, ca rpc.CreateAccount, other string, now time.Time) {
	zzSetup(z)
	zzv.Assume(c != nil && zzv.LockState(&z.pendingMtx) == 0)
	zzZ, zzCA, zzOther, zzNowT = z, ca, other, now
	zzHeld, zzOpened, zzCreated, zzOuts, zzTries = 0, 0, 0, 0, 0
	zzCreateOK, zzUsedUp, zzTokHad = false, false, false
	err := z.handleAccountCreate(c, ca)
	zzv.Assert("a request is answered at most once", zzOuts <= 1)
	zzv.Assert("a request is answered, a refused one as well", zzTries == 1)
	if zzOuts == 1 {
		var r rpc.CreateAccountReply
		if zzCreateOK {
			zzv.Assert("a created account is reported", zzv.EqB(zzOut1, zzv.Enc("xdr", r)))
			zzv.Reach("created")
		} else {
			zzv.Assert("a failure is reported", !zzv.EqB(zzOut1, zzv.Enc("xdr", r)))
			zzv.Reach("failed")
		}
	}
	if zzCreated == 0 {
		zzv.Assert("a refused client is cut off", err != nil)
		zzv.Reach("refused")
	}
	p := z.settings.CreatePolicy
	if p != "yes" && p != "token" {
		zzv.Assert("no account is created without a policy that allows it", zzCreated == 0)
		zzv.Reach("policy")
	}
}

// --- administration

var (
	zzAdmin   string // the identity named by the command
	zzAdmins  int
	zzAdminOK bool
)

func zzAdminID(who [32]byte) bool {
	b, err := hex.DecodeString(zzAdmin)
	return err == nil && zzv.EqB(b, who[:])
}

func zzDisableC(a *account.Account, who [32]byte) error {
	zzv.Assert("the identity named is disabled", zzAdminID(who))
	zzAdmins++
	if zzv.Choose() {
		err := zzv.NewErr()
		zzv.Assume(err.Error() != "")
		return err
	}
	zzAdminOK = true
	return nil
}

func zzNever(a *account.Account, who [32]byte) error {
	zzv.Assert("nothing else is done", false)
	return nil
}

func zzErrText(e error) string {
	return "x"
}

//@ verify C22 C23 C25 nopanic locks
//@ use (*zkserver/account.Account).Disable := zzDisableC
//@ use (*zkserver/account.Account).Enable := zzNever
func zzvDisable(z *ZKS, d socketapi.SocketCommandUserDisable) {
	zzSetup(z)
	zzAdmin, zzAdmins, zzAdminOK = d.Identity, 0, false
	r := z.handleIdentityDisable(d)
	zzv.Assert("a command is answered", r != nil)
	if r.Error == "" {
		zzv.Reach("done")
	} else {
		zzv.Reach("refused")
	}
	if zzAdminOK {
		zzv.Assert("success is reported", r.Error == "")
	}
	if zzAdmins == 0 {
		zzv.Assert("a command that names no identity is refused", r.Error != "")
	} else if !zzAdminOK {
		zzv.Assert("a failure is reported", r.Error != "")
	}
}

//@ verify C22 C23 C25 nopanic locks
//@ use (*zkserver/account.Account).Enable := zzDisableC
//@ use (*zkserver/account.Account).Disable := zzNever
func zzvEnable(z *ZKS, d socketapi.SocketCommandUserEnable) {
	zzSetup(z)
	zzAdmin, zzAdmins, zzAdminOK = d.Identity, 0, false
	r := z.handleIdentityEnable(d)
	zzv.Assert("a command is answered", r != nil)
	if r.Error == "" {
		zzv.Reach("done")
	} else {
		zzv.Reach("refused")
	}
	if zzAdminOK {
		zzv.Assert("success is reported", r.Error == "")
	}
	if zzAdmins == 0 {
		zzv.Assert("a command that names no identity is refused", r.Error != "")
	} else if !zzAdminOK {
		zzv.Assert("a failure is reported", r.Error != "")
	}
}

var (
	zzDo     int // the command being carried out
	zzDid    bool
	zzShut   bool
	zzHasS   bool
	zzTheirs *sessionContext
	zzLow    string
	zzLooked2 bool
)

func zzJSON(d *json.Decoder, v interface{}) error {
	zzv.Havoc(v)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	switch p := v.(type) {
	case *socketapi.SocketCommandID:
		zzDo, zzDid, zzShut, zzHasS, zzLooked2 = 1, false, false, false, false
		if p.Version != socketapi.SCVersion {
			zzDo = 2
		}
	case *socketapi.SocketCommandUserDisable:
		zzAdmin = p.Identity
		zzLow = strings.ToLower(p.Identity)
	case *socketapi.SocketCommandUserEnable:
		zzAdmin = p.Identity
		zzLow = strings.ToLower(p.Identity)
	}
	return nil
}

func zzHDisable(z *ZKS, d socketapi.SocketCommandUserDisable) *socketapi.SocketCommandUserDisableReply {
	zzv.Assert("a command of another version is not carried out", zzDo == 1)
	zzv.Assert("the identity named is disabled", zzv.EqB(d.Identity, zzAdmin))
	zzDo, zzDid = 3, true
	return &socketapi.SocketCommandUserDisableReply{}
}

func zzHEnable(z *ZKS, d socketapi.SocketCommandUserEnable) *socketapi.SocketCommandUserEnableReply {
	zzv.Assert("a command of another version is not carried out", zzDo == 1)
	zzv.Assert("the identity named is enabled", zzv.EqB(d.Identity, zzAdmin))
	zzDo, zzDid = 4, true
	return &socketapi.SocketCommandUserEnableReply{}
}

func zzSockLock(z *ZKS) {
	zzv.Havoc(&z.sessions)
	zzv.Assume(z.sessions != nil)
	zzv.NoNils(z.sessions)
	if zzDo == 3 {
		zzTheirs, zzHasS = z.sessions[zzLow]
		zzLooked2 = true
	}
}

func zzSockClose(kx *session.KX) {
	zzv.Assert("only the disabled identity's session is ended", zzDo == 3 && zzHasS && kx == zzTheirs.kx)
	zzShut = true
}

func zzJEnc(e *json.Encoder, v interface{}) error {
	zzv.Assert("a command is answered after it was carried out", zzDid)
	zzv.Assert("the session of a disabled identity is ended", zzv.Imp(zzDo == 3, zzv.And(zzLooked2, zzv.Or(!zzHasS, zzShut))))
	if zzDo == 3 {
		zzv.Reach("disabled")
	} else {
		zzv.Reach("enabled")
	}
	zzDid = false
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

//@ verify C22 C23 C25 nopanic locks
//@ use (*encoding/json.Decoder).Decode := zzJSON
//@ use (*encoding/json.Encoder).Encode := zzJEnc
//@ use (*zkserver.ZKS).handleIdentityDisable := zzHDisable
//@ use (*zkserver.ZKS).handleIdentityEnable := zzHEnable
//@ use lock zkserver.ZKS.Mutex := zzSockLock
//@ use (*session.KX).Close := zzSockClose
//@ use (net.Conn).Close := zzConnClose
//@ use (*debug.Debug).T := zzLog
//@ use (*debug.Debug).Error := zzLog
//@ use (*debug.Debug).Dbg := zzLog
func zzvSocket(z *ZKS, c net.Conn) {
	zzSetup(z)
	zzv.Assume(c != nil)
	zzZ, zzDo, zzDid, zzConnEnd = z, 0, false, false
	z.socketHandler(c)
	zzv.Assert("the connection is closed in the end", zzConnEnd)
	zzv.Reach("end")
}
