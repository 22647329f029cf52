package main

import (
	"encoding/hex"
	"io"
	"path"
	"time"

	"github.com/companyzero/zkc/debug"
	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/tagstack"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/account"
	"github.com/companyzero/zkc/zzv"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// One session: zzKX is its transport, zzMe the identity that transport
// authenticated.  Other goroutines run whenever a lock is free: shared state
// is made arbitrary when its lock is taken.
var (
	zzKX     *session.KX
	zzMe     [32]byte
	zzMine   string // zzMe as the key of z.sessions
	zzSC     *sessionContext
	zzOn     bool // the account is online on behalf of this session
	zzOns    int
	zzK      string // any key of z.sessions
	zzEntry  *sessionContext
	zzEntryM *sessionContext
	zzHasM   bool
	zzHasE   bool
	zzReg    bool // registered in z.sessions, by this session
	zzForced bool
	zzKicked bool
	zzNotDis bool // the account was not disabled when the session was visible already

	zzM     rpc.Message // the request
	zzHaveM bool
	zzOwed  bool // it has yet to be answered
	zzJ     uint32
	zzMsgJ  *RPCWrapper
	zzLocks int
	zzOut   *RPCWrapper // what is outstanding under the request's tag
	zzFreed bool
	zzDels  int

	zzCacheP rpc.Cache
	zzProxyP rpc.Proxy
	zzFindP  rpc.IdentityFind
	zzRdvP   rpc.Rendezvous
	zzPullP  rpc.RendezvousPull
	zzStored bool // the message was delivered
	zzTried1 bool
	zzFound  *zkidentity.PublicIdentity
	zzLooked bool
)

func zzDeadline(kx *session.KX, t time.Time)  {}
func zzWDeadline(kx *session.KX, t time.Time) {}
func zzTheir(kx *session.KX) interface{} {
	zzv.Assert("the identity is that of the session", kx == zzKX)
	return zzMe
}

func zzIsIO(err error) bool { return zzv.Choose() }

func zzRead(kx *session.KX) ([]byte, error) {
	zzv.Assert("requests are read from the session", kx == zzKX)
	zzv.Assert("requests are read while the account is online", zzOn)
	zzv.Assert("a request is answered before the next one is read", !zzOwed)
	zzv.Assert("a session whose account was disabled before it was visible ends", zzReg && zzNotDis)
	zzv.Assert("a session whose requests are read is served in both directions", zzRuns == 11)
	zzHaveM = false
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	return zzv.FreshBytes("cmd", -1), nil
}

func zzDecode(r io.Reader, v interface{}, max uint) (int, error) {
	n, err := xdr.Unmarshal(r, v)
	if err != nil {
		return n, err
	}
	switch p := v.(type) {
	case *rpc.Message:
		zzM, zzHaveM, zzOwed = *p, true, true
		zzLocks, zzOut, zzFreed, zzDels = 0, nil, false, 0
		zzStored, zzTried1, zzLooked = false, false, false
	case *rpc.Cache:
		zzCacheP = *p
	case *rpc.Proxy:
		zzProxyP = *p
	case *rpc.IdentityFind:
		zzFindP = *p
	case *rpc.Rendezvous:
		zzRdvP = *p
	case *rpc.RendezvousPull:
		zzPullP = *p
	}
	return n, nil
}

// What serves a session next to its reader.
var (
	zzNtfnC chan *account.Notification
	zzRuns  int
)

func zzRuns1(z *ZKS, sc *sessionContext) {
	zzv.Assert("the writer of a session serves it", zzOn && sc.kx == zzKX && sc.writer != nil && sc.quit != nil)
	zzRuns++
}
func zzRuns2(z *ZKS, sc *sessionContext) {
	zzv.Assert("the notifier of a session serves it", zzOn && sc.kx == zzKX && sc.ntfn == zzNtfnC && sc.tagStack != nil && len(sc.tagMessage) == tagDepth && sc.writer != nil && sc.quit != nil)
	zzRuns += 10
}

func zzOnlineC(a *account.Account, who [32]byte, c chan *account.Notification) error {
	zzv.Assert("only the authenticated account goes online", zzv.EqB(who[:], zzMe[:]) && a == zzZ.account)
	if zzv.Choose() {
		zzForced = zzv.Choose()
		return zzv.NewErr()
	}
	zzv.Assert("an account goes online once", !zzOn)
	zzv.Assert("an account that goes online can be told of messages", c != nil)
	zzNtfnC, zzRuns = c, 0
	zzOn = true
	zzOns++
	return nil
}

func zzOffline(a *account.Account, who [32]byte) {
	zzv.Assert("a session takes its own account offline, once", zzOn && zzv.EqB(who[:], zzMe[:]))
	zzOn = false
}

func zzPushAcc(a *account.Account, who [32]byte) error {
	zzv.Assert("only the authenticated account is listed", zzv.EqB(who[:], zzMe[:]))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

func zzDisabledC(a *account.Account, who [32]byte) bool {
	if zzv.Choose() {
		return true
	}
	// disabling from now on sees the session and ends it
	zzNotDis = zzNotDis || (zzReg && zzv.EqB(who[:], zzMe[:]))
	return false
}

func zzDeliver(a *account.Account, to, from [32]byte, payload []byte, clear bool) (string, error) {
	zzv.Assert("messages are delivered on request only", zzHaveM && zzOwed && (zzM.Command == rpc.TaggedCmdCache || zzM.Command == rpc.TaggedCmdProxy))
	zzv.Assert("only requests under tags below the depth are carried out", zzM.Tag < tagDepth)
	zzv.Assert("the sender is the authenticated identity", zzv.EqB(from[:], zzMe[:]))
	if zzM.Command == rpc.TaggedCmdCache {
		zzv.Assert("the message goes to the recipient named", zzv.EqB(to[:], zzCacheP.To[:]))
		zzv.Assert("the message is delivered unchanged", zzv.EqB(payload, zzCacheP.Payload))
		zzv.Assert("an encrypted message is not marked cleartext", !clear)
	} else {
		zzv.Assert("the message goes to the recipient named", zzv.EqB(to[:], zzProxyP.To[:]))
		zzv.Assert("the message is delivered unchanged", zzv.EqB(payload, zzProxyP.Payload))
		zzv.Assert("a cleartext message is marked", clear)
	}
	zzv.Assert("a message is delivered once", !zzTried1)
	zzTried1 = true
	if zzv.Choose() {
		return "", zzv.NewErr()
	}
	zzStored = true
	return zzv.FreshString("file"), nil
}

func zzDelete(a *account.Account, who [32]byte, name string) error {
	zzv.Assert("only an acknowledgement deletes", zzHaveM && zzM.Command == rpc.TaggedCmdAcknowledge)
	zzv.Assert("only messages of the authenticated account are deleted", zzv.EqB(who[:], zzMe[:]))
	zzv.Assert("only a message that was sent is deleted", zzOut != nil && zzOut.Message.Command == rpc.TaggedCmdPush)
	zzv.Assert("only the acknowledged message is deleted", zzv.EqB(name, zzOut.Identifier))
	zzv.Assert("a message is deleted once", zzDels == 0)
	zzDels++
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

func zzFindAcc(a *account.Account, nick string) (*zkidentity.PublicIdentity, error) {
	zzv.Assert("the nick asked for is looked up", zzHaveM && zzM.Command == rpc.TaggedCmdIdentityFind && zzv.EqB(nick, zzFindP.Nick))
	zzLooked = true
	if zzv.Choose() {
		zzFound = nil
		return nil, zzv.NewErr()
	}
	p := new(zkidentity.PublicIdentity)
	zzv.Havoc(p)
	zzFound = p
	return p, nil
}

func zzNewStack(depth int) *tagstack.TagStack {
	zzv.Assert("tags are handed out up to the depth", depth == tagDepth)
	return new(tagstack.TagStack)
}

func zzPushTag(s *tagstack.TagStack, x uint32) error {
	zzv.Assert("only an acknowledged tag is reused", zzHaveM && zzOwed && zzM.Command == rpc.TaggedCmdAcknowledge && x == zzM.Tag)
	zzv.Assert("only tags below the depth are reused", x < tagDepth)
	zzv.Assert("only an outstanding tag is reused", zzOut != nil)
	zzv.Assert("a tag is reused after its message is forgotten", zzFreed)
	zzv.Reach("acknowledged")
	zzv.Assert("an acknowledged message is deleted", zzOut.Message.Command != rpc.TaggedCmdPush || zzDels == 1)
	zzOwed = false
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

func zzSCLock(sc *sessionContext) {
	zzv.Assert("sessions touch their own messages only", zzSC == nil || sc == zzSC)
	zzv.Havoc(&sc.tagMessage)
	zzv.Assume(len(sc.tagMessage) == tagDepth)
	if zzHaveM && int(zzM.Tag) < tagDepth {
		zzLocks++
		if zzLocks == 1 {
			zzOut = sc.tagMessage[zzM.Tag]
		} else if zzOut != nil {
			// an outstanding message stays until it is acknowledged
			sc.tagMessage[zzM.Tag] = zzOut
			zzv.Reach("still outstanding")
		}
	}
	zzMsgJ = sc.tagMessage[zzJ]
}

func zzSCUnlock(sc *sessionContext) {
	if zzHaveM && int(zzM.Tag) < tagDepth {
		zzFreed = sc.tagMessage[zzM.Tag] == nil
		zzv.Assert("an outstanding message is forgotten only when acknowledged", !zzFreed || zzOut == nil || zzM.Command == rpc.TaggedCmdAcknowledge)
	}
	zzv.Assert("other outstanding messages are kept", (zzHaveM && zzJ == zzM.Tag) || sc.tagMessage[zzJ] == zzMsgJ)
}

// zzZLock: other sessions came and went.
func zzZLock(z *ZKS) {
	zzv.Havoc(&z.sessions)
	zzv.Assume(z.sessions != nil)
	zzv.NoNils(z.sessions)
	// what this session registered may still be there
	if zzSC != nil && zzReg && zzv.Choose() {
		z.sessions[zzMine] = zzSC
		zzv.Reach("still registered")
	}
	zzEntry, zzHasE = z.sessions[zzK]
	zzEntryM, zzHasM = z.sessions[zzMine]
	// nobody else registers this session
	if zzSC != nil {
		zzv.Assume(zzv.Imp(zzv.And(zzHasM, zzEntryM == zzSC), zzReg))
		zzv.Assume(zzv.Imp(zzv.And(zzHasE, zzEntry == zzSC), zzK == zzMine))
	}
}

func zzZUnlock(z *ZKS) {
	if zzK != zzMine {
		e, ok := z.sessions[zzK]
		zzv.Assert("entries of other identities are kept", ok == zzHasE && e == zzEntry)
	}
	e, ok := z.sessions[zzMine]
	if ok && (!zzHasM || e != zzEntryM) {
		zzv.Assert("a session is registered while its account is online", zzOn && !zzReg)
		zzv.Assert("the session registered is this one", e.kx == zzKX)
		zzReg = true
		zzSC = e
		return
	}
	if !ok && zzHasM && (zzSC == nil || zzEntryM != zzSC) {
		zzv.Assert("another session's entry is removed only to knock it offline", !zzReg && zzKicked)
	}
}

func zzCloseKX(kx *session.KX) {
	if kx == zzKX {
		return
	}
	zzv.Assert("only the session in the way is closed", zzHasM && kx == zzEntryM.kx && !zzOn)
	zzKicked = true
}

func zzSessOpen(file string, create bool, depth int) (*inidb.INIDB, error) {
	if zzv.Choose() {
		return nil, zzDBErr()
	}
	zzv.Assert("the rendezvous database is used", zzv.EqB(file, path.Join(zzZ.settings.Root, rendezvousPath)))
	return inidb.ZzOpen(file, depth), nil
}

func zzSessSave(i *inidb.INIDB) error {
	if zzv.Choose() {
		return zzDBErr()
	}
	return nil
}

func zzSessSend(c chan *RPCWrapper, m *RPCWrapper) {
	zzv.Assert("no lock is held while a reply waits", zzv.LockState(&zzZ.rendezvousMtx) == 0 && zzv.LockState(&zzZ.Mutex) == 0 && zzv.LockState(&zzSC.Mutex) == 0)
	zzv.Assert("a request is answered once", zzHaveM && zzOwed)
	zzv.Assert("a request is answered under its tag", m.Message.Tag == zzM.Tag)
	zzv.Assert("only tags below the depth are answered", m.Message.Tag < tagDepth)
	zzOwed = false
	switch m.Message.Command {
	case rpc.TaggedCmdPong:
		zzv.Assert("a request is answered by its reply", zzM.Command == rpc.TaggedCmdPing)
		zzv.Reach("pong")
	case rpc.TaggedCmdRendezvousReply:
		zzv.Assert("a request is answered by its reply", zzM.Command == rpc.TaggedCmdRendezvous)
		zzv.Reach("rendezvous")
	case rpc.TaggedCmdRendezvousPullReply:
		zzv.Assert("a request is answered by its reply", zzM.Command == rpc.TaggedCmdRendezvousPull)
		zzv.Reach("pull")
	case rpc.TaggedCmdAcknowledge:
		zzv.Assert("a request is answered by its reply", zzM.Command == rpc.TaggedCmdCache)
		p := m.Payload.(rpc.Acknowledge)
		zzv.Assert("a message is acknowledged exactly when it was stored", (p.Error == "") == zzStored)
		zzv.Reach("cache")
	case rpc.TaggedCmdProxyReply:
		zzv.Assert("a request is answered by its reply", zzM.Command == rpc.TaggedCmdProxy)
		p := m.Payload.(rpc.ProxyReply)
		zzv.Assert("a message is acknowledged exactly when it was stored", (p.Error == "") == zzStored)
		zzv.Assert("the reply names the recipient", zzv.EqB(p.To[:], zzProxyP.To[:]))
		zzv.Reach("proxy")
	case rpc.TaggedCmdIdentityFindReply:
		zzv.Assert("a request is answered by its reply", zzM.Command == rpc.TaggedCmdIdentityFind && zzLooked)
		p := m.Payload.(rpc.IdentityFindReply)
		zzv.Assert("the reply names the nick asked for", zzv.EqB(p.Nick, zzFindP.Nick))
		zzv.Assert("a nick that is not known yields an error", (p.Error == "") == (zzFound != nil))
		if zzFound != nil {
			zzv.Assert("the identity found is returned", zzv.Same(p.Identity, *zzFound))
		}
		zzv.Reach("find")
	default:
		zzv.Assert("only replies are written", false)
	}
}

//@ verify C16 C17 C22 C23 C25 nopanic locks cutknown chanblock
//@ use (*session.KX).TheirIdentity := zzTheir
//@ use (*session.KX).SetReadDeadline := zzDeadline
//@ use (*session.KX).SetWriteDeadline := zzWDeadline
//@ use (*session.KX).Read := zzRead
//@ use (*session.KX).Close := zzCloseKX
//@ use github.com/davecgh/go-xdr/xdr2.UnmarshalLimited := zzDecode
//@ use github.com/davecgh/go-xdr/xdr2.IsIO := zzIsIO
//@ use (*zkserver/account.Account).Online := zzOnlineC
//@ use (*zkserver/account.Account).Offline := zzOffline
//@ use (*zkserver/account.Account).Push := zzPushAcc
//@ use (*zkserver/account.Account).Deliver := zzDeliver
//@ use (*zkserver/account.Account).Delete := zzDelete
//@ use (*zkserver/account.Account).Disabled := zzDisabledC
//@ use (*zkserver/account.Account).Find := zzFindAcc
//@ use go (*zkserver.ZKS).sessionWriter := zzRuns1
//@ use go (*zkserver.ZKS).sessionNtfn := zzRuns2
//@ use tagstack.NewBlocking := zzNewStack
//@ use (*tagstack.TagStack).Push := zzPushTag
//@ use inidb.New := zzSessOpen
//@ use (*inidb.INIDB).Save := zzSessSave
//@ use tools.RandomUint64 := zzRandom
//@ use time.Sleep := zzSleep
//@ use lock zkserver.sessionContext.Mutex := zzSCLock
//@ use unlock zkserver.sessionContext.Mutex := zzSCUnlock
//@ use lock zkserver.ZKS.Mutex := zzZLock
//@ use unlock zkserver.ZKS.Mutex := zzZUnlock
//@ use send *zkserver.RPCWrapper := zzSessSend
//@ use (*debug.Debug).T := zzLog
//@ use (*debug.Debug).Error := zzLog
//@ use (*debug.Debug).Dbg := zzLog
//@ use (*debug.Debug).Info := zzLog
//@ use (*debug.Debug).Warn := zzLog
func zzvSession(z *ZKS, kx *session.KX, me [32]byte, k string, j uint32) {
	zzSetup(z)
	zzv.Assume(kx != nil && j < tagDepth)
	zzZ, zzKX, zzMe, zzK, zzJ = z, kx, me, k, j
	zzMine = hex.EncodeToString(me[:])
	zzSC, zzOn, zzOns, zzReg, zzForced, zzKicked, zzNotDis = nil, false, 0, false, false, false, false
	zzHaveM, zzOwed = false, false
	err := z.handleSession(kx)
	zzv.Assert("an ended session leaves its account offline", !zzOn)
	if zzOns == 0 {
		zzv.Assert("a session that is not online is refused", err != nil && !zzReg)
		zzv.Reach("refused")
		return
	}
	e, ok := z.sessions[zzMine]
	zzv.Assert("an ended session is forgotten", !ok || e != zzSC)
	quit := false
	select {
	case <-zzSC.quit:
		quit = true
	default:
	}
	zzv.Assert("the session's writers are told to quit", quit)
	if err == nil {
		zzv.Reach("closed")
	}
}

var _ = debug.New
