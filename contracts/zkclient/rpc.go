package main

import (
	"encoding/hex"
	"io"
	"os"
	"path"
	"sync"
	"time"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/debug"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/tagstack"
	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zzv"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// One session of the client: zzRX is its transport.  Other goroutines run
// whenever the client's lock is free: what waits for acknowledgements is made
// arbitrary when it is taken.
var (
	zzRX     *session.KX
	zzRDepth uint32
	zzRMsg   rpc.Message // what the server sent
	zzRHave  bool
	zzRPush  rpc.Push
	zzRIdent rpc.IdentityFindReply
	zzRPull  rpc.RendezvousPullReply
	zzRAck   rpc.Acknowledge
	zzROwed  bool // a message was pushed and is not acknowledged
	zzRDone  int  // it was handled
	zzRFreed bool
	zzRKeeps bool // a reply came and its tag is not freed
	zzRTell  bool // somebody waits for the acknowledgement that came
	zzRAcked bool
	zzRMine  *cb    // what waits under any tag
	zzRJ     uint32 // that tag
	zzRHas   bool   // it waits
	zzRRan   int
	zzRDis   int
	zzRGone  bool // connection closed
	zzRAsked bool // the user asked for the identity
	zzRPend  *time.Time
	zzRVerif bool
	zzRKXs   int
	zzRRetry int
)

func zzRRead(kx *session.KX) ([]byte, error) {
	zzv.Assert("messages are read from the session", kx == zzRX && !zzRGone)
	zzv.Assert("a message that was pushed is acknowledged before the next one is read", !zzROwed)
	zzv.Assert("a reply frees its tag", !zzRKeeps)
	zzv.Assert("what waits for an acknowledgement is told", !zzRTell)
	zzv.Assert("no lock is held while the server is waited for", zzv.LockState(&zzC.RWMutex) == 0 && zzv.LockState(&zzC.write) == 0 && zzv.LockState(&zzC.pendingIdentitiesMutex) == 0)
	zzRHave = false
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	return zzv.FreshBytes("cmd", -1), nil
}

func zzRIsIO(err error) bool { return zzv.Choose() }

func zzRDecode(r io.Reader, v interface{}, max uint) (int, error) {
	zzv.Assert("what a message makes the client allocate is bounded", max == zzC.msgSize)
	n, err := xdr.Unmarshal(r, v)
	if err != nil {
		return n, err
	}
	switch p := v.(type) {
	case *rpc.Message:
		zzRMsg, zzRHave = *p, true
		zzROwed, zzRFreed, zzRAcked, zzRTell = false, false, false, false
		zzRKeeps = p.Command != rpc.TaggedCmdPush
		zzRDone, zzRRan, zzRDis, zzRKXs = 0, 0, 0, 0
		zzRAsked, zzRVerif = false, false
		zzRHas = false
	case *rpc.Push:
		zzv.Assert("a message is what its header says", zzRHave && zzRMsg.Command == rpc.TaggedCmdPush)
		zzRPush, zzROwed = *p, true
	case *rpc.Acknowledge:
		zzv.Assert("a message is what its header says", zzRHave && zzRMsg.Command == rpc.TaggedCmdAcknowledge)
		zzRAck, zzRAcked = *p, true
	case *rpc.RendezvousPullReply:
		zzv.Assert("a message is what its header says", zzRHave && zzRMsg.Command == rpc.TaggedCmdRendezvousPullReply)
		zzRPull = *p
	case *rpc.IdentityFindReply:
		zzv.Assert("a message is what its header says", zzRHave && zzRMsg.Command == rpc.TaggedCmdIdentityFindReply)
		zzRIdent = *p
	}
	return n, nil
}

func zzRHandle(z *ZKC, msg rpc.Message, p rpc.Push) error {
	zzv.Assert("what was pushed is handled once, as it came", zzROwed && zzRDone == 0 && zzv.Same(p, zzRPush) && zzv.Same(msg, zzRMsg))
	zzRDone++
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

func zzRSend(z *ZKC, hi bool, msg rpc.Message, payload interface{}) {
	_, ok := payload.(rpc.Acknowledge)
	zzv.Assert("only acknowledgements are sent unasked", ok && msg.Command == rpc.TaggedCmdAcknowledge)
	zzv.Assert("a message is acknowledged after it was handled, once, under its tag", zzROwed && zzRDone == 1 && msg.Tag == zzRMsg.Tag)
	zzROwed = false
}

func zzRFree(s *tagstack.TagStack, x uint32) error {
	zzv.Assert("the tag of the reply is freed, once", s == zzC.tagStack && zzRHave && !zzRFreed && x == zzRMsg.Tag)
	zzv.Assert("only a tag below the tag depth is freed", x < zzRDepth)
	zzv.Assert("a message of the server has no tag of the client's", zzRMsg.Command != rpc.TaggedCmdPush && zzRMsg.Command != rpc.TaggedCmdAcknowledge || zzRAcked)
	zzRFreed, zzRKeeps = true, false
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

// what waits under tag zzRJ
func zzRCall() {}
func zzRCalled() {
	zzv.Assert("what waits for an acknowledgement is told once it came", zzRAcked && zzRHas && zzRMsg.Tag == zzRJ && zzRFreed)
	zzRTell = false
	zzRRan++
}
func zzRDisabled(z *ZKC, id [32]byte) {
	zzv.Assert("a disabled user is the one that was written to", zzRAcked && zzRAck.ErrorCode == rpc.ErrorCodeUserDisabled && (zzRMsg.Tag != zzRJ || zzRHas && zzv.EqB(id[:], zzRMine.to[:])))
	zzRDis++
}

func zzRTake(z *ZKC) {
	zzv.Havoc(&z.tagCallback)
	zzv.Assume(uint32(len(z.tagCallback)) == zzRDepth && len(z.tagCallback) <= 32)
	zzRHas = false
	if zzRJ < zzRDepth {
		if zzv.Choose() {
			zzRMine = &cb{to: zzv32()}
			if zzv.Choose() {
				zzRMine.callback = zzRCall
			}
			z.tagCallback[zzRJ] = zzRMine
			zzRHas = true
		} else {
			zzv.Assume(z.tagCallback[zzRJ] == nil)
		}
	}
}
func zzRLook(z *ZKC) {
	zzv.Havoc(&z.tagCallback)
	zzv.Assume(uint32(len(z.tagCallback)) == zzRDepth && len(z.tagCallback) <= 32)
}
func zzRWho(z *ZKC, id [32]byte) (*zkidentity.PublicIdentity, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	return new(zkidentity.PublicIdentity), nil
}
func zzv32() (x [32]byte) {
	zzv.Havoc(&x)
	return
}
func zzRGive(z *ZKC) {
	if zzRJ < zzRDepth {
		if zzRHave && zzRAcked && !zzRFreed && zzRMsg.Tag == zzRJ {
			zzRTell = zzRHas && zzRMine.callback != nil
			zzv.Assert("what was told is forgotten", z.tagCallback[zzRJ] == nil)
		} else if zzRHas {
			zzv.Assert("what waits under another tag goes on waiting", z.tagCallback[zzRJ] == zzRMine)
		} else {
			zzv.Assert("nothing waits that was not sent", z.tagCallback[zzRJ] == nil)
		}
	}
}

func zzRVerify(p *zkidentity.PublicIdentity) bool {
	if zzv.Choose() {
		return false
	}
	if zzv.Same(*p, zzRIdent.Identity) {
		zzRVerif = true
	}
	return true
}
func zzRStart(z *ZKC, id zkidentity.PublicIdentity) error {
	zzv.Assert("keys are exchanged with the identity that was found, once it is verified", zzRHave && zzRMsg.Command == rpc.TaggedCmdIdentityFindReply && zzRVerif && zzv.Same(id, zzRIdent.Identity))
	zzv.Assert("keys are exchanged with an identity that the user asked for, once", zzRAsked && zzRKXs == 0)
	zzRKXs++
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzRPending(z *ZKC) {
	// the lookups that were started
	zzv.Havoc(&z.pendingIdentities)
	zzRPend = z.pendingIdentities[zzRIdent.Nick]
	zzRAsked = zzRAsked || zzRPend != nil
}
func zzRPended(z *ZKC) {
	zzv.Assert("a lookup ends with its reply", z.pendingIdentities[zzRIdent.Nick] == nil)
}

func zzRClose(kx *session.KX) error {
	zzv.Assert("the connection of the session is closed", kx == zzRX)
	zzRGone = true
	return nil
}
func zzRAgain(z *ZKC) { zzRRetry++ }

// What a session starts is told of its end, and waited for.
var zzRQuit, zzRWaited bool

func zzRQuits(c chan struct{}) {
	zzRQuit = true
}
func zzRWait(wg *sync.WaitGroup) {
	zzv.Assert("what is waited for was told to end", zzRQuit)
	zzRWaited = true
	zzv.Assert("no lock is held while the end of others is waited for", zzv.LockState(&zzC.RWMutex) == 0 && zzv.LockState(&zzC.write) == 0)
}
func zzRFocus(w *ttk.Window) {
	if w == zzC.ttkKAW {
		zzv.Assert("the window in which a blob is opened has the blob", zzRHave && zzRMsg.Command == rpc.TaggedCmdRendezvousPullReply && zzC.kaw.rendezvousPullReply != nil)
		zzv.Assert("the blob that is opened is the one that came", zzv.Same(*zzC.kaw.rendezvousPullReply, zzRPull))
	}
}
func zzRErr(d *debug.Debug, id int, format string, args ...interface{}) {}

//@ verify C29 C22 C23 C26 nopanic locks
//@ use (*session.KX).Read := zzRRead
//@ use (*session.KX).Close := zzRClose
//@ use github.com/davecgh/go-xdr/xdr2.IsIO := zzRIsIO
//@ use github.com/davecgh/go-xdr/xdr2.UnmarshalLimited := zzRDecode
//@ use (*zkclient.ZKC).handlePush := zzRHandle
//@ use (*zkclient.ZKC).schedulePRPC := zzRSend
//@ use (*zkclient.ZKC).step1IDKX := zzRStart
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC).FloodfT := zzFlood
//@ use (*zkclient.ZKC).nickFromId := zzNick
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*debug.Debug).Error := zzRErr
//@ use (*tagstack.TagStack).Push := zzRFree
//@ use (*zkidentity.PublicIdentity).Verify := zzRVerify
//@ use github.com/companyzero/ttk.Focus := zzRFocus
//@ use close struct{} := zzRQuits
//@ use (*sync.WaitGroup).Wait := zzRWait
//@ use go zkclient.zzRCall := zzRCalled
//@ use go (*zkclient.ZKC).handleDisabledUser := zzRDisabled
//@ use go (*zkclient.ZKC).goOnlineRetry := zzRAgain
//@ use (*zkclient.ZKC).addressBookFind := zzRWho
//@ use lock zkclient.ZKC.RWMutex := zzRTake
//@ use rlock zkclient.ZKC.RWMutex := zzRLook
//@ use unlock zkclient.ZKC.RWMutex := zzRGive
//@ use lock zkclient.ZKC.pendingIdentitiesMutex := zzRPending
//@ use unlock zkclient.ZKC.pendingIdentitiesMutex := zzRPended
func zzvRPC(z *ZKC, j uint32) {
	zzSetupZ(z)
	zzv.Assume(z.kx != nil && z.tagStack != nil && z.kaw != nil && z.online)
	zzRX = z.kx
	zzRJ = j
	zzRDepth = uint32(zzv.FreshInt("depth", 1, 32))
	zzv.Assume(uint32(len(z.tagCallback)) == zzRDepth)
	zzROwed, zzRHave, zzRGone, zzRQuit, zzRWaited, zzRRetry = false, false, false, false, false, 0
	z.handleRPC()
	zzv.Assert("a session that ends leaves the client offline, its connection closed", !z.online && z.kx == nil && zzRGone)
	zzv.Assert("a client that lost its session tries again", zzRRetry == 1)
	zzv.Assert("what the session started has ended", zzRWaited)
	zzv.Reach("offline")
}

// The heartbeat: a ping goes out under a tag taken for it, while none is
// unanswered.
var (
	zzBTag  uint32
	zzBHold bool // a tag is taken and nothing went out under it
	zzBBusy bool // a ping is unanswered, as the write lock last showed
	zzBSet  bool // this ping was noted as unanswered
)

func zzBPop(s *tagstack.TagStack) (uint32, error) {
	zzv.Assert("a tag is taken for one ping", s == zzC.tagStack && !zzBHold)
	zzv.Assert("a ping is sent while none is unanswered", !zzBBusy)
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	zzBTag = uint32(zzv.FreshInt("tag", 0, 31))
	zzBHold, zzBSet = true, false
	return zzBTag, nil
}
func zzBSend(z *ZKC, hi bool, msg rpc.Message, payload interface{}) {
	_, ok := payload.(rpc.Ping)
	zzv.Assert("the heartbeat sends pings", ok && msg.Command == rpc.TaggedCmdPing)
	zzv.Assert("a ping goes out under the tag taken for it, once", zzBHold && msg.Tag == zzBTag)
	zzv.Assert("a ping is known to be unanswered before it goes out", zzBSet)
	zzv.Assert("no lock is held while the ping is handed over", zzv.LockState(&z.RWMutex) == 0 && zzv.LockState(&z.write) == 0)
	zzBHold = false
}
func zzBTake(z *ZKC) {
	zzv.Havoc(&z.pingInProgress)
	zzv.Havoc(&z.lastTick)
	zzBBusy = z.pingInProgress
}
func zzBGive(z *ZKC) {
	zzBSet = z.pingInProgress
}
func zzBRead(kx *session.KX) ([]byte, error) {
	zzv.Assert("the tag taken for a ping is used", !zzBHold)
	return nil, zzv.NewErr()
}
func zzBClose(kx *session.KX) error {
	zzv.Assert("the connection of the session is closed", kx == zzRX)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

//@ verify C29 C22 C23 nopanic locks gorun
//@ use (*session.KX).Read := zzBRead
//@ use (*session.KX).Close := zzBClose
//@ use github.com/davecgh/go-xdr/xdr2.IsIO := zzRIsIO
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).schedulePRPC := zzBSend
//@ use (*tagstack.TagStack).Pop := zzBPop
//@ use go (*zkclient.ZKC).goOnlineRetry := zzRAgain
//@ use lock zkclient.ZKC.write := zzBTake
//@ use unlock zkclient.ZKC.write := zzBGive
func zzvBeat(z *ZKC) {
	zzSetupZ(z)
	zzv.Assume(z.kx != nil && z.tagStack != nil && z.online)
	zzRX = z.kx
	zzBHold, zzBBusy, zzBSet, zzRRetry = false, false, false, 0
	z.handleRPC()
	zzv.Reach("stopped")
}

// What the client asks of the server goes out once, under a tag taken for it;
// a tag that nothing went out under is given back.
var (
	zzQTag   uint32
	zzQHold  bool
	zzQSent  int
	zzQMsg   rpc.Message
	zzQBody  interface{}
	zzQOn    bool
	zzQGave  int
	zzQErr   bool // the tags ran out
	zzQPend  bool // a lookup of the nick was in progress
	zzQNick  string
	zzQOther *time.Time
	zzQKey   string // any other nick
	zzQIdent *zkidentity.PublicIdentity
	zzQGone  bool // a ratchet was removed
)

func zzQOnline(z *ZKC) bool {
	zzQOn = zzv.Choose()
	return zzQOn
}
func zzQPop(s *tagstack.TagStack) (uint32, error) {
	zzv.Assert("one tag is taken for a request, while online", s == zzC.tagStack && zzQOn && !zzQHold && zzQSent == 0)
	if zzv.Choose() {
		zzQErr = true
		return 0, zzv.NewErr()
	}
	zzQTag = uint32(zzv.FreshInt("tag", 0, 31))
	zzQHold = true
	return zzQTag, nil
}
func zzQPush(s *tagstack.TagStack, x uint32) error {
	zzv.Assert("only a tag that nothing went out under is given back", s == zzC.tagStack && zzQHold && x == zzQTag)
	zzQHold = false
	return nil
}
func zzQSend(z *ZKC, hi bool, msg rpc.Message, payload interface{}) {
	zzv.Assert("a request goes out once, under the tag taken for it", zzQHold && msg.Tag == zzQTag && zzQSent == 0 && !msg.Cleartext)
	zzQHold = false
	zzQSent++
	zzQMsg, zzQBody = msg, payload
}
func zzQSetup(z *ZKC) {
	zzSetupZ(z)
	zzv.Assume(z.tagStack != nil)
	zzQHold, zzQSent, zzQOn, zzQErr, zzQGone = false, 0, false, false, false
}
func zzQEnd(err error) {
	zzv.Assert("success means that the request went out", err != nil || zzQSent == 1)
	zzv.Assert("a request that failed did not go out", err == nil || zzQSent == 0)
	zzv.Assert("a tag is used or given back", !zzQHold)
	if err == nil {
		zzv.Reach("asked")
	} else {
		zzv.Reach("not asked")
	}
}

//@ verify C29 C22 C23 nopanic locks
//@ use (*zkclient.ZKC).isOnline := zzQOnline
//@ use (*zkclient.ZKC).schedulePRPC := zzQSend
//@ use (*tagstack.TagStack).Pop := zzQPop
//@ use (*tagstack.TagStack).Push := zzQPush
func zzvCache(z *ZKC, to [32]byte, blob []byte) {
	zzQSetup(z)
	want := append([]byte(nil), blob...)
	err := z.cache(to, blob)
	zzQEnd(err)
	if err == nil {
		p, ok := zzQBody.(rpc.Cache)
		zzv.Assert("what is delivered is what was to be, to whom it was to be", ok && zzQMsg.Command == rpc.TaggedCmdCache && zzv.EqB(p.To[:], to[:]) && zzv.EqB(p.Payload, want))
	}
}

//@ verify C29 C22 C23 nopanic locks
//@ use (*zkclient.ZKC).isOnline := zzQOnline
//@ use (*zkclient.ZKC).schedulePRPC := zzQSend
//@ use (*tagstack.TagStack).Pop := zzQPop
//@ use (*tagstack.TagStack).Push := zzQPush
func zzvRendezvous(z *ZKC, blob []byte) {
	zzQSetup(z)
	want := append([]byte(nil), blob...)
	err := z.rendezvous(blob)
	zzQEnd(err)
	if err == nil {
		p, ok := zzQBody.(rpc.Rendezvous)
		zzv.Assert("what is left for another is what was to be", ok && zzQMsg.Command == rpc.TaggedCmdRendezvous && zzv.EqB(p.Blob, want))
		zzv.Assert("what is left for another says until when", ok && p.Expiration != "")
	}
}

//@ verify C29 C22 C23 nopanic locks
//@ use (*zkclient.ZKC).isOnline := zzQOnline
//@ use (*zkclient.ZKC).schedulePRPC := zzQSend
//@ use (*tagstack.TagStack).Pop := zzQPop
//@ use (*tagstack.TagStack).Push := zzQPush
func zzvFetch(z *ZKC, pin string) {
	zzQSetup(z)
	err := z.fetch(pin)
	zzQEnd(err)
	if err == nil {
		p, ok := zzQBody.(rpc.RendezvousPull)
		zzv.Assert("what is fetched is what was asked for", ok && zzQMsg.Command == rpc.TaggedCmdRendezvousPull && zzv.EqB(p.Token, pin))
	}
}

func zzQFind(a *addressbook.AddressBook, nick string) (*zkidentity.PublicIdentity, error) {
	zzv.Assert("the nick that was asked for is looked up", a == zzC.ab && zzv.EqB(nick, zzQNick))
	if zzv.Choose() {
		zzQIdent = nil
		return nil, zzv.NewErr()
	}
	zzQIdent = new(zkidentity.PublicIdentity)
	zzv.Havoc(zzQIdent)
	return zzQIdent, nil
}
func zzQPending(z *ZKC) {
	zzv.Havoc(&z.pendingIdentities)
	zzQPend = z.pendingIdentities[zzQNick] != nil
	zzQOther = z.pendingIdentities[zzQKey]
}
func zzQPended(z *ZKC) {
	zzv.Assert("a lookup is in progress once it was asked for", (z.pendingIdentities[zzQNick] != nil) == (zzQPend || zzQSent == 1))
	zzv.Assert("a lookup that is in progress is not asked for again", !zzQPend || zzQSent == 0)
	zzv.Assert("other lookups go on", zzQKey == zzQNick || z.pendingIdentities[zzQKey] == zzQOther)
}

//@ verify C29 C22 C23 nopanic locks
//@ use (*zkclient.ZKC).isOnline := zzQOnline
//@ use (*zkclient.ZKC).schedulePRPC := zzQSend
//@ use (*tagstack.TagStack).Pop := zzQPop
//@ use (*tagstack.TagStack).Push := zzQPush
//@ use (*zkclient/addressbook.AddressBook).FindNick := zzQFind
//@ use lock zkclient.ZKC.pendingIdentitiesMutex := zzQPending
//@ use unlock zkclient.ZKC.pendingIdentitiesMutex := zzQPended
func zzvFind(z *ZKC, nick, other string) {
	zzQSetup(z)
	zzQNick, zzQKey, zzQIdent = nick, other, nil
	err := z.find(nick)
	zzQEnd(err)
	if err == nil {
		p, ok := zzQBody.(rpc.IdentityFind)
		zzv.Assert("who is looked up is who was asked for", ok && zzQMsg.Command == rpc.TaggedCmdIdentityFind && zzv.EqB(p.Nick, nick))
		zzv.Assert("who is known is not looked up, nor the user", zzQIdent == nil && nick != z.id.Public.Nick && nick != "")
	}
}

func zzQStat(name string) (os.FileInfo, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	return nil, nil
}
// zzQTried: the ratchet of the peer was to be removed.
var zzQTried bool

func zzQRemove(name string) error {
	d := zzDirOf(zzC, zzQIdent.Identity)
	zzv.Assert("the ratchets of that peer alone are removed, with a tag to tell so", zzQHold && (zzv.EqB(name, path.Join(d, ratchetFilename)) || zzv.EqB(name, path.Join(d, halfRatchetFilename))))
	if zzv.EqB(name, path.Join(d, ratchetFilename)) {
		zzQTried = true
	}
	if zzv.Choose() {
		return zzv.NewErr()
	}
	if zzv.EqB(name, path.Join(d, ratchetFilename)) {
		zzQGone = true
	}
	return nil
}

//@ verify C29 C26 C22 C23 nopanic locks
//@ use (*zkclient.ZKC).isOnline := zzQOnline
//@ use (*zkclient.ZKC).schedulePRPC := zzQSend
//@ use (*zkclient.ZKC).FloodfT := zzFlood
//@ use (*tagstack.TagStack).Pop := zzQPop
//@ use (*tagstack.TagStack).Push := zzQPush
//@ use (*zkclient/addressbook.AddressBook).FindNick := zzQFind
//@ use os.Stat := zzQStat
//@ use os.Remove := zzQRemove
func zzvResetCmd(z *ZKC, nick string) {
	zzQSetup(z)
	zzQNick, zzQTried = nick, false
	err := z.reset(nick)
	zzQEnd(err)
	zzv.Assert("a peer whose ratchet was removed is told", !zzQGone || zzQSent == 1)
	if err == nil {
		zzv.Assert("the ratchet is removed", zzQTried)
		p, ok := zzQBody.(rpc.Proxy)
		zzv.Assert("the peer is told", ok && zzQMsg.Command == rpc.TaggedCmdProxy && zzv.EqB(p.To[:], zzQIdent.Identity[:]))
		pr := rpc.ProxyCmd{Command: rpc.ProxyCmdResetRatchet, Message: "reset ratchet initiated by: " + hex.EncodeToString(z.id.Public.Identity[:])}
		zzv.Assert("what the peer is told is a reset", zzv.EqB(p.Payload, zzv.Enc("xdr", pr)))
	}
}

// A message is written once, header and payload as they are.
var (
	zzMWrote int
	zzMBytes []byte
)

func zzMWrite(kx *session.KX, b []byte) error {
	zzv.Assert("a message is written once, to the session", kx == zzRX && zzMWrote == 0)
	zzv.Assert("the connection is not waited for under the client's lock", zzv.LockState(&zzC.RWMutex) == 0 && zzv.LockState(&zzC.write) == 0)
	zzMWrote++
	zzMBytes = append([]byte(nil), b...)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzMTake(z *ZKC) {
	// a session ends whenever the lock is free
	zzv.Havoc(&z.online)
	if zzv.Choose() {
		z.kx = nil
	} else {
		z.kx = zzRX
	}
}

//@ verify C29 C22 C23 nopanic locks
//@ use (*session.KX).Write := zzMWrite
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use rlock zkclient.ZKC.RWMutex := zzMTake
//@ use lock zkclient.ZKC.RWMutex := zzMTake
func zzvWriteMessage(z *ZKC, x *session.KX, m rpc.Message, p rpc.Cache) {
	zzSetupZ(z)
	zzv.Assume(x != nil)
	zzRX, zzMWrote = x, 0
	was := m
	err := z.writeMessage(&m, p)
	was.TimeStamp = m.TimeStamp
	zzv.Assert("a message goes out as it was given", zzv.Same(m, was))
	if err == nil {
		zzv.Assert("a message that went out was written", zzMWrote == 1)
		zzv.Assert("what is written is the message and what goes with it", zzv.EqB(zzMBytes, append(zzv.Enc("xdr", m), zzv.Enc("xdr", p)...)))
		zzv.Reach("written")
	}
	if !z.online || z.kx == nil {
		zzv.Assert("nothing is written while offline", err != nil && zzMWrote == 0)
		zzv.Reach("offline")
	}
}
