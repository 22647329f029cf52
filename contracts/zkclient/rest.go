package main

import (
	"encoding/hex"
	"errors"
	"os"
	"time"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zzv"
)

// The rest of the client: no input makes it crash and no lock is kept.
var (
	zzNewLen int
	zzFocAt  int
)

// While the lock is free others may do what they like to windows; they keep
// the console, each window has its console and identity, and one is active.
func zzGiveW(z *ZKC) {
	zzv.Assert("one of the windows is active", z.active >= 0 && z.active < len(z.conversation))
}
func zzSetupW(z *ZKC) {
	zzSetupZ(z)
	zzv.Assume(z.mw != nil && z.mw.status != nil && z.mw.title != nil && z.mw.cmdEdit != nil && z.ttkMW != nil)
	z.mw.zkc = z
	zzv.Assume(z.tagStack != nil)
	zzTakeW(z)
}
func zzStamp(t time.Time, f string) string {
	s := zzv.FreshString("time")
	zzv.Assume(len(s) < 80) // the format the user configured
	return s
}
func zzRepeat(s string, n int) string {
	zzv.Assert("strings.Repeat is not asked for less than nothing", n >= 0)
	return zzv.FreshString("repeated")
}

//@ verify C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id nonnil=zkclient.conversation.console
//@ use github.com/companyzero/ttk.Queue := zzQueue
//@ use (time.Time).Format := zzStamp
//@ use strings.Repeat := zzRepeat
//@ use (*zkclient.ZKC).log := zzLogW
//@ use lock zkclient.ZKC.RWMutex := zzTakeW
//@ use unlock zkclient.ZKC.RWMutex := zzGiveW
func zzvPrintf(z *ZKC, id int, ts time.Time, local bool, text string) {
	zzSetupW(z)
	z.printf(id, ts, local, "%v", text)
	zzv.Reach("printed")
}
func zzLogW(z *ZKC, id int, format string, args ...interface{}) {}

//@ verify C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id nonnil=zkclient.conversation.console
//@ use github.com/companyzero/ttk.Queue := zzQueue
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use lock zkclient.ZKC.RWMutex := zzTakeW
//@ use unlock zkclient.ZKC.RWMutex := zzGiveW
func zzvFocus(z *ZKC, id int) {
	zzSetupW(z)
	z.focus(id)
	zzv.Reach("focussed")
}

//@ verify C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id nonnil=zkclient.conversation.console
//@ use github.com/companyzero/ttk.Queue := zzQueue
//@ use rlock zkclient.ZKC.RWMutex := zzTakeW
func zzvPage(z *ZKC, where ttk.Location) {
	zzSetupW(z)
	z.mw.page(where)
	zzv.Reach("paged")
}

//@ verify C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id nonnil=zkclient.conversation.console
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use rlock zkclient.ZKC.RWMutex := zzTakeW
func zzvFlood(z *ZKC, nick, text string) {
	zzSetupW(z)
	z.FloodfT(nick, "%v", text)
	zzv.Reach("printed")
}

//@ verify C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id nonnil=zkclient.conversation.console
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzBookAny
//@ use rlock zkclient.ZKC.RWMutex := zzTakeW
func zzvJanitor(z *ZKC, msg rpc.Message, p rpc.Push, jm rpc.JanitorMessage) {
	zzSetupW(z)
	if z.handleJanitorMessage(msg, p, jm) == nil {
		zzv.Reach("told")
	}
}
func zzBookAny(a *addressbook.AddressBook, id [32]byte) (*zkidentity.PublicIdentity, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	p := new(zkidentity.PublicIdentity)
	zzv.Havoc(p)
	return p, nil
}

//@ verify C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id nonnil=zkclient.conversation.console
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzBookAny
//@ use lock zkclient.ZKC.RWMutex := zzTakeW
func zzvDisabled(z *ZKC, id [32]byte) {
	zzSetupW(z)
	z.handleDisabledUser(id)
	zzv.Reach("told")
}

func zzFocusOn(z *ZKC, id int) {
	zzv.Assert("the window exists", id >= 0 && id < len(z.conversation))
}

//@ verify C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id nonnil=zkclient.conversation.console
//@ use (*zkclient.ZKC).focus := zzFocusOn
//@ use rlock zkclient.ZKC.RWMutex := zzTakeW
func zzvNextPrev(z *ZKC) {
	zzSetupW(z)
	if zzv.Choose() {
		z.nextConversation()
	} else {
		z.prevConversation()
	}
	zzv.Reach("moved")
}

func zzFocusAny(z *ZKC, id int) {}
func zzGroupWin(z *ZKC, nick string) (*conversation, int, error) {
	zzv.Assert("no lock is held while a window is opened", zzv.LockState(&z.RWMutex) == 0)
	if zzv.Choose() {
		return nil, -1, zzv.NewErr()
	}
	c := new(conversation)
	zzv.Havoc(c)
	c.id = new(zkidentity.PublicIdentity)
	zzv.Havoc(c.id)
	zzv.Havoc(&zzNewLen)
	return c, zzNewLen, nil
}
func zzPeerWin(z *ZKC, id [32]byte) (*conversation, int, error) {
	return zzGroupWin(z, "")
}
func zzBookNick(a *addressbook.AddressBook, nick string) (*zkidentity.PublicIdentity, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	p := new(zkidentity.PublicIdentity)
	zzv.Havoc(p)
	return p, nil
}
func zzFindAny(z *ZKC, nick string) error {
	zzv.Assert("no lock is held while the server is asked", zzv.LockState(&z.RWMutex) == 0)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

//@ verify C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id nonnil=zkclient.conversation.console
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC).focus := zzFocusAny
//@ use (*zkclient.ZKC).groupConversation := zzGroupWin
//@ use (*zkclient.ZKC).getConversation := zzPeerWin
//@ use (*zkclient.ZKC).find := zzFindAny
//@ use (*zkclient/addressbook.AddressBook).FindNick := zzBookNick
//@ use rlock zkclient.ZKC.RWMutex := zzTakeW
func zzvQuery(z *ZKC, nick string) {
	zzSetupW(z)
	z.query(nick)
	zzv.Reach("queried")
}

// Deleting a user.
func zzSchedCB(z *ZKC, hi bool, id *[32]byte, payload interface{}, f func()) {
	zzv.Assert("no lock is held while a message is queued", zzv.LockState(&z.RWMutex) == 0)
	f()
}

//@ verify C22 C23 nopanic locks cutknown
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC).scheduleCRPCCB := zzSchedCB
//@ use (*zkclient/addressbook.AddressBook).FindNick := zzBookNick
func zzvBookDel(z *ZKC, nick string) {
	zzSetupW(z)
	if z.addressBookDel(nick) == nil {
		zzv.Reach("deleted")
	}
}

//@ verify C22 C23 nopanic locks cutknown
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use io/ioutil.ReadDir := zzDirs
//@ use (*zkclient/addressbook.AddressBook).Add := zzBookAdd
func zzvLoadIdentities(z *ZKC) {
	zzSetupW(z)
	if z.loadIdentities() == nil {
		zzv.Reach("loaded")
	}
}
func zzDirs(d string) ([]os.FileInfo, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	var l []os.FileInfo
	zzv.Havoc(&l)
	zzv.NoNils(l)
	return l, nil
}
func zzBookAdd(a *addressbook.AddressBook, id zkidentity.PublicIdentity) (string, error) {
	if zzv.Choose() {
		return "", zzv.NewErr()
	}
	return zzv.FreshString("nick"), nil
}

//@ verify C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id nonnil=zkclient.conversation.console
//@ use (*zkclient.ZKC).focus := zzFocusAny
//@ use (*zkclient.ZKC).query := zzQueryAny
//@ use inidb.New := zzDBAny
//@ use (*inidb.INIDB).Get := zzDBGet
//@ use lock zkclient.ZKC.RWMutex := zzTakeW
//@ use unlock zkclient.ZKC.RWMutex := zzGiveW
func zzvRestore(z *ZKC) {
	zzSetupW(z)
	if restoreConversations(z) == nil {
		zzv.Reach("restored")
	}
}
func zzQueryAny(z *ZKC, nick string) {
	zzv.Assert("no lock is held while a window is opened", zzv.LockState(&z.RWMutex) == 0)
}

//@ verify C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id nonnil=zkclient.conversation.console
//@ use inidb.New := zzDBAny
//@ use (*inidb.INIDB).NewTable := zzDBTable
//@ use (*inidb.INIDB).Set := zzDBSet
//@ use (*inidb.INIDB).Save := zzDBSaveAny
func zzvSaveWindows(z *ZKC) {
	zzSetupW(z)
	if saveConversations(z) == nil {
		zzv.Reach("saved")
	}
}

//@ verify C22 C23 nopanic locks cutknown
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use zkclient.restoreConversations := zzRestoreAny
//@ use (*session.KX).TheirIdentity := zzServerIs
func zzvWelcomeUser(z *ZKC, w *rpc.Welcome) {
	zzSetupW(z)
	zzv.Assume(w != nil && z.serverIdentity != nil && z.cert != nil)
	if z.welcomeUser(w) == nil {
		zzv.Reach("welcome")
	}
}
func zzServerIs(kx *session.KX) interface{} {
	var id [32]byte
	zzv.Havoc(&id)
	return id
}
func zzRestoreAny(z *ZKC) error {
	zzv.Assert("no lock is held while windows are opened", zzv.LockState(&z.RWMutex) == 0)
	return nil
}

//@ verify C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id nonnil=zkclient.conversation.console
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzBookAny
//@ use rlock zkclient.ZKC.RWMutex := zzTakeW
//@ use (*debug.Debug).Error := zzDbgLog
//@ use (*zkclient/addressbook.AddressBook).All := zzBookAll
//@ use inidb.New := zzDBAny
//@ use (*inidb.INIDB).Tables := zzTbls
//@ use (*inidb.INIDB).Records := zzRecs
func zzvList(z *ZKC, args []string) {
	zzSetupW(z)
	z.list(args)
	zzv.Reach("listed")
}

func zzBookAll(a *addressbook.AddressBook) []zkidentity.PublicIdentity {
	var l []zkidentity.PublicIdentity
	zzv.Havoc(&l)
	return l
}
func zzTbls(i *inidb.INIDB) []string {
	var l []string
	zzv.Havoc(&l)
	return l
}
func zzDBAny(file string, create bool, depth int) (*inidb.INIDB, error) {
	if zzv.Choose() {
		e := zzv.NewErr()
		zzv.Assume(!errors.Is(e, inidb.ErrCreated))
		return nil, e
	}
	if zzv.Choose() {
		zzv.Assume(create)
		return inidb.ZzNew(file, depth), inidb.ErrCreated
	}
	return inidb.ZzOpen(file, depth), nil
}
func zzDBGet(i *inidb.INIDB, table, key string) (string, error) {
	if zzv.Choose() {
		return "", zzv.NewErr()
	}
	return zzv.FreshString("value"), nil
}
func zzDBTable(i *inidb.INIDB, table string) error { return zzDBSaveAny(i) }
func zzDBSet(i *inidb.INIDB, table, key, value string) error {
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzDBSaveAny(i *inidb.INIDB) error {
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzDBDelT(i *inidb.INIDB, table string) error { return zzDBSaveAny(i) }

//@ verify C22 C23 nopanic locks cutknown
//@ use (*debug.Debug).Error := zzDbgLog
//@ use inidb.New := zzDBAny
//@ use (*inidb.INIDB).Records := zzRecs
//@ use (*inidb.INIDB).DelTable := zzDBDelT
//@ use (*inidb.INIDB).Save := zzDBSaveAny
func zzvDelJoin(z *ZKC, group string, token uint64) {
	zzSetupW(z)
	if z.delJoin(group, token) == nil {
		zzv.Reach("deleted")
	}
}

// The key of an exchange is recorded.
var (
	zzKeyRec *[32]byte
	zzKeySet bool
)

func zzKeyAdd(i *inidb.INIDB, table, key, value string) error {
	zzv.Assert("the key is recorded", table == "" && zzv.EqB(value, hex.EncodeToString(zzKeyRec[:])))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzKeySet = true
	return nil
}

//@ verify C26 C22 C23 nopanic locks cutknown
//@ use (*debug.Debug).Error := zzDbgLog
//@ use inidb.New := zzDBAny
//@ use (*inidb.INIDB).Get := zzDBGet
//@ use (*inidb.INIDB).Set := zzKeyAdd
//@ use (*inidb.INIDB).Save := zzDBSaveAny
func zzvSaveKey(z *ZKC, key *[32]byte) {
	zzSetupW(z)
	zzv.Assume(key != nil)
	zzKeyRec, zzKeySet = key, false
	if z.saveKey(key) == nil {
		zzv.Assert("the key is recorded", zzKeySet)
		zzv.Reach("saved")
	}
}

//@ verify C22 C23 nopanic locks cutknown
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC).goOnlineAndPrint := zzGoAgain
//@ use rlock zkclient.ZKC.RWMutex := zzTakeW
func zzvRetry(z *ZKC) {
	zzSetupW(z)
	z.goOnlineRetry()
	zzv.Reach("done")
}
func zzGoAgain(z *ZKC) error {
	zzv.Assert("no lock is held while the client goes online", zzv.LockState(&z.RWMutex) == 0 && zzv.LockState(&z.ratchetMtx) == 0)
	if zzv.Choose() {
		return errCert
	}
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

// Commands.  What they ask of the rest of the client is under contract there.
func zzAnyErr() error {
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzFree(z *ZKC) {
	zzv.Assert("no lock is held while a command is carried out", zzv.LockState(&z.RWMutex) == 0 && zzv.LockState(&z.ratchetMtx) == 0)
}
func zzTakeC(z *ZKC) {
	zzTakeW(z)
	zzv.Havoc(&z.online)
	zzv.Havoc(&z.kx)
	// C28, C29: an online client has a session
	zzv.Assume(!z.online || z.kx != nil)
}
func zzDoGc(z *ZKC, args []string) error { zzFree(z); return zzAnyErr() }
func zzDoGcMsg(z *ZKC, args []string, msg string, mode rpc.MessageMode) error {
	zzv.Assert("a message for a group names it", len(args) > 2)
	zzFree(z)
	return zzAnyErr()
}
func zzDoRecord(z *ZKC, id *zkidentity.PublicIdentity, cert []byte) error { return zzAnyErr() }
func zzDoOnline(z *ZKC) error                                             { zzFree(z); return zzAnyErr() }
func zzDoPm(z *ZKC, id [32]byte, message string, mode rpc.MessageMode) error {
	zzFree(z)
	return zzAnyErr()
}
func zzDoNick(z *ZKC, nick string) error { zzFree(z); return zzAnyErr() }
func zzDoSend(z *ZKC, id [32]byte, nick, filename, desc string) error {
	zzFree(z)
	return zzAnyErr()
}
func zzDoFlood(z *ZKC, nick, format string, args ...interface{}) { zzFree(z) }
func zzDoBookWin(z *ZKC, nick string) (*conversation, int, error) {
	return zzGroupWin(z, nick)
}
func zzDoList(z *ZKC, args []string) {
	zzv.Assert("what is listed is named", len(args) > 1)
	zzFree(z)
}
func zzDoQuery(z *ZKC, nick string) { zzFree(z) }
func zzDoDepth(z *ZKC) (*queueDepth, error) {
	zzFree(z)
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	q := new(queueDepth)
	zzv.Havoc(q)
	return q, nil
}
func zzDoPrintID(z *ZKC, id *zkidentity.PublicIdentity) {
	zzv.Assert("an identity is shown", id != nil)
	zzFree(z)
}
func zzDoKxClose(k *session.KX)          {}
func zzDoFocus(w *ttk.Window)            {}
func zzDoSaveW(z *ZKC) error             { zzFree(z); return zzAnyErr() }
func zzDoHelp(mw *mainWindow, args []string) error { return zzAnyErr() }
func zzDoUsage(mw *mainWindow, args []string) error {
	zzv.Assert("usage is that of a command", len(args) > 0)
	return zzv.NewErr()
}

// split at blanks there is always something
func zzSplitC(s, sep string) []string {
	var l []string
	zzv.Havoc(&l)
	zzv.Assume(len(l) > 0)
	return l
}

//@ verify C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id nonnil=zkclient.conversation.console
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC).FloodfT := zzDoFlood
//@ use (*zkclient.ZKC).focus := zzFocusAny
//@ use (*zkclient.ZKC).saveServerRecord := zzDoRecord
//@ use (*zkclient.ZKC).goOnlineAndPrint := zzDoOnline
//@ use (*zkclient.ZKC).pm := zzDoPm
//@ use (*zkclient.ZKC).send := zzDoSend
//@ use (*zkclient.ZKC).gcMessage := zzDoGcMsg
//@ use (*zkclient.ZKC).gcNew := zzDoGc
//@ use (*zkclient.ZKC).gcInvite := zzDoGc
//@ use (*zkclient.ZKC).gcJoin := zzDoGc
//@ use (*zkclient.ZKC).gcKick := zzDoGc
//@ use (*zkclient.ZKC).gcPart := zzDoGc
//@ use (*zkclient.ZKC).gcKill := zzDoGc
//@ use (*zkclient.ZKC).fetch := zzDoNick
//@ use (*zkclient.ZKC).find := zzDoNick
//@ use (*zkclient.ZKC).reset := zzDoNick
//@ use (*zkclient.ZKC).addressBookDel := zzDoNick
//@ use (*zkclient.ZKC).addressBookConversation := zzDoBookWin
//@ use (*zkclient.ZKC).list := zzDoList
//@ use (*zkclient.ZKC).query := zzDoQuery
//@ use (*zkclient.ZKC).queueDepth := zzDoDepth
//@ use (*zkclient.ZKC).printID := zzDoPrintID
//@ use (*zkclient.mainWindow).doHelp := zzDoHelp
//@ use (*zkclient.mainWindow).doUsage := zzDoUsage
//@ use zkclient.restoreConversations := zzDoSaveW
//@ use zkclient.saveConversations := zzDoSaveW
//@ use (*session.KX).Close := zzDoKxClose
//@ use (*zkclient/addressbook.AddressBook).FindNick := zzBookNick
//@ use (*zkclient/addressbook.AddressBook).FindIdentityS := zzBookNick
//@ use github.com/companyzero/ttk.Focus := zzDoFocus
//@ use strings.Split := zzSplitC
//@ use lock zkclient.ZKC.RWMutex := zzTakeC
//@ use rlock zkclient.ZKC.RWMutex := zzTakeC
func zzvAction(z *ZKC, cmd string) {
	zzSetupW(z)
	zzv.Assume(z.mw.quitC != nil)
	if z.mw.action(cmd) == nil {
		zzv.Reach("done")
	}
}

func zzDoSet(mw *mainWindow, s string) {}
func zzDoApp(mw *mainWindow, s string) {}
func zzDoAct(mw *mainWindow, s string) error {
	zzFree(mw.zkc)
	return zzAnyErr()
}
func zzDoPage(mw *mainWindow, where ttk.Location) {}
func zzDoNicks(z *ZKC, at string) string          { return zzv.FreshString("completed") }

//@ verify C22 C23 nopanic locks cutknown
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.mainWindow).setCmd := zzDoSet
//@ use (*zkclient.mainWindow).appendHistory := zzDoApp
//@ use (*zkclient.mainWindow).action := zzDoAct
//@ use (*zkclient.mainWindow).page := zzDoPage
//@ use (*zkclient.ZKC).completeNick := zzDoNicks
//@ use (*zkclient.ZKC).completeDir := zzDoNicks
func zzvKey(z *ZKC, w *ttk.Window, k ttk.Key) {
	zzSetupW(z)
	mw := z.mw
	zzv.Assume(mw.historyAt >= 0 && mw.historyAt <= len(mw.history))
	mw.KeyHandler(w, k)
	zzv.Assert("the history is not left", mw.historyAt >= 0 && mw.historyAt <= len(mw.history))
	zzv.Reach("handled")
}

//@ verify C22 C23 nopanic locks cutknown
//@ use (*zkclient/addressbook.AddressBook).All := zzBookAll
func zzvComplete(z *ZKC, at string) {
	zzSetupW(z)
	c := z.cctx
	zzv.Assume(c == nil || len(c.all) == 0 || c.at >= 0 && c.at < len(c.all))
	if zzv.Choose() {
		z.completeNick(at)
	} else {
		z.completeDir(at)
	}
	c = z.cctx
	zzv.Assert("what is completed exists", c == nil || len(c.all) == 0 || c.at >= 0 && c.at < len(c.all))
	zzv.Reach("completed")
}

//@ verify C22 C23 nopanic locks cutknown
//@ use github.com/companyzero/ttk.Exit := zzDoExit
func zzvHistory(z *ZKC, cmd string) {
	zzSetupW(z)
	mw := z.mw
	zzv.Assume(mw.historyAt >= 0 && mw.historyAt <= len(mw.history))
	if zzv.Choose() {
		mw.readHistory()
		return
	}
	mw.appendHistory(cmd)
	zzv.Assert("the history is not left", mw.historyAt >= 0 && mw.historyAt <= len(mw.history))
	zzv.Reach("read")
}
func zzDoExit(format string, args ...interface{}) { zzv.Assume(false) }
