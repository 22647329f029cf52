package main

import (
	"strings"
	"time"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zzv"
)

// Windows.  What is queued for the terminal is run at once.
var (
	zzConvID  [32]byte
	zzConv    *conversation
	zzConvNm  string
	zzNickNow string
	zzPm      rpc.PrivateMessage
	zzWinAt   int
	zzWinC    *conversation
)

func zzQueue(f func())                                              { f() }
func zzVis(l *ttk.List, v ttk.Visibility) ttk.Visibility            { return v }
func zzAddList(w *ttk.Window, x, y, a, b int) *ttk.List             { return new(ttk.List) }
func zzAppend(l *ttk.List, format string, args ...interface{})      {}

// What others may do to windows while the lock is free: they keep the console,
// each window has its console and identity.
func zzTakeW(z *ZKC) {
	zzv.Havoc(&z.conversation)
	zzv.NoNils(z.conversation)
	zzv.Assume(len(z.conversation) > 0 && z.active >= 0 && z.active < len(z.conversation))
}

func zzLoadIDW(z *ZKC, id [32]byte) (*zkidentity.PublicIdentity, error) {
	zzv.Assert("the identity of the peer is loaded", zzv.EqB(id[:], zzConvID[:]))
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	p := new(zkidentity.PublicIdentity)
	zzv.Havoc(p)
	p.Identity = id // C26
	return p, nil
}
func zzABNickOf(a *addressbook.AddressBook, id [32]byte) (*zkidentity.PublicIdentity, error) {
	zzv.Assert("the nick of the peer is looked up", zzv.EqB(id[:], zzConvID[:]))
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	p := new(zkidentity.PublicIdentity)
	zzv.Havoc(p)
	p.Identity = id // C21
	zzv.Assume(p.Nick != "")
	zzNickNow = p.Nick
	return p, nil
}

//@ verify C27 C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id nonnil=zkclient.conversation.console
//@ use github.com/companyzero/ttk.Queue := zzQueue
//@ use (*github.com/companyzero/ttk.List).Visibility := zzVis
//@ use (*github.com/companyzero/ttk.Window).AddList := zzAddList
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC).loadIdentity := zzLoadIDW
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzABNickOf
//@ use lock zkclient.ZKC.RWMutex := zzTakeW
func zzvWindowOf(z *ZKC, id [32]byte) {
	zzSetupZ(z)
	zzv.Assume(z.ttkMW != nil)
	zzConvID, zzNickNow = id, ""
	c, win, err := z.getConversation(id)
	if err != nil {
		return
	}
	zzv.Assert("the window of a peer is that of its identity", zzv.EqB(c.id.Identity[:], id[:]))
	zzv.Assert("the window exists", win >= 0 && win < len(z.conversation) && z.conversation[win] == c)
	zzv.Reach("window")
}

//@ verify C27 C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id nonnil=zkclient.conversation.console
//@ use github.com/companyzero/ttk.Queue := zzQueue
//@ use (*github.com/companyzero/ttk.List).Visibility := zzVis
//@ use (*github.com/companyzero/ttk.Window).AddList := zzAddList
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use lock zkclient.ZKC.RWMutex := zzTakeW
//@ use rlock zkclient.ZKC.RWMutex := zzTakeW
func zzvWindowOfGroup(z *ZKC, group string) {
	zzSetupZ(z)
	zzv.Assume(z.ttkMW != nil)
	c, win, err := z.groupConversation(group)
	if err != nil {
		return
	}
	zzv.Assert("the window of a group is not that of a peer", c.group && zzv.EqB(c.nick, group))
	zzv.Assert("the window exists", win >= 0 && win < len(z.conversation) && z.conversation[win] == c)
	zzv.Reach("window")
}

// A private message arrives.
func zzConvPm(z *ZKC, id [32]byte) (*conversation, int, error) {
	zzv.Assert("no lock is held while a window is opened", zzv.LockState(&z.RWMutex) == 0)
	zzv.Assert("a message is shown in the window of its sender", zzv.EqB(id[:], zzPeer[:]))
	if zzv.Choose() {
		return nil, -1, zzv.NewErr()
	}
	zzWinC = new(conversation)
	zzv.Havoc(zzWinC)
	zzv.Havoc(&zzWinAt)
	return zzWinC, zzWinAt, nil
}
func zzPrintPm(z *ZKC, id int, ts time.Time, local bool, format string, args ...interface{}) {
	zzv.Assert("a message is shown in the window of its sender", zzWinC != nil && id == zzWinAt)
	zzv.Assert("a message is shown once", zzSeen == 0)
	s, ok := args[1].(string)
	zzv.Assert("the message is shown as it was sent", ok && zzv.EqB(s, zzPm.Text))
	zzSeen++
}

//@ verify C27 C22 C23 nopanic locks cutknown
//@ use (*zkclient.ZKC).getConversation := zzConvPm
//@ use (*zkclient.ZKC).printf := zzPrintPm
func zzvPm(z *ZKC, msg rpc.Message, p rpc.Push, pm rpc.PrivateMessage) {
	zzSetupZ(z)
	zzPeer, zzPm, zzWinC, zzSeen = p.From, pm, nil, 0
	err := z.handlePm(msg, p, pm)
	zzv.Assert("success means that the message is shown", err != nil || zzSeen == 1)
	if err == nil {
		zzv.Reach("shown")
	}
}

// Something is typed into the active window, zzWinC.
var (
	zzTyped  string
	zzSaid   int
	zzAsked  bool
	zzEchoed int
)

func zzTakeAct(z *ZKC) {
	zzTakeW(z)
	zzv.Assume(z.active != 0) // nothing is said on the console
	zzWinAt, zzWinC = z.active, z.conversation[z.active]
}
func zzSayPm(z *ZKC, id [32]byte, message string, mode rpc.MessageMode) error {
	zzv.Assert("what is typed in the window of a group is for the group", !zzWinC.group && zzWinAt != 0)
	zzv.Assert("what is typed in the window of a peer goes to that peer", zzv.EqB(id[:], zzWinC.id.Identity[:]))
	zzSaid++
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzSayGc(z *ZKC, args []string, msg string, mode rpc.MessageMode) error {
	zzv.Assert("what is typed in the window of a peer is for the peer", zzWinC.group && zzWinAt != 0)
	zzv.Assert("what is typed in the window of a group goes to that group", len(args) > 3 && zzv.EqB(args[2], zzWinC.nick))
	zzSaid++
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

//@ verify C27 C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id nonnil=zkclient.conversation.console
//@ use (*zkclient.ZKC).pm := zzSayPm
//@ use (*zkclient.ZKC).gcMessage := zzSayGc
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use rlock zkclient.ZKC.RWMutex := zzTakeAct
func zzvTyped(mw *mainWindow, cmd string) {
	zzv.Assume(mw.zkc != nil)
	zzSetupZ(mw.zkc)
	zzv.Assume(len(cmd) > 0 && !strings.HasPrefix(cmd, leader))
	zzv.Assume(cmd[0] != leader[0])
	zzSaid, zzWinC = 0, nil
	err := mw.action(cmd)
	zzv.Assert("what is typed is said once", zzSaid == 1)
	zzv.Reach("said")
	_ = err
}
