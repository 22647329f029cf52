package main

import (
	"time"

	"github.com/companyzero/zkc/debug"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zzv"
)

// Group chats.  zzGN is the group that a message or command is about, zzGO any
// other one.  What was known of them when the lock was taken: zzWas, zzHad.
// zzDisk is what is on disk of zzGN.
var (
	zzGN, zzGO   string
	zzHad, zzHdO bool
	zzWas        rpc.GroupList
	zzWasS       interface{}
	zzWasO       interface{}
	zzAdmin      [32]byte // the administrator, if zzLen > 0
	zzLen        int
	zzIx         int      // any place in the list of members,
	zzAt         [32]byte // who was there,
	zzIx2        int      // and another place
	zzAt2        [32]byte
	zzGen        uint64
	zzSavedG     bool // the group was saved
	zzNewS       interface{}
	zzNewG       rpc.GroupList
	zzDeleted    bool
	zzUnsaved    bool // the last attempt to save failed
	zzInvited    bool
	zzSends      int
	zzOutsider   bool
	zzTaken      int
	zzDup        bool // there is a member zzPeer at zzIx
	zzKnown      bool // the group existed while the message was handled
)

func zzSetupG(z *ZKC, name, other string, ix int) {
	zzSetupZ(z)
	zzv.Assume(!zzv.EqB(name, other))
	zzGN, zzGO, zzIx = name, other, ix
	zzSavedG, zzDeleted, zzUnsaved, zzInvited, zzSends, zzTaken, zzKnown = false, false, false, false, 0, 0, false
	zzOutsider, zzDup, zzTold = false, false, false
}

// zzTakeG: others may have changed everything that the lock guards.
func zzTakeG(z *ZKC) {
	zzv.Havoc(&z.groups)
	zzv.Assume(z.groups != nil)
	zzv.Havoc(&z.conversation)
	zzv.NoNils(z.conversation)
	zzWas, zzHad = z.groups[zzGN]
	o, has := z.groups[zzGO]
	zzHdO, zzWasO = has, zzv.Snap(o)
	if zzOutsider && zzHad {
		zzv.NoneEq(zzWas.Members, zzPeer)
	}
	zzWasS = zzv.Snap(zzWas)
	zzLen, zzGen = len(zzWas.Members), zzWas.Generation
	if zzLen > 0 {
		zzAdmin = zzWas.Members[0]
	}
	if zzIx >= 0 && zzIx < zzLen {
		zzAt = zzWas.Members[zzIx]
	}
	if zzIx2 >= 0 && zzIx2 < zzLen {
		zzAt2 = zzWas.Members[zzIx2]
	}
	if zzDup && zzIx > 0 && zzIx < zzLen {
		zzv.Assume(zzv.EqB(zzAt[:], zzPeer[:]))
		zzv.Watch(zzIx)
	}
	if zzHad {
		zzv.Assume(zzv.EqB(zzWas.Name, zzGN))
	}
	zzKnown = zzKnown || zzHad
}

// zzKeptG: what every change keeps.  A change that could not be saved is undone.
func zzKeptG(z *ZKC) (rpc.GroupList, bool) {
	o, has := z.groups[zzGO]
	zzv.Assert("other groups are kept", has == zzHdO && zzv.Same(o, zzWasO))
	n, has := z.groups[zzGN]
	if has {
		zzv.Assert("groups are kept under their name", zzv.EqB(n.Name, zzGN))
	}
	if zzUnsaved {
		zzv.Assert("a change that can not be saved is undone", has == zzHad && zzv.Same(n, zzWasS))
	} else if zzSavedG {
		zzv.Assert("what was saved is what is used", has && zzv.Same(n, zzNewS))
	} else if !zzDeleted {
		zzv.Assert("a change is saved", has == zzHad && zzv.Same(n, zzWasS))
	}
	return n, has
}

func zzSaveG(z *ZKC, name string) error {
	zzv.Assert("the group that changed is saved, under the lock", zzv.EqB(name, zzGN) && zzv.LockState(&z.RWMutex) == 1)
	zzv.Assert("nothing is sent before the change is saved", zzSends == 0)
	g, found := z.groups[name]
	if !found || zzv.Choose() {
		zzUnsaved = true
		return zzv.NewErr()
	}
	zzSavedG, zzUnsaved = true, false
	zzNewG, zzNewS = g, zzv.Snap(g)
	return nil
}

func zzDelG(z *ZKC, name string) error {
	zzv.Assert("the group is removed under the lock", zzv.EqB(name, zzGN) && zzv.LockState(&z.RWMutex) == 1)
	if zzv.Choose() {
		return zzv.NewErr() // the name is not a valid one
	}
	zzDeleted = true
	delete(z.groups, name)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

func zzABFind(a *addressbook.AddressBook, id [32]byte) (*zkidentity.PublicIdentity, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	p := new(zkidentity.PublicIdentity)
	zzv.Havoc(p)
	p.Identity = id // C21
	return p, nil
}
func zzABNick(a *addressbook.AddressBook, nick string) (*zkidentity.PublicIdentity, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	p := new(zkidentity.PublicIdentity)
	zzv.Havoc(p)
	zzWho = p.Identity
	return p, nil
}

// Showing a group message: only those of members are shown.
var (
	zzWin  int
	zzMent int
	zzMsgG rpc.GroupMessage
	zzSeen int
)

func zzConvG(z *ZKC, name string) (*conversation, int, error) {
	zzv.Assert("no lock is held while a window is opened", zzv.LockState(&z.RWMutex) == 0)
	zzv.Assert("the message is shown in the window of its group", zzv.EqB(name, zzGN))
	zzv.Assert("no window is opened for someone who is not a member", zzKnown && !zzOutsider)
	if zzv.Choose() {
		return nil, -1, zzv.NewErr()
	}
	c := new(conversation)
	c.id = new(zkidentity.PublicIdentity)
	zzv.Havoc(&zzWin)
	return c, zzWin, nil
}
func zzMention(message, nick string) int {
	zzMent = -1
	if zzv.Choose() {
		zzMent = zzv.FreshInt("mention", 0, 1<<31)
		zzv.Assume(zzMent+len(nick) <= len(message))
	}
	return zzMent
}
func zzPrintG(z *ZKC, id int, ts time.Time, format string, args ...interface{}) {
	zzv.Assert("a group message is shown only if its sender is a member", zzKnown && !zzOutsider)
	zzv.Assert("the message is shown in the window of its group", id == zzWin)
	zzv.Assert("a message is shown once", zzSeen == 0)
	if zzMent == -1 {
		s, ok := args[1].(string)
		zzv.Assert("the message is shown as it was sent", ok && zzv.EqB(s, zzMsgG.Message))
	}
	zzSeen++
}

//@ verify C19 C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).groupConversation := zzConvG
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzABFind
//@ use (*zkclient.ZKC).PrintfTS := zzPrintG
//@ use zkclient.mention := zzMention
//@ use lock zkclient.ZKC.RWMutex := zzTakeG
//@ use rlock zkclient.ZKC.RWMutex := zzTakeG
//@ use unlock zkclient.ZKC.RWMutex := zzKeptG0
//@ use runlock zkclient.ZKC.RWMutex := zzKeptG0
func zzvGroupMessage(z *ZKC, msg rpc.Message, p rpc.Push, gm rpc.GroupMessage, other string, outsider bool) {
	zzSetupG(z, gm.Name, other, 0)
	zzPeer, zzMsgG, zzSeen, zzOutsider = p.From, gm, 0, outsider
	err := z.handleGroupMessage(msg, p, gm)
	if outsider {
		zzv.Reach("outsider")
	} else if err == nil && zzSeen == 1 {
		zzv.Reach("shown")
	}
}

func zzKeptG0(z *ZKC) { zzKeptG(z) }

// A membership list or an update of it.
func zzShowDiff(z *ZKC, nick string) {
	zzv.Assert("changes of a group are shown only once they are accepted", zzSavedG && zzv.EqB(nick, zzGN))
	zzv.Assert("no lock is held while a window is opened", zzv.LockState(&z.RWMutex) == 0)
	zzv.Reach("shown")
}

var zzList rpc.GroupList

func zzListed(z *ZKC) {
	n, has := zzKeptG(z)
	if zzSavedG {
		zzv.Assert("a list is accepted for a known group only", zzHad && has)
		zzv.Assert("a list is accepted from the administrator only", zzLen > 0 && zzv.EqB(zzAdmin[:], zzPeer[:]))
		zzv.Assert("the administrator stays", len(n.Members) > 0 && zzv.EqB(n.Members[0][:], zzAdmin[:]))
		zzv.Assert("a group never goes back to an older list", n.Generation >= zzGen)
		zzv.Assert("the list is the one that was sent", zzv.Same(n, zzList))
		zzv.Reach("accepted")
	}
	zzv.Assert("a list removes no group", has == zzHad)
}

//@ verify C19 C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*debug.Debug).Warn := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC).query := zzShowDiff
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzABFind
//@ use rlock zkclient.ZKC.RWMutex := zzTakeG
//@ use runlock zkclient.ZKC.RWMutex := zzKeptG0
//@ use (*zkclient.ZKC)._gcSaveDisk := zzSaveG
//@ use (*zkclient.ZKC)._deleteGroup := zzDelG
//@ use lock zkclient.ZKC.RWMutex := zzTakeG
//@ use unlock zkclient.ZKC.RWMutex := zzListed
func zzvGroupList(z *ZKC, msg rpc.Message, p rpc.Push, gl rpc.GroupList, update bool, other string) {
	zzSetupG(z, gl.Name, other, 0)
	zzPeer, zzList = p.From, gl
	var err error
	if update {
		err = z.handleGroupUpdate(msg, p, rpc.GroupUpdate{NewGroupList: gl})
	} else {
		err = z.handleGroupList(msg, p, gl)
	}
	zzv.Assert("a list never fails the connection", err == nil)
	zzv.Assert("a list dissolves no group", !zzDeleted)
}

// A kick, or the news that a member left.
var zzKick rpc.GroupKick

func zzKicked(z *ZKC) {
	n, has := zzKeptG(z)
	if zzSavedG || zzDeleted {
		zzv.Assert("a kick is accepted for a known group only", zzHad)
		zzv.Assert("a kick is accepted from the administrator only", zzLen > 0 && zzv.EqB(zzAdmin[:], zzPeer[:]))
		zzv.Assert("the group is left only by the one that was kicked", zzDeleted == zzv.EqB(zzKick.Member[:], z.id.Public.Identity[:]))
	}
	if zzSavedG {
		zzv.Assert("the administrator stays", has && len(n.Members) > 0 && zzv.EqB(n.Members[0][:], zzAdmin[:]))
		zzv.Assert("a group never goes back to an older list", n.Generation >= zzGen)
		zzv.Assert("the list is the one that was sent", zzv.Same(n, zzKick.NewGroupList))
		zzv.Reach("accepted")
	}
	if zzDeleted {
		zzv.Reach("left")
	}
}

//@ verify C19 C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*debug.Debug).Warn := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzABFind
//@ use (*zkclient.ZKC)._gcSaveDisk := zzSaveG
//@ use (*zkclient.ZKC)._deleteGroup := zzDelG
//@ use lock zkclient.ZKC.RWMutex := zzTakeG
//@ use unlock zkclient.ZKC.RWMutex := zzKicked
func zzvGroupKick(z *ZKC, msg rpc.Message, p rpc.Push, gk rpc.GroupKick, other string) {
	zzSetupG(z, gk.NewGroupList.Name, other, 0)
	zzPeer, zzKick = p.From, gk
	err := z.handleGroupKick(msg, p, gk)
	zzv.Assert("success means the kick was accepted", err != nil || zzSavedG || zzDeleted)
}

// Dissolution.
func zzKilled(z *ZKC) {
	zzKeptG(z)
	if zzDeleted {
		zzv.Assert("a dissolution is accepted for a known group only", zzHad)
		zzv.Assert("a dissolution is accepted from the administrator only", zzLen > 0 && zzv.EqB(zzAdmin[:], zzPeer[:]))
		zzv.Reach("dissolved")
	}
	zzv.Assert("a dissolution changes nothing else", !zzSavedG)
}

//@ verify C19 C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC)._gcSaveDisk := zzSaveG
//@ use (*zkclient.ZKC)._deleteGroup := zzDelG
//@ use lock zkclient.ZKC.RWMutex := zzTakeG
//@ use unlock zkclient.ZKC.RWMutex := zzKilled
func zzvGroupKill(z *ZKC, msg rpc.Message, p rpc.Push, gk rpc.GroupKill, other string) {
	zzSetupG(z, gk.Name, other, 0)
	zzPeer = p.From
	err := z.handleGroupKill(msg, p, gk)
	zzv.Assert("success means the group is dissolved", err != nil || zzDeleted)
}

// A member leaves: this client is the administrator.
func zzSendPart(z *ZKC, hi bool, id *[32]byte, payload interface{}) {
	zzv.Assert("a change is announced only once it is saved", zzSavedG && !zzUnsaved)
	k, ok := payload.(rpc.GroupKick)
	zzv.Assert("what is announced is that the member left", ok && k.Parted && zzv.EqB(k.Member[:], zzPeer[:]))
	zzv.Assert("the list that is announced is the one that was saved", zzv.Same(k.NewGroupList, zzNewS))
	zzv.Assert("every member is told once", zzSends < zzLen)
	zzTold = zzv.Or(zzTold, zzv.EqB(id[:], zzAt[:]))
	zzSends++
}
func zzParted(z *ZKC) {
	n, has := zzKeptG(z)
	zzv.Assert("a member that leaves dissolves no group", has == zzHad && !zzDeleted)
	if zzSavedG {
		zzv.Assert("members leave known groups, of which this client is the administrator", zzHad && zzLen > 0 && zzv.EqB(zzAdmin[:], z.id.Public.Identity[:]))
		zzv.Assert("only members leave", !zzOutsider)
		zzv.Assert("the list moves forward by one", n.Generation == zzGen+1 && zzv.EqB(n.Name, zzGN))
		zzv.Assert("one member leaves", len(n.Members) == zzLen-1)
		zzv.Assert("the administrator stays", len(n.Members) > 0 && zzv.EqB(n.Members[0][:], zzAdmin[:]))
		if zzIx >= 0 && zzIx < zzLen {
			zzv.Assert("the other members stay", zzv.EqB(zzAt[:], zzPeer[:]) ||
				(zzIx < zzLen-1 && zzv.EqB(n.Members[zzIx][:], zzAt[:])) || (zzIx > 0 && zzv.EqB(n.Members[zzIx-1][:], zzAt[:])))
		}
		if zzIx > 0 && zzIx < zzLen {
			zzv.Assert("every other member is told", zzv.Or(zzTold, zzv.EqB(zzAt[:], zzPeer[:])))
		}
		zzv.Reach("left")
	}
}

//@ verify C19 C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzABFind
//@ use (*zkclient.ZKC)._gcSaveDisk := zzSaveG
//@ use (*zkclient.ZKC)._deleteGroup := zzDelG
//@ use (*zkclient.ZKC).scheduleCRPC := zzSendPart
//@ use lock zkclient.ZKC.RWMutex := zzTakeT
//@ use unlock zkclient.ZKC.RWMutex := zzParted
func zzvGroupPart(z *ZKC, msg rpc.Message, p rpc.Push, gp rpc.GroupPart, other string, ix int, outsider bool) {
	zzSetupG(z, gp.Name, other, ix)
	zzPeer, zzOutsider = p.From, outsider
	err := z.handleGroupPart(msg, p, gp)
	zzv.Assert("success means the member left", err != nil || zzSavedG)
}

// A peer joins: this client is the administrator.
var zzJoin rpc.GroupJoin

func zzUseInvite(z *ZKC, from [32]byte, gj rpc.GroupJoin) error {
	zzv.Assert("the invitation of the one that joins is used", zzv.EqB(from[:], zzPeer[:]) && zzv.Same(gj, zzJoin))
	zzv.Assert("invitations are used under the lock", zzv.LockState(&z.RWMutex) == 1)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzInvited = true
	return nil
}
func zzSendJoin(z *ZKC, hi bool, id *[32]byte, payload interface{}) {
	zzv.Assert("a change is announced only once it is saved", zzSavedG && !zzUnsaved)
	l, ok := payload.(rpc.GroupList)
	zzv.Assert("the list that is announced is the one that was saved", ok && zzv.Same(l, zzNewS))
	zzv.Assert("every member is told once", zzSends < zzLen)
	zzTold = zzv.Or(zzTold, zzv.EqB(id[:], zzAt[:]))
	zzSends++
}
func zzJoined(z *ZKC) {
	n, has := zzKeptG(z)
	zzv.Assert("a join dissolves no group", has == zzHad && !zzDeleted)
	if zzSavedG {
		zzv.Assert("peers join known groups, of which this client is the administrator", zzHad && zzLen > 0 && zzv.EqB(zzAdmin[:], z.id.Public.Identity[:]))
		zzv.Assert("a join is accepted only with an invitation", zzInvited)
		zzv.Assert("the list moves forward", n.Generation > zzGen && zzv.EqB(n.Name, zzWas.Name))
		zzv.Assert("one member joins, the one that was invited", len(n.Members) == zzLen+1 && zzv.EqB(n.Members[zzLen][:], zzPeer[:]))
		if zzIx >= 0 && zzIx < zzLen {
			zzv.Assert("the other members stay", zzv.EqB(n.Members[zzIx][:], zzAt[:]))
			zzv.Assert("no one joins twice", zzIx == 0 || !zzDup)
		}
		if zzIx > 0 && zzIx < zzLen {
			zzv.Assert("every other member is told", zzTold)
		}
		zzv.Reach("joined")
	}
}

//@ verify C19 C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzABFind
//@ use (*zkclient.ZKC)._gcSaveDisk := zzSaveG
//@ use (*zkclient.ZKC)._deleteGroup := zzDelG
//@ use (*zkclient.ZKC).delInvite := zzUseInvite
//@ use (*zkclient.ZKC).scheduleCRPC := zzSendJoin
//@ use lock zkclient.ZKC.RWMutex := zzTakeT
//@ use unlock zkclient.ZKC.RWMutex := zzJoined
func zzvGroupJoin(z *ZKC, msg rpc.Message, p rpc.Push, gj rpc.GroupJoin, other string, ix int, dup bool) {
	zzSetupG(z, gj.Name, other, ix)
	zzPeer, zzJoin, zzDup = p.From, gj, dup
	err := z.handleGroupJoin(msg, p, gj)
	zzv.Assert("success means the peer joined", err != nil || zzSavedG)
}

// every member is told
func zzTakeT(z *ZKC) {
	zzTakeG2(z)
	if zzIx > 0 && zzIx < zzLen {
		zzv.Watch(zzIx)
	}
}

// a group does not change 2^62 times
func zzTakeG2(z *ZKC) {
	zzTakeG(z)
	zzv.Assume(zzGen < 1<<62)
}

var zzWho [32]byte

var _ = debug.New
