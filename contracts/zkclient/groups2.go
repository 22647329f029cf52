package main

import (
	"encoding/base64"
	"encoding/hex"
	"errors"
	"os"
	"path"
	"strings"
	"time"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zzv"
)

// The commands that change or use a group, zzArg is its name.
var (
	zzArgs []string
	zzTold bool // the member at zzIx was told
	zzMe   [32]byte
	zzFew  bool
)

func zzSetupC(z *ZKC, args []string, other string, ix int) {
	zzArgs = args
	name := other + "?"
	if len(args) > 2 {
		name = args[2]
	}
	zzSetupG(z, name, other, ix)
	zzTold, zzFew = false, false
	zzMe = z.id.Public.Identity
}

func zzStatG(file string) (os.FileInfo, error) { return nil, zzv.NewErr() }

func zzCreated(z *ZKC) {
	n, has := zzKeptG(z)
	zzv.Assert("a group that is created removes none", !zzDeleted && (has || !zzHad))
	if zzSavedG {
		zzv.Assert("a new group replaces none", !zzHad)
		zzv.Assert("the creator of a group administers it and is alone in it", n.Generation == 0 && len(n.Members) == 1 && zzv.EqB(n.Members[0][:], zzMe[:]))
		zzv.Reach("created")
	}
}

//@ verify C19 C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use os.Stat := zzStatG
//@ use (*zkclient.ZKC)._gcSaveDisk := zzSaveG
//@ use (*zkclient.ZKC)._deleteGroup := zzDelG
//@ use lock zkclient.ZKC.RWMutex := zzTakeG2
//@ use unlock zkclient.ZKC.RWMutex := zzCreated
func zzvGroupNew(z *ZKC, args []string, other string) {
	zzSetupC(z, args, other, 0)
	err := z.gcNew(args)
	zzv.Assert("success means the group is saved", err != nil || zzSavedG)
}

// Inviting.
var (
	zzGI     rpc.GroupInvite
	zzGIok   bool
	zzGIfrom [32]byte
)

func zzInvite(z *ZKC, id [32]byte, desc string, g rpc.GroupList) (*rpc.GroupInvite, error) {
	zzv.Assert("invitations are changed under the lock", zzv.LockState(&z.RWMutex) != 0)
	zzv.Assert("only the administrator invites", zzHad && zzLen > 0 && zzv.EqB(zzAdmin[:], zzMe[:]))
	zzv.Assert("the peer that was named is invited to the group that was named", zzv.EqB(id[:], zzWho[:]) && zzv.Same(g, zzWasS))
	zzv.Assert("members are not invited", zzIx < 0 || zzIx >= zzLen || !zzDup)
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	r := new(rpc.GroupInvite)
	zzv.Havoc(r)
	zzGI, zzGIok = *r, true
	return r, nil
}
func zzSendInvite(z *ZKC, hi bool, id *[32]byte, payload interface{}) {
	g, ok := payload.(rpc.GroupInvite)
	zzv.Assert("an invitation is sent as it was saved, to the peer that was named", ok && zzGIok && zzv.Same(g, zzGI) && zzv.EqB(id[:], zzWho[:]))
	zzSends++
}
func zzUnchangedG(z *ZKC) {
	zzKeptG(z)
	zzv.Assert("no group is changed", !zzSavedG && !zzDeleted)
}

// zzTakeI: the peer that is named may be a member, at zzIx.
func zzTakeI(z *ZKC) {
	zzPeer = zzWho
	zzTakeG(z)
	if zzDup && zzIx == 0 && zzLen > 0 {
		zzv.Assume(zzv.EqB(zzAdmin[:], zzWho[:]))
		zzv.Watch(zzIx)
	}
}

//@ verify C19 C22 C23 nopanic locks cutknown
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient/addressbook.AddressBook).FindNick := zzABNick
//@ use (*zkclient.ZKC).inviteDBAdd := zzInvite
//@ use (*zkclient.ZKC).scheduleCRPC := zzSendInvite
//@ use rlock zkclient.ZKC.RWMutex := zzTakeI
//@ use runlock zkclient.ZKC.RWMutex := zzUnchangedG
//@ use lock zkclient.ZKC.RWMutex := zzTakeI
//@ use unlock zkclient.ZKC.RWMutex := zzUnchangedG
func zzvGroupInvite(z *ZKC, args []string, other string, ix int, dup bool) {
	zzSetupC(z, args, other, ix)
	zzDup, zzGIok = dup, false
	err := z.gcInvite(args)
	zzv.Assert("success means the invitation was sent", err != nil || zzSends == 1)
	if err == nil {
		zzv.Reach("sent")
	}
}

// Joining.
func zzGetJoin(z *ZKC, group string, token uint64) ([32]byte, error) {
	zzv.Assert("invitations are used under the lock", zzv.LockState(&z.RWMutex) == 1)
	zzv.Assert("the invitation to the group that was named is used", zzv.EqB(group, zzGN))
	if zzv.Choose() {
		return zzGIfrom, zzv.NewErr()
	}
	zzv.Havoc(&zzGIfrom)
	zzGIok = true
	zzGI.Token = token
	return zzGIfrom, nil
}
func zzSendJoinCmd(z *ZKC, hi bool, id *[32]byte, payload interface{}) {
	zzv.Assert("a group is joined only once it is saved", zzSavedG && !zzUnsaved)
	j, ok := payload.(rpc.GroupJoin)
	zzv.Assert("the one that invited is told, with the token of the invitation", ok && zzGIok && zzv.EqB(j.Name, zzGN) && j.Token == zzGI.Token && zzv.EqB(id[:], zzGIfrom[:]))
	zzSends++
}
func zzDelJoin(z *ZKC, group string, token uint64) error {
	zzv.Assert("an invitation is used up under the lock", zzv.LockState(&z.RWMutex) == 1)
	zzv.Assert("the invitation that was used is removed", zzv.EqB(group, zzGN) && zzGIok && token == zzGI.Token)
	zzTaken++
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzJoinedCmd(z *ZKC) {
	n, has := zzKeptG(z)
	zzv.Assert("a group that is joined removes none", !zzDeleted && (has || !zzHad))
	if zzSavedG {
		zzv.Assert("a group that is joined replaces none", !zzHad)
		zzv.Assert("a group is joined only with an invitation, of its administrator", zzGIok && len(n.Members) == 1 && zzv.EqB(n.Members[0][:], zzGIfrom[:]))
		zzv.Reach("joined")
	}
}

//@ verify C19 C22 C23 nopanic locks cutknown
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC)._gcSaveDisk := zzSaveG
//@ use (*zkclient.ZKC)._deleteGroup := zzDelG
//@ use (*zkclient.ZKC).getJoin := zzGetJoin
//@ use (*zkclient.ZKC).delJoin := zzDelJoin
//@ use (*zkclient.ZKC).scheduleCRPC := zzSendJoinCmd
//@ use lock zkclient.ZKC.RWMutex := zzTakeG2
//@ use unlock zkclient.ZKC.RWMutex := zzJoinedCmd
func zzvGroupJoinCmd(z *ZKC, args []string, other string) {
	zzSetupC(z, args, other, 0)
	zzGIok = false
	err := z.gcJoin(args)
	if err == nil {
		zzv.Assert("success means the group is saved, its administrator told and the invitation used up", zzSavedG && zzSends == 1 && zzTaken == 1)
	}
}

// Kicking.
func zzSendKick(z *ZKC, hi bool, id *[32]byte, payload interface{}, f func()) {
	zzv.Assert("a change is announced only once it is saved", zzSavedG && !zzUnsaved)
	k, ok := payload.(rpc.GroupKick)
	zzv.Assert("what is announced is that the member was kicked", ok && !k.Parted && zzv.EqB(k.Member[:], zzWho[:]))
	zzv.Assert("the list that is announced is the one that was saved", zzv.Same(k.NewGroupList, zzNewS))
	zzTold = zzv.Or(zzTold, zzv.EqB(id[:], zzAt[:]))
	zzv.Assert("every member is told once", zzSends < zzLen)
	zzSends++
}
func zzKickFind(a *addressbook.AddressBook, nick string) (*zkidentity.PublicIdentity, error) {
	return zzABNick(a, nick)
}
func zzKickID(a *addressbook.AddressBook, id [32]byte) (*zkidentity.PublicIdentity, error) {
	b, err := hex.DecodeString(strings.TrimSpace(zzArgs[3]))
	zzv.Assert("the identity that was named is kicked", err == nil && zzv.EqB(b, id[:]))
	zzWho = id
	return zzABFind(a, id)
}
func zzTakeFew(z *ZKC) {
	zzTakeK(z)
	zzv.Assume(zzLen <= 3)
}
func zzTakeK(z *ZKC) {
	zzPeer = zzWho
	zzTakeG2(z)
	if zzIx > 0 && zzIx < zzLen {
		zzv.Watch(zzIx)
	}
}
func zzKickedCmd(z *ZKC) {
	n, has := zzKeptG(z)
	zzv.Assert("a kick dissolves no group", !zzDeleted && has == zzHad)
	if zzSavedG {
		zzv.Assert("only the administrator kicks", zzHad && zzLen > 0 && zzv.EqB(zzAdmin[:], zzMe[:]))
		zzv.Assert("the administrator is not kicked", !zzv.EqB(zzAdmin[:], zzWho[:]))
		if zzFew {
			zzv.Assert("the administrator stays", len(n.Members) > 0 && zzv.EqB(n.Members[0][:], zzAdmin[:]))
			for i := 0; i < len(n.Members); i++ {
				zzv.Assert("the one that is kicked is a member no more", !zzv.EqB(n.Members[i][:], zzWho[:]))
			}
			if zzIx >= 0 && zzIx < zzLen && !zzv.EqB(zzAt[:], zzWho[:]) {
				stays := false
				for i := 0; i < len(n.Members); i++ {
					stays = zzv.Or(stays, zzv.EqB(n.Members[i][:], zzAt[:]))
				}
				zzv.Assert("the other members stay", stays)
			}
		}
		zzv.Assert("the list moves forward by one", n.Generation == zzGen+1)
		if zzIx > 0 && zzIx < zzLen {
			zzv.Assert("every other member is told", zzTold)
		}
		zzv.Reach("kicked")
	}
}

//@ verify C19 C22 C23 nopanic locks cutknown
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient/addressbook.AddressBook).FindNick := zzKickFind
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzKickID
//@ use (*zkclient.ZKC)._gcSaveDisk := zzSaveG
//@ use (*zkclient.ZKC)._deleteGroup := zzDelG
//@ use (*zkclient.ZKC).scheduleCRPCCB := zzSendKick
//@ use lock zkclient.ZKC.RWMutex := zzTakeK
//@ use unlock zkclient.ZKC.RWMutex := zzKickedCmd
func zzvGroupKickCmd(z *ZKC, args []string, other string, ix int) {
	zzSetupC(z, args, other, ix)
	err := z.gcKick(args)
	zzv.Assert("success means the kick was saved", err != nil || zzSavedG)
}

//@ verify C19 nopanic locks unroll=4 bounded="groups of at most 3 members" nonnil=zkclient.conversation.id
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient/addressbook.AddressBook).FindNick := zzKickFind
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzKickID
//@ use (*zkclient.ZKC)._gcSaveDisk := zzSaveG
//@ use (*zkclient.ZKC)._deleteGroup := zzDelG
//@ use (*zkclient.ZKC).scheduleCRPCCB := zzSendKick
//@ use lock zkclient.ZKC.RWMutex := zzTakeFew
//@ use unlock zkclient.ZKC.RWMutex := zzKickedCmd
func zzvGroupKickFew(z *ZKC, args []string, other string, ix int) {
	zzSetupC(z, args, other, ix)
	zzFew = true
	err := z.gcKick(args)
	zzv.Assert("success means the kick was saved", err != nil || zzSavedG)
}

// Leaving.
func zzSendPartCmd(z *ZKC, hi bool, id *[32]byte, payload interface{}) {
	p, ok := payload.(rpc.GroupPart)
	zzv.Assert("the administrator is told that the group is left", ok && zzv.EqB(p.Name, zzGN) && zzHad && zzLen > 0 && zzv.EqB(id[:], zzAdmin[:]))
	zzv.Assert("the administrator does not leave", !zzv.EqB(zzAdmin[:], zzMe[:]))
	zzSends++
}
func zzPartedCmd(z *ZKC) {
	zzKeptG(z)
	zzv.Assert("leaving a group changes no other", !zzSavedG)
	zzv.Assert("a group is removed only when that is forced", !zzDeleted || len(zzArgs) == 4 && zzArgs[3] == "force")
}

//@ verify C19 C22 C23 nopanic locks cutknown
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC)._gcSaveDisk := zzSaveG
//@ use (*zkclient.ZKC)._deleteGroup := zzDelG
//@ use (*zkclient.ZKC).scheduleCRPC := zzSendPartCmd
//@ use lock zkclient.ZKC.RWMutex := zzTakeG2
//@ use unlock zkclient.ZKC.RWMutex := zzPartedCmd
//@ use rlock zkclient.ZKC.RWMutex := zzTakeG2
//@ use runlock zkclient.ZKC.RWMutex := zzPartedCmd
func zzvGroupPartCmd(z *ZKC, args []string, other string) {
	zzSetupC(z, args, other, 0)
	err := z.gcPart(args)
	zzv.Assert("success means the administrator was told or the group is removed", err != nil || zzSends == 1 || zzDeleted)
	if err == nil && zzSends == 1 {
		zzv.Reach("left")
	}
	if err == nil && zzDeleted {
		zzv.Reach("forced")
	}
}

// Dissolving.
func zzSendKill(z *ZKC, hi bool, id *[32]byte, payload interface{}) {
	k, ok := payload.(rpc.GroupKill)
	zzv.Assert("members are told that the group is dissolved", ok && zzv.EqB(k.Name, zzGN))
	zzv.Assert("only the administrator dissolves a group", zzHad && zzLen > 0 && zzv.EqB(zzAdmin[:], zzMe[:]))
	zzTold = zzv.Or(zzTold, zzv.EqB(id[:], zzAt[:]))
	zzv.Assert("every member is told once", zzSends < zzLen)
	zzSends++
}
func zzKilledCmd(z *ZKC) {
	zzKeptG(z)
	zzv.Assert("dissolving a group saves none", !zzSavedG)
	if zzDeleted {
		zzv.Assert("only the administrator dissolves a group", zzHad && (zzLen == 0 || zzv.EqB(zzAdmin[:], zzMe[:])))
		if zzIx > 0 && zzIx < zzLen {
			zzv.Assert("every other member is told", zzTold)
		}
		zzv.Reach("dissolved")
	}
}
func zzDelG2(z *ZKC, name string) error {
	zzv.Assert("the group is removed under the lock", zzv.EqB(name, zzGN) && zzv.LockState(&z.RWMutex) == 1)
	if zzv.Choose() {
		return zzv.NewErr() // the name is not a valid one
	}
	zzDeleted = true
	delete(z.groups, name)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

//@ verify C19 C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC)._gcSaveDisk := zzSaveG
//@ use (*zkclient.ZKC)._deleteGroup := zzDelG2
//@ use (*zkclient.ZKC).scheduleCRPC := zzSendKill
//@ use lock zkclient.ZKC.RWMutex := zzTakeK
//@ use unlock zkclient.ZKC.RWMutex := zzKilledCmd
func zzvGroupKillCmd(z *ZKC, args []string, other string, ix int) {
	zzSetupC(z, args, other, ix)
	err := z.gcKill(args)
	zzv.Assert("success means the group is dissolved", err != nil || zzDeleted)
}

// Sending a message to a group.
var (
	zzIMsg  string
	zzIMode rpc.MessageMode
)

func zzSendMsg(z *ZKC, hi bool, id *[32]byte, payload interface{}) {
	m, ok := payload.(rpc.GroupMessage)
	zzv.Assert("the message is sent as it was entered, to the group that was named", ok && zzv.EqB(m.Name, zzGN) && zzv.EqB(m.Message, zzIMsg) && m.Mode == zzIMode && m.Generation == zzGen)
	zzv.Assert("a message is not sent to oneself", !zzv.EqB(id[:], zzMe[:]))
	zzv.Assert("a message is sent to members of the group", zzHad)
	zzTold = zzv.Or(zzTold, zzv.EqB(id[:], zzAt[:]))
	zzv.Assert("every member is told once", zzSends < zzLen)
	zzSends++
}
func zzConvM(z *ZKC, name string) (*conversation, int, error) {
	zzv.Assert("no lock is held while a window is opened", zzv.LockState(&z.RWMutex) == 0)
	zzv.Assert("the message is shown in the window of its group", zzv.EqB(name, zzGN))
	if zzv.Choose() {
		return nil, -1, zzv.NewErr()
	}
	c := new(conversation)
	c.id = new(zkidentity.PublicIdentity)
	return c, 3, nil
}
func zzTakeM(z *ZKC) {
	zzTakeG2(z)
	if zzIx >= 0 && zzIx < zzLen && !zzDup {
		zzv.Assume(!zzv.EqB(zzAt[:], zzMe[:]))
		zzv.Watch(zzIx)
	}
}

//@ verify C19 C22 C23 nopanic locks cutknown
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC).groupConversation := zzConvM
//@ use (*zkclient.ZKC).scheduleCRPC := zzSendMsg
//@ use lock zkclient.ZKC.RWMutex := zzTakeM
//@ use unlock zkclient.ZKC.RWMutex := zzUnchangedG
//@ use rlock zkclient.ZKC.RWMutex := zzTakeM
//@ use runlock zkclient.ZKC.RWMutex := zzUnchangedG
func zzvGroupMsgCmd(z *ZKC, args []string, msg string, mode rpc.MessageMode, other string, ix int, self bool) {
	zzSetupC(z, args, other, ix)
	zzDup = self // the member at zzIx is this client
	zzIMsg, zzIMode = msg, mode
	err := z.gcMessage(args, msg, mode)
	if err == nil && zzIx >= 0 && zzIx < zzLen && !self {
		zzv.Assert("the message is sent to every other member", zzTold)
		zzv.Reach("sent")
	}
}

// The invitations that this client sent and received.
var (
	zzIZ      *ZKC
	zzIFile   string
	zzITbl    string
	zzIKey    string
	zzTbl2   string
	zzKey2   string
	zzHad1   bool
	zzHad2   bool
	zzVal1   string
	zzVal2   string
	zzDBSave int
	zzHas1   bool
	zzNew1   string
	zzITok    uint64
	zzInDB bool // there is an invitation, zzGI
)

func zzDBOpen(file string, create bool, depth int) (*inidb.INIDB, error) {
	if zzv.Choose() {
		e := zzv.NewErr()
		zzv.Assume(!errors.Is(e, inidb.ErrCreated))
		return nil, e
	}
	zzv.Assert("the database of these invitations is used", zzv.EqB(file, path.Join(zzIZ.settings.Root, zzIFile)))
	if zzv.Choose() {
		zzv.Assume(create)
		zzHad1, zzHad2 = false, false
		return inidb.ZzNew(file, depth), inidb.ErrCreated
	}
	i := inidb.ZzOpen(file, depth)
	if zzInDB {
		s := base64.StdEncoding.EncodeToString(zzv.Enc("xdr", zzGI))
		i.NewTable(zzITbl)
		zzv.Assume(i.Set(zzITbl, zzIKey, s) == nil)
	}
	v, err := i.Get(zzITbl, zzIKey)
	zzHad1, zzVal1 = err == nil, v
	v, err = i.Get(zzTbl2, zzKey2)
	zzHad2, zzVal2 = err == nil, v
	return i, nil
}

func zzDBSaved(i *inidb.INIDB) error {
	if zzv.Choose() {
		return zzv.NewErr()
	}
	v, err := i.Get(zzITbl, zzIKey)
	zzHas1, zzNew1 = err == nil, v
	v, err = i.Get(zzTbl2, zzKey2)
	if !zzv.EqB(zzITbl, zzTbl2) || !zzv.EqB(zzIKey, zzKey2) && zzIFile != joinsPath {
		zzv.Assert("other invitations are kept", (err == nil) == zzHad2 && zzv.Imp(zzHad2, zzv.EqB(v, zzVal2)))
	}
	zzDBSave++
	return nil
}

func zzSetupDB(z *ZKC, file, group string, who [32]byte, t2, k2 string) {
	zzSetupZ(z)
	zzIZ, zzIFile = z, file
	if group == "" {
		group = ""
	}
	if t2 == "" {
		t2 = ""
	}
	zzITbl, zzIKey = group, hex.EncodeToString(who[:])
	zzTbl2, zzKey2 = t2, k2
	zzHad1, zzHad2, zzHas1, zzDBSave, zzInDB = false, false, false, 0, false
}

//@ verify C19 C22 C23 nopanic locks
//@ use inidb.New := zzDBOpen
//@ use (*inidb.INIDB).Save := zzDBSaved
func zzvUseInvite(z *ZKC, from [32]byte, gj rpc.GroupJoin, t2, k2 string, gi rpc.GroupInvite, stored bool) {
	zzSetupDB(z, invitesPath, gj.Name, from, t2, k2)
	zzGI, zzInDB = gi, stored
	err := z.delInvite(from, gj)
	if err == nil {
		zzv.Assert("only a peer that was invited to a group joins it", zzHad1)
		if zzInDB {
			zzv.Assert("the token of the invitation is needed to join", gi.Token == gj.Token)
			zzv.Reach("token")
		}
		zzv.Assert("an invitation is used up", zzDBSave == 1 && !zzHas1)
		zzv.Reach("joined")
	} else {
		zzv.Assert("a join that is refused changes no invitation", zzDBSave == 0)
	}
}

func zzSleepG(d time.Duration) {}
func zzRandomT() (uint64, error) {
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	zzITok = uint64(zzv.FreshInt("random", 0, 1<<62))
	return zzITok, nil
}
func zzLoadID(z *ZKC, id [32]byte) (*zkidentity.PublicIdentity, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	p := new(zkidentity.PublicIdentity)
	zzv.Havoc(p)
	return p, nil
}

//@ verify C19 C22 C23 nopanic locks cutknown
//@ use inidb.New := zzDBOpen
//@ use (*inidb.INIDB).Save := zzDBSaved
//@ use tools.RandomUint64 := zzRandomT
//@ use time.Sleep := zzSleepG
//@ use (*zkclient.ZKC).loadIdentity := zzLoadID
func zzvInviteAdd(z *ZKC, id [32]byte, desc string, g rpc.GroupList, t2, k2 string) {
	zzSetupDB(z, invitesPath, g.Name, id, t2, k2)
	gi, err := z.inviteDBAdd(id, desc, g)
	if err != nil {
		zzv.Assert("no invitation is saved when that is reported", zzDBSave == 0)
		return
	}
	zzv.Assert("an invitation replaces none", !zzHad1)
	zzv.Assert("the invitation is to the group that was named", zzv.EqB(gi.Name, g.Name))
	r, err := unmarshalInvite(zzNew1)
	zzv.Assert("the invitation is saved", zzDBSave == 1 && zzHas1 && err == nil && zzv.Same(*r, *gi))
	zzv.Assert("an invitation has a new random token", gi.Token == zzITok%1000000)
	zzv.Reach("invited")
}

//@ verify C19 C22 C23 nopanic locks
//@ use inidb.New := zzDBOpen
//@ use (*inidb.INIDB).Save := zzDBSaved
func zzvJoinAdd(z *ZKC, from [32]byte, gi rpc.GroupInvite, t2, k2 string) {
	zzSetupDB(z, joinsPath, gi.Name, from, t2, k2)
	err := z.joinDBAdd(from, gi)
	if err != nil {
		zzv.Assert("no invitation is saved when that is reported", zzDBSave == 0)
		return
	}
	zzv.Assert("an invitation replaces none", !zzHad1)
	r, err := unmarshalInvite(zzNew1)
	zzv.Assert("the invitation is saved", zzDBSave == 1 && zzHas1 && err == nil && zzv.Same(*r, gi))
	zzv.Reach("saved")
}
