package main

import (
	"encoding/base64"
	"encoding/hex"
	"os"
	"path"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zzv"
)

// Groups on disk: each in a file of its name.
var (
	zzWrites  int
	zzRemoves int
	zzSlashed bool
	zzSimpleN bool
	zzWroteG   []byte
)

func zzGFile(z *ZKC, file string) {
	zzv.Assert("no file is touched for a name with a slash", !zzSlashed)
	if zzSimpleN {
		zzv.Assert("a group is kept in the file of its name", zzv.EqB(file, path.Join(z.settings.Root, groupchatDir, zzGN)))
	}
}
func zzGWrite(file string, b []byte, m os.FileMode) error {
	zzGFile(zzC, file)
	zzv.Assert("files of groups are private", m == 0600)
	zzWrites++
	zzWroteG = b
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzGRemove(file string) error {
	zzGFile(zzC, file)
	zzRemoves++
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzSetupDisk(z *ZKC, name string, slashed bool, other string) bool {
	zzSetupG(z, name, other, 0)
	zzWrites, zzRemoves, zzSlashed = 0, 0, slashed
	zzSimpleN = false
	if !slashed && zzv.Choose() {
		zzSimpleN = true
		zzv.Assume(zzv.Simple(name))
	}
	zzTakeG(z)
	return zzHad
}
func zzValidName(name string) error {
	if zzSlashed || zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

//@ verify C19 C23 nopanic cutknown
func zzvGroupName(name string, ix int) {
	zzv.Assume(ix >= 0 && ix < len(name) && name[ix] == '/')
	zzv.Watch(ix)
	zzv.Assert("no group is named with a slash", validName(name) != nil)
}

//@ verify C19 C22 C23 nopanic locks
//@ use io/ioutil.WriteFile := zzGWrite
//@ use os.Remove := zzGRemove
//@ use zkclient.validName := zzValidName
func zzvGroupSave(z *ZKC, name string, slashed bool, other string) {
	had := zzSetupDisk(z, name, slashed, other)
	err := z._gcSaveDisk(name)
	if err == nil {
		zzv.Assert("success means that the group is on disk as it is used", had && zzWrites == 1 && zzv.EqB(zzWroteG, zzv.Enc("xdr", zzWas)))
		zzv.Reach("saved")
	}
	n, has := zzKeptG(z)
	_, _ = n, has
	zzv.Assert("saving a group removes no file", zzRemoves == 0 && zzWrites <= 1)
}

//@ verify C19 C22 C23 nopanic locks
//@ use io/ioutil.WriteFile := zzGWrite
//@ use os.Remove := zzGRemove
//@ use zkclient.validName := zzValidName
func zzvGroupDelete(z *ZKC, name string, slashed bool, other string) {
	had := zzSetupDisk(z, name, slashed, other)
	err := z._deleteGroup(name)
	n, has := z.groups[name]
	if err == nil {
		zzv.Assert("success means that the group and its file are gone", !has && zzRemoves == 1)
		zzv.Reach("removed")
	}
	if has {
		zzv.Assert("a group is removed as a whole", had && zzv.Same(n, zzWasS) && zzRemoves == 0)
	}
	o, has := z.groups[zzGO]
	zzv.Assert("other groups are kept", has == zzHdO && zzv.Same(o, zzWasO))
	zzv.Assert("removing a group writes no file", zzWrites == 0 && zzRemoves <= 1)
}

// Invitations that were received: at most one to the group.
var zzJunk string // what is stored in place of the invitation, if anything

func zzDBOne(file string, create bool, depth int) (*inidb.INIDB, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzv.Assert("the database of these invitations is used", zzv.EqB(file, path.Join(zzIZ.settings.Root, zzIFile)))
	i := inidb.ZzNew(file, depth)
	if zzInDB {
		i.NewTable(zzITbl)
		rec := base64.StdEncoding.EncodeToString(zzv.Enc("xdr", zzGI))
		if zzJunk != "" {
			rec = zzJunk
		}
		zzv.Assume(i.Set(zzITbl, zzIKey, rec) == nil)
	}
	return i, nil
}

//@ verify C19 nopanic locks bounded="at most one invitation to a group"
//@ use inidb.New := zzDBOne
//@ use (*inidb.INIDB).Save := zzDBSaved
//@ use (*debug.Debug).Error := zzDbgLog
func zzvGetJoin(z *ZKC, group string, token uint64, from [32]byte, gi rpc.GroupInvite, stored bool) {
	zzSetupDB(z, joinsPath, group, from, group, "")
	zzv.Assume(group != "")
	zzInDB, zzGI, zzJunk = stored, gi, ""
	who, err := z.getJoin(group, token)
	zzv.Assert("reading invitations changes none", zzDBSave == 0)
	if err == nil {
		zzv.Assert("a group is joined only with an invitation to it", stored && gi.Token == token)
		zzv.Assert("the one that invited administers the group", zzv.EqB(who[:], from[:]))
		zzv.Reach("invited")
	}
	err = z.delJoin(group, token)
	if err == nil {
		zzv.Assert("the invitation that is used up is the one that was named", stored && gi.Token == token)
		zzv.Assert("the invitation is used up", zzDBSave == 1 && !zzHas1)
		zzv.Reach("used")
	}
}

// A record that does not hold an invitation is no reason to stop.
//
//@ verify C23 nopanic locks bounded="at most one invitation to a group"
//@ use inidb.New := zzDBOne
//@ use (*inidb.INIDB).Save := zzDBSaved
//@ use (*debug.Debug).Error := zzDbgLog
func zzvGetJunk(z *ZKC, group string, token uint64, from [32]byte, junk string) {
	zzSetupDB(z, joinsPath, group, from, group, "")
	zzv.Assume(group != "" && junk != "")
	zzInDB, zzJunk = true, junk
	if _, err := z.getJoin(group, token); err != nil {
		zzv.Reach("refused")
	}
	if z.delJoin(group, token) != nil {
		zzv.Reach("kept")
	}
}

// An invitation arrives.
var (
	zzFriend bool // it is from someone known
)

func zzInvFind(a *addressbook.AddressBook, id [32]byte) (*zkidentity.PublicIdentity, error) {
	p, err := zzABFind(a, id)
	zzFriend = zzv.Or(zzFriend, zzv.And(err == nil, zzv.EqB(id[:], zzPeer[:])))
	return p, err
}
func zzAddJoin(z *ZKC, from [32]byte, gi rpc.GroupInvite) error {
	zzv.Assert("invitations are changed under the lock", zzv.LockState(&z.RWMutex) == 1)
	zzv.Assert("the invitation is saved as it was sent, as that of its sender", zzv.EqB(from[:], zzPeer[:]) && zzv.Same(gi, zzGI))
	zzTaken++
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzFindG(z *ZKC, nick string) error {
	zzv.Assert("no lock is held while a directory is asked", zzv.LockState(&z.RWMutex) == 0)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

//@ verify C19 C22 C23 nopanic locks cutknown
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC).joinDBAdd := zzAddJoin
//@ use (*zkclient.ZKC).find := zzFindG
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzInvFind
//@ use (*zkclient/addressbook.AddressBook).FindNick := zzABNick
//@ use lock zkclient.ZKC.RWMutex := zzTakeG
//@ use unlock zkclient.ZKC.RWMutex := zzUnchangedG
func zzvGroupInvited(z *ZKC, msg rpc.Message, p rpc.Push, gi rpc.GroupInvite, other string) {
	zzSetupG(z, gi.Name, other, 0)
	zzPeer, zzGI, zzFriend = p.From, gi, false
	err := z.handleGroupInvite(msg, p, gi)
	zzv.Assert("an invitation never fails the connection", err == nil)
	zzv.Assert("an invitation of someone known is saved", !zzFriend || zzTaken == 1)
	zzv.Reach("invited")
	zzv.Assert("an invitation is saved once", zzTaken <= 1)
}

// Groups are read back at start.
var (
	zzRead    []byte
	zzDamaged bool
)

func zzGRead(file string) ([]byte, error) {
	zzv.Assert("groups are read from their directory", zzv.PathIn(file, path.Join(zzC.settings.Root, groupchatDir)))
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	return zzRead, nil
}

type zzGInfo struct {
	os.FileInfo
	name string
	dir  bool
}

func (i *zzGInfo) Name() string { return i.name }
func (i *zzGInfo) IsDir() bool  { return i.dir }

func zzGList(dir string) ([]os.FileInfo, error) {
	zzv.Assert("groups are read from their directory", zzv.EqB(dir, path.Join(zzC.settings.Root, groupchatDir)))
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	i := &zzGInfo{name: zzv.FreshString("name"), dir: zzv.Choose()}
	zzv.Assume(zzv.Simple(i.name))
	return []os.FileInfo{i}, nil
}
func zzLoadedG(z *ZKC) {
	if zzDamaged {
		return
	}
	o, has := z.groups[zzGO]
	zzv.Assert("other groups are kept", has == zzHdO && zzv.Same(o, zzWasO))
	n, has := z.groups[zzGN]
	zzv.Assert("a group that is read replaces none", zzv.Imp(zzHad, zzv.And(has, zzv.Same(n, zzWasS))))
	if has && !zzHad {
		zzv.Assert("a group is read as it was saved", zzv.Same(n, zzList))
		zzv.Reach("read")
	}
}

//@ verify C19 C22 C23 nopanic locks
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use io/ioutil.ReadDir := zzGList
//@ use io/ioutil.ReadFile := zzGRead
//@ use lock zkclient.ZKC.RWMutex := zzTakeG
//@ use unlock zkclient.ZKC.RWMutex := zzLoadedG
func zzvGroupLoad(z *ZKC, gl rpc.GroupList, other string, junk []byte, damaged bool) {
	zzSetupG(z, gl.Name, other, 0)
	zzList = gl
	zzRead = zzv.Enc("xdr", gl)
	if damaged {
		zzRead = junk
	}
	zzDamaged = damaged
	z.loadGroupchat()
}

var _ = hex.EncodeToString
var _ = addressbook.New
var _ zkidentity.PublicIdentity
