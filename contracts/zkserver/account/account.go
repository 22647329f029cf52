package account

import (
	"encoding/base64"
	"encoding/hex"
	"errors"
	"io"
	"os"
	"path"
	"time"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zzv"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// The accounts directory as seen through the operating system calls the code
// makes.  zzID is the account an operation is called for; touching anything
// that belongs to another account, or anything else below the root, is a
// violation.  Other operations run whenever the lock is not held: the state is
// made arbitrary when the lock is taken (zzLock).
var (
	zzA  *Account
	zzID [zkidentity.IdentitySize]byte

	zzEn, zzDis   string // the two directories of the account
	zzHasE, zzHasD bool  // which of them exist
	zzRenames int
	zzWrites  int // files written
	zzRemoves int
	zzOpens   int // databases created
	zzSaves   int
	zzRecID   string // identity record last saved

	zzTried    string // the file a write was attempted on
	zzName     string // the message file concerned
	zzHasMsg   bool
	zzMsg      []byte
	zzForce    bool
	zzFailedRm bool
	zzUnlocked bool
	zzNow      time.Time
)

func zzBegin(a *Account, id [zkidentity.IdentitySize]byte) {
	zzA, zzID = a, id
	zzEn = path.Join(a.root, hex.EncodeToString(id[:]))
	zzDis = path.Join(a.root, "."+hex.EncodeToString(id[:]))
	zzHasE, zzHasD = zzv.UFBool("active"), zzv.UFBool("disabled")
	zzv.Assume(!zzv.And(zzHasE, zzHasD))
	zzRenames, zzWrites, zzRemoves, zzOpens, zzSaves = 0, 0, 0, 0, 0
	zzName, zzTried = "", ""
	zzHasMsg, zzForce, zzFailedRm, zzUnlocked = false, false, false, false
	zzv.Assume(a.online != nil)
	zzv.Assume(zzv.LockState(&a.Mutex) == 0)
}

// zzLock: while the lock was free other operations, for this account too, may
// have run.
func zzLock(a *Account) {
	if a == zzA {
		zzHasE, zzHasD = zzv.Choose(), zzv.Choose()
		zzv.Assume(!zzHasE || !zzHasD)
		if zzName != "" {
			zzHasMsg = zzv.Choose()
		}
	}
}

// zzCacheDir: the directory for the account's messages is there.
var zzCacheDir bool

func zzLocked() bool { return zzv.LockState(&zzA.Mutex) == 1 }

// zzPlace: 1 the account's directory, 2 its disabled directory, 3 and 4 below
// them, 0 anything else.
func zzPlace(p string) int {
	switch {
	case zzv.PathIn(p, zzEn):
		return 3
	case zzv.PathIn(p, zzDis):
		return 4
	case p == zzEn:
		return 1
	case p == zzDis:
		return 2
	}
	return 0
}

func zzAbsent() error {
	e := zzv.NewErr()
	zzv.Assume(os.IsNotExist(e) && errors.Is(e, os.ErrNotExist))
	return e
}

func zzBroken() error {
	e := zzv.NewErr()
	zzv.Assume(!os.IsNotExist(e) && !errors.Is(e, os.ErrNotExist) && !os.IsExist(e))
	return e
}

func zzStat(p string) (os.FileInfo, error) {
	if zzv.Choose() {
		return nil, zzBroken()
	}
	has := false
	switch zzPlace(p) {
	case 1:
		has = zzHasE
	case 2:
		has = zzHasD
	case 3:
		has = zzHasE && (zzName == "" && zzv.Choose() || zzName != "" && p == zzName && zzHasMsg)
	default:
		has = zzv.Choose()
	}
	if has {
		if zzv.EqB(p, path.Join(zzEn, CacheDir)) {
			zzCacheDir = true
		}
		return nil, nil
	}
	return nil, zzAbsent()
}

func zzRename(o, n string) error {
	if zzv.Choose() {
		return zzBroken()
	}
	zzv.Assert("accounts change only under the lock", zzLocked())
	f, t := zzPlace(o), zzPlace(n)
	zzv.Assert("only the named account is moved, as a whole", (f == 1 && t == 2) || (f == 2 && t == 1))
	if (f == 1 && !zzHasE) || (f == 2 && !zzHasD) {
		return zzAbsent()
	}
	if zzHasE && zzHasD {
		return zzBroken() // never onto a directory that is in use
	}
	zzHasE, zzHasD = t == 1, t == 2
	zzRenames++
	return nil
}

func zzMkdir(p string, m os.FileMode) error {
	if zzv.Choose() {
		return zzBroken()
	}
	k := zzPlace(p)
	zzv.Assert("directories are made below the named account only", (k == 3 && zzHasE) || (k == 1 && zzOpens > 0))
	if zzv.EqB(p, path.Join(zzEn, CacheDir)) {
		zzCacheDir = true
	}
	return nil
}

func zzMkdirAll(p string, m os.FileMode) error {
	if zzv.Choose() {
		return zzBroken()
	}
	k := zzPlace(p)
	zzv.Assert("directories are made below the named account only", (k == 3 && zzHasE) || (k == 1 && zzOpens > 0))
	if zzv.EqB(p, path.Join(zzEn, CacheDir)) {
		zzCacheDir = true
	}
	return nil
}

// --- the account's database (contracts of package inidb)

func zzDBErr() error {
	e := zzv.NewErr()
	zzv.Assume(!errors.Is(e, inidb.ErrCreated))
	return e
}

func zzNewDB(file string, create bool, depth int) (*inidb.INIDB, error) {
	if zzv.Choose() {
		return nil, zzDBErr()
	}
	if zzPlace(file) == 3 && zzv.EqB(file, path.Join(zzEn, UserIdentityFilename)) {
		if zzHasE && (zzOpens > 0 || zzv.Choose() || !create) {
			return inidb.ZzOpen(file, depth), nil
		}
		if !create {
			return nil, zzDBErr()
		}
		zzv.Assert("accounts change only under the lock", zzLocked())
		zzv.Assert("an account is never created over an existing one", !zzHasE || zzForce)
		zzv.Assert("a disabled account is not created again", !zzHasD)
		zzHasE = true
		zzOpens++
		return inidb.ZzNew(file, depth), inidb.ErrCreated
	}
	zzv.Assert("no other database is created", !create)
	return inidb.ZzOpen(file, depth), nil
}

func zzSaveDB(i *inidb.INIDB) error {
	if zzv.Choose() {
		return zzv.NewErr()
	}
	if !i.ZzDirty() {
		return nil
	}
	zzv.Assert("only the named account's database is written", zzPlace(i.ZzFile()) == 3 && zzv.EqB(i.ZzFile(), path.Join(zzEn, UserIdentityFilename)))
	i.ZzSaved()
	zzSaves++
	zzRecID, _ = i.Get("", "identity")
	return nil
}

func zzFind(a *Account, nick string) (*zkidentity.PublicIdentity, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	return new(zkidentity.PublicIdentity), nil
}

//@ verify C13 C22 C23 nopanic locks
//@ use os.Stat := zzStat
//@ use os.Lstat := zzStat
//@ use os.Rename := zzRename
//@ use os.Mkdir := zzMkdir
//@ use os.MkdirAll := zzMkdirAll
//@ use inidb.New := zzNewDB
//@ use (*inidb.INIDB).Save := zzSaveDB
//@ use (*zkserver/account.Account).Find := zzFind
//@ use lock zkserver/account.Account.Mutex := zzLock
func zzvCreate(a *Account, pid zkidentity.PublicIdentity) {
	zzBegin(a, pid.Identity)
	zzCacheDir = false
	err := a.Create(pid, false)
	zzv.Assert("nothing is moved", zzRenames == 0)
	zzv.Assert("an account is written only when it was created", zzSaves == 0 || zzOpens == 1)
	zzv.Assert("an account is never enabled and disabled at once", !zzHasE || !zzHasD)
	if err != nil {
		zzv.Reach("refused")
		return
	}
	zzv.Assert("a created account did not exist before", zzOpens == 1 && zzHasE)
	b, derr := base64.StdEncoding.DecodeString(zzRecID)
	zzv.Assert("a created account holds the identity it was created for", zzSaves == 1 && derr == nil && zzv.EqB(b, zzv.Enc("xdr", pid)))
	zzv.Assert("a created account has a place for its messages", zzCacheDir)
	zzv.Reach("created")
}

//@ verify C13 C22 C23 nopanic locks
//@ use os.Stat := zzStat
//@ use os.Lstat := zzStat
//@ use os.Rename := zzRename
//@ use lock zkserver/account.Account.Mutex := zzLock
func zzvDisable(a *Account, id [zkidentity.IdentitySize]byte) {
	zzBegin(a, id)
	err := a.Disable(id)
	if err != nil {
		zzv.Assert("a failed disabling changes nothing", zzRenames == 0)
		zzv.Reach("refused")
		return
	}
	zzv.Assert("a disabled account is not active", zzRenames == 1 && zzHasD && !zzHasE)
	zzv.Reach("disabled")
	if !a.Enabled(id) && a.Disabled(id) {
		zzv.Reach("seen")
	}
	zzv.Assert("a disabled account is never reported enabled", !a.Enabled(id))
}

//@ verify C13 C22 C23 nopanic locks
//@ use os.Stat := zzStat
//@ use os.Lstat := zzStat
//@ use os.Rename := zzRename
//@ use lock zkserver/account.Account.Mutex := zzLock
func zzvEnable(a *Account, id [zkidentity.IdentitySize]byte) {
	zzBegin(a, id)
	err := a.Enable(id)
	if err != nil {
		zzv.Assert("a failed enabling changes nothing", zzRenames == 0)
		zzv.Reach("refused")
		return
	}
	zzv.Assert("an enabled account is active", zzRenames == 1 && zzHasE && !zzHasD)
	zzv.Reach("enabled")
	if a.Enabled(id) && !a.Disabled(id) {
		zzv.Reach("seen")
	}
	zzv.Assert("an enabled account is never reported disabled", !a.Disabled(id))
}

// Disabling and enabling succeed when every step does, and move the account's
// directory there and back.
func zzStatOK(p string) (os.FileInfo, error) {
	has := false
	switch zzPlace(p) {
	case 1:
		has = zzHasE
	case 2:
		has = zzHasD
	default:
		has = zzv.Choose()
	}
	if has {
		return nil, nil
	}
	return nil, zzAbsent()
}
func zzRenameOK(o, n string) error {
	f, t := zzPlace(o), zzPlace(n)
	zzv.Assert("only the named account is moved, as a whole", (f == 1 && t == 2) || (f == 2 && t == 1))
	zzHasE, zzHasD = t == 1, t == 2
	zzRenames++
	return nil
}

//@ verify C13 C23 nopanic
//@ use os.Stat := zzStatOK
//@ use os.Lstat := zzStatOK
//@ use os.Rename := zzRenameOK
func zzvThereAndBack(a *Account, id [zkidentity.IdentitySize]byte) {
	zzBegin(a, id)
	zzv.Assume(zzHasE)
	zzv.Assert("an existing account is active", a.Enabled(id) && !a.Disabled(id))
	zzv.Assert("an active account can be disabled", a.Disable(id) == nil)
	zzv.Assert("a disabled account is not active", a.Disabled(id) && !a.Enabled(id))
	zzv.Assert("disabling twice is refused", a.Disable(id) != nil && zzRenames == 1)
	zzv.Assert("a disabled account can be enabled", a.Enable(id) == nil)
	zzv.Assert("an enabled account is active", a.Enabled(id) && !a.Disabled(id))
	zzv.Assert("enabling twice is refused", a.Enable(id) != nil && zzRenames == 2)
	zzv.Reach("end")
}

// --- listing

//@ verify C13 C22 C23 nopanic locks
//@ use os.Stat := zzStat
//@ use inidb.New := zzNewDB
//@ use (*inidb.INIDB).Save := zzSaveDB
func zzvPush(a *Account, id [zkidentity.IdentitySize]byte, key string) {
	zzBegin(a, id)
	err := a.Push(id)
	zzv.Assert("listing creates no account", zzOpens == 0 && zzRenames == 0)
	if err == nil {
		zzv.Reach("listed")
	}
}

//@ verify C13 C22 C23 nopanic locks
//@ use os.Stat := zzStat
//@ use inidb.New := zzNewDB
//@ use (*inidb.INIDB).Save := zzSaveDB
func zzvPull(a *Account, id [zkidentity.IdentitySize]byte) {
	zzBegin(a, id)
	err := a.Pull(id)
	zzv.Assert("unlisting creates no account", zzOpens == 0 && zzRenames == 0)
	if err == nil {
		zzv.Reach("unlisted")
	}
}

// --- messages

func zzTimeNow() time.Time {
	zzv.Havoc(&zzNow)
	return zzNow
}

func zzFormat(t time.Time, l string) string {
	s := zzv.UFString("stamp", t.UnixNano(), l)
	zzv.Assume(zzv.Simple(s))
	return s
}

func zzWriteFile(p string, b []byte, m os.FileMode) error {
	zzv.Assert("messages are stored under the lock", zzLocked())
	zzv.Assert("messages are stored in the recipient's mailbox only", zzv.PathIn(p, path.Join(zzEn, CacheDir)) && path.Dir(p) == path.Join(zzEn, CacheDir))
	zzTried = p
	if !zzHasE || zzv.Choose() {
		if zzHasE && zzv.Choose() {
			zzWrites += 100 // a part of it
		}
		return zzBroken()
	}
	zzv.Assert("a stored message is never overwritten", !zzHasMsg)
	zzName, zzHasMsg = p, true
	zzMsg = b
	zzWrites++
	return nil
}

func zzStatMsg(p string) (os.FileInfo, error) {
	if zzv.Choose() {
		return nil, zzBroken()
	}
	if zzName == "" {
		zzName = p
		zzHasMsg = zzv.Choose()
	}
	if p == zzName && zzHasMsg {
		return nil, nil
	}
	return nil, zzAbsent()
}

func zzRemoveMsg(p string) error {
	if zzName == "" || p != zzName || !zzHasMsg {
		// the failed write may have left nothing
		zzv.Assert("only the failed message is removed", zzTried != "" && p == zzTried)
		if zzWrites >= 100 {
			if zzv.Choose() {
				zzFailedRm = true
				return zzBroken()
			}
			zzWrites -= 100
			return nil
		}
		return zzAbsent()
	}
	zzv.Assert("a stored message is not removed", false)
	if zzv.Choose() {
		zzFailedRm = true
		return zzBroken()
	}
	zzWrites -= 100
	return nil
}

//@ verify C13 C17 C22 C23 nopanic locks
//@ use os.Stat := zzStatMsg
//@ use os.Lstat := zzStatMsg
//@ use os.Remove := zzRemoveMsg
//@ use io/ioutil.WriteFile := zzWriteFile
//@ use time.Now := zzTimeNow
//@ use (time.Time).Format := zzFormat
//@ use lock zkserver/account.Account.Mutex := zzLock
//@ opt guard=zkserver/account.Account.online/Mutex
func zzvDeliver(a *Account, to, from [zkidentity.IdentitySize]byte, payload []byte, cleartext bool) {
	zzBegin(a, to)
	want := append([]byte(nil), payload...)
	p, err := a.Deliver(to, from, payload, cleartext)
	if err != nil {
		zzv.Assert("a failed delivery stores nothing", zzWrites == 0 || zzFailedRm)
		zzv.Reach("failed")
		return
	}
	zzv.Assert("one message is stored", zzWrites == 1 && p == zzName)
	var dm diskMessage
	n, known := zzv.Dec("xdr", zzMsg, &dm)
	zzv.Assert("the stored message reads back", known && n == len(zzMsg))
	zzv.Assert("the stored sender is the given one", dm.From == from)
	zzv.Assert("the stored payload is the given one", zzv.EqB(dm.Payload, want))
	zzv.Assert("the stored cleartext flag is the given one", dm.Cleartext == cleartext)
	zzv.Assert("the stored time is the current one", dm.Received == zzNow.Unix())
	zzv.Reach("stored")
}

func zzRemove(p string) error {
	zzv.Assert("a message is deleted under the lock", zzLocked())
	zzv.Assert("only the named message of the account is deleted", p == zzName)
	if zzv.Choose() {
		return zzBroken()
	}
	zzRemoves++
	return nil
}

//@ verify C13 C16 C22 C23 nopanic locks
//@ use os.Remove := zzRemove
//@ opt guard=zkserver/account.Account.online/Mutex
func zzvDelete(a *Account, id, o [zkidentity.IdentitySize]byte, name, other string) {
	zzBegin(a, id)
	zzv.Assume(zzv.Simple(name))
	zzName = path.Join(zzEn, CacheDir, name)
	dn, on := a.online[id]
	dn2, on2 := a.online[o]
	_, was := dn.processed[other]
	_, was2 := dn2.processed[other]
	zzv.Assume(!on || dn.processed != nil)
	zzv.Assume(o == id || !on || !on2 || !zzv.Ident(dn.processed, dn2.processed))
	err := a.Delete(id, name)
	_, is := dn.processed[other]
	_, is2 := dn2.processed[other]
	zzv.Assert("other messages stay as they were", other == name || is == was)
	zzv.Assert("other accounts stay as they were", o == id || is2 == was2)
	if err != nil {
		zzv.Assert("a failed deletion changes nothing", zzRemoves == 0 && is == was)
		zzv.Reach("failed")
		return
	}
	zzv.Assert("the message is deleted", zzRemoves == 1)
	zzv.Reach("deleted")
}

// --- announcing waiting messages

var (
	zzCur     string // the stored message being read
	zzRead    bool
	zzReadMsg diskMessage
	zzOpenF   int
	zzUnlocks int
	zzNtfn    chan *Notification
)

// While the lock is free deliveries may ask for work.
func zzUnlockOnline(a *Account) {
	zzUnlocks++
	if zzUnlocks > 1 {
		return // what a delivery does later is just more work
	}
	dn, ok := a.online[zzID]
	if ok && zzv.Choose() {
		select {
		case dn.work <- struct{}{}:
		default:
		}
	}
}

func zzReadDir(d string) ([]os.FileInfo, error) {
	zzv.Assert("the account's own mailbox is read", d == path.Join(zzEn, CacheDir))
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	var fi []os.FileInfo
	zzv.Havoc(&fi)
	zzv.NoNils(fi)
	return fi, nil
}

func zzFIName(fi os.FileInfo) string {
	s := zzv.UFString("name", fi)
	zzv.Assume(zzv.Simple(s))
	return s
}

func zzOpenMsg(p string) (*os.File, error) {
	zzv.Assert("only messages of the account are read", zzv.PathIn(p, zzEn) && path.Dir(p) == path.Join(zzEn, CacheDir))
	zzCur, zzRead = path.Base(p), false
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzOpenF++
	return new(os.File), nil
}

func zzCloseMsg(f *os.File) error {
	zzOpenF--
	return nil
}

func zzUnmarshalMsg(r io.Reader, v interface{}) (int, error) {
	d := v.(*diskMessage)
	zzv.Havoc(&zzReadMsg)
	if zzv.Choose() {
		// a message without its last field: what was not read is left as it was
		zzReadMsg.Cleartext = false
		c := d.Cleartext
		*d = zzReadMsg
		d.Cleartext = c
		return 0, zzv.NewErr()
	}
	*d = zzReadMsg
	zzRead = true
	return 0, nil
}

func zzAs(err error, target interface{}) bool {
	if zzv.Choose() {
		return false
	}
	u := new(xdr.UnmarshalError)
	zzv.Havoc(u)
	*(target.(**xdr.UnmarshalError)) = u
	return true
}

func zzNotify(c chan *Notification, n *Notification) {
	zzv.Assert("notifications go to the account's own session", c == zzNtfn)
	zzv.Assert("files are closed before waiting", zzOpenF == 0)
	if n.Error != nil {
		zzv.Reach("error")
		return
	}
	zzv.Assert("an announced message is for the account", n.To == zzID)
	zzv.Assert("an announced message is named by its file", n.Identifier == zzCur)
	zzv.Assert("an announced message has the stored sender and time", zzv.And(n.From == zzReadMsg.From, n.Received == zzReadMsg.Received))
	zzv.Assert("an announced message has the stored contents", zzv.And(zzv.EqB(n.Payload, zzReadMsg.Payload), n.Cleartext == zzReadMsg.Cleartext))
	zzv.Reach("announced")
}

//@ verify C13 C16 C17 C22 C23 nopanic locks gorun noblock
//@ use io/ioutil.ReadDir := zzReadDir
//@ use (io/fs.FileInfo).Name := zzFIName
//@ use os.Open := zzOpenMsg
//@ use errors.As := zzAs
//@ use (*os.File).Close := zzCloseMsg
//@ use github.com/davecgh/go-xdr/xdr2.Unmarshal := zzUnmarshalMsg
//@ use send *zkserver/account.Notification := zzNotify
//@ use unlock zkserver/account.Account.Mutex := zzUnlockOnline
//@ opt guard=zkserver/account.Account.online/Mutex
func zzvOnline(a *Account, who, o [zkidentity.IdentitySize]byte, ntfn chan *Notification) {
	zzBegin(a, who)
	zzv.Assume(ntfn != nil)
	zzNtfn, zzOpenF, zzUnlocks = ntfn, 0, 0
	_, was := a.online[who]
	zzv.Assume(o != who)
	_, was2 := a.online[o]
	err := a.Online(who, ntfn)
	_, is := a.online[who]
	_, is2 := a.online[o]
	zzv.Assert("other accounts stay as they were", is2 == was2)
	if err != nil {
		zzv.Assert("an account that is online is refused", was)
		zzv.Reach("refused")
		return
	}
	zzv.Assert("the account is online", !was && is)
	d := a.online[who]
	zzv.Assert("the session can be told of messages and be ended", d.ntfn == ntfn && d.work != nil && d.quit != nil && d.processed != nil)
	zzv.Reach("online")
}

// Going offline ends what Online started, for that account alone.
var (
	zzOffQ chan struct{}
	zzOffs int
)

func zzOffQuit(c chan struct{}) {
	zzv.Assert("what serves the account that goes offline is told to end, once", c == zzOffQ && zzOffs == 0)
	zzOffs++
}

//@ verify C25 C17 C22 C23 nopanic locks
//@ use close struct{} := zzOffQuit
//@ opt guard=zkserver/account.Account.online/Mutex
func zzvOffline(a *Account, who, o [zkidentity.IdentitySize]byte) {
	zzBegin(a, who)
	d, on := a.online[who]
	e, on2 := a.online[o]
	zzv.Assume(!on || d.quit != nil)
	zzOffQ, zzOffs = d.quit, 0
	a.Offline(who)
	_, still := a.online[who]
	zzv.Assert("an account that went offline can come back", !still)
	zzv.Assert("what served the account is told to end", !on || zzOffs == 1)
	f, on3 := a.online[o]
	zzv.Assert("other accounts stay as they are", o == who || (on2 == on3 && (!on2 || (e.quit == f.quit && e.work == f.work && e.ntfn == f.ntfn))))
	if on {
		zzv.Reach("went offline")
	} else {
		zzv.Reach("was offline")
	}
}
