package main

import (
	"encoding/hex"
	"os"
	"path"
	"time"

	"github.com/companyzero/zkc/debug"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/ratchet/disk"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/tagstack"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zzv"
)

func zzPrint(z *ZKC, id int, ts time.Time, local bool, format string, args ...interface{}) {}
func zzFlood(z *ZKC, nick, format string, args ...interface{})                              {}
func zzDbgLog(d *debug.Debug, id int, format string, args ...interface{})                   {}
func zzDump(a ...interface{}) string                                                        { return "" }

func zzSetupZ(z *ZKC) {
	zzv.Assume(z.settings != nil && z.id != nil && z.Debug != nil && z.ab != nil && z.groups != nil)
	zzv.Assume(zzv.LockState(&z.RWMutex) == 0)
	zzv.Assume(zzv.LockState(&z.ratchetMtx) == 0)
	zzv.Assume(zzv.LockState(&z.pendingIdentitiesMutex) == 0)
	zzv.Assume(zzv.LockState(&z.write) == 0)
	zzC = z
}

// Sending: zzR is the ratchet loaded from disk.  It is advanced by encrypting
// (zzAdv) and stored by updateRatchet (zzSaved).
var (
	zzC     *ZKC
	zzR     *ratchet.Ratchet
	zzPeer  [32]byte
	zzAdv   int
	zzSaved bool
	zzBox   []byte // what was encrypted last
	zzSent  bool
	zzTagP  uint32
	zzHold  bool // the tag is ours
	zzCB    *cb  // what is registered under it
	zzOther *cb  // what is registered under another tag
	zzJ     uint32
)

func zzOnline(z *ZKC) bool { return zzv.Choose() }

func zzLoadR(z *ZKC, id [32]byte, half bool) (*ratchet.Ratchet, error) {
	zzv.Assert("the ratchet is used under its lock", zzv.LockState(&z.ratchetMtx) == 1)
	zzv.Assert("the ratchet of the peer is used", zzv.EqB(id[:], zzPeer[:]) && !half)
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzR = new(ratchet.Ratchet)
	to := new([32]byte)
	*to = id
	zzR.TheirIdentityPublic = to
	return zzR, nil
}

func zzEncR(r *ratchet.Ratchet, out, msg []byte) ([]byte, error) {
	zzv.Assert("the ratchet is used under its lock", zzv.LockState(&zzC.ratchetMtx) == 1)
	zzv.Assert("the ratchet of the peer is used", r == zzR)
	zzSaved = false
	zzAdv++
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzBox = zzv.FreshBytes("box", -1)
	return zzBox, nil
}

func zzSaveR(z *ZKC, r *ratchet.Ratchet, half bool) error {
	zzv.Assert("the ratchet is stored under its lock", zzv.LockState(&z.ratchetMtx) == 1)
	zzv.Assert("the ratchet of the peer is stored", r == zzR && !half)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzSaved = true
	return nil
}

func zzPopT(s *tagstack.TagStack) (uint32, error) {
	zzv.Assert("one tag is taken for a message", !zzHold)
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	zzTagP = uint32(zzv.FreshInt("tag", 0, tagDepth-1))
	zzHold = true
	return zzTagP, nil
}

func zzPushT(s *tagstack.TagStack, x uint32) error {
	zzv.Assert("only the tag that was taken is returned", zzHold && x == zzTagP)
	zzv.Assert("a tag is returned after its callback is forgotten", zzCB == nil)
	zzv.Assert("the tag of a message that left is not reused", !zzSent)
	zzv.Reach("tag returned")
	zzHold = false
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

func zzLockZ(z *ZKC) {
	zzv.Havoc(&z.tagCallback)
	// the tag stack hands out tags below the depth of the session
	zzv.Assume(len(z.tagCallback) == tagDepth)
	if zzHold {
		z.tagCallback[zzTagP] = zzCB
	}
	zzOther = z.tagCallback[zzJ]
}

func zzUnlockZ(z *ZKC) {
	zzv.Assert("other callbacks are kept", (zzHold && zzJ == zzTagP) || z.tagCallback[zzJ] == zzOther)
	if zzHold {
		zzCB = z.tagCallback[zzTagP]
	}
}

func zzWriteM(z *ZKC, m *rpc.Message, payload interface{}) error {
	zzv.Assert("a message leaves only after the advanced ratchet was stored", zzAdv == 1 && zzSaved)
	zzv.Assert("a message leaves once", !zzSent)
	zzv.Assert("a message leaves under the tag taken for it", zzHold && m.Tag == zzTagP && m.Command == rpc.TaggedCmdCache)
	zzv.Assert("the acknowledgement is awaited before the message leaves", zzCB != nil && zzv.EqB(zzCB.to[:], zzPeer[:]))
	zzv.Assert("the connection is not waited for under the client's lock", zzv.LockState(&z.RWMutex) == 0)
	p, ok := payload.(rpc.Cache)
	zzv.Assert("the message goes to the peer", ok && zzv.EqB(p.To[:], zzPeer[:]))
	zzv.Assert("only the encrypted message leaves", zzv.EqB(p.Payload, zzBox) && !m.Cleartext)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzSent = true
	return nil
}

func zzPack(z *ZKC, payload interface{}) ([]byte, string, error) {
	if zzv.Choose() {
		return nil, "", zzv.NewErr()
	}
	return zzv.FreshBytes("packed", -1), rpc.CRPCCompZLIB, nil
}

//@ verify C20 C29 C22 C23 nopanic locks cutknown
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use github.com/davecgh/go-spew/spew.Sdump := zzDump
//@ use (*zkclient.ZKC).isOnline := zzOnline
//@ use (*zkclient.ZKC).loadRatchet := zzLoadR
//@ use (*zkclient.ZKC).compress := zzPack
//@ use (*ratchet.Ratchet).Encrypt := zzEncR
//@ use (*zkclient.ZKC).updateRatchet := zzSaveR
//@ use (*tagstack.TagStack).Pop := zzPopT
//@ use (*tagstack.TagStack).Push := zzPushT
//@ use (*zkclient.ZKC).writeMessage := zzWriteM
//@ use lock zkclient.ZKC.RWMutex := zzLockZ
//@ use unlock zkclient.ZKC.RWMutex := zzUnlockZ
func zzvSend(z *ZKC, id [32]byte, m rpc.PrivateMessage, j uint32) {
	zzSetupZ(z)
	zzv.Assume(z.tagStack != nil && j < tagDepth)
	zzPeer, zzJ = id, j
	zzR, zzAdv, zzSaved, zzSent, zzHold, zzCB = nil, 0, false, false, false, nil
	err := z.cacheCRPC(id, m, nil)
	zzv.Assert("success means the message left, or there is no ratchet to encrypt it with", err != nil || zzSent || zzAdv == 0)
	zzv.Assert("a failed message keeps no tag", err == nil || !zzHold)
	if zzSent {
		zzv.Assert("a message that left is not sent again", err == nil)
		zzv.Reach("sent")
	} else {
		zzv.Reach("not sent")
	}
}

// Storing a ratchet: the new state replaces the old file only once it is
// complete and on disk; nothing else is touched.
var (
	zzDir    string
	zzFile   string // the ratchet file
	zzTmp    string // the temporary file, while it exists
	zzState  *disk.RatchetState
	zzBody   []byte
	zzSynced bool
	zzClosed bool
	zzDone   bool
)

func zzMarshalR(r *ratchet.Ratchet, now time.Time, life time.Duration) *disk.RatchetState {
	zzState = new(disk.RatchetState)
	zzv.Havoc(zzState)
	return zzState
}

func zzTempF(dir, pat string) (*os.File, error) {
	zzv.Assert("the temporary file is made beside the ratchet", zzv.EqB(dir, zzDir) && zzTmp == "")
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzTmp = zzv.FreshString("tmp")
	zzv.Assume(zzTmp != "" && !zzv.EqB(zzTmp, zzFile))
	zzBody, zzSynced, zzClosed = nil, false, false
	return new(os.File), nil
}
func zzNameF(f *os.File) string { return zzTmp }
func zzWriteF(f *os.File, b []byte) (int, error) {
	zzv.Assert("a file is written while it is open", zzTmp != "" && !zzClosed)
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	zzBody = append(zzBody[:len(zzBody):len(zzBody)], b...)
	zzSynced = false
	return len(b), nil
}
func zzSyncF(f *os.File) error {
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzSynced = true
	return nil
}
func zzCloseF(f *os.File) error {
	zzClosed = true
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzRenameF(o, n string) error {
	zzv.Assert("only the stored state replaces the ratchet", zzv.EqB(o, zzTmp) && zzv.EqB(n, zzFile))
	zzv.Assert("the ratchet is replaced by its complete new state", zzv.EqB(zzBody, zzv.Enc("xdr", *zzState)))
	zzv.Assert("the ratchet is replaced by a state that is on disk", zzSynced && zzClosed)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzDone, zzTmp = true, ""
	return nil
}
func zzRemoveF(n string) error {
	zzv.Assert("only the temporary file is removed", zzTmp != "" && zzv.EqB(n, zzTmp))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzTmp = ""
	return nil
}

//@ verify C20 C23 nopanic
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*ratchet.Ratchet).Marshal := zzMarshalR
//@ use io/ioutil.TempFile := zzTempF
//@ use (*os.File).Name := zzNameF
//@ use (*os.File).Write := zzWriteF
//@ use (*os.File).Sync := zzSyncF
//@ use (*os.File).Close := zzCloseF
//@ use os.Rename := zzRenameF
//@ use os.Remove := zzRemoveF
func zzvStore(z *ZKC, r *ratchet.Ratchet, half bool) {
	zzSetupZ(z)
	zzv.Assume(r.TheirIdentityPublic != nil)
	zzDir = path.Join(z.settings.Root, inboundDir, hex.EncodeToString(r.TheirIdentityPublic[:]))
	zzFile = path.Join(zzDir, ratchetFilename)
	if half {
		zzFile = path.Join(zzDir, halfRatchetFilename)
	}
	zzTmp, zzDone = "", false
	err := z.updateRatchet(r, half)
	zzv.Assert("success means the state was stored", (err == nil) == zzDone)
	if err == nil {
		zzv.Reach("stored")
	} else {
		zzv.Reach("failed")
	}
}

var _ = zkidentity.IdentitySize

// Handing a message to the sender: it goes into one queue, once, as it is.
var (
	zzWHi, zzWLo chan wireMsg
	zzWMsg       wireMsg
	zzWSent      int
)

func zzWQueue(c chan wireMsg, m wireMsg) {
	zzv.Assert("a message is queued once, to be sent", zzWSent == 0 && (c == zzWHi || c == zzWLo))
	zzv.Assert("no lock is held while a message is queued", zzv.LockState(&zzC.RWMutex) == 0 && zzv.LockState(&zzC.ratchetMtx) == 0)
	zzWMsg = m
	zzWSent++
}

//@ verify C29 C22 C23 nopanic locks
//@ use send zkclient.wireMsg := zzWQueue
func zzvSchedule(z *ZKC, hi bool, id [32]byte, msg rpc.Message, p rpc.PrivateMessage, q rpc.Cache, cb bool) {
	zzSetupZ(z)
	zzv.Assume(z.hi != nil && z.lo != nil)
	zzWHi, zzWLo, zzWSent = z.hi, z.lo, 0
	if zzv.Choose() {
		z.schedulePRPC(hi, msg, q)
		b, ok := zzWMsg.payload.(rpc.Cache)
		zzv.Assert("what the server is asked is queued as it is", zzWSent == 1 && zzWMsg.id == nil && zzv.Same(zzWMsg.msg, msg) && ok && zzv.Same(b, q))
		zzv.Reach("asked")
		return
	}
	if cb {
		ran := 0
		z.scheduleCRPCCB(hi, &id, p, func() { ran++ })
		zzv.Assert("what is to be done once the message arrived is queued with it", zzWMsg.callback != nil)
		zzWMsg.callback()
		zzv.Assert("what is queued is what was to be done", ran == 1)
		zzv.Reach("with callback")
	} else {
		z.scheduleCRPC(hi, &id, p)
		zzv.Assert("nothing else is to be done", zzWMsg.callback == nil)
		zzv.Reach("without callback")
	}
	b, ok := zzWMsg.payload.(rpc.PrivateMessage)
	zzv.Assert("a message to a peer is queued as it is, for that peer", zzWSent == 1 && zzWMsg.id != nil && zzv.EqB(zzWMsg.id[:], id[:]) && ok && zzv.Same(b, p))
}
