package main

import (
	"io"

	"github.com/companyzero/zkc/debug"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zzv"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// Receiving: a push from zzPeer.
var (
	zzP       rpc.Push
	zzClear   bool
	zzHasID   bool
	zzHasR    bool
	zzAskedID bool
	zzAskedR  bool
	zzPlain   []byte // what the ratchet decrypted
	zzShown   int
	zzResets  int
	zzCmd     rpc.ProxyCmd
	zzKXs     int
)

type zzInflater struct{ r io.Reader }

func (i zzInflater) Read(p []byte) (int, error) { return i.r.Read(p) }
func (i zzInflater) Close() error               { return nil }

func zzInflate(r io.Reader) (io.ReadCloser, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	return zzInflater{r}, nil
}

// Decoding what came from outside is bounded.
func zzLimited(r io.Reader, v interface{}, max uint) (int, error) {
	zzv.Assert("what a message makes the client allocate is bounded", max == zzC.msgSize)
	n, err := xdr.Unmarshal(r, v)
	if err != nil {
		return n, err
	}
	if p, ok := v.(*rpc.ProxyCmd); ok {
		zzCmd = *p
	}
	return n, nil
}

func zzIDExists(z *ZKC, id [32]byte) bool {
	zzv.Assert("the sender is looked up", zzv.EqB(id[:], zzPeer[:]))
	zzAskedID, zzHasID = true, zzv.Choose()
	return zzHasID
}
func zzRExists(z *ZKC, id [32]byte) bool {
	zzv.Assert("the sender is looked up", zzv.EqB(id[:], zzPeer[:]))
	zzAskedR, zzHasR = true, zzv.Choose()
	return zzHasR
}
func zzStep2(z *ZKC, msg rpc.Message, p rpc.Push) error {
	zzv.Assert("a key exchange is started by strangers only", !zzClear && zzAskedID && !zzHasID && zzv.Same(p, zzP))
	zzKXs++
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzStep3(z *ZKC, msg rpc.Message, p rpc.Push) error {
	zzv.Assert("a key exchange is completed only while it is pending", !zzClear && zzAskedR && !zzHasR && zzHasID && zzv.Same(p, zzP))
	zzKXs++
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzResetR(z *ZKC, from [32]byte) error {
	zzv.Assert("a ratchet is reset on the explicit, cleartext, command of that peer", zzClear && zzv.EqB(from[:], zzPeer[:]) && zzCmd.Command == rpc.ProxyCmdResetRatchet)
	zzResets++
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzDecR(r *ratchet.Ratchet, box []byte) ([]byte, error) {
	zzv.Assert("the ratchet is used under its lock", zzv.LockState(&zzC.ratchetMtx) == 1)
	zzv.Assert("the ratchet of the sender decrypts", r == zzR && zzv.EqB(box, zzP.Payload))
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzSaved = false
	zzAdv++
	zzPlain = zzv.FreshBytes("plain", -1)
	return zzPlain, nil
}

func zzShow(p rpc.Push) error {
	zzv.Assert("only what the sender's ratchet decrypted is shown as the sender's", zzAdv == 1 && !zzClear)
	zzv.Assert("a message is shown only after the ratchet that decrypted it was stored", zzSaved)
	zzv.Assert("the sender shown is the one that sent it", zzv.Same(p, zzP))
	zzv.Assert("no lock is held while a message is shown", zzv.LockState(&zzC.ratchetMtx) == 0 && zzv.LockState(&zzC.RWMutex) == 0)
	zzv.Assert("a message is shown once", zzShown == 0)
	zzShown++
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzShowPm(z *ZKC, m rpc.Message, p rpc.Push, x rpc.PrivateMessage) error     { return zzShow(p) }
func zzShowGi(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupInvite) error        { return zzShow(p) }
func zzShowGj(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupJoin) error          { return zzShow(p) }
func zzShowGk(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupKill) error          { return zzShow(p) }
func zzShowGkk(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupKick) error         { return zzShow(p) }
func zzShowGp(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupPart) error          { return zzShow(p) }
func zzShowGl(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupList) error          { return zzShow(p) }
func zzShowGu(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupUpdate) error        { return zzShow(p) }
func zzShowGm(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupMessage) error       { return zzShow(p) }
func zzShowCn(z *ZKC, m rpc.Message, p rpc.Push, x rpc.ChunkNew) error           { return zzShow(p) }
func zzShowC(z *ZKC, m rpc.Message, p rpc.Push, x rpc.Chunk) error               { return zzShow(p) }
func zzShowJ(z *ZKC, m rpc.Message, p rpc.Push, x rpc.JanitorMessage) error      { return zzShow(p) }

//@ verify C20 C22 C23 C26 nopanic locks cutknown
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC).FloodfT := zzFlood
//@ use (*zkclient.ZKC).nickFromId := zzNick
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use github.com/davecgh/go-spew/spew.Sdump := zzDump
//@ use github.com/davecgh/go-xdr/xdr2.UnmarshalLimited := zzLimited
//@ use compress/zlib.NewReader := zzInflate
//@ use (*zkclient.ZKC).identityExists := zzIDExists
//@ use (*zkclient.ZKC).ratchetExists := zzRExists
//@ use (*zkclient.ZKC).step2IDKX := zzStep2
//@ use (*zkclient.ZKC).step2IDKX2 := zzStep2
//@ use (*zkclient.ZKC).step3IDKX := zzStep3
//@ use (*zkclient.ZKC).handleResetRatchet := zzResetR
//@ use (*zkclient.ZKC).loadRatchet := zzLoadR
//@ use (*ratchet.Ratchet).Decrypt := zzDecR
//@ use (*zkclient.ZKC).updateRatchet := zzSaveR
//@ use (*zkclient.ZKC).handlePm := zzShowPm
//@ use (*zkclient.ZKC).handleGroupInvite := zzShowGi
//@ use (*zkclient.ZKC).handleGroupJoin := zzShowGj
//@ use (*zkclient.ZKC).handleGroupKill := zzShowGk
//@ use (*zkclient.ZKC).handleGroupKick := zzShowGkk
//@ use (*zkclient.ZKC).handleGroupPart := zzShowGp
//@ use (*zkclient.ZKC).handleGroupList := zzShowGl
//@ use (*zkclient.ZKC).handleGroupUpdate := zzShowGu
//@ use (*zkclient.ZKC).handleGroupMessage := zzShowGm
//@ use (*zkclient.ZKC).handleChunkNew := zzShowCn
//@ use (*zkclient.ZKC).handleChunk := zzShowC
//@ use (*zkclient.ZKC).handleJanitorMessage := zzShowJ
func zzvPush(z *ZKC, msg rpc.Message, p rpc.Push) {
	zzSetupZ(z)
	zzP, zzPeer, zzClear = p, p.From, msg.Cleartext
	zzR, zzAdv, zzSaved, zzShown, zzResets, zzKXs = nil, 0, false, 0, 0, 0
	zzAskedID, zzAskedR, zzHasID, zzHasR = false, false, false, false
	zzCmd = rpc.ProxyCmd{}
	err := z.handlePush(msg, p)
	zzv.Assert("a message is handled in one way", zzShown+zzResets+zzKXs <= 1)
	zzv.Assert("a message that is not handled is reported", err != nil || zzShown+zzResets+zzKXs == 1)
	if zzShown == 1 {
		zzv.Reach("shown")
	}
	if zzResets == 1 {
		zzv.Reach("reset")
	}
	if zzKXs == 1 {
		zzv.Reach("kx")
	}
}

func zzNick(z *ZKC, id [32]byte) string { return zzv.FreshString("nick") }

var _ = debug.New
var _ = zkidentity.IdentitySize
