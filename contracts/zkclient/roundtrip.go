package main

import (
	"bytes"
	"compress/zlib"
	"io"

	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zzv"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// What one client sends is what the handler of the other one is given.  The
// ratchet's own guarantees (C01) stand between zzSeal and zzUnseal.
var (
	zzWhat  interface{} // what is sent
	zzWire  []byte
	zzClr   []byte
	zzGot   int
	zzZBuf  []byte // what was written to the compressor
	zzZDone bool
	zzZDst  io.Writer
)

func zzSeal(r *ratchet.Ratchet, out, msg []byte) ([]byte, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzClr = append([]byte(nil), msg...)
	zzWire = zzv.FreshBytes("wire", -1)
	return zzWire, nil
}

func zzUnseal(r *ratchet.Ratchet, box []byte) ([]byte, error) {
	zzv.Assume(zzv.EqB(box, zzWire))
	return zzClr, nil
}

func zzDeflate(w io.Writer) *zlib.Writer {
	zzZDst, zzZBuf, zzZDone = w, nil, false
	return new(zlib.Writer)
}
func zzZWrite(w *zlib.Writer, p []byte) (int, error) {
	zzZBuf = append(zzZBuf[:len(zzZBuf):len(zzZBuf)], p...)
	return len(p), nil
}
func zzZClose(w *zlib.Writer) error {
	if !zzZDone {
		zzZDone = true
		zzZDst.Write(zzv.Ctor("zlib", -1, zzZBuf))
	}
	return nil
}

func zzInflateRT(r io.Reader) (io.ReadCloser, error) {
	br, ok := r.(*bytes.Reader)
	zzv.Assert("the payload is what is inflated", ok)
	p, ok := zzv.GGet(br, "rest").([]byte)
	zzv.Assert("the payload is what is inflated", ok)
	data, ok := zzv.Uncons("zlib", p, 0)
	if !ok {
		return nil, zzv.NewErr()
	}
	return zzInflater{bytes.NewReader(data)}, nil
}

func zzLimitedRT(r io.Reader, v interface{}, max uint) (int, error) {
	if i, ok := r.(zzInflater); ok {
		return xdr.Unmarshal(i.r, v)
	}
	return xdr.Unmarshal(r, v)
}

// xdr.Unmarshal without the possibility to run out of memory
func zzGive(x interface{}) error {
	zzv.Assert("what is handled is what was sent", zzv.Same(x, zzWhat))
	zzGot++
	return nil
}
func zzGivePm(z *ZKC, m rpc.Message, p rpc.Push, x rpc.PrivateMessage) error { return zzGive(x) }
func zzGiveGi(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupInvite) error    { return zzGive(x) }
func zzGiveGj(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupJoin) error      { return zzGive(x) }
func zzGiveGk(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupKill) error      { return zzGive(x) }
func zzGiveGkk(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupKick) error     { return zzGive(x) }
func zzGiveGp(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupPart) error      { return zzGive(x) }
func zzGiveGl(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupList) error      { return zzGive(x) }
func zzGiveGu(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupUpdate) error    { return zzGive(x) }
func zzGiveGm(z *ZKC, m rpc.Message, p rpc.Push, x rpc.GroupMessage) error   { return zzGive(x) }
func zzGiveCn(z *ZKC, m rpc.Message, p rpc.Push, x rpc.ChunkNew) error       { return zzGive(x) }
func zzGiveC(z *ZKC, m rpc.Message, p rpc.Push, x rpc.Chunk) error           { return zzGive(x) }
func zzGiveJ(z *ZKC, m rpc.Message, p rpc.Push, x rpc.JanitorMessage) error  { return zzGive(x) }

func zzYes(z *ZKC, id [32]byte) bool { return true }
func zzLoadRT(z *ZKC, id [32]byte, half bool) (*ratchet.Ratchet, error) {
	return new(ratchet.Ratchet), nil
}
func zzSaveRT(z *ZKC, r *ratchet.Ratchet, half bool) error { return nil }

//@ verify C26 C23 C22 nopanic locks cutknown
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use github.com/davecgh/go-spew/spew.Sdump := zzDump
//@ use (*ratchet.Ratchet).Encrypt := zzSeal
//@ use (*ratchet.Ratchet).Decrypt := zzUnseal
//@ use compress/zlib.NewWriter := zzDeflate
//@ use (*compress/zlib.Writer).Write := zzZWrite
//@ use (*compress/zlib.Writer).Close := zzZClose
//@ use (*compress/zlib.Writer).Flush := zzZFlush
//@ use compress/zlib.NewReader := zzInflateRT
//@ use github.com/davecgh/go-xdr/xdr2.UnmarshalLimited := zzLimitedRT
//@ use (*zkclient.ZKC).identityExists := zzYes
//@ use (*zkclient.ZKC).ratchetExists := zzYes
//@ use (*zkclient.ZKC).loadRatchet := zzLoadRT
//@ use (*zkclient.ZKC).updateRatchet := zzSaveRT
//@ use (*zkclient.ZKC).handlePm := zzGivePm
//@ use (*zkclient.ZKC).handleGroupInvite := zzGiveGi
//@ use (*zkclient.ZKC).handleGroupJoin := zzGiveGj
//@ use (*zkclient.ZKC).handleGroupKill := zzGiveGk
//@ use (*zkclient.ZKC).handleGroupKick := zzGiveGkk
//@ use (*zkclient.ZKC).handleGroupPart := zzGiveGp
//@ use (*zkclient.ZKC).handleGroupList := zzGiveGl
//@ use (*zkclient.ZKC).handleGroupUpdate := zzGiveGu
//@ use (*zkclient.ZKC).handleGroupMessage := zzGiveGm
//@ use (*zkclient.ZKC).handleChunkNew := zzGiveCn
//@ use (*zkclient.ZKC).handleChunk := zzGiveC
//@ use (*zkclient.ZKC).handleJanitorMessage := zzGiveJ
func zzvRoundTrip(z *ZKC, r *ratchet.Ratchet, from [32]byte, pm rpc.PrivateMessage, gi rpc.GroupInvite, gj rpc.GroupJoin, gk rpc.GroupKill, gkk rpc.GroupKick, gp rpc.GroupPart, gl rpc.GroupList, gu rpc.GroupUpdate, gm rpc.GroupMessage, cn rpc.ChunkNew, c rpc.Chunk, jm rpc.JanitorMessage) {
	zzSetupZ(z)
	zzWhat, zzGot = nil, 0
	switch {
	case zzv.Choose():
		zzWhat = pm
	case zzv.Choose():
		zzWhat = gi
	case zzv.Choose():
		zzWhat = gj
	case zzv.Choose():
		zzWhat = gk
	case zzv.Choose():
		zzWhat = gkk
	case zzv.Choose():
		zzWhat = gp
	case zzv.Choose():
		zzWhat = gl
	case zzv.Choose():
		zzWhat = gu
	case zzv.Choose():
		zzWhat = gm
	case zzv.Choose():
		zzWhat = cn
	case zzv.Choose():
		zzWhat = c
	default:
		zzWhat = jm
	}
	box, err := z.crpc(r, zzWhat)
	if err != nil {
		zzv.Reach("not sent")
		return
	}
	var p rpc.Push
	p.From = from
	p.Payload = box
	empty := [32]byte{}
	zzv.Assume(from != empty)
	err = z.handlePush(rpc.Message{}, p)
	zzv.Assert("what was sent is handled", err == nil && zzGot == 1)
	zzv.Reach("handled")
}

func zzZFlush(w *zlib.Writer) error { return nil }
