package main

import (
	"bytes"
	"strconv"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/tagstack"
	"github.com/companyzero/zkc/zkserver/account"
	"github.com/companyzero/zkc/zzv"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// The goroutine that announces stored messages to the client.
var (
	zzN      *account.Notification
	zzHaveN  bool // it has yet to be sent
	zzTag    uint32
	zzTaken  bool
	zzWas    *RPCWrapper // outstanding under the tag before
	zzPut    *RPCWrapper
	zzClosed bool
)

func zzNtfnRecv(c chan *account.Notification, n *account.Notification) {
	// the accounts announce messages and errors, never nil
	zzv.Assume(n != nil)
	zzv.Assert("a message is sent before the next is taken", !zzHaveN)
	zzN, zzHaveN, zzTaken, zzPut = n, true, false, nil
}

func zzPopTag(s *tagstack.TagStack) (uint32, error) {
	zzv.Assert("tags are taken from the session's stack, one a message", zzHaveN && !zzTaken && s == zzSC.tagStack)
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	zzTag = uint32(zzv.FreshInt("tag", 0, tagDepth-1))
	zzTaken = true
	return zzTag, nil
}

func zzNtfnLock(sc *sessionContext) {
	zzv.Assert("sessions touch their own messages only", sc == zzSC)
	zzv.Havoc(&sc.tagMessage)
	zzv.Assume(len(sc.tagMessage) == tagDepth)
	if zzTaken {
		zzWas = sc.tagMessage[zzTag]
	}
	zzMsgJ = sc.tagMessage[zzJ]
}

func zzNtfnUnlock(sc *sessionContext) {
	if zzTaken {
		zzPut = sc.tagMessage[zzTag]
		zzv.Assert("an outstanding message is not replaced", zzWas == nil || zzPut == zzWas)
	}
	zzv.Assert("other outstanding messages are kept", (zzTaken && zzJ == zzTag) || sc.tagMessage[zzJ] == zzMsgJ)
}

func zzNtfnSend(c chan *RPCWrapper, m *RPCWrapper) {
	zzv.Assert("no lock is held while a message waits", zzv.LockState(&zzSC.Mutex) == 0)
	zzv.Assert("a message is announced once, under the tag taken for it", zzHaveN && zzTaken && m.Message.Tag == zzTag)
	zzv.Assert("a tag in use is not used again", zzWas == nil)
	zzv.Assert("a message is outstanding before it is sent", zzPut == m)
	zzv.Assert("the message can be named when it is acknowledged", zzv.EqB(m.Identifier, zzN.Identifier) && m.Message.Command == rpc.TaggedCmdPush)
	p := m.Payload.(rpc.Push)
	zzv.Assert("the sender announced is the one stored", zzv.EqB(p.From[:], zzN.From[:]))
	zzv.Assert("the message announced is the one stored", zzv.EqB(p.Payload, zzN.Payload) && p.Received == zzN.Received && m.Message.Cleartext == zzN.Cleartext)
	zzv.Assert("an error is not sent as a message", zzN.Error == nil)
	zzHaveN = false
	zzv.Reach("sent")
}

func zzNtfnClose(kx *session.KX) {
	zzv.Assert("only the session's transport is closed", kx == zzKX)
	zzClosed = true
}

//@ verify C16 C17 C22 C23 C25 nopanic locks
//@ use recv *zkserver/account.Notification := zzNtfnRecv
//@ use (*tagstack.TagStack).Pop := zzPopTag
//@ use lock zkserver.sessionContext.Mutex := zzNtfnLock
//@ use unlock zkserver.sessionContext.Mutex := zzNtfnUnlock
//@ use send *zkserver.RPCWrapper := zzNtfnSend
//@ use (*session.KX).Close := zzNtfnClose
//@ use (*debug.Debug).T := zzLog
//@ use (*debug.Debug).Error := zzLog
//@ use (*debug.Debug).Dbg := zzLog
func zzvNtfn(z *ZKS, sc *sessionContext, j uint32) {
	zzSetup(z)
	zzv.Assume(sc.kx != nil && sc.quit != nil && sc.ntfn != nil && sc.writer != nil && sc.tagStack != nil && j < tagDepth)
	zzv.Assume(zzv.LockState(&sc.Mutex) == 0)
	zzZ, zzSC, zzKX, zzJ = z, sc, sc.kx, j
	zzHaveN, zzTaken, zzClosed = false, false, false
	z.sessionNtfn(sc)
	zzv.Assert("a session that cannot announce messages is closed", zzClosed)
	zzv.Reach("end")
}

// The goroutine that writes replies and announcements.
var (
	zzWM     *RPCWrapper
	zzHaveW  bool
	zzFailed bool
	zzWrites int
)

func zzWriterRecv(c chan *RPCWrapper, m *RPCWrapper) {
	zzv.Assume(m != nil)
	if zzClosed {
		return // thrown away
	}
	zzv.Assert("a message is written before the next is taken", !zzHaveW)
	zzWM, zzHaveW = m, true
}

func zzKXWrite(kx *session.KX, b []byte) error {
	zzv.Assert("messages are written to the session", kx == zzKX)
	zzv.Assert("nothing is written after a failed write", !zzFailed && !zzClosed)
	zzv.Assert("a message is written once", zzHaveW)
	e := append(append([]byte{}, zzv.Enc("xdr", zzWM.Message)...), zzv.Enc("xdr", zzWM.Payload)...)
	zzv.Assert("what is written is the message and its payload", zzv.EqB(b, e))
	zzHaveW = false
	if zzv.Choose() {
		zzFailed = true
		return zzv.NewErr()
	}
	zzv.Reach("written")
	return nil
}

//@ verify C16 C17 C22 C23 C25 nopanic locks
//@ use recv *zkserver.RPCWrapper := zzWriterRecv
//@ use (*session.KX).Write := zzKXWrite
//@ use (*session.KX).Close := zzNtfnClose
//@ use (*session.KX).TheirIdentity := zzTheir
//@ use (*debug.Debug).T := zzLog
//@ use (*debug.Debug).Error := zzLog
//@ use (*debug.Debug).Dbg := zzLog
func zzvWriter(z *ZKS, sc *sessionContext) {
	zzSetup(z)
	zzv.Assume(sc.kx != nil && sc.quit != nil && sc.writer != nil)
	zzZ, zzSC, zzKX = z, sc, sc.kx
	zzHaveW, zzFailed, zzClosed = false, false, false
	z.sessionWriter(sc)
	zzv.Assert("a session that cannot be written to is closed", zzClosed)
	zzv.Reach("end")
}

var (
	zzWire []byte
)

func zzWireWrite(kx *session.KX, b []byte) error {
	zzv.Assert("messages are written to the session", kx == zzKX)
	zzWrites++
	zzWire = b
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

//@ verify C16 C22 C23 nopanic locks
//@ use (*session.KX).Write := zzWireWrite
//@ use (*debug.Debug).T := zzLog
func zzvWelcome(z *ZKS, kx *session.KX) {
	zzSetup(z)
	zzZ, zzKX, zzWrites = z, kx, 0
	err := z.welcome(kx)
	zzv.Assert("a welcome is one message", zzWrites <= 1)
	if err != nil {
		zzv.Reach("failed")
		return
	}
	var (
		m rpc.Message
		w rpc.Welcome
	)
	r := bytes.NewReader(zzWire)
	_, e1 := xdr.Unmarshal(r, &m)
	_, e2 := xdr.Unmarshal(r, &w)
	zzv.Assert("the welcome can be decoded", e1 == nil && e2 == nil && m.Command == rpc.SessionCmdWelcome && w.Version == rpc.ProtocolVersion)
	for _, p := range w.Properties {
		if p.Key == rpc.PropTagDepth {
			zzv.Assert("the tag depth announced is the one enforced", zzv.EqB(p.Value, strconv.Itoa(tagDepth)))
			zzv.Reach("depth")
		}
		if p.Key == rpc.PropMaxMsgSize {
			zzv.Assert("the message size announced is the one enforced", zzv.EqB(p.Value, strconv.FormatUint(z.settings.MaxMsgSize, 10)))
			zzv.Reach("size")
		}
	}
	zzv.Reach("end")
}
