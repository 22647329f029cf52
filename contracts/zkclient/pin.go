package main

import (
	"io"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zzv"
	"github.com/nsf/termbox-go"
)

// Key exchange by PIN.  One side leaves its identity, encrypted with the
// password, at the server; the other side fetches it, decrypts it and, when its
// user accepts it, answers with its own, encrypted with the same key.
var (
	zzPinKey  *[32]byte
	zzPinSalt *[32]byte
	zzPinN    *[24]byte
	zzPinBox  []byte
	zzPinPack []byte
	zzPinSent int
	zzPinKept bool
	zzPinDec  bool // the blob was decrypted with the password's key
	zzPinID   *zkidentity.PublicIdentity
	zzPinVer  bool
	zzPinHad  bool
	zzPinAsk  int
	zzPinPw   string
	zzPinBlob []byte
)

func zzPinOut(w *kxWindow, x *ttk.Window, bad bool, format string, args ...interface{})         {}
func zzPinOutA(w *kxAcceptWindow, x *ttk.Window, bad bool, format string, args ...interface{})  {}
func zzPinOutC(w *acceptCFPWindow, x *ttk.Window, bad bool, format string, args ...interface{}) {}
func zzPinText(e *ttk.Edit, s *string, end bool)                                                {}
func zzPinFocus(w *ttk.Window)                                                                  {}
func zzPinNrp(n, r, p int)                                                                      {}

func zzPinNew(pw []byte) (*[32]byte, *[32]byte, error) {
	zzv.Assert("the key is that of the password", zzv.EqB(pw, []byte(zzPinPw)) && zzPinKey == nil)
	if zzv.Choose() {
		return nil, nil, zzv.NewErr()
	}
	zzPinKey, zzPinSalt = new([32]byte), new([32]byte)
	zzv.Havoc(zzPinKey)
	zzv.Havoc(zzPinSalt)
	return zzPinKey, zzPinSalt, nil
}
func zzPinEnc(msg []byte, key *[32]byte) ([]byte, *[24]byte, error) {
	zzv.Assert("what is left at the server is the user's public identity, encrypted with the password's key", key == zzPinKey && key != nil && zzv.EqB(msg, zzv.Enc("xdr", zzC.id.Public)))
	if zzv.Choose() {
		return nil, nil, zzv.NewErr()
	}
	zzPinBox, zzPinN = zzv.FreshBytes("box", -1), new([24]byte)
	zzv.Havoc(zzPinN)
	return zzPinBox, zzPinN, nil
}
func zzPinPackS(salt *[32]byte, nonce *[24]byte, box []byte) []byte {
	zzv.Assert("what is left at the server is encrypted", salt == zzPinSalt && nonce == zzPinN && nonce != nil && zzv.EqB(box, zzPinBox))
	zzPinPack = zzv.FreshBytes("packed", -1)
	return zzPinPack
}
func zzPinLeave(z *ZKC, blob []byte) error {
	zzv.Assert("the encrypted identity is left at the server, once", z == zzC && zzPinSent == 0 && zzPinPack != nil && zzv.EqB(blob, zzPinPack))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzPinSent++
	return nil
}
func zzPinKeep(z *ZKC, key *[32]byte) error {
	zzv.Assert("the key that was used is kept", key == zzPinKey && key != nil)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzPinKept = true
	zzv.Reach("kept")
	return nil
}
func zzPinReset() {
	zzPinKey, zzPinSalt, zzPinN, zzPinBox, zzPinPack = nil, nil, nil, nil, nil
	zzPinSent, zzPinKept, zzPinDec, zzPinID, zzPinVer, zzPinHad, zzPinAsk = 0, false, false, nil, false, false, 0
}

//@ verify C26 C22 C23 nopanic locks
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.kxWindow).Status := zzPinOut
//@ use blobshare.SetNrp := zzPinNrp
//@ use blobshare.NewKey := zzPinNew
//@ use blobshare.Encrypt := zzPinEnc
//@ use blobshare.PackSaltNonce := zzPinPackS
//@ use (*zkclient.ZKC).rendezvous := zzPinLeave
//@ use (*zkclient.ZKC).saveKey := zzPinKeep
//@ use github.com/companyzero/ttk.Queue := zzQueue
//@ use github.com/companyzero/ttk.Focus := zzPinFocus
//@ use (*github.com/companyzero/ttk.Edit).SetText := zzPinText
//@ use (*github.com/companyzero/ttk.Window).FocusNext := zzNextW
//@ use (*github.com/companyzero/ttk.Window).FocusPrevious := zzNextW
func zzvPinAsk(kw *kxWindow, w *ttk.Window, k ttk.Key) {
	zzv.Assume(kw.zkc != nil && w != nil && kw.passwordInput != nil)
	zzSetupZ(kw.zkc)
	zzPinReset()
	zzPinPw = kw.password
	kw.KeyHandler(w, k)
	if k.Key == termbox.KeyF10 {
		zzv.Assert("nothing is sent when the user cancels", zzPinSent == 0 && !zzPinKept)
	}
	zzv.Assert("no key is kept that nothing was sent with", !zzPinKept || zzPinSent == 1)
}

func zzPinUnpack(b []byte) (*[32]byte, *[24]byte, []byte, error) {
	zzv.Assert("what was fetched is opened", zzv.EqB(b, zzPinBlob))
	if zzv.Choose() {
		return nil, nil, nil, zzv.NewErr()
	}
	zzPinSalt, zzPinN, zzPinBox = new([32]byte), new([24]byte), zzv.FreshBytes("box", -1)
	return zzPinSalt, zzPinN, zzPinBox, nil
}
func zzPinDerive(pw []byte, salt *[32]byte) (*[32]byte, error) {
	zzv.Assert("the key is that of the password", salt == zzPinSalt && zzv.EqB(pw, []byte(zzPinPw)))
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzPinKey = new([32]byte)
	return zzPinKey, nil
}
func zzPinOpen(key *[32]byte, nonce *[24]byte, box []byte) ([]byte, error) {
	zzv.Assert("what was fetched is decrypted with the password's key", key == zzPinKey && nonce == zzPinN && zzv.EqB(box, zzPinBox))
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzPinDec = true
	return zzv.FreshBytes("identity", -1), nil
}
func zzPinDecode(r io.Reader, v interface{}, max uint) (int, error) {
	zzv.Assert("what a message makes the client allocate is bounded", max == zzC.msgSize)
	p, ok := v.(*zkidentity.PublicIdentity)
	zzv.Assert("an identity was fetched", ok && zzPinDec)
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	zzv.Havoc(p)
	zzPinID = new(zkidentity.PublicIdentity)
	*zzPinID = *p
	zzPinVer = false
	return 4, nil
}
func zzPinVerify(p *zkidentity.PublicIdentity) bool {
	if zzv.Choose() {
		return false
	}
	if zzPinID != nil && zzv.Same(*p, *zzPinID) {
		zzPinVer = true
	}
	return true
}
func zzPinHas(z *ZKC, id [32]byte) bool {
	zzPinHad = zzv.Choose()
	return zzPinHad
}
func zzPinShow(x ttk.Windower) *ttk.Window {
	aw, ok := x.(*acceptCFPWindow)
	zzv.Assert("the user is asked, once", ok && zzPinAsk == 0)
	zzv.Assert("the user is asked about an identity that was fetched with the password and verified", zzPinID != nil && zzPinVer && zzv.Same(*aw.pid, *zzPinID) && aw.dk == zzPinKey && aw.zkc == zzC)
	zzv.Assert("the user is not asked about himself", !zzv.EqB(aw.pid.Identity[:], zzC.id.Public.Identity[:]))
	zzv.Assert("an identity that the client does not have is new", zzPinHad || aw.newIdentity)
	zzPinAsk++
	zzv.Reach("asked")
	return new(ttk.Window)
}

//@ verify C26 C22 C23 nopanic locks
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.kxAcceptWindow).Status := zzPinOutA
//@ use blobshare.SetNrp := zzPinNrp
//@ use blobshare.UnpackSaltNonce := zzPinUnpack
//@ use blobshare.DeriveKey := zzPinDerive
//@ use blobshare.Decrypt := zzPinOpen
//@ use github.com/davecgh/go-xdr/xdr2.UnmarshalLimited := zzPinDecode
//@ use (*zkidentity.PublicIdentity).Verify := zzPinVerify
//@ use (*zkclient.ZKC).identityExists := zzPinHas
//@ use github.com/companyzero/ttk.NewWindow := zzPinShow
//@ use github.com/companyzero/ttk.Queue := zzQueue
//@ use github.com/companyzero/ttk.Focus := zzPinFocus
//@ use (*github.com/companyzero/ttk.Edit).SetText := zzPinText
//@ use (*github.com/companyzero/ttk.Window).FocusNext := zzNextW
//@ use (*github.com/companyzero/ttk.Window).FocusPrevious := zzNextW
func zzvPinGot(ka *kxAcceptWindow, w *ttk.Window, k ttk.Key) {
	// the window is shown once something was fetched
	zzv.Assume(ka.zkc != nil && w != nil && ka.passwordInput != nil && ka.rendezvousPullReply != nil)
	zzSetupZ(ka.zkc)
	zzPinReset()
	zzPinPw, zzPinBlob = ka.password, ka.rendezvousPullReply.Blob
	ka.KeyHandler(w, k)
	zzv.Assert("the user is asked when he says so", zzPinAsk == 0 || k.Key == termbox.KeyEnter)
}

// The user's answer.
var (
	zzPinYes  bool
	zzPinWho  zkidentity.PublicIdentity
	zzPinAns  int
	zzPinSave bool
	zzPinHalf bool
	zzPinNewI bool
)

func zzPinLower(s string) string {
	if zzv.Choose() {
		zzPinYes = true
		return "yes"
	}
	x := zzv.FreshString("answer")
	zzv.Assume(x != "yes")
	return x
}
func zzPinEncA(msg []byte, key *[32]byte) ([]byte, *[24]byte, error) {
	zzv.Assert("the answer is the user's identity and half of the ratchet, encrypted with the key of the identity that was accepted", key == zzPinKey && zzMyKX != nil && zzv.EqB(msg, zzv.Enc("xdr", rpc.IdentityKX{Identity: zzC.id.Public, KX: *zzMyKX})))
	if zzv.Choose() {
		return nil, nil, zzv.NewErr()
	}
	zzKeyBox = zzv.FreshBytes("box", -1)
	zzPinN = new([24]byte)
	return zzKeyBox, zzPinN, nil
}
func zzPinAnswer(z *ZKC, to [32]byte, blob []byte) error {
	zzv.Assert("only who was accepted is answered, once", zzPinYes && zzPinAns == 0 && zzv.EqB(to[:], zzPinWho.Identity[:]))
	zzv.Assert("what is sent is encrypted", zzPinN != nil && zzv.EqB(blob, zzKeyBox))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzPinAns++
	return nil
}
func zzPinSaveI(z *ZKC, id zkidentity.PublicIdentity) error {
	zzv.Assert("only who was accepted is kept", zzPinYes && zzPinNewI && zzv.Same(id, zzPinWho))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzPinSave = true
	return nil
}
func zzPinKeepA(z *ZKC, key *[32]byte) error {
	zzv.Assert("the key of who was accepted is kept", zzPinYes && key == zzPinKey)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzPinKept = true
	return nil
}
func zzPinSaveR(z *ZKC, r *ratchet.Ratchet, half bool) error {
	zzv.Assert("the ratchet is stored under its lock", zzv.LockState(&z.ratchetMtx) == 1)
	zzv.Assert("the half ratchet of who was accepted is kept", zzPinYes && half && r == zzR && zzMyKX != nil && zzv.EqB(r.TheirIdentityPublic[:], zzPinWho.Identity[:]) && zzv.Same(*r.TheirPublicKey, zzPinWho.Key) && zzv.Same(*r.TheirSigningPublic, zzPinWho.SigKey) && r.MyPrivateKey == &z.id.PrivateKey)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzPinHalf = true
	zzv.Reach("accepted")
	return nil
}

//@ verify C26 C22 C23 nopanic locks
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.acceptCFPWindow).Status := zzPinOutC
//@ use strings.ToLower := zzPinLower
//@ use ratchet.New := zzNewR
//@ use (*ratchet.Ratchet).FillKeyExchange := zzFillR
//@ use blobshare.Encrypt := zzPinEncA
//@ use blobshare.PackNonce := zzPackN
//@ use (*zkclient.ZKC).cache := zzPinAnswer
//@ use (*zkclient.ZKC).saveIdentity := zzPinSaveI
//@ use (*zkclient.ZKC).saveKey := zzPinKeepA
//@ use (*zkclient.ZKC).updateRatchet := zzPinSaveR
//@ use github.com/companyzero/ttk.Focus := zzPinFocus
func zzvPinAccept(aw *acceptCFPWindow, w *ttk.Window, k ttk.Key) {
	zzv.Assume(aw.zkc != nil && w != nil && aw.pid != nil && aw.dk != nil)
	zzSetupZ(aw.zkc)
	zzPinReset()
	zzR, zzMyKX, zzComplete, zzKeyBox = nil, nil, false, nil
	zzPinYes, zzPinAns, zzPinSave, zzPinHalf = false, 0, false, false
	zzPinKey, zzPinWho, zzPinNewI = aw.dk, *aw.pid, aw.newIdentity
	aw.KeyHandler(w, k)
	zzv.Assert("an identity that is not accepted is neither kept nor answered", zzPinYes && k.Key == termbox.KeyEnter || zzPinAns == 0 && !zzPinSave && !zzPinKept && !zzPinHalf)
	zzv.Assert("who is kept was answered", zzPinAns == 1 || !zzPinSave && !zzPinKept && !zzPinHalf)
}
