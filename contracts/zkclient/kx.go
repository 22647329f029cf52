package main

import (
	"encoding/hex"
	"io"
	"os"
	"path"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/ratchet/disk"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zzv"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// Key exchange with zzPeer: zzIDKX is what it sent, zzR the ratchet made of it.
var (
	zzIDKX     rpc.IdentityKX
	zzKX       rpc.KX
	zzGotKX      bool // a key exchange was decoded
	zzVerified bool
	zzComplete bool
	zzIDSaved  bool
	zzHalfGone bool
	zzAdded    bool
	zzAnswered bool
	zzMyKX     *ratchet.KeyExchange
	zzKey      [32]byte // the key that opened it
	zzKeyBox   []byte
)

func zzNewR(r io.Reader) *ratchet.Ratchet {
	zzR = new(ratchet.Ratchet)
	return zzR
}
func zzFillR(r *ratchet.Ratchet, kx *ratchet.KeyExchange) error {
	zzv.Assert("one key exchange is filled in", r == zzR && zzMyKX == nil && !zzComplete)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzv.Havoc(kx)
	zzMyKX = kx
	return nil
}
func zzKeysDB(file string, create bool, depth int) (*inidb.INIDB, error) {
	zzv.Assert("the blob keys are read", zzv.EqB(file, path.Join(zzC.settings.Root, blobKeysPath)))
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	return inidb.ZzOpen(file, depth), nil
}
func zzRecs(i *inidb.INIDB, table string) map[string]string {
	var m map[string]string
	zzv.Havoc(&m)
	return m
}
func zzOpenBlob(key *[32]byte, nonce *[24]byte, box []byte) ([]byte, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzKey = *key
	return zzv.FreshBytes("kx", -1), nil
}
func zzSealBlob(msg []byte, key *[32]byte) ([]byte, *[24]byte, error) {
	zzv.Assert("the answer is encrypted with the key of the exchange", zzv.EqB(key[:], zzKey[:]))
	zzv.Assert("the answer is this side of the exchange", zzv.EqB(msg, zzv.Enc("xdr", rpc.KX{KX: *zzMyKX})))
	if zzv.Choose() {
		return nil, nil, zzv.NewErr()
	}
	zzKeyBox = zzv.FreshBytes("box", -1)
	n := new([24]byte)
	zzv.Havoc(n)
	return zzKeyBox, n, nil
}
func zzPackN(nonce *[24]byte, box []byte) []byte {
	zzv.Assert("the encrypted answer leaves", zzv.EqB(box, zzKeyBox))
	zzKeyBox = zzv.FreshBytes("packed", -1)
	return zzKeyBox
}
func zzDecodeKX(r io.Reader, v interface{}, max uint) (int, error) {
	zzv.Assert("what a message makes the client allocate is bounded", max == zzC.msgSize)
	n, err := xdr.Unmarshal(r, v)
	if err != nil {
		return n, err
	}
	if p, ok := v.(*rpc.IdentityKX); ok {
		zzIDKX, zzGotKX = *p, true
	}
	if p, ok := v.(*rpc.KX); ok {
		zzKX, zzGotKX = *p, true
	}
	return n, nil
}
func zzVerify(id *zkidentity.PublicIdentity) bool {
	if zzv.Choose() {
		return false
	}
	zzVerified = zzGotKX && zzv.Same(*id, zzIDKX.Identity)
	return true
}
func zzCompleteR2(r *ratchet.Ratchet, kx *ratchet.KeyExchange, alice bool) error {
	zzv.Assert("the exchange that was received is completed", zzGotKX && r == zzR && !alice && zzMyKX != nil && zzv.Same(*kx, zzIDKX.KX))
	zzv.Assert("the ratchet is between the client and that identity",
		r.MyPrivateKey == &zzC.id.PrivateKey && r.MySigningPublic == &zzC.id.Public.SigKey &&
			zzv.Same(*r.TheirIdentityPublic, zzIDKX.Identity.Identity) && zzv.Same(*r.TheirSigningPublic, zzIDKX.Identity.SigKey) && zzv.Same(*r.TheirPublicKey, zzIDKX.Identity.Key))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzComplete = true
	return nil
}
func zzSaveID2(z *ZKC, id zkidentity.PublicIdentity) error {
	zzv.Assert("an identity is kept only if it verifies and is the sender's own", zzVerified && zzv.Same(id, zzIDKX.Identity) && zzv.EqB(id.Identity[:], zzPeer[:]))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzIDSaved = true
	return nil
}
func zzSaveR2(z *ZKC, r *ratchet.Ratchet, half bool) error {
	zzv.Assert("the ratchet is stored under its lock", zzv.LockState(&z.ratchetMtx) == 1)
	zzv.Assert("the ratchet that was completed is stored as the sender's", zzComplete && zzIDSaved && r == zzR && !half && zzv.EqB(r.TheirIdentityPublic[:], zzPeer[:]))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzSaved = true
	return nil
}
func zzCacheKX(z *ZKC, to [32]byte, blob []byte) error {
	zzv.Assert("the answer leaves once, after the ratchet was stored", zzSaved && !zzAnswered)
	zzv.Assert("the answer goes to the sender", zzv.EqB(to[:], zzPeer[:]) && zzv.EqB(blob, zzKeyBox))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzAnswered = true
	return nil
}
func zzAddAB2(z *ZKC, id zkidentity.PublicIdentity) error {
	zzv.Assert("the identity that was kept is listed", zzSaved && zzv.Same(id, zzIDKX.Identity))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzAdded = true
	return nil
}
func zzPrintKX(z *ZKC, id *zkidentity.PublicIdentity) {
	zzv.Assert("completion is shown only when complete", zzAdded && zzv.EqB(id.Identity[:], zzPeer[:]))
}
func zzFindAB(a *addressbook.AddressBook, id [32]byte) (*zkidentity.PublicIdentity, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	p := new(zkidentity.PublicIdentity)
	zzv.Havoc(p)
	zzv.Assume(zzv.EqB(p.Identity[:], id[:]))
	return p, nil
}
func zzDecap(c *[sntrup4591761.CiphertextSize]byte, sk *[sntrup4591761.PrivateKeySize]byte) (*[32]byte, int) {
	zzv.Assert("the client's own key decapsulates what was sent", sk == &zzC.id.PrivateKey && len(zzP.Payload) >= len(c) && zzv.EqB(c[:], zzP.Payload[:len(c)]))
	k := new([32]byte)
	zzv.Havoc(k)
	if zzv.Choose() {
		return k, 0
	}
	return k, 1
}

func zzResetKX(z *ZKC, p rpc.Push) {
	zzSetupZ(z)
	zzPeer, zzP = p.From, p
	zzR, zzMyKX = nil, nil
	zzGotKX, zzVerified, zzComplete, zzIDSaved, zzSaved, zzAdded, zzAnswered, zzHalfGone = false, false, false, false, false, false, false, false
}

//@ verify C26 C22 C23 nopanic locks cutknown
//@ use (*zkclient.ZKC).FloodfT := zzFlood
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*debug.Debug).Error := zzDbgLog
//@ use (*debug.Debug).Log := zzDbgLog
//@ use (*zkclient.ZKC).printKX := zzPrintKX
//@ use inidb.New := zzKeysDB
//@ use (*inidb.INIDB).Records := zzRecs
//@ use blobshare.Decrypt := zzOpenBlob
//@ use blobshare.Encrypt := zzSealBlob
//@ use blobshare.PackNonce := zzPackN
//@ use github.com/companyzero/sntrup4591761.Decapsulate := zzDecap
//@ use github.com/davecgh/go-xdr/xdr2.UnmarshalLimited := zzDecodeKX
//@ use (*zkidentity.PublicIdentity).Verify := zzVerify
//@ use ratchet.New := zzNewR
//@ use (*ratchet.Ratchet).FillKeyExchange := zzFillR
//@ use (*ratchet.Ratchet).CompleteKeyExchange := zzCompleteR2
//@ use (*zkclient.ZKC).saveIdentity := zzSaveID2
//@ use (*zkclient.ZKC).updateRatchet := zzSaveR2
//@ use (*zkclient.ZKC).cache := zzCacheKX
//@ use (*zkclient.ZKC).addressBookAdd := zzAddAB2
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzFindAB
func zzvKX2(z *ZKC, msg rpc.Message, p rpc.Push, directory bool) {
	zzResetKX(z, p)
	var err error
	if directory {
		err = z.step2IDKX2(msg, p)
	} else {
		err = z.step2IDKX(msg, p)
	}
	zzv.Assert("an exchange that is not complete is reported", err != nil || zzAdded)
	zzv.Assert("the ratchet is stored only with its identity", !zzSaved || zzIDSaved)
	if err == nil {
		zzv.Assert("the answer left", zzAnswered)
		zzv.Reach("complete")
	}
}

// The third step: the answer to an exchange this client started completes the
// half ratchet kept for the sender.
func zzLoadR3(z *ZKC, id [32]byte, half bool) (*ratchet.Ratchet, error) {
	zzv.Assert("the ratchet is used under its lock", zzv.LockState(&z.ratchetMtx) == 1)
	zzv.Assert("the half ratchet of the sender is used", zzv.EqB(id[:], zzPeer[:]) && half && zzGotKX)
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzR = new(ratchet.Ratchet)
	to := new([32]byte)
	*to = id
	zzR.TheirIdentityPublic = to
	return zzR, nil
}
func zzCompleteR3(r *ratchet.Ratchet, kx *ratchet.KeyExchange, alice bool) error {
	zzv.Assert("the exchange that was received completes the half ratchet of its sender", zzGotKX && r == zzR && alice && zzv.Same(*kx, zzKX.KX))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzComplete = true
	return nil
}
func zzSaveR3(z *ZKC, r *ratchet.Ratchet, half bool) error {
	zzv.Assert("the ratchet is stored under its lock", zzv.LockState(&z.ratchetMtx) == 1)
	zzv.Assert("the ratchet that was completed is stored as the sender's", zzComplete && r == zzR && !half && !zzHalfGone)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzSaved = true
	return nil
}
func zzRemR3(z *ZKC, id [32]byte, half bool) error {
	zzv.Assert("the half ratchet of the sender is removed once the full one was stored", zzSaved && half && zzv.EqB(id[:], zzPeer[:]))
	zzv.Assert("the ratchet is used under its lock", zzv.LockState(&z.ratchetMtx) == 1)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzHalfGone = true
	return nil
}
func zzLoadID3(z *ZKC, id [32]byte) (*zkidentity.PublicIdentity, error) {
	zzv.Assert("the identity of the sender is used", zzv.EqB(id[:], zzPeer[:]))
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	p := new(zkidentity.PublicIdentity)
	zzv.Havoc(p)
	zzIDKX.Identity = *p
	return p, nil
}
func zzAddAB3(z *ZKC, id zkidentity.PublicIdentity) error {
	zzv.Assert("the sender's own identity is listed, once its ratchet was stored", zzSaved && zzHalfGone && zzv.Same(id, zzIDKX.Identity) && zzv.EqB(id.Identity[:], zzPeer[:]))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzAdded = true
	return nil
}

//@ verify C26 C22 C23 nopanic locks cutknown
//@ use (*zkclient.ZKC).FloodfT := zzFlood
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use (*debug.Debug).Error := zzDbgLog
//@ use (*zkclient.ZKC).printKX := zzPrintKX
//@ use inidb.New := zzKeysDB
//@ use (*inidb.INIDB).Records := zzRecs
//@ use blobshare.Decrypt := zzOpenBlob
//@ use github.com/davecgh/go-xdr/xdr2.UnmarshalLimited := zzDecodeKX
//@ use (*zkclient.ZKC).loadRatchet := zzLoadR3
//@ use (*ratchet.Ratchet).CompleteKeyExchange := zzCompleteR3
//@ use (*zkclient.ZKC).updateRatchet := zzSaveR3
//@ use (*zkclient.ZKC).removeRatchet := zzRemR3
//@ use (*zkclient.ZKC).loadIdentity := zzLoadID3
//@ use (*zkclient.ZKC).addressBookAdd := zzAddAB3
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzFindAB
func zzvKX3(z *ZKC, msg rpc.Message, p rpc.Push) {
	zzResetKX(z, p)
	err := z.step3IDKX(msg, p)
	zzv.Assert("an exchange that is not complete is reported", err != nil || zzAdded)
	if err == nil {
		zzv.Reach("complete")
	}
}

// The files of a peer are those below the directory of its identity.
var (
	zzIdent zkidentity.PublicIdentity // what the identity file holds
	zzWrote bool
	zzMade  bool
)

func zzDirOf(z *ZKC, id [32]byte) string {
	return path.Join(z.settings.Root, inboundDir, hex.EncodeToString(id[:]))
}
func zzStatP(n string) (os.FileInfo, error) {
	d := zzDirOf(zzC, zzPeer)
	zzv.Assert("the files of that identity are looked at", zzv.Or(zzv.EqB(n, path.Join(d, identityFilename)), zzv.EqB(n, path.Join(d, ratchetFilename)), zzv.EqB(n, path.Join(d, halfRatchetFilename))))
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	return nil, nil
}
func zzMkdirP(n string, m os.FileMode) error {
	zzv.Assert("the directory of that identity is made", zzv.EqB(n, zzDirOf(zzC, zzPeer)))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzMade = true
	return nil
}
func zzWriteP(n string, b []byte, m os.FileMode) error {
	zzv.Assert("an identity is stored under its own name", zzMade && zzv.EqB(n, path.Join(zzDirOf(zzC, zzPeer), identityFilename)))
	zzv.Assert("the identity that verified is stored", zzv.EqB(b, zzv.Enc("xdr", zzIdent)))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzWrote = true
	return nil
}

//@ verify C26 C23 nopanic
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use os.Stat := zzStatP
//@ use os.MkdirAll := zzMkdirP
//@ use io/ioutil.WriteFile := zzWriteP
func zzvSaveIdentity(z *ZKC, id zkidentity.PublicIdentity) {
	zzSetupZ(z)
	zzPeer, zzIdent, zzWrote, zzMade = id.Identity, id, false, false
	err := z.saveIdentity(id)
	zzv.Assert("success means the identity was stored", (err == nil) == zzWrote)
	if err == nil {
		zzv.Reach("stored")
	}
}

// Reading: the identity file of a peer holds the identity it was stored with.
func zzReadP(n string) ([]byte, error) {
	d := zzDirOf(zzC, zzPeer)
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	if zzv.EqB(n, path.Join(d, identityFilename)) {
		return zzv.Enc("xdr", zzIdent), nil
	}
	f := ratchetFilename
	if zzHalf {
		f = halfRatchetFilename
	}
	zzv.Assert("only that ratchet of that identity is read", zzv.EqB(n, path.Join(d, f)))
	return zzv.Enc("xdr", zzRState), nil
}

var (
	zzRState disk.RatchetState // what is stored
	zzRBack  bool
)

func zzUnmR(r *ratchet.Ratchet, s *disk.RatchetState) error {
	zzv.Assert("the stored ratchet is restored", r == zzR && zzv.Same(*s, zzRState))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzv.Havoc(r)
	zzRBack = true
	return nil
}

//@ verify C26 C20 C23 nopanic
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use io/ioutil.ReadFile := zzReadP
//@ use os.Remove := zzRemoveP
//@ use ratchet.New := zzNewR
//@ use (*ratchet.Ratchet).Unmarshal := zzUnmR
func zzvIdentityFiles(z *ZKC, id [32]byte, pid zkidentity.PublicIdentity, half bool) {
	zzSetupZ(z)
	zzv.Assume(zzv.EqB(pid.Identity[:], id[:]))
	zzPeer, zzIdent, zzHalf, zzGone = id, pid, half, false
	i, err := z.loadIdentity(id)
	if err == nil {
		zzv.Assert("the identity stored under that name is read", zzv.Same(*i, pid))
		zzv.Reach("identity")
	}
	zzv.Havoc(&zzRState)
	zzRBack = false
	r, err := z.loadRatchet(id, half)
	if err == nil {
		zzv.Assert("the ratchet that is used is the one that was stored", zzRBack && r == zzR)
		zzv.Assert("the ratchet is between the client and that identity",
			r.MyPrivateKey == &z.id.PrivateKey && r.MySigningPublic == &z.id.Public.SigKey &&
				zzv.EqB(r.TheirIdentityPublic[:], id[:]) && zzv.Same(*r.TheirSigningPublic, pid.SigKey) && zzv.Same(*r.TheirPublicKey, pid.Key))
		zzv.Reach("ratchet")
	}
	err = z.removeRatchet(id, half)
	zzv.Assert("success means the ratchet was removed", (err == nil) == zzGone)
}

var (
	zzHalf bool
	zzGone bool
)

func zzRemoveP(n string) error {
	f := ratchetFilename
	if zzHalf {
		f = halfRatchetFilename
	}
	zzv.Assert("only that ratchet of that identity is removed", zzv.EqB(n, path.Join(zzDirOf(zzC, zzPeer), f)))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzGone = true
	return nil
}

// A reset removes the ratchets of the peer that asked for it, and starts a key
// exchange with it.
var zzRemoved int

func zzRemoveReset(n string) error {
	d := zzDirOf(zzC, zzPeer)
	zzv.Assert("only the ratchets of that identity are removed", zzv.Or(zzv.EqB(n, path.Join(d, ratchetFilename)), zzv.EqB(n, path.Join(d, halfRatchetFilename))))
	zzRemoved++
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzStep1(z *ZKC, id zkidentity.PublicIdentity) error {
	zzv.Assert("the exchange is started with the identity kept for that peer", zzv.Same(id, zzIdent) && zzRemoved == 2)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}
func zzLoadIDr(z *ZKC, id [32]byte) (*zkidentity.PublicIdentity, error) {
	zzv.Assert("the identity of that peer is used", zzv.EqB(id[:], zzPeer[:]))
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	p := new(zkidentity.PublicIdentity)
	*p = zzIdent
	return p, nil
}

//@ verify C26 C22 C23 nopanic locks
//@ use (*zkclient.ZKC).FloodfT := zzFlood
//@ use os.Remove := zzRemoveReset
//@ use (*zkclient.ZKC).loadIdentity := zzLoadIDr
//@ use (*zkclient.ZKC).step1IDKX := zzStep1
func zzvReset(z *ZKC, from [32]byte, pid zkidentity.PublicIdentity) {
	zzSetupZ(z)
	zzPeer, zzIdent, zzRemoved = from, pid, 0
	err := z.handleResetRatchet(from)
	if err == nil {
		zzv.Reach("reset")
	}
}

// The first step: what is sent is this client's own identity, encrypted to the
// peer; what is kept is the peer's identity, the key and the half ratchet.
var (
	zzEncap    *[32]byte
	zzCipher   *[sntrup4591761.CiphertextSize]byte
	zzKeySaved bool
)

func zzEncap1(r io.Reader, pk *[sntrup4591761.PublicKeySize]byte) (*[sntrup4591761.CiphertextSize]byte, *[32]byte, error) {
	zzv.Assert("the key is encapsulated for that peer", zzv.Same(*pk, zzIdent.Key))
	if zzv.Choose() {
		return nil, nil, zzv.NewErr()
	}
	zzCipher, zzEncap = new([sntrup4591761.CiphertextSize]byte), new([32]byte)
	zzv.Havoc(zzCipher)
	zzv.Havoc(zzEncap)
	return zzCipher, zzEncap, nil
}
func zzSealBlob1(msg []byte, key *[32]byte) ([]byte, *[24]byte, error) {
	zzv.Assert("the identity and the half ratchet are encrypted for that peer", key == zzEncap && zzv.EqB(msg, zzv.Enc("xdr", rpc.IdentityKX{Identity: zzC.id.Public, KX: *zzMyKX})))
	if zzv.Choose() {
		return nil, nil, zzv.NewErr()
	}
	zzKeyBox = zzv.FreshBytes("box", -1)
	n := new([24]byte)
	zzv.Havoc(n)
	return zzKeyBox, n, nil
}
func zzCache1(z *ZKC, to [32]byte, blob []byte) error {
	zzv.Assert("the exchange is sent once, to that peer", !zzAnswered && zzv.EqB(to[:], zzPeer[:]))
	zzv.Assert("the exchange is what was encrypted for that peer", zzv.EqB(blob, append(zzCipher[:], zzKeyBox...)))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzAnswered = true
	return nil
}
func zzSaveID1(z *ZKC, id zkidentity.PublicIdentity) error {
	zzv.Assert("the identity of that peer is kept", zzv.Same(id, zzIdent))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzIDSaved = true
	return nil
}
func zzSaveKey1(z *ZKC, k *[32]byte) error {
	zzv.Assert("the key of the exchange is kept", k == zzEncap)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzKeySaved = true
	return nil
}
func zzSaveR1(z *ZKC, r *ratchet.Ratchet, half bool) error {
	zzv.Assert("the ratchet is stored under its lock", zzv.LockState(&z.ratchetMtx) == 1)
	zzv.Assert("the half ratchet of that peer is kept", r == zzR && half && zzIDSaved && zzv.EqB(r.TheirIdentityPublic[:], zzPeer[:]) && r.MyPrivateKey == &z.id.PrivateKey && zzv.Same(*r.TheirPublicKey, zzIdent.Key))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzSaved = true
	return nil
}

//@ verify C26 C22 C23 nopanic locks
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use github.com/companyzero/sntrup4591761.Encapsulate := zzEncap1
//@ use ratchet.New := zzNewR
//@ use (*ratchet.Ratchet).FillKeyExchange := zzFillR
//@ use blobshare.Encrypt := zzSealBlob1
//@ use blobshare.PackNonce := zzPackN
//@ use (*zkclient.ZKC).cache := zzCache1
//@ use (*zkclient.ZKC).saveIdentity := zzSaveID1
//@ use (*zkclient.ZKC).saveKey := zzSaveKey1
//@ use (*zkclient.ZKC).updateRatchet := zzSaveR1
func zzvKX1(z *ZKC, id zkidentity.PublicIdentity) {
	zzSetupZ(z)
	zzPeer, zzIdent = id.Identity, id
	zzR, zzMyKX, zzKeySaved = nil, nil, false
	zzGotKX, zzVerified, zzComplete, zzIDSaved, zzSaved, zzAdded, zzAnswered = false, false, false, false, false, false, false
	err := z.step1IDKX(id)
	zzv.Assert("success means the exchange can be completed", (err == nil) == zzv.And(zzAnswered, zzIDSaved, zzKeySaved, zzSaved))
	if err == nil {
		zzv.Reach("started")
	}
}

var _ = blobshare.Encrypt

// What of a peer is there: its identity, its ratchet, its half ratchet.
var (
	zzXDir                 string
	zzXIdent, zzXRat, zzXHalf bool
)

func zzXStat(name string) (os.FileInfo, error) {
	has := false
	switch {
	case zzv.EqB(name, path.Join(zzXDir, identityFilename)):
		has = zzXIdent
	case zzv.EqB(name, path.Join(zzXDir, ratchetFilename)):
		has = zzXRat
	case zzv.EqB(name, path.Join(zzXDir, halfRatchetFilename)):
		has = zzXHalf
	default:
		zzv.Assert("only the files of that peer are looked at", false)
	}
	if has {
		return nil, nil
	}
	return nil, zzv.NewErr()
}

//@ verify C26 C22 C23 nopanic locks
//@ use (*debug.Debug).Dbg := zzDbgLog
//@ use os.Stat := zzXStat
//@ use os.Lstat := zzXStat
func zzvExists(z *ZKC, id [32]byte, i, r, h bool) {
	zzSetupZ(z)
	zzXDir, zzXIdent, zzXRat, zzXHalf = zzDirOf(z, id), i, r, h
	got := z.identityExists(id)
	zzv.Assert("a peer is known whose identity is stored with a ratchet or half of one", got == (i && (r || h)))
	zzv.Assert("a ratchet is there when it is stored", z.ratchetExists(id) == r)
	if got {
		zzv.Reach("known")
	} else {
		zzv.Reach("unknown")
	}
}
