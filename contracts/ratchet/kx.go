package ratchet

import (
	"github.com/companyzero/zkc/zzm"
	"github.com/companyzero/zkc/zzv"
)

// A point is accepted only when it is a 32 byte number from 3 up to but not
// including 2^255-19, in little endian.
//@ verify C07 nopanic
func zzvPoint(p []byte) {
	err := validateECDHpoint(p)
	if err != nil {
		zzv.Reach("error")
		zzv.Assert("an ordinary point is accepted", len(p) != 32 || p[31] >= 127 || p[0] <= 2)
		return
	}
	zzv.Assert("the size of a point is checked", len(p) == 32)
	zzv.Assert("the high bit of a point is clear", p[31] < 128)
	rest := false
	for i := 1; i < 32; i++ {
		rest = zzv.Or(rest, p[i] != 0)
	}
	zzv.Assert("tiny points are rejected", zzv.Or(rest, p[0] >= 3))
	max := p[31] == 127
	for i := 1; i < 31; i++ {
		max = zzv.And(max, p[i] == 255)
	}
	zzv.Assert("points at or past the field order are rejected", zzv.Or(!max, p[0] < 0xed))
	zzv.Reach("ok")
}

func zzKeyPair(r *Ratchet, o *Ratchet) {
	copy(o.TheirPublicKey[:], zzm.KemPub(r.MyPrivateKey[:]))
}

// Both ends finish a key exchange with the mirrored state, and the first
// messages in both directions decrypt.
//@ verify C07 C23 nopanic
//@ use io.ReadFull := zzm.RandFull
//@ use github.com/companyzero/sntrup4591761.Encapsulate := zzm.KemEncapsulateOK
func zzvKX(a, b *Ratchet, msg, reply []byte) {
	zzv.NonNil(a.MyPrivateKey, b.MyPrivateKey, a.TheirPublicKey, b.TheirPublicKey)
	na, nb := New(a.rand), New(b.rand)
	na.MyPrivateKey, nb.MyPrivateKey, na.TheirPublicKey, nb.TheirPublicKey = a.MyPrivateKey, b.MyPrivateKey, a.TheirPublicKey, b.TheirPublicKey
	zzKeyPair(na, nb)
	zzKeyPair(nb, na)
	ka, kb := new(KeyExchange), new(KeyExchange)
	zzv.Assert("first half succeeds (a)", na.FillKeyExchange(ka) == nil)
	zzv.Assert("first half succeeds (b)", nb.FillKeyExchange(kb) == nil)
	// the public values of an honest peer are in range
	privB := *nb.kxPrivate
	privA := *na.kxPrivate
	zzv.Assume(validateECDHpoint(zzv.UFBytes("scalarbase", 32, privA[:])) == nil)
	zzv.Assume(validateECDHpoint(zzv.UFBytes("scalarbase", 32, privB[:])) == nil)
	ea := na.CompleteKeyExchange(kb, true)
	eb := nb.CompleteKeyExchange(ka, false)
	zzv.Assert("the exchange completes on both ends", ea == nil && eb == nil)
	zzv.Assert("root keys agree", na.rootKey == nb.rootKey)
	zzv.Assert("header keys agree", na.recvHeaderKey == nb.sendHeaderKey && na.nextSendHeaderKey == nb.nextRecvHeaderKey && na.nextRecvHeaderKey == nb.nextSendHeaderKey)
	zzv.Assert("chain keys agree", na.recvChainKey == nb.sendChainKey)
	zzv.Assert("the initial ratchet key agrees", zzv.EqB(na.recvRatchetPublic[:], zzv.UFBytes("scalarbase", 32, nb.sendRatchetPrivate[:])))
	zzv.Assert("exactly one end starts a new step", na.ratchet && !nb.ratchet)
	zzv.Assert("the exchange keys are erased", na.kxPrivate == nil && nb.kxPrivate == nil)
	zzv.Assert("the three directions of header keys are distinct", na.recvHeaderKey != na.nextRecvHeaderKey && na.recvHeaderKey != na.nextSendHeaderKey && na.nextRecvHeaderKey != na.nextSendHeaderKey)
	zzv.Assert("nothing is sent or received yet", na.sendCount == 0 && na.recvCount == 0 && na.prevSendCount == 0 && nb.sendCount == 0 && nb.recvCount == 0 && nb.prevSendCount == 0 && len(na.saved) == 0 && len(nb.saved) == 0)
	if zzv.Choose() {
		ct, err := na.Encrypt(nil, msg)
		zzv.Assert("first message encrypts (a)", err == nil)
		got, err := nb.Decrypt(ct)
		zzv.Assert("first message decrypts (a to b)", err == nil && zzv.EqB(got, msg))
		zzv.Reach("a first")
	} else {
		zzv.Assume(!isZeroKey(&na.recvHeaderKey)) // a hash value
		ct, err := nb.Encrypt(nil, reply)
		zzv.Assert("first message encrypts (b)", err == nil)
		got, err := na.Decrypt(ct)
		zzv.Assert("first message decrypts (b to a)", err == nil && zzv.EqB(got, reply))
		zzv.Reach("b first")
	}
}

// Whatever the peer sends: an exchange that completes used a point in range,
// under the keys agreed; one that does not leaves the ratchet unestablished.
//@ verify C07 C23 nopanic
func zzvKXHostile(r *Ratchet, kx *KeyExchange, alice bool) {
	zzv.NonNil(r.MyPrivateKey, r.MyHalf, r.kxPrivate)
	o := *r
	priv := *r.kxPrivate
	err := r.CompleteKeyExchange(kx, alice)
	if err != nil {
		zzv.Assert("a failed exchange establishes nothing", zzv.And(r.rootKey == o.rootKey, r.sendHeaderKey == o.sendHeaderKey, r.recvHeaderKey == o.recvHeaderKey, r.nextSendHeaderKey == o.nextSendHeaderKey, r.nextRecvHeaderKey == o.nextRecvHeaderKey, r.sendChainKey == o.sendChainKey, r.recvChainKey == o.recvChainKey, r.recvRatchetPublic == o.recvRatchetPublic, r.sendRatchetPrivate == o.sendRatchetPrivate, r.ratchet == o.ratchet) && r.kxPrivate == o.kxPrivate)
		zzv.Reach("error")
		return
	}
	h1, h2 := r.MyHalf[:], r.TheirHalf[:]
	if !alice {
		h1, h2 = h2, h1
		zzv.Assert("the exchange key becomes the first ratchet key", r.sendRatchetPrivate == priv)
		zzv.Reach("bob")
	} else {
		zzv.Assert("the peer's point was validated", validateECDHpoint(r.recvRatchetPublic[:]) == nil)
		zzv.Reach("alice")
	}
	shared := zzv.Ctor("sha256", 32, append(append([]byte{}, h1...), h2...))
	zzv.Assert("both halves go into the root key", zzv.EqB(r.rootKey[:], zzKDF(shared, "root key")))
	zzv.Assert("the exchange key is forgotten", r.kxPrivate == nil)
}
