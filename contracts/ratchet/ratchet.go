package ratchet

import (
	"io"
	"time"

	"github.com/companyzero/zkc/ratchet/disk"
	"github.com/companyzero/zkc/zzv"
)

// ---- contract of saveKeys (frame): nothing the caller owns is modified ----

//@ verify C02 C03
//@ use io.ReadFull := zzm.RandFull
func zzvSaveKeysFrame(r *Ratchet, hk, ck *[32]byte, num, count uint32) {
	old, oh, oc := zzv.Snap(r), zzv.Snap(hk), zzv.Snap(ck)
	_, _, saved, err := r.saveKeys(hk, ck, num, count)
	zzv.Assert("saveKeys modifies nothing", zzv.Same(r, old) && zzv.Same(hk, oh) && zzv.Same(ck, oc))
	if err == nil {
		zzv.Assert("saveKeys accepts only present or future message numbers within the limit", num >= count && num-count <= maxMissingMessages && num != 0xffffffff)
		zzv.Reach("ok")
	} else {
		zzv.Assert("no keys on error", saved == nil)
		zzv.Reach("error")
	}
}

// zzcSaveKeysFrame is that contract as seen by callers.
func zzcSaveKeysFrame(r *Ratchet, hk, ck *[32]byte, num, count uint32) (chain, key [32]byte, saved map[[32]byte]map[uint32]savedKey, err error) {
	zzv.Havoc(&chain)
	zzv.Havoc(&key)
	zzv.Havoc(&saved)
	zzv.Havoc(&err)
	if err == nil {
		zzv.Assume(num >= count && num-count <= maxMissingMessages && num != 0xffffffff)
	}
	return
}

// mergeSavedKeys, as seen by callers that only care about what else changes:
// it modifies r.saved and nothing else.
func zzcMergeFrame(r *Ratchet, m map[[32]byte]map[uint32]savedKey) {
	zzv.Havoc(&r.saved)
}

//@ verify C02 C23 nopanic
//@ use (*ratchet.Ratchet).saveKeys := zzcSaveKeysFrame
//@ use (*ratchet.Ratchet).mergeSavedKeys := zzcMergeFrame
func zzvDecryptAtomic(r *Ratchet, ct []byte) {
	old := zzv.Snap(r)
	_, err := r.Decrypt(ct)
	if err != nil {
		zzv.Assert("failed decrypt leaves the state unchanged", zzv.Same(r, old))
		zzv.Reach("error")
	} else {
		zzv.Reach("ok")
	}
}

// ---- specification functions ----

func zzMK(ck []byte) []byte   { return zzv.Ctor("hmac-sha256", 32, ck, []byte("message key")) }
func zzStep(ck []byte) []byte { return zzv.Ctor("hmac-sha256", 32, ck, []byte("chain key step")) }
func zzKM(root, shared []byte) []byte {
	return zzv.Ctor("sha256", 32, append(append([]byte("root key update"), root...), shared...))
}
func zzKDF(k []byte, label string) []byte {
	return zzv.Ctor("hmac-sha256", 32, k, []byte(label))
}

// saveKeys: exact result for every gap up to the limit.
//@ verify C01 C03 C04 C05 nopanic unroll=82
func zzvSaveKeysExact(r *Ratchet, hk, ck *[32]byte, num, count uint32) {
	zzv.Assume(num >= count && num-count <= maxMissingMessages && num != 0xffffffff)
	chain, key, saved, err := r.saveKeys(hk, ck, num, count)
	zzv.Assert("a gap within the limit is accepted", err == nil)
	c := append([]byte(nil), ck[:]...)
	mks := saved[*hk]
	n := 0
	for x := count; x < num; x++ {
		sk, ok := mks[x]
		zzv.Assert("every skipped message key is saved under its number", ok && zzv.EqB(sk.key[:], zzMK(c)))
		c = zzStep(c)
		n++
	}
	zzv.Assert("nothing but the skipped keys is saved", len(mks) == n && (n > 0) == (len(saved) == 1) && len(saved) <= 1)
	zzv.Assert("the message key is the one of this message number", zzv.EqB(key[:], zzMK(c)))
	zzv.Assert("the chain key is advanced past this message number", zzv.EqB(chain[:], zzStep(c)))
	zzv.Reach("end")
}

// A gap above the limit, a number from the past: rejected.
//@ verify C04 nopanic
func zzvSaveKeysLimit(r *Ratchet, hk, ck *[32]byte, num, count uint32) {
	zzv.Assume(num < count || num-count > maxMissingMessages)
	_, _, saved, err := r.saveKeys(hk, ck, num, count)
	zzv.Assert("out of range message numbers are rejected", err != nil && saved == nil)
	zzv.Reach("end")
}

// Inv: no key is saved for a message number at or past the receive count of
// the current header key, instantiated at number n; the next header key has
// no saved keys.
func zzInvAt(b *Ratchet, n uint32) {
	if mk, ok := b.saved[b.recvHeaderKey]; ok {
		if n >= b.recvCount {
			_, has := mk[n]
			zzv.Assume(!has)
		}
	}
}
func zzFreshNext(b *Ratchet) {
	_, ok := b.saved[b.nextRecvHeaderKey]
	zzv.Assume(!ok && b.nextRecvHeaderKey != b.recvHeaderKey)
}

// In-order delivery, no new ratchet step.
//@ verify C01 nopanic
//@ use io.ReadFull := zzm.RandFull
func zzvInOrder(a, b *Ratchet, msg []byte) {
	zzv.Assume(a.saved != nil && b.saved != nil)
	zzv.Assume(!a.ratchet && a.sendHeaderKey == b.recvHeaderKey && a.sendChainKey == b.recvChainKey && a.sendCount == b.recvCount && a.sendCount < 0xffffffff)
	zzv.Assume(!isZeroKey(&b.recvHeaderKey))
	zzInvAt(b, b.recvCount)
	oa, ob := *a, *b
	c, err := a.Encrypt(nil, msg)
	zzv.Assert("encrypt succeeds", err == nil)
	got, err := b.Decrypt(c)
	zzv.Assert("in order: decrypts to the very message", err == nil && zzv.EqB(got, msg))
	zzv.Assert("in order: still in step", !a.ratchet && a.sendHeaderKey == b.recvHeaderKey && a.sendChainKey == b.recvChainKey && a.sendCount == b.recvCount && a.sendCount == oa.sendCount+1)
	zzv.Assert("in order: sender's receiving half is untouched", a.recvHeaderKey == oa.recvHeaderKey && a.nextRecvHeaderKey == oa.nextRecvHeaderKey && a.recvChainKey == oa.recvChainKey && a.recvCount == oa.recvCount && a.recvRatchetPublic == oa.recvRatchetPublic && a.rootKey == oa.rootKey && a.sendRatchetPrivate == oa.sendRatchetPrivate)
	zzv.Assert("in order: receiver's sending half is untouched", b.sendHeaderKey == ob.sendHeaderKey && b.nextSendHeaderKey == ob.nextSendHeaderKey && b.sendChainKey == ob.sendChainKey && b.sendCount == ob.sendCount && b.prevSendCount == ob.prevSendCount && b.ratchet == ob.ratchet && b.rootKey == ob.rootKey && b.sendRatchetPrivate == ob.sendRatchetPrivate && b.nextRecvHeaderKey == ob.nextRecvHeaderKey)
	zzv.Reach("end")
}

// First message of a new ratchet step.
//@ verify C01 nopanic
//@ use io.ReadFull := zzm.RandFull
func zzvNewStep(a, b *Ratchet, msg []byte) {
	zzv.Assume(a.saved != nil && b.saved != nil)
	zzv.Assume(a.ratchet && !b.ratchet && a.rootKey == b.rootKey && a.nextSendHeaderKey == b.nextRecvHeaderKey && a.sendCount == b.recvCount && a.sendCount < 0xffffffff)
	var pub [32]byte
	zzPub(&a.recvRatchetPublic, &b.sendRatchetPrivate)
	zzFreshNext(b)
	zzInvAt(b, b.recvCount)
	oa, ob := *a, *b
	c, err := a.Encrypt(nil, msg)
	zzv.Assert("encrypt succeeds", err == nil)
	got, err := b.Decrypt(c)
	zzv.Assert("new step: decrypts to the very message", err == nil && zzv.EqB(got, msg))
	zzv.Assert("new step: in step", !a.ratchet && a.sendHeaderKey == b.recvHeaderKey && a.sendChainKey == b.recvChainKey && a.sendCount == b.recvCount && a.sendCount == 1 && a.prevSendCount == oa.sendCount)
	zzPub(&pub, &a.sendRatchetPrivate)
	zzv.Assert("new step: the reply direction is ready to step", b.ratchet && a.rootKey == b.rootKey && b.recvRatchetPublic == pub && a.nextSendHeaderKey == b.nextRecvHeaderKey)
	zzv.Assert("new step: old ratchet private key is erased", b.sendRatchetPrivate == [32]byte{})
	zzv.Assert("new step: sender's receiving half is untouched", a.recvHeaderKey == oa.recvHeaderKey && a.nextRecvHeaderKey == oa.nextRecvHeaderKey && a.recvChainKey == oa.recvChainKey && a.recvCount == oa.recvCount && a.recvRatchetPublic == oa.recvRatchetPublic)
	zzv.Assert("new step: receiver's sending half is untouched", b.sendHeaderKey == ob.sendHeaderKey && b.nextSendHeaderKey == ob.nextSendHeaderKey && b.sendChainKey == ob.sendChainKey && b.sendCount == ob.sendCount && b.prevSendCount == ob.prevSendCount)
	zzv.Reach("end")
}

func zzPub(dst, priv *[32]byte) {
	p := zzv.UFBytes("scalarbase", 32, priv[:])
	zzv.Assume(!zzv.UFBool("loworder", p))
	copy(dst[:], p)
}

// ---- contract of saveKeys as seen by callers ----

// zzN is an arbitrary message number: the contracts below speak about it.
var zzN uint32

// zzChain(ck, k) is the chain key k steps after ck; zzvSaveKeysExact unfolds
// it step by step.
func zzChain(ck []byte, k uint32) []byte { return zzv.UFBytes("chain", 32, ck, k) }

//   requires true; ensures, for the arbitrary number zzN, exactly what
//   zzvSaveKeysExact, zzvSaveKeysLimit and zzvSaveKeysFrame establish.
func zzcSaveKeys(r *Ratchet, hk, ck *[32]byte, num, count uint32) (chain, key [32]byte, saved map[[32]byte]map[uint32]savedKey, err error) {
	if num < count || num-count > maxMissingMessages || num == 0xffffffff {
		return chain, key, nil, zzv.NewErr()
	}
	c := zzChain(ck[:], num-count)
	if num == count {
		c = append([]byte(nil), ck[:]...)
	}
	copy(key[:], zzMK(c))
	copy(chain[:], zzStep(c))
	if num == count {
		return
	}
	var mk map[uint32]savedKey
	zzv.Havoc(&mk)
	zzv.Assume(mk != nil && len(mk) == int(num-count))
	sk, has := mk[zzN]
	zzv.Assume(has == (count <= zzN && zzN < num))
	if has {
		var k [32]byte
		if zzN == count {
			copy(k[:], zzMK(ck[:]))
		} else {
			copy(k[:], zzMK(zzChain(ck[:], zzN-count)))
		}
		zzv.Assume(sk.key == k)
	}
	saved = make(map[[32]byte]map[uint32]savedKey)
	saved[*hk] = mk
	return
}

// A message sent g messages ahead of the receive count (none of the g before
// it delivered): delivered, and the key of every skipped message is kept.
//@ verify C04 C01 nopanic
//@ use io.ReadFull := zzm.RandFull
//@ use (*ratchet.Ratchet).saveKeys := zzcSaveKeys
func zzvGapSameStep(a, b *Ratchet, msg []byte, g uint32) {
	zzv.Havoc(&zzN)
	zzv.Assume(a.saved != nil && b.saved != nil)
	zzv.Assume(g > 0 && g <= maxMissingMessages && b.recvCount < 0xffffffff-200)
	zzv.Assume(!a.ratchet && a.sendHeaderKey == b.recvHeaderKey && a.sendCount == b.recvCount+g)
	zzv.Assume(!isZeroKey(&b.recvHeaderKey))
	copy(a.sendChainKey[:], zzChain(b.recvChainKey[:], g))
	zzInvAt(b, a.sendCount)
	zzInvAt(b, zzN)
	ob := *b
	k0, had := b.saved[b.recvHeaderKey][zzN]
	ct, err := a.Encrypt(nil, msg)
	got, err := b.Decrypt(ct)
	zzv.Assert("gap: decrypts to the very message", err == nil && zzv.EqB(got, msg))
	zzv.Assert("gap: in step afterwards", a.sendChainKey == b.recvChainKey && a.sendCount == b.recvCount && b.recvHeaderKey == ob.recvHeaderKey)
	zzv.Assert("gap: the rest of the state is untouched", b.rootKey == ob.rootKey && b.nextRecvHeaderKey == ob.nextRecvHeaderKey && b.sendHeaderKey == ob.sendHeaderKey && b.nextSendHeaderKey == ob.nextSendHeaderKey && b.sendChainKey == ob.sendChainKey && b.sendCount == ob.sendCount && b.ratchet == ob.ratchet && b.sendRatchetPrivate == ob.sendRatchetPrivate && b.recvRatchetPublic == ob.recvRatchetPublic)
	sk, ok := b.saved[b.recvHeaderKey][zzN]
	skipped := ob.recvCount <= zzN && zzN < ob.recvCount+g
	zzv.Assert("gap: a key is held for exactly the skipped and the formerly missing messages", ok == (skipped || had))
	if skipped {
		var k [32]byte
		if zzN == ob.recvCount {
			copy(k[:], zzMK(ob.recvChainKey[:]))
		} else {
			copy(k[:], zzMK(zzChain(ob.recvChainKey[:], zzN-ob.recvCount)))
		}
		zzv.Assert("gap: the key of every skipped message is kept", sk.key == k)
		zzv.Reach("skipped")
	} else if had {
		zzv.Assert("gap: keys of other missing messages are kept", sk == k0)
		zzv.Reach("other")
	}
	zzv.Reach("end")
}

// First message received of a new ratchet step, with g1 messages of the
// previous step and g2 of the new one still missing.
//@ verify C04 C01 nopanic
//@ use io.ReadFull := zzm.RandFull
//@ use (*ratchet.Ratchet).saveKeys := zzcSaveKeys
func zzvGapNewStep(a, b *Ratchet, msg []byte, hk [32]byte, chain [32]byte, g1, g2 uint32) {
	zzv.Havoc(&zzN)
	zzv.Assume(a.saved != nil && b.saved != nil)
	zzv.Assume(g1 <= maxMissingMessages && g2 <= maxMissingMessages && b.recvCount < 0xffffffff-200)
	// the sender is past its first message of the step
	zzv.Assume(!a.ratchet && !b.ratchet && a.sendHeaderKey == b.nextRecvHeaderKey && a.prevSendCount == b.recvCount+g1 && a.sendCount == g2)
	zzPub(&a.recvRatchetPublic, &b.sendRatchetPrivate)
	shared := zzv.DH(a.sendRatchetPrivate[:], a.recvRatchetPublic[:])
	km := zzKM(b.rootKey[:], shared)
	copy(a.rootKey[:], zzKDF(km, "root key"))
	copy(a.nextSendHeaderKey[:], zzKDF(km, "next send header key"))
	c0 := zzKDF(km, "chain key")
	if g2 == 0 {
		copy(a.sendChainKey[:], c0)
	} else {
		copy(a.sendChainKey[:], zzChain(c0, g2))
	}
	zzFreshNext(b)
	zzInvAt(b, zzN)
	zzInvAt(b, a.prevSendCount)
	oa, ob := *a, *b
	k0, had := b.saved[b.recvHeaderKey][zzN]
	var pub [32]byte
	zzPub(&pub, &a.sendRatchetPrivate)
	ct, err := a.Encrypt(nil, msg)
	got, err := b.Decrypt(ct)
	zzv.Assert("new step with gaps: decrypts to the very message", err == nil && zzv.EqB(got, msg))
	zzv.Assert("new step with gaps: in step afterwards", a.sendChainKey == b.recvChainKey && a.sendCount == b.recvCount && b.recvHeaderKey == a.sendHeaderKey)
	zzv.Assert("new step with gaps: the reply direction is ready to step", b.ratchet && a.rootKey == oa.rootKey && a.rootKey == b.rootKey && b.recvRatchetPublic == pub && a.nextSendHeaderKey == b.nextRecvHeaderKey)
	zzv.Assert("new step with gaps: receiver's sending half is untouched", b.sendHeaderKey == ob.sendHeaderKey && b.nextSendHeaderKey == ob.nextSendHeaderKey && b.sendChainKey == ob.sendChainKey && b.sendCount == ob.sendCount && b.prevSendCount == ob.prevSendCount)
	sk, ok := b.saved[ob.recvHeaderKey][zzN]
	skipped := ob.recvCount <= zzN && zzN < ob.recvCount+g1
	zzv.Assert("new step with gaps: old step keys are held for exactly the missing messages", ok == (skipped || had))
	if skipped {
		var k [32]byte
		if zzN == ob.recvCount {
			copy(k[:], zzMK(ob.recvChainKey[:]))
		} else {
			copy(k[:], zzMK(zzChain(ob.recvChainKey[:], zzN-ob.recvCount)))
		}
		zzv.Assert("new step with gaps: the key of every skipped old message is kept", sk.key == k)
		zzv.Reach("skipped old")
	} else if had {
		zzv.Assert("new step with gaps: keys of other missing messages are kept", sk == k0)
		zzv.Reach("other")
	}
	sk, ok = b.saved[b.recvHeaderKey][zzN]
	zzv.Assert("new step with gaps: new step keys are held for exactly the missing messages", ok == (zzN < g2))
	if ok {
		var k [32]byte
		if zzN == 0 {
			copy(k[:], zzMK(c0))
		} else {
			copy(k[:], zzMK(zzChain(c0, zzN)))
		}
		zzv.Assert("new step with gaps: the key of every skipped new message is kept", sk.key == k)
		zzv.Reach("skipped new")
	}
	zzv.Reach("end")
}

// A message whose key was saved is delivered, whatever else happened since,
// and its key is gone.
//@ verify C04 C03 nopanic
//@ use io.ReadFull := zzm.RandFull
func zzvLateDelivery(a, b *Ratchet, msg []byte, hk2 [32]byte, n2 uint32) {
	zzv.Assume(a.saved != nil && b.saved != nil && !a.ratchet)
	mks, ok := b.saved[a.sendHeaderKey]
	zzv.Assume(ok)
	n := a.sendCount
	sk, ok := mks[n]
	zzv.Assume(ok)
	var mk [32]byte
	copy(mk[:], zzMK(a.sendChainKey[:]))
	zzv.Assume(sk.key == mk)
	hk := a.sendHeaderKey
	zzv.Assume(hk2 != hk || n2 != n)
	k2, has2 := b.saved[hk2][n2]
	oldLen := len(b.saved)
	ob := *b
	osaved := zzv.Snap(b.saved)
	_ = osaved
	ct, err := a.Encrypt(nil, msg)
	zzv.Assert("encrypt succeeds", err == nil)
	got, err := b.Decrypt(ct)
	zzv.Assert("late: decrypts to the very message", err == nil && zzv.EqB(got, msg))
	zzv.Assert("late: the result is told apart from no message", got != nil)
	_, still := b.saved[hk][n]
	zzv.Assert("late: the message key is consumed", !still)
	k3, has3 := b.saved[hk2][n2]
	zzv.Assert("late: every other saved key is kept", has3 == has2 && (!has2 || k3 == k2))
	_ = oldLen
	zzv.Assert("late: nothing else changes", b.rootKey == ob.rootKey && b.recvHeaderKey == ob.recvHeaderKey && b.nextRecvHeaderKey == ob.nextRecvHeaderKey && b.recvChainKey == ob.recvChainKey && b.recvCount == ob.recvCount && b.recvRatchetPublic == ob.recvRatchetPublic && b.ratchet == ob.ratchet && b.sendChainKey == ob.sendChainKey && b.sendHeaderKey == ob.sendHeaderKey && b.nextSendHeaderKey == ob.nextSendHeaderKey && b.sendRatchetPrivate == ob.sendRatchetPrivate && b.sendCount == ob.sendCount && b.prevSendCount == ob.prevSendCount)
	zzv.Reach("end")
}

// ---- replay ----

// zzOpenKC: as zzm.BoxOpen, and a box opens under one key only.
func zzOpenKC(out, box []byte, nonce *[24]byte, key *[32]byte) ([]byte, bool) {
	m, ok := zzv.Open(box, nonce[:], key[:])
	if !ok {
		return nil, false
	}
	zzv.Assume(zzv.EqB(key[:], zzv.UFBytes("openkey", 32, box, nonce[:])))
	return append(out, m...), true
}

// zzHdr is the header key and message number a ciphertext carries.
func zzHdr(ct []byte) (hk [32]byte, num uint32) {
	zzv.Assume(len(ct) >= sealedHeaderSize)
	copy(hk[:], zzv.UFBytes("openkey", 32, ct[24:sealedHeaderSize], ct[:24]))
	h, ok := zzv.Open(ct[24:sealedHeaderSize], ct[:24], hk[:])
	zzv.Assume(ok && len(h) == headerSize)
	return hk, uint32(h[0]) | uint32(h[1])<<8 | uint32(h[2])<<16 | uint32(h[3])<<24
}

// zzDead: no key is left for message num of header key hk.
func zzDead(b *Ratchet, hk [32]byte, num uint32) bool {
	_, s := b.saved[hk][num]
	return zzv.And(!s, zzv.Imp(hk == b.recvHeaderKey, num < b.recvCount), hk != b.nextRecvHeaderKey)
}

// An accepted message is dead afterwards.
//@ verify C03 nopanic
//@ use golang.org/x/crypto/nacl/secretbox.Open := zzOpenKC
//@ use (*ratchet.Ratchet).saveKeys := zzcSaveKeys
func zzvReplayAcceptedIsDead(b *Ratchet, ct []byte) {
	zzv.Assume(b.saved != nil)
	hk, num := zzHdr(ct)
	zzN = num
	zzFreshNext(b)
	zzInvAt(b, num)
	_, err := b.Decrypt(ct)
	if err == nil {
		zzv.Assume(hk != b.nextRecvHeaderKey) // a fresh hash value
		zzv.Assert("an accepted message can not be opened again", zzDead(b, hk, num))
		zzv.Reach("accepted")
	}
}

// A dead message is rejected.
//@ verify C03 nopanic
//@ use golang.org/x/crypto/nacl/secretbox.Open := zzOpenKC
//@ use (*ratchet.Ratchet).saveKeys := zzcSaveKeys
func zzvReplayDeadIsRejected(b *Ratchet, ct []byte) {
	zzv.Assume(b.saved != nil)
	hk, num := zzHdr(ct)
	zzN = num
	zzv.Assume(zzDead(b, hk, num))
	old := zzv.Snap(b)
	_, err := b.Decrypt(ct)
	zzv.Assert("a message accepted before is rejected", err != nil && zzv.Same(b, old))
	zzv.Reach("end")
}

// A dead message stays dead, whatever is received.
//@ verify C03 nopanic
//@ use golang.org/x/crypto/nacl/secretbox.Open := zzOpenKC
//@ use (*ratchet.Ratchet).saveKeys := zzcSaveKeys
func zzvReplayDeadStaysDead(b *Ratchet, ct []byte, hk [32]byte, num uint32) {
	zzN = num
	zzv.Assume(b.saved != nil)
	zzFreshNext(b)
	zzv.Assume(zzDead(b, hk, num))
	_, err := b.Decrypt(ct)
	if err == nil {
		zzv.Assume(hk != b.nextRecvHeaderKey) // a fresh hash value
		zzv.Assert("receiving other messages does not revive a message", zzDead(b, hk, num))
		zzv.Reach("accepted")
	}
}

// ... or sent.
//@ verify C03 nopanic
//@ use io.ReadFull := zzm.RandFull
func zzvReplayDeadStaysDeadSend(b *Ratchet, msg []byte, hk [32]byte, num uint32) {
	zzv.Assume(b.saved != nil && zzDead(b, hk, num))
	b.Encrypt(nil, msg)
	zzv.Assert("sending does not revive a message", zzDead(b, hk, num))
	zzv.Reach("end")
}

// The invariant of the saved keys (zzInvAt, zzFreshNext) is kept.
//@ verify C03 C04 nopanic
//@ use golang.org/x/crypto/nacl/secretbox.Open := zzOpenKC
//@ use (*ratchet.Ratchet).saveKeys := zzcSaveKeys
func zzvSavedInv(b *Ratchet, ct []byte, n uint32) {
	zzN = n
	zzv.Assume(b.saved != nil)
	zzFreshNext(b)
	zzInvAt(b, n)
	_, err := b.Decrypt(ct)
	if err == nil {
		_, has := b.saved[b.recvHeaderKey][n]
		zzv.Assert("no key is kept for a message not yet skipped", !has || n < b.recvCount)
		zzv.Reach("accepted")
	}
}

// ---- what is sent, and what remains afterwards ----

// What was drawn from the source of randomness.
var zzDraws [][]byte

func zzDraw(r io.Reader, buf []byte) (int, error) {
	d := zzv.FreshBytes("rand", len(buf))
	copy(buf, d)
	zzDraws = append(zzDraws, d)
	return len(buf), nil
}
func zzDrawn(x []byte) bool {
	ok := false
	for i := 0; i < len(zzDraws); i++ {
		d := zzDraws[i]
		for o := 0; o+len(x) <= len(d); o += 8 {
			ok = zzv.Or(ok, zzv.EqB(d[o:o+len(x)], x))
		}
	}
	return ok
}

//@ verify C05 C07 nopanic
//@ use io.ReadFull := zzDraw
func zzvNewFresh(rnd io.Reader) {
	zzDraws = nil
	r := New(rnd)
	zzv.Assert("the exchange key is fresh randomness", r.kxPrivate != nil && zzDrawn(r.kxPrivate[:]))
	zzv.Assert("a new ratchet holds nothing else", r.saved != nil && len(r.saved) == 0 && r.MyHalf == nil && r.TheirHalf == nil && !r.ratchet && r.sendCount == 0 && r.recvCount == 0 && r.prevSendCount == 0)
	zzv.Reach("end")
}

//@ verify C05 C01 nopanic
//@ use io.ReadFull := zzDraw
func zzvEncryptExact(a *Ratchet, out, msg []byte) {
	zzv.Assume(a.saved != nil && a.sendCount < 0xffffffff)
	o := *a
	zzDraws = nil
	saved := zzv.Snap(a.saved)
	pre := zzv.Snap(out)
	ct, err := a.Encrypt(out, msg)
	if err != nil {
		zzv.Assert("encrypt fails only on an unusable peer key", o.ratchet && zzv.UFBool("loworder", o.recvRatchetPublic[:]))
		zzv.Reach("error")
		return
	}
	chain, root, hdr, next, count, prev := o.sendChainKey[:], o.rootKey[:], o.sendHeaderKey[:], o.nextSendHeaderKey[:], o.sendCount, o.prevSendCount
	if o.ratchet {
		km := zzKM(o.rootKey[:], zzv.DH(a.sendRatchetPrivate[:], o.recvRatchetPublic[:]))
		hdr, root, next, chain, prev, count = o.nextSendHeaderKey[:], zzKDF(km, "root key"), zzKDF(km, "next send header key"), zzKDF(km, "chain key"), o.sendCount, 0
		zzv.Assert("a new sending direction mixes in fresh randomness", zzDrawn(a.sendRatchetPrivate[:]))
		zzv.Reach("step")
	} else {
		zzv.Assert("no new ratchet key within a step", a.sendRatchetPrivate == o.sendRatchetPrivate)
		zzv.Reach("no step")
	}
	zzv.Assert("the chain key is advanced past the key just used", zzv.EqB(a.sendChainKey[:], zzStep(chain)))
	zzv.Assert("root and header keys are those of this step", zzv.And(zzv.EqB(a.rootKey[:], root), zzv.EqB(a.sendHeaderKey[:], hdr), zzv.EqB(a.nextSendHeaderKey[:], next)))
	zzv.Assert("message numbers count up", a.sendCount == count+1 && a.prevSendCount == prev && !a.ratchet)
	zzv.Assert("the receiving half is untouched", zzv.And(a.recvHeaderKey == o.recvHeaderKey, a.nextRecvHeaderKey == o.nextRecvHeaderKey, a.recvChainKey == o.recvChainKey, a.recvCount == o.recvCount, a.recvRatchetPublic == o.recvRatchetPublic, zzv.Same(a.saved, saved)))
	_ = pre
	n := len(out)
	zzv.Assert("ciphertext has the expected size", len(ct) == n+sealedHeaderSize+len(msg)+16)
	hn := ct[n : n+24]
	h, ok := zzv.Open(ct[n+24:n+sealedHeaderSize], hn, hdr)
	zzv.Assert("the header is sealed under the header key", ok && len(h) == headerSize)
	m, ok := zzv.Open(ct[n+sealedHeaderSize:], h[40:64], zzMK(chain))
	zzv.Assert("the message is sealed under the key of this chain position", ok && zzv.EqB(m, msg))
	zzv.Assert("nonces are fresh randomness", zzDrawn(hn) && zzDrawn(h[40:64]))
	zzv.Reach("ok")
}

// Receiving: the key used can not be derived from what is kept.
//@ verify C05 nopanic
//@ use (*ratchet.Ratchet).saveKeys := zzcSaveKeys
func zzvDecryptForgets(b *Ratchet, ct []byte) {
	zzv.Havoc(&zzN)
	zzv.Assume(b.saved != nil)
	zzFreshNext(b)
	o := *b
	_, err := b.Decrypt(ct)
	if err != nil {
		return
	}
	if b.recvHeaderKey == o.recvHeaderKey && b.recvCount == o.recvCount {
		zzv.Assert("late message: chain unchanged", b.recvChainKey == o.recvChainKey && b.sendRatchetPrivate == o.sendRatchetPrivate && b.rootKey == o.rootKey)
		zzv.Reach("late")
	} else if b.ratchet != o.ratchet {
		zzv.Assert("the private ratchet key is erased by a step", b.sendRatchetPrivate == [32]byte{})
		pub := b.recvRatchetPublic
		km := zzKM(o.rootKey[:], zzv.DH(o.sendRatchetPrivate[:], pub[:]))
		zzv.Assert("the root key is replaced by a step", zzv.EqB(b.rootKey[:], zzKDF(km, "root key")))
		zzv.Assert("the header keys are replaced by a step", zzv.And(b.recvHeaderKey == o.nextRecvHeaderKey, zzv.EqB(b.nextRecvHeaderKey[:], zzKDF(km, "next send header key"))))
		c := zzKDF(km, "chain key")
		if b.recvCount > 1 {
			c = zzChain(c, b.recvCount-1)
		}
		zzv.Assert("the new chain key is past the message key used (step)", b.recvCount > 0 && zzv.EqB(b.recvChainKey[:], zzStep(c)))
		zzv.Reach("step")
	} else {
		c := o.recvChainKey[:]
		if b.recvCount > o.recvCount+1 {
			c = zzChain(o.recvChainKey[:], b.recvCount-o.recvCount-1)
		}
		zzv.Assert("the chain key is past the message key used", b.recvCount > o.recvCount && zzv.EqB(b.recvChainKey[:], zzStep(c)))
		zzv.Reach("same step")
	}
}

// ---- persistence ----

func zzSameKeyPtr(a, b *[32]byte) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

// Everything but the saved keys survives, for every state.
//@ verify C06 nopanic
func zzvMarshalFields(r *Ratchet, now time.Time, lifetime time.Duration) {
	zzv.Assume(r.saved != nil)
	old := zzv.Snap(r)
	s := r.Marshal(now, lifetime)
	zzv.Assert("saving does not modify the state", zzv.Same(r, old))
	s.SavedKeys = nil
	n := &Ratchet{saved: make(map[[32]byte]map[uint32]savedKey), kxPrivate: new([32]byte)}
	err := n.Unmarshal(s)
	zzv.Assert("a saved state loads", err == nil)
	zzv.Assert("root, header and chain keys survive", n.rootKey == r.rootKey && n.sendHeaderKey == r.sendHeaderKey && n.recvHeaderKey == r.recvHeaderKey && n.nextSendHeaderKey == r.nextSendHeaderKey && n.nextRecvHeaderKey == r.nextRecvHeaderKey && n.sendChainKey == r.sendChainKey && n.recvChainKey == r.recvChainKey)
	zzv.Assert("ratchet keys survive", n.sendRatchetPrivate == r.sendRatchetPrivate && n.recvRatchetPublic == r.recvRatchetPublic)
	zzv.Assert("counters survive", n.sendCount == r.sendCount && n.recvCount == r.recvCount && n.prevSendCount == r.prevSendCount && n.ratchet == r.ratchet)
	zzv.Assert("key exchange halves survive", zzSameKeyPtr(n.kxPrivate, r.kxPrivate) && zzSameKeyPtr(n.MyHalf, r.MyHalf) && zzSameKeyPtr(n.TheirHalf, r.TheirHalf))
	zzv.Reach("end")
}

// The saved keys survive: up to 2 header keys with up to 2 message keys each.
//@ verify C06 nopanic bounded="saved keys: at most 2 header keys with at most 2 message keys each"
func zzvMarshalSaved(r *Ratchet, now time.Time, lifetime time.Duration, h1, h2 [32]byte, n1, n2, n3 uint32, k1, k2, k3 savedKey) {
	zzv.Assume(h1 != h2 && n1 != n2)
	r.saved = make(map[[32]byte]map[uint32]savedKey)
	switch zzv.ChooseInt(0, 3) {
	case 1:
		r.saved[h1] = map[uint32]savedKey{n1: k1}
	case 2:
		r.saved[h1] = map[uint32]savedKey{n1: k1, n2: k2}
	case 3:
		r.saved[h1] = map[uint32]savedKey{n1: k1, n2: k2}
		r.saved[h2] = map[uint32]savedKey{n3: k3}
	}
	s := r.Marshal(now, lifetime)
	n := &Ratchet{saved: make(map[[32]byte]map[uint32]savedKey), kxPrivate: new([32]byte)}
	err := n.Unmarshal(s)
	zzv.Assert("a state with saved keys loads", err == nil)
	for hk, mks := range r.saved {
		c := 0
		for num, k := range mks {
			got, ok := n.saved[hk][num]
			zzv.Assert("exactly the keys young enough survive", ok == !(now.Sub(k.timestamp) > lifetime))
			if ok {
				c++
				zzv.Assert("a saved key survives with its age", got.key == k.key && got.timestamp == time.Unix(k.timestamp.Unix(), 0))
				zzv.Reach("kept")
			}
		}
		zzv.Assert("no key is made up", len(n.saved[hk]) == c)
	}
	for hk := range n.saved {
		_, ok := r.saved[hk]
		zzv.Assert("no header key is made up", ok)
	}
	zzv.Reach("end")
}

// What Unmarshal accepts: every key has the right size.
//@ verify C06 C23 nopanic
func zzvUnmarshalStrict(s *disk.RatchetState) {
	n := &Ratchet{saved: make(map[[32]byte]map[uint32]savedKey), kxPrivate: new([32]byte)}
	var hk, mk []byte
	s.SavedKeys = nil
	switch zzv.ChooseInt(0, 2) {
	case 1:
		hk = zzv.FreshBytes("headerKey", zzv.FreshInt("headerLen", 0, 64))
		s.SavedKeys = []disk.RatchetState_SavedKeys{{HeaderKey: hk}}
	case 2:
		hk = zzv.FreshBytes("headerKey", zzv.FreshInt("headerLen", 0, 64))
		mk = zzv.FreshBytes("messageKey", zzv.FreshInt("messageKeyLen", 0, 64))
		s.SavedKeys = []disk.RatchetState_SavedKeys{{HeaderKey: hk, MessageKeys: []disk.RatchetState_SavedKeys_MessageKey{{Key: mk}}}}
	}
	err := n.Unmarshal(s)
	if err == nil {
		zzv.Assert("only a complete exchange in progress is accepted", (len(s.Private) == 0 || len(s.Private) == 32) && (len(s.MyHalf) == 0 || len(s.MyHalf) == 32) && (len(s.TheirHalf) == 0 || len(s.TheirHalf) == 32))
		zzv.Assert("only complete saved keys are accepted", (len(s.SavedKeys) == 0 || len(hk) == 32) && (mk == nil || len(mk) == 32))
		zzv.Assert("only complete keys are accepted", len(s.RootKey) == 32 && len(s.SendHeaderKey) == 32 && len(s.RecvHeaderKey) == 32 && len(s.NextSendHeaderKey) == 32 && len(s.NextRecvHeaderKey) == 32 && len(s.SendChainKey) == 32 && len(s.RecvChainKey) == 32 && len(s.SendRatchetPrivate) == 32 && len(s.RecvRatchetPublic) == 32)
		zzv.Reach("ok")
	} else {
		zzv.Reach("error")
	}
}
