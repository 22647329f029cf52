package zkidentity

import (
	"github.com/companyzero/zkc/zzm"
	"github.com/companyzero/zkc/zzv"
)

func zzDigest(p *PublicIdentity) []byte {
	m := append([]byte(nil), []byte(p.Name)...)
	m = append(m, []byte(p.Nick)...)
	m = append(m, p.SigKey[:]...)
	m = append(m, p.Key[:]...)
	m = append(m, p.Identity[:]...)
	return zzv.Ctor("sha256", 32, m)
}

// A new identity is self-consistent.
//@ verify C09 C23 nopanic
func zzvNew(name, nick string, msg, msg2 []byte) {
	fi, err := New(name, nick)
	if err != nil {
		zzv.Assert("nothing is returned with an error", fi == nil)
		zzv.Reach("failed")
		return
	}
	zzv.Assert("the names are the given ones", fi.Public.Name == name && fi.Public.Nick == nick)
	zzv.Assert("the handle is the digest of the public key", zzv.EqB(fi.Public.Identity[:], zzv.Ctor("sha256", 32, fi.Public.Key[:])))
	zzv.Assert("the public key belongs to the private key", zzv.EqB(fi.Public.Key[:], zzm.KemPub(fi.PrivateKey[:])))
	zzv.Assert("the signing key belongs to the private signing key", zzv.EqB(fi.Public.SigKey[:], zzv.UFBytes("edpub", 32, fi.PrivateSigKey[:])))
	zzv.Assert("the digest covers names, keys and handle", zzv.EqB(fi.Public.Digest[:], zzDigest(&fi.Public)))
	zzv.Assert("the new identity verifies", fi.Public.Verify())
	before := fi.Public
	sig := fi.SignMessage(msg)
	zzv.Assert("a signature verifies", fi.Public.VerifyMessage(msg, sig))
	zzv.Assert("signing changes nothing", fi.Public == before)
	zzv.Reach("end")
}

// What verifies is consistent: handle, digest and signature match.
//@ verify C09 C23 nopanic
func zzvVerify(p *PublicIdentity) {
	before := *p
	if !p.Verify() {
		zzv.Reach("refused")
		zzv.Assert("verification changes nothing", *p == before)
		return
	}
	zzv.Assert("verification changes nothing", *p == before)
	zzv.Assert("the handle is the digest of the public key", zzv.EqB(p.Identity[:], zzv.Ctor("sha256", 32, p.Key[:])))
	zzv.Assert("the digest covers names, keys and handle", zzv.EqB(p.Digest[:], zzDigest(p)))
	zzv.Assert("the signature is the key's over the digest", zzm.EdVerify(p.SigKey[:], p.Digest[:], p.Signature[:]))
	zzv.Reach("accepted")
}

// Two identities with the same contents digest: every other field is the
// same, up to the boundary between name and nick (a recorded finding).
//@ verify C09 C23 nopanic
func zzvAltered(p, q *PublicIdentity) {
	// zzvVerify: the digest of a verifying identity is zzDigest
	zzv.Assume(len(p.Name)+len(p.Nick) == len(q.Name)+len(q.Nick))
	same := len(p.Name) == len(q.Name)
	if same {
		zzv.Reach("same boundary")
	}
	zzv.Assume(zzv.EqB(zzDigest(p), zzDigest(q)))
	zzv.Assert("equal digests mean equal keys and handles", zzv.And(p.SigKey == q.SigKey, p.Key == q.Key, p.Identity == q.Identity))
	if same {
		zzv.Assert("equal digests mean equal names", p.Name == q.Name && p.Nick == q.Nick)
	}
	zzv.Reach("end")
}

// A signature verifies only as the model of ed25519 says, for the exact key
// and message.
//@ verify C09 C23 nopanic
func zzvVerifyMessage(p PublicIdentity, msg []byte, sig [64]byte) {
	ok := p.VerifyMessage(msg, sig)
	zzv.Assert("the signature is checked over the whole message under the signing key", ok == zzm.EdVerify(p.SigKey[:], msg, sig[:]))
	zzv.Reach("end")
}

// Text form of a handle.
//@ verify C09 C23 nopanic
func zzvText(p PublicIdentity, q PublicIdentity) {
	s := p.String()
	zzv.Assert("fingerprint is the text form", p.Fingerprint() == s && Fingerprint(p.Identity) == s)
	id, err := String2ID(s)
	zzv.Assert("the text form converts back", err == nil && *id == p.Identity)
	zzv.Assert("different handles have different text forms", q.String() != s || q.Identity == p.Identity)
	zzv.Reach("end")
}

//@ verify C09 C23 nopanic
func zzvTextAny(s string) {
	id, err := String2ID(s)
	if err != nil {
		zzv.Assert("nothing is returned with an error", id == nil)
		zzv.Reach("refused")
		return
	}
	zzv.Assert("only a text of exactly one handle is accepted", len(s) == 64)
	zzv.Reach("accepted")
}

// Serialisation.
//@ verify C09 C23 nopanic
func zzvMarshal(fi *FullIdentity) {
	b, err := fi.Public.Marshal()
	if err == nil {
		p, err := UnmarshalPublicIdentity(b)
		zzv.Assert("a verifying identity survives", !fi.Public.Verify() || (err == nil && *p == fi.Public))
		zzv.Assert("a non-verifying identity is refused", fi.Public.Verify() || err != nil)
	}
	b, err = fi.Marshal()
	if err == nil {
		f, err := UnmarshalFullIdentity(b)
		zzv.Assert("a full identity survives", err == nil && *f == *fi)
	}
	zzv.Reach("end")
}

// Arbitrary serialised bytes.
//@ verify C09 C23 nopanic
func zzvUnmarshalAny(b []byte) {
	p, err := UnmarshalPublicIdentity(b)
	if err != nil {
		zzv.Assert("nothing is returned with an error", p == nil)
		zzv.Reach("refused")
		return
	}
	zzv.Assert("only a verifying identity is accepted", p.Verify())
	zzv.Reach("accepted")
}
