package session

import (
	"crypto/sha256"
	"io"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/zzm"
	"github.com/companyzero/zkc/zzv"
)

// The wire, seen from one end: what it sent and what it is given to read.
type zzEnd struct {
	sent  [][]byte // payloads written, in order
	in    [][]byte // payloads to read; nil: arbitrary
	nin   int
	got   [][]byte // payloads read
	limit []uint
	role  int
	nenc  int // encapsulations
	keys  [][]byte
	fail  bool // writes may fail
}

var zze *zzEnd

func zzPut(b []byte) {
	e := zze
	e.sent = append(e.sent[:len(e.sent):len(e.sent)], b)
}

// zzMarshal is xdr.Marshal onto the connection.
func zzMarshal(w io.Writer, v interface{}) (int, error) {
	if zze.fail && zzv.Choose() {
		return 0, zzv.NewErr()
	}
	switch x := v.(type) {
	case []byte:
		zzPut(append([]byte(nil), x...))
	case *[sntrup4591761.CiphertextSize]byte:
		zzPut(append([]byte(nil), x[:]...))
	default:
		zzv.Assert("only byte strings go over the wire", false)
	}
	return 0, nil
}

func zzNext(n int) ([]byte, bool) {
	e := zze
	if e.in != nil {
		if e.nin >= len(e.in) {
			return nil, false // blocked: nothing more arrives
		}
		b := e.in[e.nin]
		e.nin++
		e.got = append(e.got[:len(e.got):len(e.got)], b)
		return b, true
	}
	if zzv.Choose() {
		return nil, false
	}
	b := zzv.FreshBytes("in", n)
	e.got = append(e.got[:len(e.got):len(e.got)], b)
	return b, true
}

func zzUnmarshal(r io.Reader, v interface{}) (int, error) {
	c, ok := v.(*[sntrup4591761.CiphertextSize]byte)
	if !ok {
		zzv.Assert("only a ciphertext is read unbounded", false)
		return 0, zzv.NewErr()
	}
	zze.limit = append(zze.limit[:len(zze.limit):len(zze.limit)], 0)
	if zze.role == 1 {
		zzPump()
	}
	b, ok := zzNext(sntrup4591761.CiphertextSize)
	if !ok || len(b) != sntrup4591761.CiphertextSize {
		return 0, zzv.NewErr()
	}
	copy(c[:], b)
	return 0, nil
}

func zzUnmarshalLimited(r io.Reader, v interface{}, max uint) (int, error) {
	p, ok := v.(*[]byte)
	if !ok {
		zzv.Assert("only byte strings are read", false)
		return 0, zzv.NewErr()
	}
	zze.limit = append(zze.limit[:len(zze.limit):len(zze.limit)], max)
	if zze.role == 1 {
		zzPump()
	}
	b, ok := zzNext(-1)
	if !ok {
		return 0, zzv.NewErr()
	}
	*p = append([]byte(nil), b...)
	return 0, nil
}

// Randomness as a function of the role and the number of the draw.
func zzEncapsulate(s io.Reader, pk *[sntrup4591761.PublicKeySize]byte) (*[sntrup4591761.CiphertextSize]byte, *[sntrup4591761.SharedKeySize]byte, error) {
	seed := zzv.UFBytes("kemseed", 32, zze.role, zze.nenc)
	zze.nenc++
	c, k, err := zzm.KemEnc(seed, pk)
	zze.keys = append(zze.keys[:len(zze.keys):len(zze.keys)], k[:])
	return c, k, err
}

func zzGenerate(s io.Reader) (*[sntrup4591761.PublicKeySize]byte, *[sntrup4591761.PrivateKeySize]byte, error) {
	pk := new([sntrup4591761.PublicKeySize]byte)
	sk := new([sntrup4591761.PrivateKeySize]byte)
	copy(sk[:], zzv.UFBytes("ephemeral", sntrup4591761.PrivateKeySize, zze.role))
	copy(pk[:], zzm.KemPub(sk[:]))
	return pk, sk, nil
}

var zzA, zzB *zzEnd
var zzKB *KX

// zzPump lets the responder run on everything the initiator has sent so far
// and hands what it sends to the initiator.
func zzPump() {
	a := zze
	pub, priv := ephemeralPublic, ephemeralPrivate
	b := &zzEnd{role: 2, in: a.sent}
	zze = b
	skb, pkb, _ := zzGenerateRaw()
	ephemeralPublic, ephemeralPrivate = *pkb, *skb
	zzKB = zzFreshB()
	zzB = b
	zzErrB = zzKB.Respond()
	zze = a
	ephemeralPublic, ephemeralPrivate = pub, priv
	a.in = b.sent
	if a.in == nil {
		a.in = [][]byte{}
	}
}

var zzErrB error

func zzGenerateRaw() (*[sntrup4591761.PrivateKeySize]byte, *[sntrup4591761.PublicKeySize]byte, error) {
	pk, sk, err := zzGenerate(nil)
	return sk, pk, err
}

var zzB0 KX

func zzFreshB() *KX {
	k := zzB0
	return &k
}

// Both ends follow the protocol.
//@ verify C10 C23 C22 nopanic locks
//@ use github.com/davecgh/go-xdr/xdr2.Marshal := zzMarshal
//@ use github.com/davecgh/go-xdr/xdr2.Unmarshal := zzUnmarshal
//@ use github.com/davecgh/go-xdr/xdr2.UnmarshalLimited := zzUnmarshalLimited
//@ use github.com/companyzero/sntrup4591761.Encapsulate := zzEncapsulate
//@ use github.com/companyzero/sntrup4591761.GenerateKey := zzGenerate
func zzvHonest(a, b *KX) {
	zzv.NonNil(a.OurPrivateKey, a.OurPublicKey, a.TheirPublicKey, b.OurPrivateKey, b.OurPublicKey)
	copy(a.OurPublicKey[:], zzm.KemPub(a.OurPrivateKey[:]))
	copy(b.OurPublicKey[:], zzm.KemPub(b.OurPrivateKey[:]))
	*a.TheirPublicKey = *b.OurPublicKey
	a.MaxMessageSize, b.MaxMessageSize = 4096, 4096
	a.writeSeq, a.readSeq, b.writeSeq, b.readSeq = [24]byte{}, [24]byte{}, [24]byte{}, [24]byte{}
	zzB0 = *b
	zze = &zzEnd{role: 1}
	zzA = zze
	err := a.Initiate()
	zzv.Assert("the initiator succeeds", err == nil)
	zze = zzA
	zzPump()
	zzv.Assert("the responder succeeds", zzErrB == nil)
	k := zzKB
	zzv.Assert("each reads with the key the other writes with", *a.readKey == *k.writeKey && *a.writeKey == *k.readKey)
	zzv.Assert("the responder learns the initiator's identity", *k.TheirPublicKey == *a.OurPublicKey)
	zzv.Assert("the initiator keeps the responder's identity", *a.TheirPublicKey == *b.OurPublicKey)
	zzv.Assert("sequence numbers agree", a.writeSeq == k.readSeq && a.readSeq == k.writeSeq)
	// the first messages both ways
	var msg, reply []byte
	zzv.Havoc(&msg)
	zzv.Havoc(&reply)
	zzv.Assume(len(msg) <= 4000 && len(reply) <= 4000)
	zze = &zzEnd{role: 3}
	zzv.Assert("writing succeeds", a.Write(msg) == nil)
	zze.in = zze.sent
	got, err := k.Read()
	zzv.Assert("the first message arrives", err == nil && zzv.EqB(got, msg))
	zze = &zzEnd{role: 3}
	zzv.Assert("replying succeeds", k.Write(reply) == nil)
	zze.in = zze.sent
	got, err = a.Read()
	zzv.Assert("the first reply arrives", err == nil && zzv.EqB(got, reply))
	zzv.Reach("end")
}

func zzSeq(n byte) []byte { return append([]byte{n}, make([]byte, 23)...) }

func zzHmac(k []byte, parts ...[]byte) []byte {
	var m []byte
	for _, p := range parts {
		m = append(m, p...)
	}
	return zzv.Ctor("hmac-sha256", 32, k, m)
}

func zzDecap(sk *[sntrup4591761.PrivateKeySize]byte, c []byte) ([]byte, bool) {
	var ct [sntrup4591761.CiphertextSize]byte
	copy(ct[:], c)
	k, ok := zzm.KemDecapsulate(&ct, sk)
	return k[:], ok == 1 && len(c) == sntrup4591761.CiphertextSize
}

// zzExact is a public key that was received as a byte string.
func zzExact(b []byte) []byte {
	var pk [sntrup4591761.PublicKeySize]byte
	copy(pk[:], b)
	return pk[:]
}

func zzKeys(k *KX, initiator bool, k1, k2, k3, k4 []byte) bool {
	var m []byte
	m = append(append(append(append(m, k1...), k2...), k3...), k4...)
	d := zzv.Ctor("sha512", 64, m)
	a, b := k.readKey, k.writeKey
	if !initiator {
		a, b = b, a
	}
	return zzv.EqB(append(append([]byte(nil), a[:]...), b[:]...), d)
}

// The remote end sends arbitrary payloads to an initiator.
//@ verify C10 C23 C22 nopanic locks
//@ use github.com/davecgh/go-xdr/xdr2.Marshal := zzMarshal
//@ use github.com/davecgh/go-xdr/xdr2.Unmarshal := zzUnmarshal
//@ use github.com/davecgh/go-xdr/xdr2.UnmarshalLimited := zzUnmarshalLimited
//@ use github.com/companyzero/sntrup4591761.Encapsulate := zzEncapsulate
//@ use github.com/companyzero/sntrup4591761.GenerateKey := zzGenerate
func zzvInitiateHostile(a *KX) {
	zzv.NonNil(a.OurPrivateKey, a.OurPublicKey, a.TheirPublicKey)
	a.writeSeq, a.readSeq = [24]byte{}, [24]byte{}
	our, their := *a.OurPublicKey, *a.TheirPublicKey
	sk := *a.OurPrivateKey
	a.readKey, a.writeKey = nil, nil
	zze = &zzEnd{role: 9, fail: true}
	e := zze
	err := a.Initiate()
	for i := range e.limit {
		zzv.Assert("every read is bounded by the message size limit", e.limit[i] == a.MaxMessageSize)
	}
	zzv.Assert("the long-term keys are left alone", *a.OurPublicKey == our && *a.TheirPublicKey == their && *a.OurPrivateKey == sk)
	zzv.Assert("the ephemeral secret is erased", ephemeralPrivate == [sntrup4591761.PrivateKeySize]byte{})
	if err != nil {
		zzv.Assert("a failed handshake leaves no session keys", a.readKey == nil && a.writeKey == nil)
		zzv.Reach("failed")
		return
	}
	// what must have been proved
	zzv.Assert("five messages were received", len(e.got) == 5)
	var esk [sntrup4591761.PrivateKeySize]byte
	copy(esk[:], zzv.UFBytes("ephemeral", sntrup4591761.PrivateKeySize, 9))
	epub := zzm.KemPub(esk[:])
	k1 := e.keys[0]
	seed1 := zzv.UFBytes("kemseed", 32, 9, 0)
	zzv.Assert("the first secret is for the expected server key only", zzv.EqB(k1, zzv.Ctor("kemkey", 32, seed1, their[:])))
	c2, ok := zzv.Open(e.got[0], zzSeq(0), k1)
	zzv.Assert("message 1 opened under the first secret", ok)
	k2, ok := zzDecap(&esk, c2)
	zzv.Assert("the second secret is ours to decapsulate", ok)
	theph, ok := zzv.Open(e.got[1], zzSeq(1), k2)
	zzv.Assert("message 2 opened under the second secret", ok && len(theph) == sntrup4591761.PublicKeySize)
	theph = zzExact(theph)
	sp, ok := zzv.Open(e.got[2], zzSeq(2), k2)
	zzv.Assert("the server proved the first secret", ok && zzv.EqB(sp, zzHmac(k1, epub, theph)))
	k3 := e.keys[1]
	zzv.Assert("the third secret is for the server's ephemeral key", zzv.EqB(k3, zzv.Ctor("kemkey", 32, zzv.UFBytes("kemseed", 32, 9, 1), theph)))
	cp := zzHmac(k2, sp, our[:])
	c4, ok := zzv.Open(e.got[3], zzSeq(3), k3)
	zzv.Assert("message 4 opened under the third secret", ok)
	k4, ok := zzDecap(&sk, c4)
	zzv.Assert("the fourth secret is for our long-term key", ok)
	pr, ok := zzv.Open(e.got[4], zzSeq(4), k4)
	zzv.Assert("the server proved the third secret and its identity", ok && zzv.EqB(pr, zzHmac(k3, cp, their[:])))
	zzv.Assert("the session keys are derived from all four secrets", zzKeys(a, true, k1, k2, k3, k4))
	// what was sent
	zzv.Assert("five messages were sent", len(e.sent) == 5)
	zzv.Assert("our identity is sent under the third secret only", zzv.EqB(e.sent[3], zzv.Ctor("seal", len(our)+16, zzSeq(2), k3, our[:])))
	zzv.Assert("our proof binds our identity", zzv.EqB(e.sent[4], zzv.Ctor("seal", 48, zzSeq(3), k3, cp)))
	zzv.Reach("succeeded")
}

// The remote end sends arbitrary payloads to a responder.
//@ verify C10 C23 C22 nopanic locks
//@ use github.com/davecgh/go-xdr/xdr2.Marshal := zzMarshal
//@ use github.com/davecgh/go-xdr/xdr2.Unmarshal := zzUnmarshal
//@ use github.com/davecgh/go-xdr/xdr2.UnmarshalLimited := zzUnmarshalLimited
//@ use github.com/companyzero/sntrup4591761.Encapsulate := zzEncapsulate
//@ use github.com/companyzero/sntrup4591761.GenerateKey := zzGenerate
func zzvRespondHostile(b *KX) {
	zzv.NonNil(b.OurPrivateKey, b.OurPublicKey)
	b.writeSeq, b.readSeq = [24]byte{}, [24]byte{}
	our := *b.OurPublicKey
	sk := *b.OurPrivateKey
	b.readKey, b.writeKey = nil, nil
	zze = &zzEnd{role: 9, fail: true}
	e := zze
	zzv.Havoc(&ephemeralPrivate)
	zzv.Havoc(&ephemeralPublic)
	esk := ephemeralPrivate
	epub := ephemeralPublic
	err := b.Respond()
	for i := range e.limit {
		zzv.Assert("every encrypted read is bounded by the message size limit", i == 0 || e.limit[i] == b.MaxMessageSize)
	}
	zzv.Assert("the long-term keys are left alone", *b.OurPublicKey == our && *b.OurPrivateKey == sk)
	zzv.Assert("the ephemeral keys are left alone", ephemeralPrivate == esk && ephemeralPublic == epub)
	if err != nil {
		zzv.Assert("a failed handshake leaves no session keys", b.readKey == nil && b.writeKey == nil)
		zzv.Reach("failed")
		return
	}
	zzv.Assert("five messages were received", len(e.got) == 5)
	k1, ok := zzDecap(&sk, e.got[0])
	zzv.Assert("the first secret is for our long-term key", ok)
	theph, ok := zzv.Open(e.got[1], zzSeq(0), k1)
	zzv.Assert("message 2 opened under the first secret", ok && len(theph) == sntrup4591761.PublicKeySize)
	theph = zzExact(theph)
	k2 := e.keys[0]
	zzv.Assert("the second secret is for the client's ephemeral key", zzv.EqB(k2, zzv.Ctor("kemkey", 32, zzv.UFBytes("kemseed", 32, 9, 0), theph)))
	sp := zzHmac(k1, theph, epub[:])
	c3, ok := zzv.Open(e.got[2], zzSeq(1), k2)
	zzv.Assert("message 3 opened under the second secret", ok)
	k3, ok := zzDecap(&esk, c3)
	zzv.Assert("the third secret is for our ephemeral key", ok)
	id, ok := zzv.Open(e.got[3], zzSeq(2), k3)
	zzv.Assert("the client's identity is the one sent under the third secret", ok && zzv.EqB(zzExact(id), b.TheirPublicKey[:]))
	id = zzExact(id)
	pr, ok := zzv.Open(e.got[4], zzSeq(3), k3)
	cp := zzHmac(k2, sp, id)
	zzv.Assert("the client proved the second secret and bound its identity", ok && zzv.EqB(pr, cp))
	k4 := e.keys[1]
	zzv.Assert("the fourth secret is for the claimed identity only", zzv.EqB(k4, zzv.Ctor("kemkey", 32, zzv.UFBytes("kemseed", 32, 9, 1), id)))
	zzv.Assert("the session keys are derived from all four secrets", zzKeys(b, false, k1, k2, k3, k4))
	zzv.Assert("five messages were sent", len(e.sent) == 5)
	zzv.Assert("the last proof binds our identity", zzv.EqB(e.sent[4], zzv.Ctor("seal", 48, zzSeq(4), k4, zzHmac(k3, cp, our[:]))))
	zzv.Reach("succeeded")
}

// --- transport

func zzVal(s *[24]byte) (lo, hi int) {
	lo = int(s[0]) + int(s[1])<<8 + int(s[2])<<16 + int(s[3])<<24
	hi = int(s[4]) + int(s[5])<<8 + int(s[6])<<16 + int(s[7])<<24
	return
}

// after is before plus one.
func zzSucc(before, after *[24]byte) bool {
	lo0, hi0 := zzVal(before)
	lo1, hi1 := zzVal(after)
	r := zzv.Or(zzv.And(lo0 < 1<<32-1, lo1 == lo0+1, hi1 == hi0),
		zzv.And(lo0 == 1<<32-1, lo1 == 0, zzv.Or(zzv.And(hi0 < 1<<32-1, hi1 == hi0+1), zzv.And(hi0 == 1<<32-1, hi1 == 0))))
	for i := 8; i < 24; i++ {
		r = zzv.And(r, before[i] == after[i])
	}
	return r
}

//@ verify C14 C23 nopanic
func zzvIncSeq(s *[24]byte) {
	old := *s
	incSeq(s)
	zzv.Assert("the nonce advances by one", zzSucc(&old, s))
	zzv.Reach("end")
}

// zzInc stands for incSeq (zzvIncSeq).
func zzInc(s *[24]byte) {
	old := *s
	copy(s[:], zzv.UFBytes("succ", 24, old[:]))
	zzv.Assume(zzSucc(&old, s))
}

//@ verify C14 C23 nopanic
//@ use github.com/davecgh/go-xdr/xdr2.Marshal := zzMarshal
func zzvWrite(k *KX, data []byte) {
	zzv.NonNil(k.writeKey, k.readKey)
	old := *k
	key := *k.writeKey
	d0 := zzv.Snap(data)
	zze = &zzEnd{role: 4, fail: true}
	err := k.Write(data)
	zzv.Assert("the data is left alone", zzv.Same(data, d0))
	zzv.Assert("writing leaves the reading side and the keys alone", k.readSeq == old.readSeq && *k.writeKey == key && k.MaxMessageSize == old.MaxMessageSize)
	if uint(len(data))+16 > old.MaxMessageSize {
		zzv.Assert("a message above the size limit is refused", err != nil && len(zze.sent) == 0)
		zzv.Assert("a refused message uses no nonce", k.writeSeq == old.writeSeq)
		zzv.Reach("too large")
		return
	}
	zzv.Assert("the nonce advances by one", zzSucc(&old.writeSeq, &k.writeSeq))
	if err != nil {
		zzv.Assert("nothing is sent with an error", len(zze.sent) == 0)
		zzv.Reach("failed")
		return
	}
	zzv.Assert("the message goes out once, sealed under the current nonce and the write key", len(zze.sent) == 1 && zzv.EqB(zze.sent[0], zzv.Ctor("seal", len(data)+16, old.writeSeq[:], key[:], data)))
	zzv.Reach("sent")
}

//@ verify C14 C23 nopanic
//@ use github.com/davecgh/go-xdr/xdr2.UnmarshalLimited := zzUnmarshalLimited
//@ use golang.org/x/crypto/nacl/secretbox.Open := zzm.BoxOpenExact
func zzvRead(k *KX) {
	zzv.NonNil(k.writeKey, k.readKey)
	old := *k
	key := *k.readKey
	zze = &zzEnd{role: 4}
	m, err := k.Read()
	zzv.Assert("reading leaves the writing side and the keys alone", k.writeSeq == old.writeSeq && *k.readKey == key && k.MaxMessageSize == old.MaxMessageSize)
	zzv.Assert("reads are bounded by the message size limit", len(zze.limit) == 1 && zze.limit[0] == old.MaxMessageSize)
	if err != nil {
		zzv.Assert("nothing is returned with an error", m == nil)
		zzv.Reach("failed")
		return
	}
	zzv.Assert("only the message with the expected nonce is accepted", len(zze.got) == 1 && zzv.EqB(zze.got[0], zzv.Ctor("seal", len(m)+16, old.readSeq[:], key[:], m)))
	zzv.Assert("the nonce advances by one", zzSucc(&old.readSeq, &k.readSeq))
	zzv.Reach("accepted")
}

// What one end writes the other reads, in order; a dropped, replayed or
// reordered message is refused.
//@ verify C14 C23 nopanic
//@ use github.com/davecgh/go-xdr/xdr2.Marshal := zzMarshal
//@ use github.com/davecgh/go-xdr/xdr2.UnmarshalLimited := zzUnmarshalLimited
//@ use session.incSeq := zzInc
func zzvOrder(a, b *KX, m1, m2 []byte) {
	zzv.NonNil(a.writeKey, b.readKey)
	*b.readKey = *a.writeKey
	b.readSeq = a.writeSeq
	a.MaxMessageSize, b.MaxMessageSize = 1<<20, 1<<20
	zzv.Assume(len(m1) < 1<<19 && len(m2) < 1<<19)
	lo, hi := zzVal(&a.writeSeq)
	zzv.Assume(hi < 1<<31 || lo == 0)
	zze = &zzEnd{role: 5}
	zzv.Assert("both are sent", a.Write(m1) == nil && a.Write(m2) == nil)
	s := zze.sent
	switch zzv.ChooseInt(0, 3) {
	case 0: // in order
		zze = &zzEnd{in: s}
		x, e1 := b.Read()
		y, e2 := b.Read()
		zzv.Assert("in order messages arrive", e1 == nil && e2 == nil && zzv.EqB(x, m1) && zzv.EqB(y, m2))
		zzv.Assert("both ends stay in step", b.readSeq == a.writeSeq)
		zzv.Reach("in order")
	case 1: // dropped
		zze = &zzEnd{in: s[1:]}
		_, err := b.Read()
		zzv.Assert("a message after a dropped one is refused", err != nil)
		zzv.Reach("dropped")
	case 2: // replayed
		zze = &zzEnd{in: [][]byte{s[0], s[0]}}
		_, e1 := b.Read()
		_, e2 := b.Read()
		zzv.Assert("a replayed message is refused", e1 == nil && e2 != nil)
		zzv.Reach("replayed")
	case 3: // reflected into the other direction or under another key
		zze = &zzEnd{in: s}
		zzv.Havoc(b.readKey)
		zzv.Assume(*b.readKey != *a.writeKey)
		_, err := b.Read()
		zzv.Assert("a message under another key is refused", err != nil)
		zzv.Reach("other key")
	}
}

// The identity of the other end is that of the key it proved to hold.
//@ verify C10 C25 C22 C23 nopanic locks
func zzvTheirs(k *KX) {
	zzv.Assume(k.TheirPublicKey != nil)
	pk := *k.TheirPublicKey
	id, ok := k.TheirIdentity().([32]byte)
	h := sha256.Sum256(pk[:])
	zzv.Assert("the identity of the other end is that of its key", ok && zzv.EqB(id[:], h[:]))
	zzv.Reach("identity")
}
