package session

import (
	"bytes"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/companyzero/sntrup4591761"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"golang.org/x/crypto/nacl/secretbox"
)

type rsKey struct {
	pub  *[sntrup4591761.PublicKeySize]byte
	priv *[sntrup4591761.PrivateKeySize]byte
}

func rsNew(t *testing.T) rsKey {
	p, s, err := sntrup4591761.GenerateKey(rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	return rsKey{p, s}
}

func rsKX(c net.Conn, k rsKey, their *[sntrup4591761.PublicKeySize]byte) *KX {
	o, p := *k.pub, *k.priv
	kx := &KX{Conn: c, MaxMessageSize: 4096, OurPublicKey: &o, OurPrivateKey: &p}
	if their != nil {
		q := *their
		kx.TheirPublicKey = &q
	}
	return kx
}

// rsPeer follows the protocol except for the deviation at one of its
// messages.
type rsPeer struct {
	c          net.Conn
	rseq, wseq [24]byte
	nsent      int
	at         int
	plain      func([]byte) []byte // the plaintext sent
	wire       func([]byte) []byte // the bytes sent
	key        bool                // seal under another key
	nonce      bool                // seal under another nonce
}

func rsInc(s *[24]byte) {
	for i := 0; i < 8; i++ {
		s[i]++
		if s[i] != 0 {
			return
		}
	}
}

func (p *rsPeer) send(b []byte, k *[32]byte) error {
	me := p.nsent == p.at
	p.nsent++
	b = append([]byte(nil), b...)
	if me && p.plain != nil {
		b = p.plain(b)
	}
	if k != nil {
		kk := *k
		n := p.wseq
		if me && p.key {
			kk[5] ^= 1
		}
		if me && p.nonce {
			n[0]++
		}
		b = secretbox.Seal(nil, b, &n, &kk)
		rsInc(&p.wseq)
	}
	if me && p.wire != nil {
		b = p.wire(b)
	}
	if k == nil { // a fixed array: no length, padded to a word
		if len(b) == sntrup4591761.CiphertextSize {
			b = append(b, 0)
		}
		_, err := p.c.Write(b)
		return err
	}
	_, err := xdr.Marshal(p.c, b)
	return err
}

var errRS = errors.New("peer gives up")

func (p *rsPeer) recv(k *[32]byte, n int) ([]byte, error) {
	var b []byte
	if _, err := xdr.UnmarshalLimited(p.c, &b, 4096); err != nil {
		return nil, err
	}
	m, ok := secretbox.Open(nil, b, &p.rseq, k)
	rsInc(&p.rseq)
	if !ok || len(m) != n {
		return nil, errRS
	}
	return m, nil
}

func rsMac(k *[32]byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, k[:])
	for _, x := range parts {
		h.Write(x)
	}
	return h.Sum(nil)
}

func rsSum(ks ...*[32]byte) (a, b [32]byte) {
	h := sha512.New()
	for _, k := range ks {
		h.Write(k[:])
	}
	d := h.Sum(nil)
	copy(a[:], d)
	copy(b[:], d[32:])
	return
}

type rsRes struct {
	a, b [32]byte
	id   []byte
	err  error
}

// respond is a peer of Initiate.
func (p *rsPeer) respond(me, eph rsKey) (r rsRes) {
	var c1 [sntrup4591761.CiphertextSize]byte
	if _, r.err = xdr.Unmarshal(p.c, &c1); r.err != nil {
		return
	}
	k1, ok := sntrup4591761.Decapsulate(&c1, me.priv)
	if ok != 1 {
		r.err = errRS
		return
	}
	var te []byte
	if te, r.err = p.recv(k1, sntrup4591761.PublicKeySize); r.err != nil {
		return
	}
	var tep [sntrup4591761.PublicKeySize]byte
	copy(tep[:], te)
	c2, k2, _ := sntrup4591761.Encapsulate(rand.Reader, &tep)
	if r.err = p.send(c2[:], k1); r.err != nil {
		return
	}
	if r.err = p.send(eph.pub[:], k2); r.err != nil {
		return
	}
	sp := rsMac(k1, te, eph.pub[:])
	if r.err = p.send(sp, k2); r.err != nil {
		return
	}
	var x []byte
	if x, r.err = p.recv(k2, sntrup4591761.CiphertextSize); r.err != nil {
		return
	}
	copy(c1[:], x)
	k3, ok := sntrup4591761.Decapsulate(&c1, eph.priv)
	if ok != 1 {
		r.err = errRS
		return
	}
	if r.id, r.err = p.recv(k3, sntrup4591761.PublicKeySize); r.err != nil {
		return
	}
	var cp []byte
	if cp, r.err = p.recv(k3, 32); r.err != nil {
		return
	}
	if !bytes.Equal(cp, rsMac(k2, sp, r.id)) {
		r.err = errRS
		return
	}
	copy(tep[:], r.id)
	c4, k4, _ := sntrup4591761.Encapsulate(rand.Reader, &tep)
	if r.err = p.send(c4[:], k3); r.err != nil {
		return
	}
	if r.err = p.send(rsMac(k3, cp, me.pub[:]), k4); r.err != nil {
		return
	}
	r.a, r.b = rsSum(k1, k2, k3, k4)
	return
}

// initiate is a peer of Respond.
func (p *rsPeer) initiate(me, eph rsKey, their *[sntrup4591761.PublicKeySize]byte) (r rsRes) {
	c1, k1, _ := sntrup4591761.Encapsulate(rand.Reader, their)
	if r.err = p.send(c1[:], nil); r.err != nil {
		return
	}
	if r.err = p.send(eph.pub[:], k1); r.err != nil {
		return
	}
	var c [sntrup4591761.CiphertextSize]byte
	var x, te, sp, cp []byte
	if x, r.err = p.recv(k1, len(c)); r.err != nil {
		return
	}
	copy(c[:], x)
	k2, ok := sntrup4591761.Decapsulate(&c, eph.priv)
	if ok != 1 {
		r.err = errRS
		return
	}
	if te, r.err = p.recv(k2, sntrup4591761.PublicKeySize); r.err != nil {
		return
	}
	if sp, r.err = p.recv(k2, 32); r.err != nil {
		return
	}
	if !bytes.Equal(sp, rsMac(k1, eph.pub[:], te)) {
		r.err = errRS
		return
	}
	var tep [sntrup4591761.PublicKeySize]byte
	copy(tep[:], te)
	c3, k3, _ := sntrup4591761.Encapsulate(rand.Reader, &tep)
	if r.err = p.send(c3[:], k2); r.err != nil {
		return
	}
	if r.err = p.send(me.pub[:], k3); r.err != nil {
		return
	}
	cp = rsMac(k2, sp, me.pub[:])
	if r.err = p.send(cp, k3); r.err != nil {
		return
	}
	if x, r.err = p.recv(k3, len(c)); r.err != nil {
		return
	}
	copy(c[:], x)
	k4, ok := sntrup4591761.Decapsulate(&c, me.priv)
	if ok != 1 {
		r.err = errRS
		return
	}
	if x, r.err = p.recv(k4, 32); r.err != nil {
		return
	}
	if !bytes.Equal(x, rsMac(k3, cp, their[:])) {
		r.err = errRS
		return
	}
	r.a, r.b = rsSum(k1, k2, k3, k4)
	return
}

func rsPipe() (net.Conn, net.Conn) {
	a, b := net.Pipe()
	d := time.Now().Add(20 * time.Second)
	a.SetDeadline(d)
	b.SetDeadline(d)
	return a, b
}

func rsHonest(t *testing.T, f func() error) error {
	ch := make(chan error, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				ch <- fmt.Errorf("PANIC: %v", e)
			}
		}()
		ch <- f()
	}()
	select {
	case err := <-ch:
		if err != nil && len(err.Error()) > 6 && err.Error()[:6] == "PANIC:" {
			t.Fatalf("the handshake panics: %v", err)
		}
		return err
	case <-time.After(40 * time.Second):
		t.Fatal("handshake does not end")
	}
	return nil
}

var rsLS, rsLC, rsES, rsEC rsKey

func rsKeys(t *testing.T) {
	if rsLS.pub == nil {
		rsLS, rsLC, rsES, rsEC = rsNew(t), rsNew(t), rsNew(t), rsNew(t)
	}
}

func rsInitiate(t *testing.T, p *rsPeer, me rsKey) (*KX, error, rsRes) {
	a, b := rsPipe()
	p.c = b
	kx := rsKX(a, rsLC, rsLS.pub)
	ch := make(chan rsRes, 1)
	go func() {
		r := p.respond(me, rsES)
		if r.err != nil {
			b.Close()
		}
		ch <- r
	}()
	err := rsHonest(t, kx.Initiate)
	a.Close()
	r := <-ch
	return kx, err, r
}

func rsRespond(t *testing.T, p *rsPeer, me rsKey) (*KX, error, rsRes) {
	a, b := rsPipe()
	p.c = b
	kx := rsKX(a, rsLS, nil)
	ephemeralMutex.Lock()
	ephemeralPublic, ephemeralPrivate = *rsES.pub, *rsES.priv
	ephemeralMutex.Unlock()
	ch := make(chan rsRes, 1)
	go func() {
		r := p.initiate(me, rsEC, rsLS.pub)
		if r.err != nil {
			b.Close()
		}
		ch <- r
	}()
	err := rsHonest(t, kx.Respond)
	a.Close()
	r := <-ch
	return kx, err, r
}

// both ends run the real code.
func TestReplayC10Honest(t *testing.T) {
	rsKeys(t)
	for i := 0; i < 4; i++ {
		a, b := rsPipe()
		ka, kb := rsKX(a, rsLC, rsLS.pub), rsKX(b, rsLS, nil)
		ephemeralMutex.Lock()
		ephemeralPublic, ephemeralPrivate = *rsES.pub, *rsES.priv
		ephemeralMutex.Unlock()
		// Initiate uses the same globals as Respond: give the responder its copy.
		ch := make(chan error, 1)
		go func() { ch <- kb.Respond() }()
		time.Sleep(100 * time.Millisecond)
		if err := rsHonest(t, ka.Initiate); err != nil {
			t.Fatal(err)
		}
		if err := <-ch; err != nil {
			t.Fatal(err)
		}
		if *ka.readKey != *kb.writeKey || *ka.writeKey != *kb.readKey || *ka.readKey == *ka.writeKey {
			t.Fatal("keys are not crossed")
		}
		if *kb.TheirPublicKey != *rsLC.pub || *ka.TheirPublicKey != *rsLS.pub {
			t.Fatal("wrong identities")
		}
		for j := 0; j < 4; j++ {
			m := make([]byte, 10*i+j)
			rand.Read(m)
			x, y := ka, kb
			if j%2 == 1 {
				x, y = kb, ka
			}
			go func() { ch <- x.Write(m) }()
			g, err := y.Read()
			if e := <-ch; e != nil || err != nil || !bytes.Equal(g, m) {
				t.Fatal("first messages", e, err)
			}
		}
	}
}

var rsDev = map[string]func(*rsPeer){
	"plaintext bit":       func(p *rsPeer) { p.plain = func(b []byte) []byte { b[len(b)/2] ^= 4; return b } },
	"plaintext last bit":  func(p *rsPeer) { p.plain = func(b []byte) []byte { b[len(b)-1] ^= 1; return b } },
	"plaintext first bit": func(p *rsPeer) { p.plain = func(b []byte) []byte { b[0] ^= 1; return b } },
	"plaintext truncated": func(p *rsPeer) { p.plain = func(b []byte) []byte { return b[:len(b)-1] } },
	"plaintext half":      func(p *rsPeer) { p.plain = func(b []byte) []byte { return b[:len(b)/2] } },
	"plaintext empty":     func(p *rsPeer) { p.plain = func(b []byte) []byte { return nil } },
	"plaintext zero":      func(p *rsPeer) { p.plain = func(b []byte) []byte { return make([]byte, len(b)) } },
	"plaintext longer":    func(p *rsPeer) { p.plain = func(b []byte) []byte { return append(b, 0) } },
	"plaintext too long":  func(p *rsPeer) { p.plain = func(b []byte) []byte { return append(b, make([]byte, 5000)...) } },
	"wire bit":            func(p *rsPeer) { p.wire = func(b []byte) []byte { b[len(b)/2] ^= 4; return b } },
	"wire short":          func(p *rsPeer) { p.wire = func(b []byte) []byte { return b[:len(b)-1] } },
	"wire tiny":           func(p *rsPeer) { p.wire = func(b []byte) []byte { return b[:3] } },
	"wire empty":          func(p *rsPeer) { p.wire = func(b []byte) []byte { return nil } },
	"wire long":           func(p *rsPeer) { p.wire = func(b []byte) []byte { return append(b, 1) } },
	"key":                 func(p *rsPeer) { p.key = true },
	"nonce":               func(p *rsPeer) { p.nonce = true },
}

func TestReplayC10Initiate(t *testing.T) {
	rsKeys(t)
	kx, err, r := rsInitiate(t, &rsPeer{at: -1}, rsLS)
	if err != nil || r.err != nil || *kx.readKey != r.a || *kx.writeKey != r.b || !bytes.Equal(r.id, rsLC.pub[:]) {
		t.Fatal("protocol peer: ", err, r.err)
	}
	for n, f := range rsDev {
		for at := 0; at < 5; at++ {
			p := &rsPeer{at: at}
			f(p)
			kx, err, _ := rsInitiate(t, p, rsLS)
			if err == nil {
				t.Fatalf("Initiate accepts a peer whose message %d deviates: %s", at, n)
			}
			if kx.readKey != nil || kx.writeKey != nil {
				t.Fatal("session keys after a failed handshake")
			}
		}
	}
	// another server
	if _, err, _ := rsInitiate(t, &rsPeer{at: -1}, rsES); err == nil {
		t.Fatal("Initiate accepts another server")
	}
	// it claims another identity in its last proof
	o := rsKey{rsES.pub, rsLS.priv}
	if _, err, _ := rsInitiate(t, &rsPeer{at: -1}, o); err == nil {
		t.Fatal("Initiate accepts a proof for another identity")
	}
}

func TestReplayC10Respond(t *testing.T) {
	rsKeys(t)
	kx, err, r := rsRespond(t, &rsPeer{at: -1}, rsLC)
	if err != nil || r.err != nil || *kx.writeKey != r.a || *kx.readKey != r.b || *kx.TheirPublicKey != *rsLC.pub {
		t.Fatal("protocol peer: ", err, r.err)
	}
	for n, f := range rsDev {
		for at := 0; at < 5; at++ {
			p := &rsPeer{at: at}
			f(p)
			if at == 0 && (p.wire != nil && n == "wire long" || n == "plaintext longer" || n == "plaintext too long" || p.key || p.nonce) {
				continue // the first message has no frame and no key
			}
			kx, err, _ := rsRespond(t, p, rsLC)
			if err == nil {
				t.Fatalf("Respond accepts a peer whose message %d deviates: %s", at, n)
			}
			if kx.readKey != nil || kx.writeKey != nil {
				t.Fatal("session keys after a failed handshake")
			}
		}
	}
}
