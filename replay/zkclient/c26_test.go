package main

import (
	"bytes"
	"encoding/hex"
	"math/rand"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"
	"unsafe"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"github.com/nsf/termbox-go"
)

func zzKept(z *ZKC) map[string]string {
	return zzTree(filepath.Join(z.settings.Root, inboundDir))
}
func zzOf(z *ZKC) string { return hex.EncodeToString(z.id.Public.Identity[:]) }

// zzPush delivers raw bytes as a message of from.
func zzPush(t *testing.T, z *ZKC, from [32]byte, clear bool, b []byte) (err error) {
	t.Helper()
	zzTrap(t, "message", func() {
		err = z.handlePush(rpc.Message{Command: rpc.TaggedCmdPush, Cleartext: clear}, rpc.Push{From: from, Received: time.Now().Unix(), Payload: b})
	})
	return
}

// zzBlob returns the blob that a client sent to another, if any.
func zzBlob(t *testing.T, z, to *ZKC) []byte {
	t.Helper()
	for {
		select {
		case m := <-z.hi:
			if c, ok := m.payload.(rpc.Cache); ok {
				if c.To != to.id.Public.Identity {
					t.Errorf("a key exchange goes to %x", c.To)
				}
				return c.Payload
			}
		default:
			return nil
		}
	}
}

// zzTalk checks that two clients understand each other.
func zzTalk(t *testing.T, a, b *ZKC) {
	t.Helper()
	for i := 0; i < 2; i++ {
		text := strings.Repeat("q", rand.Intn(1000)) + hex.EncodeToString([]byte(time.Now().String()))
		if err := zzTell(t, a, b, rpc.PrivateMessage{Text: text, Mode: rpc.MessageModeNormal}); err != nil {
			t.Errorf("%v is not understood: %v", a.id.Public.Nick, err)
		}
		a, b = b, a
	}
}

func TestReplayC26Messages(t *testing.T) {
	me, a, b := zzClient(t, "me"), zzClient(t, "ann"), zzClient(t, "bob")
	zzMeet(t, me, a)
	zzMeet(t, me, b)
	n := 0
	text := func() string { n++; return "secret-" + string(rune('a'+n)) + "-" }
	// another's message
	was := zzKept(me)
	p := zzSeal(t, a, me, rpc.PrivateMessage{Text: text(), Mode: rpc.MessageModeNormal})
	if zzPush(t, me, b.id.Public.Identity, false, p.Payload) == nil {
		t.Error("a message is taken for that of another")
	}
	if zzPush(t, me, [32]byte{}, false, p.Payload) == nil {
		t.Error("a message without sender is taken")
	}
	if len(zzShows(me, "secret-")) != 0 {
		t.Error("a message that does not authenticate is shown")
	}
	// one that is not encrypted
	for _, clear := range []bool{false, true} {
		var q bytes.Buffer
		xdr.Marshal(&q, rpc.CRPC{Timestamp: 1, Compression: rpc.CRPCCompNone, Command: rpc.CRPCCmdPrivateMessage})
		xdr.Marshal(&q, rpc.PrivateMessage{Text: text(), Mode: rpc.MessageModeNormal})
		for _, x := range [][]byte{q.Bytes(), q.Bytes()[8:], p.Payload[:len(p.Payload)-1], nil, {0}} {
			if zzPush(t, me, b.id.Public.Identity, clear, x) == nil {
				t.Error("a message that is not encrypted is taken")
			}
		}
	}
	for _, cmd := range []uint32{rpc.ProxyCmdResetRatchet + 1, rpc.ProxyCmdResetRatchet - 1, 1 << 31} {
		var q bytes.Buffer
		xdr.Marshal(&q, rpc.ProxyCmd{Command: cmd, Message: text()})
		if zzPush(t, me, b.id.Public.Identity, true, q.Bytes()) == nil {
			t.Errorf("command %v that is not encrypted is taken", cmd)
		}
	}
	var q bytes.Buffer
	xdr.Marshal(&q, rpc.ProxyCmd{Command: rpc.ProxyCmdResetRatchet, Message: text()})
	if zzPush(t, me, b.id.Public.Identity, false, q.Bytes()) == nil {
		t.Error("a reset that looks encrypted is taken")
	}
	if len(zzShows(me, "secret-")) != 0 {
		t.Error("a message that is not encrypted is shown")
	}
	if d := zzDiffer(was, zzKept(me)); d != nil {
		t.Errorf("it changes %v", d)
	}
	if zzPush(t, me, a.id.Public.Identity, false, p.Payload) != nil || len(zzShows(me, "secret-")) != 1 {
		t.Error("the message itself is not taken")
	}
	// exactly what was sent
	for _, l := range []int{0, 1, 2, 10, 50, 500, 3000} {
		for _, same := range []bool{true, false} {
			body := make([]byte, l)
			for i := range body {
				body[i] = 'z'
				if !same {
					body[i] = "0123456789abcdefghijkmnopqrstuvwxyABCDEFGHIJKLMNOPQRSTUVWXYZ"[rand.Intn(59)]
				}
			}
			f := text() + string(body) + "-end"
			err := zzTell(t, a, me, rpc.PrivateMessage{Text: f, Mode: rpc.MessageModeNormal})
			w := zzShows(me, f)
			if err != nil || len(w) != 1 || w[0].nick != "ann" {
				t.Errorf("a message of %v bytes arrives %v times: %v", len(f), len(w), err)
			}
		}
	}
	// the reset is that of its sender only
	was = zzKept(me)
	xa := zzOf(a)
	if zzPush(t, me, b.id.Public.Identity, true, q.Bytes()) != nil {
		t.Error("a reset is refused")
	}
	for _, f := range zzDiffer(was, zzKept(me)) {
		if strings.HasPrefix(f, xa) {
			t.Errorf("the reset of one changes %v of another", f)
		}
	}
	if _, ok := zzKept(me)[filepath.Join(zzOf(b), ratchetFilename)]; ok {
		t.Error("the ratchet is not reset")
	}
	zzTalk(t, a, me)
}

// TestReplayC26Resets: a reset is that of its sender, whatever nick it chose.
func TestReplayC26Resets(t *testing.T) {
	me := zzClient(t, "me")
	var ps []*ZKC
	for i := 0; i < 3; i++ {
		p := zzClient(t, "bob")
		zzMeet(t, me, p)
		ps = append(ps, p)
	}
	var q bytes.Buffer
	xdr.Marshal(&q, rpc.ProxyCmd{Command: rpc.ProxyCmdResetRatchet, Message: "again"})
	for _, i := range []int{1, 0, 2} {
		was := zzKept(me)
		if err := zzPush(t, me, ps[i].id.Public.Identity, true, q.Bytes()); err != nil {
			t.Errorf("a reset is refused: %v", err)
		}
		for _, f := range zzDiffer(was, zzKept(me)) {
			if !strings.HasPrefix(f, zzOf(ps[i])) {
				t.Errorf("the reset of %v changes %v", zzOf(ps[i]), f)
			}
		}
		if me.ratchetExists(ps[i].id.Public.Identity) {
			t.Error("the ratchet is not reset")
		}
		if zzBlob(t, me, ps[i]) == nil {
			t.Error("no new exchange is started")
		}
	}
}

// zzForge makes the first message of a key exchange with me.
func zzForge(t *testing.T, me *ZKC, id zkidentity.PublicIdentity, by *ZKC) []byte {
	t.Helper()
	c, k, err := sntrup4591761.Encapsulate(zzRand{}, &me.id.Public.Key)
	if err != nil {
		t.Skip(err)
	}
	r := ratchet.New(zzRand{})
	r.MyPrivateKey = &by.id.PrivateKey
	r.MySigningPublic = &by.id.Public.SigKey
	r.TheirIdentityPublic = &me.id.Public.Identity
	r.TheirPublicKey = &me.id.Public.Key
	kx := new(ratchet.KeyExchange)
	if err = r.FillKeyExchange(kx); err != nil {
		t.Skip(err)
	}
	var b bytes.Buffer
	xdr.Marshal(&b, rpc.IdentityKX{Identity: id, KX: *kx})
	enc, nonce, err := blobshare.Encrypt(b.Bytes(), k)
	if err != nil {
		t.Skip(err)
	}
	return append(c[:], blobshare.PackNonce(nonce, enc)...)
}

type zzRand struct{}

func (zzRand) Read(b []byte) (int, error) { return rand.Read(b) }

func TestReplayC26Exchange(t *testing.T) {
	me, a, b, x := zzClient(t, "me"), zzClient(t, "ann"), zzClient(t, "bob"), zzClient(t, "eve")
	for _, z := range []*ZKC{me, a, b, x} {
		z.directory = true
	}
	zzMeet(t, me, b)
	refused := func(what string, from [32]byte, m []byte) {
		t.Helper()
		was := zzKept(me)
		err := zzPush(t, me, from, false, m)
		if d := zzDiffer(was, zzKept(me)); d != nil || err == nil {
			t.Errorf("%v: %v, it changes %v", what, err, d)
		}
		if out := zzSent(me); len(out) != 0 {
			t.Errorf("%v: is answered", what)
		}
		if got := zzBlob(t, me, x); got != nil {
			t.Errorf("%v: is answered", what)
		}
	}
	xi := x.id.Public.Identity
	refused("identity of another", xi, zzForge(t, me, a.id.Public, x))
	refused("identity of a peer", xi, zzForge(t, me, b.id.Public, x))
	refused("own identity", xi, zzForge(t, me, me.id.Public, x))
	refused("exchange of another", a.id.Public.Identity, zzForge(t, me, x.id.Public, x))
	for i := 0; i < 5; i++ {
		id := x.id.Public
		switch i {
		case 0:
			id.Nick = "bob"
		case 1:
			id.Name = "bob"
		case 2:
			id.Key[5] ^= 1
		case 3:
			id.Key = a.id.Public.Key
		case 4:
			id.Signature[3] ^= 1
		}
		refused("identity that does not verify", xi, zzForge(t, me, id, x))
		id.SigKey = a.id.Public.SigKey
		refused("identity that does not verify", xi, zzForge(t, me, id, x))
	}
	good := zzForge(t, me, x.id.Public, x)
	refused("no exchange", xi, nil)
	refused("short exchange", xi, good[:100])
	refused("short exchange", xi, good[:sntrup4591761.CiphertextSize+10])
	refused("cut exchange", xi, good[:len(good)-1])
	refused("an exchange of a known peer", b.id.Public.Identity, zzForge(t, me, b.id.Public, b))
	zzTalk(t, b, me)

	// a complete exchange, while another is under way
	if err := me.step1IDKX(x.id.Public); err != nil {
		t.Fatal(err)
	}
	toX := zzBlob(t, me, x)
	if err := me.step1IDKX(a.id.Public); err != nil {
		t.Fatal(err)
	}
	toA := zzBlob(t, me, a)
	if err := zzPush(t, a, me.id.Public.Identity, false, toA); err != nil {
		t.Fatal(err)
	}
	back := zzBlob(t, a, me)
	if err := zzPush(t, x, me.id.Public.Identity, false, toX); err != nil {
		t.Fatal(err)
	}
	backX := zzBlob(t, x, me)
	if err := zzPush(t, me, a.id.Public.Identity, false, back); err != nil {
		t.Fatal(err)
	}
	zzTalk(t, a, me)
	zzTalk(t, me, a)
	zzTalk(t, b, me)
	if err := zzPush(t, me, xi, false, backX); err != nil {
		t.Fatal(err)
	}
	zzTalk(t, x, me)
	zzTalk(t, a, me)
	// the answer of one does nothing for another
	y := zzClient(t, "yan")
	if err := me.step1IDKX(y.id.Public); err != nil {
		t.Fatal(err)
	}
	zzSent(me)
	was := zzKept(me)
	for _, m := range [][]byte{back, backX} {
		zzPush(t, me, y.id.Public.Identity, false, m)
		for _, f := range zzDiffer(was, zzKept(me)) {
			if !strings.HasPrefix(f, zzOf(y)) {
				t.Errorf("an answer of another changes %v", f)
			}
		}
	}
	// an identity is kept as it was first seen
	was = zzKept(me)
	other := a.id.Public
	other.Nick = "bob"
	if me.saveIdentity(other) == nil || zzDiffer(was, zzKept(me)) != nil {
		t.Error("an identity is replaced")
	}
	if me.step1IDKX(a.id.Public) == nil || zzDiffer(was, zzKept(me)) != nil {
		t.Error("an exchange replaces an identity")
	}
	zzSent(me)
	refused("an exchange of a known peer", a.id.Public.Identity, zzForge(t, me, a.id.Public, a))
	zzTalk(t, a, me)
	// a reset lets the same identity, and nothing else, come back
	var q bytes.Buffer
	xdr.Marshal(&q, rpc.ProxyCmd{Command: rpc.ProxyCmdResetRatchet, Message: "lost"})
	if err := zzPush(t, me, a.id.Public.Identity, true, q.Bytes()); err != nil {
		t.Fatal(err)
	}
	toA = zzBlob(t, me, a)
	for _, f := range []string{ratchetFilename, halfRatchetFilename} {
		if err := a.removeRatchet(me.id.Public.Identity, f == halfRatchetFilename); err != nil && f == ratchetFilename {
			t.Fatal(err)
		}
	}
	if err := zzPush(t, a, me.id.Public.Identity, false, toA); err != nil {
		t.Fatal(err)
	}
	if err := zzPush(t, me, a.id.Public.Identity, false, zzBlob(t, a, me)); err != nil {
		t.Fatal(err)
	}
	zzTalk(t, a, me)
	zzTalk(t, x, me)
	zzTalk(t, b, me)
}

// zzAsked returns the question that a window shows.
func zzAsked(w *ttk.Window) *acceptCFPWindow {
	if w == nil {
		return nil
	}
	v := reflect.ValueOf(w).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Type.String() == "ttk.Windower" {
			w := *(*ttk.Windower)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
			if aw, ok := w.(*acceptCFPWindow); ok {
				return aw
			}
		}
	}
	return nil
}

// TestReplayC26Pin: an exchange by PIN.
func TestReplayC26Pin(t *testing.T) {
	zzScreen(t)
	enter := func(w *ttk.Window, x ttk.Windower, on interface{}) {
		zzTrap(t, "enter", func() {
			k := ttk.Key{Key: termbox.KeyEnter}
			if e, ok := on.(*ttk.Edit); ok {
				k.Widget = e
			}
			x.KeyHandler(w, k)
		})
		zzDrawn()
	}
	ask := func(z *ZKC, pw string) []byte {
		z.kw = &kxWindow{zkc: z}
		z.ttkKW = ttk.NewWindow(z.kw)
		z.kw.password = pw
		enter(z.ttkKW, z.kw, z.kw.passwordInput)
		for len(z.hi) != 0 {
			m := <-z.hi
			if r, ok := m.payload.(rpc.Rendezvous); ok {
				z.tagStack.Push(m.msg.Tag)
				return r.Blob
			}
		}
		t.Fatal("nothing is left at the server")
		return nil
	}
	got := func(z *ZKC, blob []byte, pw string) *acceptCFPWindow {
		z.kaw = &kxAcceptWindow{zkc: z}
		z.ttkKAW, z.ttkACFPW = ttk.NewWindow(z.kaw), nil
		z.kaw.rendezvousPullReply = &rpc.RendezvousPullReply{Blob: blob}
		z.kaw.password = pw
		enter(z.ttkKAW, z.kaw, z.kaw.passwordInput)
		return zzAsked(z.ttkACFPW)
	}
	a, b, x := zzClient(t, "ann"), zzClient(t, "bob"), zzClient(t, "eve")
	zzMeet(t, a, x)
	blob := ask(a, "pass 1")
	if bytes.Contains(blob, a.id.Public.Identity[:8]) || bytes.Contains(blob, a.id.Public.SigKey[:8]) {
		t.Fatal("the identity that is left at the server can be read")
	}
	was, wasA := zzTree(b.settings.Root), zzKept(a)
	none := func(what string, aw *acceptCFPWindow) {
		t.Helper()
		if d := zzDiffer(was, zzTree(b.settings.Root)); aw != nil || d != nil || len(b.hi)+len(b.lo) != 0 {
			t.Fatalf("%v: the user is asked (%v), it changes %v", what, aw != nil, d)
		}
	}
	for _, pw := range []string{"", "pass 2", "pass 1 ", "pass"} {
		none("wrong password", got(b, blob, pw))
	}
	for _, i := range []int{0, 20, 32, 50, 60, len(blob) / 2, len(blob) - 1} {
		f := append([]byte(nil), blob...)
		f[i] ^= 4
		none("forged", got(b, f, "pass 1"))
	}
	for _, n := range []int{0, 1, 31, 32, 55, 56, 57, 100, len(blob) - 1} {
		none("cut", got(b, blob[:n], "pass 1"))
	}
	// identities that do not verify
	for i := 0; i < 6; i++ {
		id := x.id.Public
		switch i {
		case 0:
			id.Nick = "ann"
		case 1:
			id.Name = "ann"
		case 2:
			id.Key[5] ^= 1
		case 3:
			id.Signature[3] ^= 1
		case 4:
			id.SigKey = a.id.Public.SigKey
		case 5:
			id.Identity = a.id.Public.Identity
		}
		e := zzClient(t, "eve")
		e.id.Public = id
		none("identity that does not verify", got(b, ask(e, "pass 1"), "pass 1"))
	}
	own := ask(b, "pass 1")
	was = zzTree(b.settings.Root)
	none("the user himself", got(b, own, "pass 1"))

	aw := got(b, blob, "pass 1")
	if aw == nil || *aw.pid != a.id.Public {
		t.Fatal("the user is not asked about who left its identity")
	}
	for _, s := range []string{"", "no", "y", "ye", " yes", "yess", "nyes"} {
		aw.question = s
		enter(b.ttkACFPW, aw, aw.questionInput)
		if d := zzDiffer(was, zzTree(b.settings.Root)); d != nil || len(b.hi)+len(b.lo) != 0 {
			t.Fatalf("answer %q: changes %v", s, d)
		}
	}
	aw.question = "yes"
	enter(b.ttkACFPW, aw, aw.questionInput)
	xa := zzOf(a)
	for _, f := range zzDiffer(was, zzTree(b.settings.Root)) {
		if f = strings.TrimPrefix(f, inboundDir+"/"); !strings.HasPrefix(f, xa) && !strings.HasPrefix(f, blobKeysPath) {
			t.Fatalf("who was accepted changes %v", f)
		}
	}
	if !b.identityExists(a.id.Public.Identity) {
		t.Fatal("who was accepted is not kept")
	}
	toA := zzBlob(t, b, a)
	if toA == nil || zzBlob(t, b, a) != nil {
		t.Fatal("who was accepted is not answered, once")
	}
	// only what the key was kept for completes
	for _, m := range [][]byte{nil, toA[:len(toA)-1], toA[:24], toA[1:]} {
		if zzPush(t, a, b.id.Public.Identity, false, m) == nil || zzDiffer(wasA, zzKept(a)) != nil {
			t.Fatal("an answer that is no answer is taken")
		}
	}
	if err := zzPush(t, a, b.id.Public.Identity, false, toA); err != nil {
		t.Fatal(err)
	}
	back := zzBlob(t, a, b)
	if err := zzPush(t, b, a.id.Public.Identity, false, back); err != nil {
		t.Fatal(err)
	}
	zzTalk(t, a, b)
	zzTalk(t, a, x)
	// who is known is not asked about again
	was = zzTree(b.settings.Root)
	none("who is known", got(b, ask(a, "pass 3"), "pass 3"))
	zzTalk(t, b, a)
}
