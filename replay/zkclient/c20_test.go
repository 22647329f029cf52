package main

import (
	"bytes"
	"encoding/hex"
	"io/ioutil"
	"net"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/companyzero/zkc/ratchet/disk"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// zzSpy is a connection that tells what is about to be written.
type zzSpy struct {
	net.Conn
	before func()
	fail   error
}

func (s *zzSpy) Write(b []byte) (int, error) {
	if s.before != nil {
		s.before()
	}
	if s.fail != nil {
		return 0, s.fail
	}
	return s.Conn.Write(b)
}

// zzServe takes a client online; the server's side of the session is returned.
func zzServe(t *testing.T, z *ZKC) (*zzSpy, *session.KX) {
	session.Init()
	a, b := net.Pipe()
	t.Cleanup(func() { a.Close(); b.Close() })
	srv, err := zkidentity.New("server", "server")
	if err != nil {
		t.Skip(err)
	}
	kx := &session.KX{Conn: b, MaxMessageSize: z.msgSize, OurPublicKey: &srv.Public.Key, OurPrivateKey: &srv.PrivateKey}
	done := make(chan error, 1)
	go func() {
		var cmd string
		_, err := xdr.Unmarshal(b, &cmd)
		if err == nil {
			err = kx.Respond()
		}
		done <- err
	}()
	spy := &zzSpy{Conn: a}
	z.serverIdentity = &srv.Public
	z.kx, err = z.sessionPhase(spy)
	if err == nil {
		err = <-done
	}
	if err != nil {
		t.Fatal(err)
	}
	return spy, kx
}

func zzRatchetFile(t *testing.T, z, peer *ZKC) string {
	t.Helper()
	b, err := ioutil.ReadFile(filepath.Join(z.settings.Root, inboundDir, hex.EncodeToString(peer.id.Public.Identity[:]), ratchetFilename))
	if err != nil {
		t.Fatal(err)
	}
	var rs disk.RatchetState
	if _, err = xdr.Unmarshal(bytes.NewReader(b), &rs); err != nil {
		t.Errorf("the stored ratchet is not complete: %v", err)
	}
	return string(b)
}

func TestReplayC20Send(t *testing.T) {
	me, peer := zzClient(t, "me"), zzClient(t, "peer")
	zzMeet(t, me, peer)
	spy, kx := zzServe(t, me)
	id := peer.id.Public.Identity
	was := zzRatchetFile(t, me, peer)
	writes := 0
	spy.before = func() {
		writes++
		if zzRatchetFile(t, me, peer) == was {
			t.Error("a message leaves before the ratchet that encrypted it is stored")
		}
	}
	n := 0
	send := func() error {
		t.Helper()
		n++
		var err error
		zzTrap(t, "sending", func() {
			err = me.cacheCRPC(id, rpc.PrivateMessage{Text: "text" + string(rune('a'+n)), Mode: rpc.MessageModeNormal}, nil)
		})
		return err
	}
	got := make(chan []byte, 16)
	go func() {
		for {
			b, err := kx.Read()
			if err != nil {
				return
			}
			got <- b
		}
	}()
	// deliver gives what left to the peer, which must understand it
	deliver := func() {
		t.Helper()
		select {
		case b := <-got:
			var m rpc.Message
			var c rpc.Cache
			br := bytes.NewReader(b)
			if _, err := xdr.Unmarshal(br, &m); err != nil {
				t.Fatal(err)
			}
			if _, err := xdr.Unmarshal(br, &c); err != nil || m.Command != rpc.TaggedCmdCache || m.Cleartext || c.To != id {
				t.Fatalf("%v sent to %x: %v", m.Command, c.To, err)
			}
			text := "text" + string(rune('a'+n))
			err := peer.handlePush(rpc.Message{Command: rpc.TaggedCmdPush}, rpc.Push{From: me.id.Public.Identity, Received: time.Now().Unix(), Payload: c.Payload})
			if err != nil || len(zzShows(peer, text)) != 1 {
				t.Errorf("the message is not understood: %v", err)
			}
		case <-time.After(10 * time.Second):
			t.Fatal("nothing is sent")
		}
	}
	for i := 0; i < 4; i++ {
		was = zzRatchetFile(t, me, peer)
		if err := send(); err != nil {
			t.Fatal(err)
		}
		deliver()
		if i == 1 { // turn
			if err := zzTell(t, peer, me, rpc.PrivateMessage{Text: "answer", Mode: rpc.MessageModeNormal}); err != nil {
				t.Fatal(err)
			}
		}
	}
	// the ratchet cannot be stored
	for _, lim := range []uint64{0, 1, uint64(len(was)) / 2} {
		was = zzRatchetFile(t, me, peer)
		w := writes
		var err error
		zzFull(t, lim, func() { err = send() })
		if err == nil || writes != w {
			t.Errorf("a message leaves although its ratchet can not be stored: %v, %v writes", err, writes-w)
		}
		if zzRatchetFile(t, me, peer) != was {
			t.Error("a ratchet that could not be stored replaces the old one")
		}
		if err := send(); err != nil {
			t.Fatal(err)
		}
		deliver()
	}
	// the connection breaks
	was = zzRatchetFile(t, me, peer)
	spy.fail = net.ErrClosed
	if send() == nil {
		t.Error("a message that did not leave is taken for sent")
	}
	spy.fail = nil
	was = zzRatchetFile(t, me, peer)
	// (the session has no say in what follows)
	a, b := spy, kx
	spy, kx = zzServe(t, me)
	spy.before = a.before
	b.Close()
	go func() {
		for {
			b, err := kx.Read()
			if err != nil {
				return
			}
			got <- b
		}
	}()
	if err := send(); err != nil {
		t.Fatal(err)
	}
	deliver()
	held := 0
	for _, c := range me.tagCallback {
		if c != nil {
			held++
		}
	}
	if held != 8 {
		t.Errorf("%v tags are held for 8 messages", held)
	}
}

func TestReplayC20Receive(t *testing.T) {
	me, peer := zzClient(t, "me"), zzClient(t, "peer")
	zzMeet(t, me, peer)
	tell := func(p rpc.Push) (err error) {
		t.Helper()
		zzTrap(t, "receiving", func() { err = me.handlePush(rpc.Message{Command: rpc.TaggedCmdPush}, p) })
		return
	}
	for i, lim := range []uint64{0, 1, 100} {
		text := strings.Repeat("x", i+1) + "-text"
		was := zzRatchetFile(t, me, peer)
		p := zzSeal(t, peer, me, rpc.PrivateMessage{Text: text, Mode: rpc.MessageModeNormal})
		var err error
		zzFull(t, lim, func() { err = tell(p) })
		if err == nil || len(zzShows(me, text)) != 0 {
			t.Errorf("a message is shown although its ratchet can not be stored: %v", err)
		}
		if zzRatchetFile(t, me, peer) != was {
			t.Error("a ratchet that could not be stored replaces the old one")
		}
		if err := tell(p); err != nil || len(zzShows(me, text)) != 1 {
			t.Errorf("a message is not shown: %v", err)
		}
		if zzRatchetFile(t, me, peer) == was {
			t.Error("the ratchet of a received message is not stored")
		}
		if err := tell(p); err == nil || len(zzShows(me, text)) != 1 {
			t.Error("a message is taken twice")
		}
		// what can not be decrypted changes nothing
		was = zzRatchetFile(t, me, peer)
		q := zzSeal(t, peer, me, rpc.PrivateMessage{Text: "bad", Mode: rpc.MessageModeNormal})
		q.Payload[len(q.Payload)-1] ^= 1
		if tell(q) == nil || zzRatchetFile(t, me, peer) != was {
			t.Error("a message that does not decrypt changes the ratchet")
		}
	}
}
