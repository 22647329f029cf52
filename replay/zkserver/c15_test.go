package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"github.com/companyzero/zkc/rpc"
)

// zzStore stores a blob; "" is returned for a refused one.
func zzStore(t *testing.T, z *ZKS, tag uint32, blob []byte, exp string) string {
	c := make(chan *RPCWrapper, 4)
	err := z.handleRendezvous(c, rpc.Message{Command: rpc.TaggedCmdRendezvous, Tag: tag}, rpc.Rendezvous{Blob: blob, Expiration: exp})
	if err != nil {
		if len(c) != 0 {
			t.Error("a failed request was answered")
		}
		return ""
	}
	if len(c) != 1 {
		t.Errorf("%d replies", len(c))
		return ""
	}
	m := <-c
	if m.Message.Tag != tag || m.Message.Command != rpc.TaggedCmdRendezvousReply {
		t.Errorf("reply %v under tag %v, not %v", m.Message.Command, m.Message.Tag, tag)
	}
	p := m.Payload.(rpc.RendezvousReply)
	if p.Error != "" {
		return ""
	}
	return p.Token
}

func zzFetch(t *testing.T, z *ZKS, tag uint32, tok string) ([]byte, bool) {
	c := make(chan *RPCWrapper, 4)
	err := z.handleRendezvousPull(c, rpc.Message{Command: rpc.TaggedCmdRendezvousPull, Tag: tag}, rpc.RendezvousPull{Token: tok})
	if err != nil {
		return nil, false
	}
	if len(c) != 1 {
		t.Errorf("%d replies", len(c))
		return nil, false
	}
	m := <-c
	if m.Message.Tag != tag || m.Message.Command != rpc.TaggedCmdRendezvousPullReply {
		t.Errorf("reply %v under tag %v, not %v", m.Message.Command, m.Message.Tag, tag)
	}
	p := m.Payload.(rpc.RendezvousPullReply)
	if p.Error != "" {
		if len(p.Blob) != 0 {
			t.Error("an error carries a blob")
		}
		return nil, false
	}
	if p.Token != tok {
		t.Errorf("reply for token %q, not %q", p.Token, tok)
	}
	return p.Blob, true
}

func zzBlob(i int) []byte {
	n := []int{0, 1, 2, 3, 4, 5, 31, 100, 1000, 4095, 4096}[i%11]
	b := make([]byte, n)
	rand.New(rand.NewSource(int64(i))).Read(b)
	if i%3 == 0 {
		for k := range b {
			b[k] = byte(i)
		}
	}
	return b
}

func zzDBFile(d string) []byte {
	b, _ := ioutil.ReadFile(filepath.Join(d, rendezvousPath))
	return b
}

func zzCheckAll(t *testing.T, z *ZKS, m map[string][]byte) {
	t.Helper()
	for k, b := range m {
		g, ok := zzFetch(t, z, 7, k)
		if !ok || !bytes.Equal(g, b) {
			t.Fatalf("token %q: fetched %d bytes (ok %v), not the %d stored", k, len(g), ok, len(b))
		}
	}
	for _, k := range []string{"", "x", "1000000", "-1", "0123456", "12 ", "0x1", "1000000000000"} {
		if _, ok := zzFetch(t, z, 3, k); ok && m[k] == nil {
			t.Fatalf("token %q, which was never given out, returned a blob", k)
		}
	}
}

func TestReplayC15Sequence(t *testing.T) {
	z, d := zzServer(t)
	zzCheckAll(t, z, nil)
	m := map[string][]byte{}
	for i := 0; i < 120; i++ {
		b := zzBlob(i)
		k := zzStore(t, z, uint32(i%tagDepth), b, fmt.Sprint(i%169))
		if k == "" {
			t.Fatalf("a blob of %d bytes was refused", len(b))
		}
		if _, ok := m[k]; ok {
			t.Fatalf("token %q given out twice", k)
		}
		m[k] = b
		for _, x := range []struct {
			n int
			e string
		}{{4097, "1"}, {5000, "168"}, {4096 * 3, "24"}, {10, "169"}, {10, "1000"}, {10, "-1"}, {0, ""}, {5, "x"}, {5, "18446744073709551615"}, {5, "18446744073709551617"}, {5, "1h"}} {
			if i%10 != 0 {
				break
			}
			before := zzDBFile(d)
			if zzStore(t, z, 1, make([]byte, x.n), x.e) != "" {
				t.Fatalf("a blob of %d bytes for %q hours was accepted", x.n, x.e)
			}
			if !bytes.Equal(before, zzDBFile(d)) {
				t.Fatal("a refused request changed the database")
			}
		}
		if i%20 == 0 {
			zzCheckAll(t, z, m)
		}
	}
	zzCheckAll(t, z, m)
}

// All sessions store at the same time.
func TestReplayC15Sessions(t *testing.T) {
	for round := 0; round < 6; round++ {
		z, _ := zzServer(t)
		var (
			mtx sync.Mutex
			wg  sync.WaitGroup
		)
		m := map[string][]byte{}
		for g := 0; g < 8; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 12; i++ {
					b := append([]byte{byte(g), byte(i)}, zzBlob(i%9)...)
					k := zzStore(t, z, uint32(g), b, "5")
					if k == "" {
						t.Error("refused")
						return
					}
					mtx.Lock()
					if _, ok := m[k]; ok {
						t.Errorf("token %q given out twice", k)
					}
					m[k] = b
					mtx.Unlock()
					if g2, ok := zzFetch(t, z, uint32(g), k); !ok || !bytes.Equal(g2, b) {
						t.Errorf("token %q: fetched %v (ok %v), not %v", k, g2, ok, b)
					}
				}
			}()
		}
		wg.Wait()
		if t.Failed() {
			return
		}
		zzCheckAll(t, z, m)
	}
}

// A blob that could not be stored is not reported as stored.
func TestReplayC15FullDisk(t *testing.T) {
	for _, n := range []uint64{0, 40, 200} {
		z, _ := zzServer(t)
		m := map[string][]byte{}
		for i := 0; i < 3; i++ {
			b := zzBlob(i + 4)
			m[zzStore(t, z, 1, b, "9")] = b
		}
		var tok string
		b := zzBlob(7)
		zzFull(t, n, func() {
			tok = zzStore(t, z, 1, b, "9")
		})
		if tok != "" {
			if g, ok := zzFetch(t, z, 2, tok); !ok || !bytes.Equal(g, b) {
				t.Fatal("a blob that was not stored was given a token")
			}
		}
		zzCheckAll(t, z, m)
	}
}

// Every token is in use.
func TestReplayC15AllTaken(t *testing.T) {
	z, d := zzServer(t)
	b := []byte("first")
	k := zzStore(t, z, 1, b, "9")
	if k == "" {
		t.Fatal("refused")
	}
	val := ""
	for _, l := range bytes.Split(zzDBFile(d), []byte("\n")) {
		if p := bytes.Index(l, []byte("=")); p > 0 && !bytes.HasPrefix(l, []byte("#")) {
			val = string(bytes.TrimSpace(l[p+1:]))
		}
	}
	if val == "" {
		t.Skip("format of the database is not known")
	}
	var o bytes.Buffer
	for i := 0; i < 1000000; i++ {
		fmt.Fprintf(&o, "%d = %s\n", i, val)
	}
	f := filepath.Join(d, rendezvousPath)
	if err := ioutil.WriteFile(f, o.Bytes(), 0600); err != nil {
		t.Skip(err)
	}
	os.RemoveAll(filepath.Join(d, "log"))
	if k := zzStore(t, z, 1, []byte("second"), "9"); k != "" {
		t.Fatalf("token %q was in use and was given out again", k)
	}
	for _, k := range []string{"0", "999999", "123456", k} {
		g, ok := zzFetch(t, z, 2, k)
		if !ok || !bytes.Equal(g, b) {
			t.Fatalf("token %q: fetched %q (ok %v)", k, g, ok)
		}
	}
}
