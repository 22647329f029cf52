package session

import (
	"bytes"
	"crypto/rand"
	"io"
	"net"
	"testing"
	"time"

	xdr "github.com/davecgh/go-xdr/xdr2"
	"golang.org/x/crypto/nacl/secretbox"
)

// rtConn keeps what is written and serves what is put into in.
type rtConn struct {
	out, in bytes.Buffer
	fail    bool
}

func (c *rtConn) Read(b []byte) (int, error) { return c.in.Read(b) }
func (c *rtConn) Write(b []byte) (int, error) {
	if c.fail {
		return 0, io.ErrClosedPipe
	}
	return c.out.Write(b)
}
func (c *rtConn) Close() error                       { return nil }
func (c *rtConn) LocalAddr() net.Addr                { return nil }
func (c *rtConn) RemoteAddr() net.Addr               { return nil }
func (c *rtConn) SetDeadline(t time.Time) error      { return nil }
func (c *rtConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *rtConn) SetWriteDeadline(t time.Time) error { return nil }

func rtPair(max uint, seq [24]byte) (a, b *KX, ca, cb *rtConn) {
	var k1, k2 [32]byte
	rand.Read(k1[:])
	rand.Read(k2[:])
	r1, w1, r2, w2 := k1, k2, k2, k1
	ca, cb = new(rtConn), new(rtConn)
	a = &KX{Conn: ca, MaxMessageSize: max, readKey: &r1, writeKey: &w1, readSeq: seq, writeSeq: seq}
	b = &KX{Conn: cb, MaxMessageSize: max, readKey: &r2, writeKey: &w2, readSeq: seq, writeSeq: seq}
	return
}

func rtSeqs() (l [][24]byte) {
	l = append(l, [24]byte{}, [24]byte{5}, [24]byte{254}, [24]byte{255, 255}, [24]byte{250, 255, 255, 255}, [24]byte{253, 255, 255, 255, 255, 255, 255})
	return
}

func TestReplayC14Inc(t *testing.T) {
	for _, s := range append(rtSeqs(), [24]byte{0, 255}, [24]byte{255, 1}, [24]byte{255, 255, 0, 7}) {
		for i := 0; i < 600; i++ {
			w := s
			rsIncC14(&w)
			incSeq(&s)
			if s != w {
				t.Fatalf("sequence after increment: got %x want %x", s, w)
			}
		}
	}
}

func rsIncC14(s *[24]byte) {
	for i := 0; i < 8; i++ {
		s[i]++
		if s[i] != 0 {
			return
		}
	}
}

// in order delivery, under the nonce of the position, in both directions.
func TestReplayC14Order(t *testing.T) {
	for _, s := range rtSeqs() {
		a, b, ca, cb := rtPair(1024, s)
		for i := 0; i < 700; i++ {
			x, y, cx, cy := a, b, ca, cb
			if i%3 == 0 {
				x, y, cx, cy = b, a, cb, ca
			}
			m := make([]byte, i%17)
			rand.Read(m)
			key, seq := *x.writeKey, x.writeSeq
			if err := x.Write(m); err != nil {
				t.Fatal(err)
			}
			raw := append([]byte(nil), cx.out.Bytes()...)
			cx.out.Reset()
			var box []byte
			if _, err := xdr.Unmarshal(bytes.NewReader(raw), &box); err != nil {
				t.Fatal(err)
			}
			if g, ok := secretbox.Open(nil, box, &seq, &key); !ok || !bytes.Equal(g, m) {
				t.Fatal("not sealed under the current nonce")
			}
			if x.writeSeq == seq {
				t.Fatal("the nonce is used again")
			}
			cy.in.Write(raw)
			g, err := y.Read()
			if err != nil || !bytes.Equal(g, m) {
				t.Fatalf("in order message %d from %x: %v", i, s, err)
			}
		}
	}
}

func TestReplayC14Refused(t *testing.T) {
	for _, s := range rtSeqs() {
		mk := func(n int) (b *KX, cb *rtConn, f [][]byte) {
			a, b, ca, cb := rtPair(1024, s)
			for i := 0; i < n; i++ {
				ca.out.Reset()
				if a.Write([]byte{byte(i), byte(i >> 8)}) != nil {
					t.Fatal("write")
				}
				f = append(f, append([]byte(nil), ca.out.Bytes()...))
			}
			return
		}
		refuse := func(what string, n int, order ...int) {
			b, cb, f := mk(n)
			for i, k := range order {
				cb.in.Write(f[k])
				m, err := b.Read()
				last := i == len(order)-1
				if last && err == nil {
					t.Fatalf("%s accepted (%x): %x", what, s, m)
				}
				if !last && err != nil {
					t.Fatalf("%s: %v", what, err)
				}
			}
		}
		refuse("replayed message", 2, 0, 0)
		refuse("later replayed message", 3, 0, 1, 0)
		refuse("message after a dropped one", 3, 0, 2)
		refuse("reordered message", 3, 1)
		refuse("message 256 later", 300, 0, 257)
		refuse("message 256 later", 300, 256)
		// altered
		for i := 0; i < 34; i++ {
			b, cb, f := mk(1)
			if i >= len(f[0]) {
				break
			}
			f[0][i] ^= 1
			cb.in.Write(f[0])
			if _, err := b.Read(); err == nil && i < 4+18 {
				t.Fatalf("altered byte %d accepted", i)
			}
		}
		// reflected
		a, _, ca, _ := rtPair(1024, s)
		a.Write([]byte("x"))
		ca.in.Write(ca.out.Bytes())
		if _, err := a.Read(); err == nil {
			t.Fatal("reflected message accepted")
		}
	}
}

func TestReplayC14Size(t *testing.T) {
	for _, max := range []uint{16, 100, 1024} {
		for d := -2; d < 3; d++ {
			a, b, ca, cb := rtPair(max, [24]byte{7})
			n := int(max) - 16 + d
			if n < 0 {
				continue
			}
			seq := a.writeSeq
			err := a.Write(make([]byte, n))
			if (err == nil) != (d <= 0) {
				t.Fatalf("write of %d with limit %d: %v", n, max, err)
			}
			if err != nil && (ca.out.Len() != 0 || a.writeSeq != seq) {
				t.Fatal("a refused message was sent or used a nonce")
			}
			// the reader's own limit
			a, _, ca, _ = rtPair(1<<20, [24]byte{7})
			k := *a.writeKey
			b.readKey = &k
			a.Write(make([]byte, n))
			cb.in.Reset()
			cb.in.Write(ca.out.Bytes())
			_, err = b.Read()
			if (err == nil) != (d <= 0) {
				t.Fatalf("read of %d with limit %d: %v", n, max, err)
			}
		}
	}
	// after a refused message the next one still arrives
	a, b, ca, cb := rtPair(100, [24]byte{})
	a.Write(make([]byte, 500))
	if a.Write([]byte("y")) != nil {
		t.Fatal("write")
	}
	cb.in.Write(ca.out.Bytes())
	if m, err := b.Read(); err != nil || string(m) != "y" {
		t.Fatal("message after a refused one", err)
	}
	// a failed write never reuses the nonce for another message
	a, _, ca, _ = rtPair(100, [24]byte{})
	ca.fail = true
	s := a.writeSeq
	if a.Write([]byte("z")) == nil {
		t.Fatal("failed write not reported")
	}
	if a.writeSeq == s {
		t.Fatal("nonce reused after a failed write")
	}
}
