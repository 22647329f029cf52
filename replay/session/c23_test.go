package session

import (
	"bytes"
	"crypto/rand"
	"fmt"
	mrand "math/rand"
	"net"
	"testing"
	"time"

	"github.com/companyzero/sntrup4591761"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"golang.org/x/crypto/nacl/secretbox"
)

// rzConn alters what is written: write number at carries a payload of another length.
type rzConn struct {
	net.Conn
	n, at int
	how   int
	g     *mrand.Rand
}

func (c *rzConn) Write(b []byte) (int, error) {
	c.n++
	if c.n-1 != c.at {
		return c.Conn.Write(b)
	}
	x := append([]byte(nil), b...)
	switch c.how % 5 {
	case 0:
		x = x[:c.g.Intn(len(x))]
		c.Conn.Write(x)
		c.Conn.Close()
		return len(b), nil
	case 1:
		x[c.g.Intn(len(x))] ^= byte(1 + c.g.Intn(255))
	case 2:
		x = append(x, x...)
	case 3:
		c.g.Read(x)
	case 4:
		x = nil
	}
	c.Conn.Write(x)
	return len(b), nil
}

func rzPair() (net.Conn, net.Conn) {
	a, b := net.Pipe()
	d := time.Now().Add(time.Second)
	a.SetDeadline(d)
	b.SetDeadline(d)
	return a, b
}

// Each side meets a peer whose messages are damaged.
func TestReplayC23Damaged(t *testing.T) {
	if err := regenerateEphemeral(); err != nil {
		t.Fatal(err)
	}
	apub, apriv, _ := sntrup4591761.GenerateKey(rand.Reader)
	bpub, bpriv, _ := sntrup4591761.GenerateKey(rand.Reader)
	var fails []string
	for at := 0; at < 12; at++ {
		for how := 0; how < 5; how++ {
			for side := 0; side < 2; side++ {
				a, b := rzPair()
				g := mrand.New(mrand.NewSource(int64(at*10 + how)))
				var ca, cb net.Conn = a, b
				if side == 0 {
					ca = &rzConn{Conn: a, at: at, how: how, g: g}
				} else {
					cb = &rzConn{Conn: b, at: at, how: how, g: g}
				}
				x := &KX{Conn: ca, MaxMessageSize: 4096, OurPrivateKey: apriv, OurPublicKey: apub, TheirPublicKey: bpub}
				y := &KX{Conn: cb, MaxMessageSize: 4096, OurPrivateKey: bpriv, OurPublicKey: bpub}
				done := make(chan string, 2)
				run := func(what string, c net.Conn, f func() error) {
					defer func() {
						s := ""
						if e := recover(); e != nil {
							s = fmt.Sprintf("%v with write %v of side %v damaged (%v): panic: runtime error: %v", what, at, side, how, e)
						}
						c.Close()
						done <- s
					}()
					if f() == nil {
						c.SetDeadline(time.Now().Add(time.Second))
					}
				}
				go run("Initiate", a, x.Initiate)
				go run("Respond", b, y.Respond)
				for i := 0; i < 2; i++ {
					if s := <-done; s != "" {
						fails = append(fails, s)
					}
				}
			}
		}
	}
	for _, s := range fails {
		t.Error(s)
	}
}

// A peer that knows the protocol sends payloads of other lengths, sealed with the right keys.
func TestReplayC23Lengths(t *testing.T) {
	if err := regenerateEphemeral(); err != nil {
		t.Fatal(err)
	}
	bpub, bpriv, _ := sntrup4591761.GenerateKey(rand.Reader)
	apub, _, _ := sntrup4591761.GenerateKey(rand.Reader)
	lens := []int{0, 1, 31, 32, 33, 1000, sntrup4591761.PublicKeySize - 1, sntrup4591761.PublicKeySize + 1, sntrup4591761.CiphertextSize - 1, sntrup4591761.CiphertextSize + 1, 4000}
	for step := 0; step < 4; step++ {
		for _, n := range lens {
			a, b := rzPair()
			y := &KX{Conn: b, MaxMessageSize: 4096, OurPrivateKey: bpriv, OurPublicKey: bpub}
			done := make(chan string, 1)
			go func() {
				defer func() {
					s := ""
					if e := recover(); e != nil {
						s = fmt.Sprintf("a payload of %v bytes in step %v: panic: runtime error: %v", n, step, e)
					}
					b.Close()
					done <- s
				}()
				y.Respond()
			}()
			x := &KX{Conn: a, MaxMessageSize: 4096, OurPublicKey: apub, TheirPublicKey: bpub}
			epub, epriv, _ := sntrup4591761.GenerateKey(rand.Reader)
			odd := make([]byte, n)
			func() {
				defer a.Close()
				k1, err := genKeyAndSendCipher(x, bpub, nil)
				if err != nil {
					return
				}
				if step == 0 {
					x.writeWithKey(odd, k1)
					return
				}
				x.writeWithKey(epub[:], k1)
				k2, ok := recvCipherAndGetKey(x, epriv, k1)
				if ok != 1 {
					return
				}
				their, err := recvEncryptedIdentity(x, k2)
				if err != nil {
					return
				}
				sp, err := recvProof(x, k1, k2, epub[:], their[:])
				if err != nil {
					return
				}
				if step == 1 {
					x.writeWithKey(odd, k2)
					return
				}
				k3, err := genKeyAndSendCipher(x, their, k2)
				if err != nil {
					return
				}
				if step == 2 {
					x.writeWithKey(odd, k3)
					return
				}
				x.writeWithKey(apub[:], k3)
				_ = sp
				x.writeWithKey(odd, k3)
			}()
			if s := <-done; s != "" {
				t.Error(s)
			}
		}
	}
}

// The same for the side that begins.
func TestReplayC23Answers(t *testing.T) {
	bpub, bpriv, _ := sntrup4591761.GenerateKey(rand.Reader)
	apub, apriv, _ := sntrup4591761.GenerateKey(rand.Reader)
	lens := []int{0, 1, 31, 32, 33, 1000, sntrup4591761.PublicKeySize - 1, sntrup4591761.PublicKeySize + 1, sntrup4591761.CiphertextSize - 1, sntrup4591761.CiphertextSize + 1, 4000}
	for step := 0; step < 5; step++ {
		for _, n := range lens {
			a, b := rzPair()
			x := &KX{Conn: a, MaxMessageSize: 4096, OurPrivateKey: apriv, OurPublicKey: apub, TheirPublicKey: bpub}
			done := make(chan string, 1)
			go func() {
				defer func() {
					s := ""
					if e := recover(); e != nil {
						s = fmt.Sprintf("an answer of %v bytes in step %v: panic: runtime error: %v", n, step, e)
					}
					a.Close()
					done <- s
				}()
				x.Initiate()
			}()
			y := &KX{Conn: b, MaxMessageSize: 4096, OurPrivateKey: bpriv, OurPublicKey: bpub}
			epub, epriv, _ := sntrup4591761.GenerateKey(rand.Reader)
			odd := make([]byte, n)
			func() {
				defer b.Close()
				k1, ok := recvCipherAndGetKey(y, bpriv, nil)
				if ok != 1 {
					return
				}
				their, err := recvEncryptedIdentity(y, k1)
				if err != nil {
					return
				}
				if step == 0 {
					y.writeWithKey(odd, k1)
					return
				}
				k2, err := genKeyAndSendCipher(y, their, k1)
				if err != nil {
					return
				}
				if step == 1 {
					y.writeWithKey(odd, k2)
					return
				}
				y.writeWithKey(epub[:], k2)
				if step == 2 {
					y.writeWithKey(odd, k2)
					return
				}
				sp, err := sendProof(y, k1, k2, their[:], epub[:])
				if err != nil {
					return
				}
				k3, ok := recvCipherAndGetKey(y, epriv, k2)
				if ok != 1 {
					return
				}
				pk, err := recvEncryptedIdentity(y, k3)
				if err != nil {
					return
				}
				cp, err := recvProof(y, k2, k3, sp, pk[:])
				if err != nil {
					return
				}
				if step == 3 {
					y.writeWithKey(odd, k3)
					return
				}
				k4, err := genKeyAndSendCipher(y, pk, k3)
				if err != nil {
					return
				}
				_ = cp
				y.writeWithKey(odd, k4)
			}()
			if s := <-done; s != "" {
				t.Error(s)
			}
		}
	}
}

// rzBuf serves bytes.
type rzBuf struct {
	net.Conn
	bytes.Buffer
}

func (b *rzBuf) Read(p []byte) (int, error)  { return b.Buffer.Read(p) }
func (b *rzBuf) Write(p []byte) (int, error) { return b.Buffer.Write(p) }

// Frames of an established session.
func TestReplayC23Frames(t *testing.T) {
	g := mrand.New(mrand.NewSource(3))
	for n := 0; n < 4000; n++ {
		var key [32]byte
		c := new(rzBuf)
		kx := &KX{Conn: c, MaxMessageSize: 1024, readKey: &key, writeKey: &key}
		m := make([]byte, g.Intn(200))
		var seq [24]byte
		box := secretbox.Seal(nil, m, &seq, &key)
		if g.Intn(2) == 0 {
			box = box[:g.Intn(len(box)+1)]
		}
		var w bytes.Buffer
		xdr.Marshal(&w, box)
		b := w.Bytes()
		switch g.Intn(4) {
		case 0:
			b = b[:g.Intn(len(b)+1)]
		case 1:
			b[g.Intn(4)] ^= byte(1 << uint(g.Intn(8)))
		}
		c.Buffer.Write(b)
		kx.Read()
		kx.Read()
	}
}
