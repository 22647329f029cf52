package session

import (
	"crypto/rand"
	"net"
	"testing"
	"time"

	"github.com/companyzero/sntrup4591761"
)

type rlConn struct {
	net.Conn
	left int
}

func (c *rlConn) Write(b []byte) (int, error) {
	if c.left--; c.left < 0 {
		c.Conn.Close()
	}
	return c.Conn.Write(b)
}

// The key exchange ends at any step, the lock is free afterwards.
func TestReplayC22(t *testing.T) {
	apub, apriv, _ := sntrup4591761.GenerateKey(rand.Reader)
	bpub, bpriv, _ := sntrup4591761.GenerateKey(rand.Reader)
	for n := 0; n < 24; n++ {
		if err := regenerateEphemeral(); err != nil {
			t.Fatal(err)
		}
		a, b := net.Pipe()
		dl := time.Now().Add(3 * time.Second)
		a.SetDeadline(dl)
		b.SetDeadline(dl)
		x := &KX{Conn: &rlConn{a, n / 2}, MaxMessageSize: 4096, OurPrivateKey: apriv, OurPublicKey: apub, TheirPublicKey: bpub}
		y := &KX{Conn: &rlConn{b, 99}, MaxMessageSize: 4096, OurPrivateKey: bpriv, OurPublicKey: bpub}
		if n%2 == 1 {
			x.Conn, y.Conn = &rlConn{a, 99}, &rlConn{b, n / 2}
		}
		done := make(chan bool, 2)
		go func() {
			x.Initiate()
			a.Close()
			done <- true
		}()
		go func() {
			y.Respond()
			b.Close()
			done <- true
		}()
		for i := 0; i < 2; i++ {
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				t.Fatalf("a key exchange that breaks off at write %v does not end", n)
			}
		}
		if !ephemeralMutex.TryLock() {
			t.Fatalf("break at write %v: the lock of the ephemeral keys stays locked", n)
		}
		ephemeralMutex.Unlock()
	}
}
