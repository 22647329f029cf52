package zkidentity

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	mrand "math/rand"
	"strings"
	"testing"

	"github.com/companyzero/sntrup4591761"
	"golang.org/x/crypto/ed25519"
)

func riNew(t *testing.T, name, nick string) *FullIdentity {
	fi, err := New(name, nick)
	if err != nil {
		t.Fatal(err)
	}
	return fi
}

var riNames = [][2]string{{"Alice", "alice"}, {"", ""}, {"x", ""}, {"", "y"}, {"ünï", "\x00\xff"}, {"name with spaces", "nick\nline"}, {strings.Repeat("n", 300), "q"}}

func TestReplayC09New(t *testing.T) {
	seen := map[[32]byte]bool{}
	for _, n := range riNames {
		fi := riNew(t, n[0], n[1])
		p := &fi.Public
		if p.Name != n[0] || p.Nick != n[1] {
			t.Fatal("names differ")
		}
		if p.Identity != sha256.Sum256(p.Key[:]) {
			t.Fatal("the handle is not the digest of the public key")
		}
		if seen[p.Identity] {
			t.Fatal("identity repeats")
		}
		seen[p.Identity] = true
		if !p.Verify() {
			t.Fatalf("a fresh identity (%q) does not verify", n)
		}
		// private halves belong to the public ones
		c, k, err := sntrup4591761.Encapsulate(rand.Reader, &p.Key)
		if err != nil {
			t.Fatal(err)
		}
		if k2, ok := sntrup4591761.Decapsulate(c, &fi.PrivateKey); ok != 1 || *k2 != *k {
			t.Fatal("private key does not belong to the public key")
		}
		m := []byte("message")
		if !ed25519.Verify(p.SigKey[:], m, ed25519.Sign(fi.PrivateSigKey[:], m)) {
			t.Fatal("private signing key does not belong to the signing key")
		}
	}
}

func TestReplayC09Altered(t *testing.T) {
	g := mrand.New(mrand.NewSource(1))
	for _, n := range riNames {
		fi := riNew(t, n[0], n[1])
		other := riNew(t, n[0], n[1])
		base := fi.Public
		bad := func(what string, f func(p *PublicIdentity)) {
			p := base
			f(&p)
			if p == base {
				return
			}
			q := p
			if p.Verify() {
				t.Fatalf("identity %q verifies with altered %s", n, what)
			}
			if p != q {
				t.Fatal("verification alters the identity")
			}
			if b, err := p.Marshal(); err == nil {
				if _, err := UnmarshalPublicIdentity(b); err == nil {
					t.Fatalf("identity with altered %s is unmarshalled", what)
				}
			}
			if !base.Verify() {
				t.Fatal("the intact identity stopped verifying")
			}
		}
		for i := range base.Identity {
			bad("handle", func(p *PublicIdentity) { p.Identity[i] ^= 1 << uint(g.Intn(8)) })
			bad("digest", func(p *PublicIdentity) { p.Digest[i] ^= 1 << uint(g.Intn(8)) })
			bad("signing key", func(p *PublicIdentity) { p.SigKey[i] ^= 1 << uint(g.Intn(8)) })
		}
		for i := range base.Signature {
			bad("signature", func(p *PublicIdentity) { p.Signature[i] ^= 1 << uint(g.Intn(8)) })
		}
		for _, i := range []int{0, 1, 2, 600, 1216, 1217, g.Intn(1218), g.Intn(1218)} {
			bad("key", func(p *PublicIdentity) { p.Key[i] ^= 1 << uint(g.Intn(8)) })
		}
		bad("name", func(p *PublicIdentity) { p.Name += "x" })
		bad("nick", func(p *PublicIdentity) { p.Nick += "x" })
		bad("name", func(p *PublicIdentity) { p.Name = "x" + p.Name })
		bad("nick", func(p *PublicIdentity) { p.Nick = strings.ToUpper(p.Nick) })
		bad("name", func(p *PublicIdentity) { p.Name = strings.ToUpper(p.Name) })
		bad("nick", func(p *PublicIdentity) { p.Nick = "" })
		bad("name", func(p *PublicIdentity) { p.Name = "" })
		bad("name and digest", func(p *PublicIdentity) { p.Name += "x"; riDigest(p) })
		bad("nick and digest", func(p *PublicIdentity) { p.Nick += "x"; riDigest(p) })
		bad("key and digest", func(p *PublicIdentity) { p.Key = other.Public.Key; riDigest(p) })
		bad("key, handle and digest", func(p *PublicIdentity) {
			p.Key = other.Public.Key
			p.Identity = other.Public.Identity
			riDigest(p)
		})
		bad("signature of another", func(p *PublicIdentity) { p.Signature = other.Public.Signature })
		bad("signing key of another", func(p *PublicIdentity) { p.SigKey = other.Public.SigKey; riDigest(p) })
		// signed by its own signing key, but the handle is another's
		bad("handle, signed again", func(p *PublicIdentity) {
			p.Identity = other.Public.Identity
			riDigest(p)
			copy(p.Signature[:], ed25519.Sign(fi.PrivateSigKey[:], p.Digest[:]))
		})
		// signed by another signing key
		bad("content, signed by another", func(p *PublicIdentity) {
			p.Nick += "z"
			riDigest(p)
			copy(p.Signature[:], ed25519.Sign(other.PrivateSigKey[:], p.Digest[:]))
		})
		bad("everything zero", func(p *PublicIdentity) { *p = PublicIdentity{} })
	}
}

func riDigest(p *PublicIdentity) {
	d := sha256.New()
	d.Write([]byte(p.Name))
	d.Write([]byte(p.Nick))
	d.Write(p.SigKey[:])
	d.Write(p.Key[:])
	d.Write(p.Identity[:])
	copy(p.Digest[:], d.Sum(nil))
}

func TestReplayC09Message(t *testing.T) {
	a, b := riNew(t, "a", "a"), riNew(t, "b", "b")
	for _, n := range []int{0, 1, 2, 31, 32, 33, 63, 64, 65, 100, 1000, 5000} {
		m := make([]byte, n)
		rand.Read(m)
		s := a.SignMessage(m)
		if !a.Public.VerifyMessage(m, s) {
			t.Fatalf("signature of %d bytes does not verify", n)
		}
		if b.Public.VerifyMessage(m, s) {
			t.Fatal("signature verifies for another identity")
		}
		for i := 0; i < n; i += 1 + n/50 {
			x := append([]byte(nil), m...)
			x[i] ^= 1
			if a.Public.VerifyMessage(x, s) {
				t.Fatalf("signature verifies for a message altered at %d of %d", i, n)
			}
			if a.Public.VerifyMessage(m[:i], s) {
				t.Fatal("signature verifies for a prefix")
			}
		}
		if n > 0 {
			x := append([]byte(nil), m...)
			x[n-1] ^= 1
			if a.Public.VerifyMessage(x, s) {
				t.Fatal("signature verifies for a message altered at its end")
			}
		}
		if a.Public.VerifyMessage(append(append([]byte(nil), m...), 0), s) {
			t.Fatal("signature verifies for a longer message")
		}
		for i := range s {
			x := s
			x[i] ^= 1
			if a.Public.VerifyMessage(m, x) {
				t.Fatalf("signature altered at %d verifies", i)
			}
		}
	}
}

func TestReplayC09Text(t *testing.T) {
	for i := 0; i < 60; i++ {
		var id [32]byte
		rand.Read(id[:])
		if i == 0 {
			id = [32]byte{}
		}
		p := PublicIdentity{Identity: id}
		s := p.String()
		if s != hex.EncodeToString(id[:]) || p.Fingerprint() != s || Fingerprint(id) != s {
			t.Fatal("text forms differ")
		}
		g, err := String2ID(s)
		if err != nil || *g != id {
			t.Fatal("the text form does not convert back")
		}
		for n := 0; n <= 140; n++ {
			if n == 64 {
				continue
			}
			x := strings.Repeat(s, 3)[:n]
			if g, err := String2ID(x); err == nil {
				t.Fatalf("a text of length %d is converted to %x", n, *g)
			}
		}
		for j := 0; j < 64; j++ {
			for _, c := range []string{"g", " ", "x", "\x00", "-"} {
				if _, err := String2ID(s[:j] + c + s[j+1:]); err == nil {
					t.Fatalf("a text with %q is converted", c)
				}
			}
		}
	}
}

func TestReplayC09Marshal(t *testing.T) {
	for _, n := range riNames {
		fi := riNew(t, n[0], n[1])
		b, err := fi.Public.Marshal()
		if err != nil {
			t.Fatal(err)
		}
		p, err := UnmarshalPublicIdentity(b)
		if err != nil || *p != fi.Public {
			t.Fatal("public identity does not survive", err)
		}
		fb, err := fi.Marshal()
		if err != nil {
			t.Fatal(err)
		}
		f, err := UnmarshalFullIdentity(fb)
		if err != nil || *f != *fi {
			t.Fatal("full identity does not survive", err)
		}
		for i := 0; i < len(b); i += 1 + len(b)/60 {
			x := append([]byte(nil), b...)
			x[i] ^= 1
			if q, err := UnmarshalPublicIdentity(x); err == nil && *q != fi.Public {
				t.Fatalf("bytes altered at %d are accepted", i)
			}
			if _, err := UnmarshalPublicIdentity(b[:i]); err == nil {
				t.Fatal("truncated bytes are accepted")
			}
		}
	}
}
