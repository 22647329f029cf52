package zkidentity

import (
	mrand "math/rand"
	"strings"
	"testing"
)

func TestReplayC23(t *testing.T) {
	g := mrand.New(mrand.NewSource(23))
	f, err := New("some name", "nick")
	if err != nil {
		t.Fatal(err)
	}
	fb, _ := f.Marshal()
	pb, _ := f.Public.Marshal()
	try := func(b []byte) {
		if p, err := UnmarshalPublicIdentity(b); err == nil {
			p.Verify()
			_ = p.String() + p.Fingerprint()
			p.VerifyMessage(b, p.Signature)
			p.Marshal()
		}
		if x, err := UnmarshalFullIdentity(b); err == nil {
			x.Public.Verify()
			x.RecalculateDigest()
			x.Marshal()
		}
	}
	for n := 0; n < 150; n++ {
		for _, src := range [][]byte{fb, pb} {
			b := append([]byte(nil), src...)
			for k := g.Intn(4); k > 0; k-- {
				b[g.Intn(1+g.Intn(len(b)))] = byte(g.Intn(256))
			}
			try(b)
			try(b[:g.Intn(len(b))])
			if n < 80 {
				try(src[:n])
			}
		}
		s := strings.Repeat("0123456789abcdefXYZ-\xff", 8)
		i := g.Intn(len(s))
		j := i + g.Intn(len(s)-i)
		String2ID(s[i:j])
		String2ID(strings.Repeat("a", n))
	}
	try(nil)
	String2ID("")
}
