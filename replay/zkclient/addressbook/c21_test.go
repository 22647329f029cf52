package addressbook

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"sync"
	"testing"

	"github.com/companyzero/zkc/zkidentity"
)

func zzCheck(t *testing.T, a *AddressBook, ref map[string]zkidentity.PublicIdentity, hist string) {
	t.Helper()
	all := a.All()
	if len(all) != len(ref) {
		t.Fatalf("%s: %d entries listed, want %d", hist, len(all), len(ref))
	}
	nicks := map[string]bool{}
	ids := map[[zkidentity.IdentitySize]byte]bool{}
	for _, p := range all {
		if nicks[p.Nick] {
			t.Fatalf("%s: nick %q is shown twice", hist, p.Nick)
		}
		if ids[p.Identity] {
			t.Fatalf("%s: identity %x is listed twice", hist, p.Identity[:2])
		}
		nicks[p.Nick] = true
		ids[p.Identity] = true
		if r, ok := ref[p.Nick]; !ok || r != p {
			t.Fatalf("%s: entry %q is not the one that was added", hist, p.Nick)
		}
	}
	for k, v := range ref {
		f, err := a.FindNick(k)
		if err != nil || *f != v {
			t.Fatalf("%s: nick %q does not find its entry: %v", hist, k, err)
		}
		f, err = a.FindIdentity(v.Identity)
		if err != nil || *f != v {
			t.Fatalf("%s: identity of %q does not find its entry: %v", hist, k, err)
		}
		f, err = a.FindIdentityS(hex.EncodeToString(v.Identity[:]))
		if err != nil || *f != v {
			t.Fatalf("%s: identity text of %q does not find its entry: %v", hist, k, err)
		}
	}
}

func TestReplayC21(t *testing.T) {
	for seed := int64(0); seed < 3000; seed++ {
		r := rand.New(rand.NewSource(seed))
		a := New()
		ref := map[string]zkidentity.PublicIdentity{}
		hist := ""
		pool := r.Intn(6) + 2
		mk := func(i int) (id [zkidentity.IdentitySize]byte) {
			// identities that agree in all but one byte
			id[[]int{0, 15, 31, 7, 8, 16, 24, 30}[i%8]] = byte(i + 1)
			return
		}
		names := []string{"a", "a_", "a__", "b", "", "A", "a "}
		for step := 0; step < 14; step++ {
			i := r.Intn(pool)
			id := mk(i)
			switch r.Intn(5) {
			case 0, 1, 2:
				var p zkidentity.PublicIdentity
				p.Identity = id
				p.Nick = names[r.Intn(len(names))]
				p.Name = fmt.Sprint("name", r.Intn(3))
				p.Key[0] = byte(r.Intn(3))
				p.SigKey[1] = byte(r.Intn(3))
				hist += fmt.Sprintf(" Add(%d,%q)", i, p.Nick)
				want := p.Nick
				for {
					o, ok := ref[want]
					if !ok || o.Identity == p.Identity {
						break
					}
					want += "_"
				}
				for k, v := range ref {
					if bytes.Equal(v.Identity[:], id[:]) {
						delete(ref, k)
					}
				}
				n, err := a.Add(p)
				if n != want || (err == ErrDuplicateNick) != (want != p.Nick) || (err == nil) != (want == p.Nick) {
					t.Fatalf("%s: got nick %q, %v want %q", hist, n, err, want)
				}
				p.Nick = want
				ref[want] = p
			case 3:
				hist += fmt.Sprintf(" Del(%d)", i)
				had := false
				for k, v := range ref {
					if v.Identity == id {
						had = true
						delete(ref, k)
					}
				}
				err := a.Del(id)
				if (err == nil) != had || (!had && err != ErrNotFound) {
					t.Fatalf("%s: %v, listed %v", hist, err, had)
				}
				if _, err := a.FindIdentity(id); err != ErrNotFound {
					t.Fatalf("%s: deleted identity is found: %v", hist, err)
				}
			case 4:
				n := names[r.Intn(len(names))]
				_, had := ref[n]
				f, err := a.FindNick(n)
				if had != (err == nil) || (err == nil) != (f != nil) {
					t.Fatalf("%s: FindNick(%q): %v", hist, n, err)
				}
				s := []string{"", "zz", hex.EncodeToString(id[:31]), hex.EncodeToString(id[:]) + "00", hex.EncodeToString(id[:])[1:]}[r.Intn(5)]
				if _, err := a.FindIdentityS(s); err != ErrInvalidID {
					t.Fatalf("%s: FindIdentityS(%q): %v", hist, s, err)
				}
			}
			zzCheck(t, a, ref, hist)
		}
		// what is handed out is a copy
		for k := range ref {
			f, err := a.FindNick(k)
			if err != nil {
				t.Fatal(err)
			}
			f.Nick = "changed"
			g, err := a.FindIdentity(ref[k].Identity)
			if err != nil {
				t.Fatal(err)
			}
			g.Identity[3] ^= 1
			l := a.All()
			l[0].Nick = "x"
		}
		zzCheck(t, a, ref, hist+" (after changing results)")
	}
	// concurrent additions of different identities under one nick
	for round := 0; round < 30; round++ {
		a := New()
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				var p zkidentity.PublicIdentity
				p.Identity[i] = 1
				p.Nick = "n"
				a.Add(p)
				a.FindIdentity(p.Identity)
				a.All()
				if i%2 == 1 {
					a.Del(p.Identity)
				}
			}(i)
		}
		wg.Wait()
		if l := len(a.All()); l != 4 {
			t.Fatalf("concurrent: %d entries, want 4", l)
		}
	}
}
