package account

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func zzRoot(t *testing.T) (string, *Account) {
	d, err := ioutil.TempDir("", "zzacct")
	if err != nil {
		t.Skip(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	a, err := New(d)
	if err != nil {
		t.Skip(err)
	}
	return d, a
}

func zzPid(i int, nick string) (p zkidentity.PublicIdentity) {
	p.Identity[[]int{0, 31, 15, 16, 1}[i%5]] = byte(i + 1)
	p.Nick = nick
	p.Name = "name " + nick
	p.Key[3] = byte(i)
	return
}

// zzTree is what is stored below a directory.
func zzTree(t *testing.T, d string) map[string]string {
	m := map[string]string{}
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			m[p[len(d):]] = "dir"
			return nil
		}
		b, err := ioutil.ReadFile(p)
		if err != nil {
			t.Skip(err)
		}
		m[p[len(d):]] = fi.Mode().String() + string(b)
		return nil
	})
	return m
}

func zzDiff(a, b map[string]string) string {
	var r []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			r = append(r, k+" is gone")
		} else if v != w {
			r = append(r, k+" changed")
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			r = append(r, k+" is new")
		}
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

type zzMsg struct {
	to, from  [32]byte
	payload   []byte
	cleartext bool
	lo, hi    int64
	name      string
}

func TestReplayC13(t *testing.T) {
	for seed := int64(0); seed < 60; seed++ {
		r := rand.New(rand.NewSource(seed))
		root, a := zzRoot(t)
		state := map[int]int{} // 0 absent 1 active 2 disabled
		pids := map[int]zkidentity.PublicIdentity{}
		var msgs []*zzMsg
		hist := ""
		same := func(before map[string]string, what string) {
			t.Helper()
			if d := zzDiff(before, zzTree(t, root)); d != "" {
				t.Fatalf("seed %d%s: %s: %s", seed, hist, what, d)
			}
		}
		for step := 0; step < 40; step++ {
			i := r.Intn(4)
			p := zzPid(i, fmt.Sprint("nick", r.Intn(9)))
			before := zzTree(t, root)
			switch r.Intn(8) {
			case 0, 1:
				force := false
				hist += fmt.Sprintf(" Create(%d)", i)
				err := a.Create(p, force)
				if state[i] != 0 {
					if err == nil {
						t.Fatalf("seed %d%s: an account that exists (state %d) was created again", seed, hist, state[i])
					}
					same(before, "a refused creation changed something")
					break
				}
				if err != nil {
					t.Fatalf("seed %d%s: refused: %v", seed, hist, err)
				}
				state[i], pids[i] = 1, p
			case 2:
				hist += fmt.Sprintf(" Disable(%d)", i)
				err := a.Disable(p.Identity)
				if (err == nil) != (state[i] == 1) {
					t.Fatalf("seed %d%s: state %d: %v", seed, hist, state[i], err)
				}
				if err != nil {
					same(before, "a refused disabling changed something")
				} else {
					state[i] = 2
				}
			case 3:
				hist += fmt.Sprintf(" Enable(%d)", i)
				err := a.Enable(p.Identity)
				if (err == nil) != (state[i] == 2) {
					t.Fatalf("seed %d%s: state %d: %v", seed, hist, state[i], err)
				}
				if err != nil {
					same(before, "a refused enabling changed something")
				} else {
					state[i] = 1
				}
			case 4, 5, 6:
				m := &zzMsg{to: p.Identity, cleartext: r.Intn(2) == 0}
				r.Read(m.from[:])
				m.payload = make([]byte, []int{0, 1, 100, 5000}[r.Intn(4)])
				r.Read(m.payload)
				hist += fmt.Sprintf(" Deliver(%d)", i)
				m.lo = time.Now().Unix()
				f, err := a.Deliver(m.to, m.from, m.payload, m.cleartext)
				m.hi = time.Now().Unix()
				if state[i] != 1 {
					if err == nil {
						t.Fatalf("seed %d%s: delivered to an account that is not active", seed, hist)
					}
					same(before, "a refused delivery changed something")
					break
				}
				if err != nil {
					t.Fatalf("seed %d%s: %v", seed, hist, err)
				}
				m.name = filepath.Base(f)
				after := zzTree(t, root)
				delete(after, f[len(root):])
				if d := zzDiff(before, after); d != "" {
					t.Fatalf("seed %d%s: a delivery changed something else: %s", seed, hist, d)
				}
				zzStored(t, f, m)
				msgs = append(msgs, m)
			case 7:
				if len(msgs) == 0 {
					break
				}
				k := r.Intn(len(msgs))
				m := msgs[k]
				hist += " Delete"
				st := 0
				for j := range state {
					if zzPid(j, "").Identity == m.to {
						st = state[j]
					}
				}
				err := a.Delete(m.to, m.name)
				if st != 1 {
					if err == nil {
						t.Fatalf("seed %d%s: deleted from an account that is not active", seed, hist)
					}
					same(before, "a refused deletion changed something")
					break
				}
				if err != nil {
					t.Fatalf("seed %d%s: %v", seed, hist, err)
				}
				gone := "/" + hex.EncodeToString(m.to[:]) + "/" + CacheDir + "/" + m.name
				if _, ok := before[gone]; !ok {
					t.Fatalf("seed %d%s: deleted twice", seed, hist)
				}
				delete(before, gone)
				same(before, "a deletion removed something else")
				msgs = append(msgs[:k], msgs[k+1:]...)
			}
			for j, s := range state {
				id := zzPid(j, "").Identity
				if a.Enabled(id) != (s == 1) || a.Disabled(id) != (s == 2) {
					t.Fatalf("seed %d%s: account %d reports enabled=%v disabled=%v in state %d", seed, hist, j, a.Enabled(id), a.Disabled(id), s)
				}
				if s == 1 {
					zzRecord(t, a, pids[j])
				}
			}
		}
	}
}

func zzRecord(t *testing.T, a *Account, p zkidentity.PublicIdentity) {
	t.Helper()
	db, err := inidb.New(a.accountFile(p.Identity, UserIdentityFilename), false, 10)
	if err != nil {
		t.Fatalf("the account's database does not open: %v", err)
	}
	s, err := db.Get("", "identity")
	if err != nil {
		t.Fatalf("the account has no identity record: %v", err)
	}
	var b bytes.Buffer
	xdr.Marshal(&b, p)
	if s != base64.StdEncoding.EncodeToString(b.Bytes()) {
		t.Fatalf("the account does not hold the identity it was created for")
	}
}

func zzStored(t *testing.T, f string, m *zzMsg) {
	t.Helper()
	b, err := ioutil.ReadFile(f)
	if err != nil {
		t.Fatalf("the delivered message is not where it was reported: %v", err)
	}
	var dm diskMessage
	n, err := xdr.Unmarshal(bytes.NewReader(b), &dm)
	if err != nil || n != len(b) {
		t.Fatalf("the stored message does not read back: %v", err)
	}
	if dm.From != m.from || !bytes.Equal(dm.Payload, m.payload) || dm.Cleartext != m.cleartext || dm.Received < m.lo || dm.Received > m.hi {
		t.Fatalf("the stored message is not the delivered one: from %x payload %d bytes cleartext %v received %v", dm.From[:4], len(dm.Payload), dm.Cleartext, dm.Received)
	}
}

// Messages waiting for an account and messages delivered while it comes online
// are announced once, with what was delivered.
func TestReplayC13Online(t *testing.T) {
	_, a := zzRoot(t)
	ids := [][32]byte{zzPid(0, "").Identity, zzPid(1, "").Identity}
	for i := range ids {
		if err := a.Create(zzPid(i, fmt.Sprint("n", i)), false); err != nil {
			t.Fatal(err)
		}
	}
	for round := 0; round < 150; round++ {
		me := ids[round%2]
		sent := map[string]*zzMsg{}
		deliver := func(cl bool) {
			m := &zzMsg{to: me, cleartext: cl, payload: []byte(fmt.Sprint("payload", round, len(sent)))}
			m.from[0], m.from[31] = byte(round), byte(len(sent))
			m.lo = time.Now().Unix()
			f, err := a.Deliver(m.to, m.from, m.payload, m.cleartext)
			if err != nil {
				t.Fatalf("round %d: %v", round, err)
			}
			m.hi = time.Now().Unix()
			m.name = filepath.Base(f)
			sent[m.name] = m
		}
		deliver(false)
		if round%3 == 0 {
			deliver(true)
		}
		c := make(chan *Notification, 16)
		if err := a.Online(me, c); err != nil {
			t.Fatalf("round %d: %v", round, err)
		}
		if err := a.Online(me, c); err == nil {
			t.Fatalf("round %d: an account went online twice", round)
		}
		deliver(round%2 == 0)
		deliver(true)
		got := map[string]bool{}
		for len(got) < len(sent) {
			select {
			case n := <-c:
				if n.Error != nil {
					t.Fatalf("round %d: %v", round, n.Error)
				}
				m := sent[n.Identifier]
				if m == nil || got[n.Identifier] {
					t.Fatalf("round %d: message %q announced twice or never delivered", round, n.Identifier)
				}
				got[n.Identifier] = true
				if n.To != me || n.From != m.from || !bytes.Equal(n.Payload, m.payload) || n.Cleartext != m.cleartext || n.Received < m.lo || n.Received > m.hi {
					t.Fatalf("round %d: the announced message %q is not the delivered one", round, n.Identifier)
				}
			case <-time.After(5 * time.Second):
				t.Fatalf("round %d: %d of %d messages of an online account were announced", round, len(got), len(sent))
			}
		}
		for k := range sent {
			if err := a.Delete(me, k); err != nil {
				t.Fatalf("round %d: %v", round, err)
			}
		}
		a.Offline(me)
	}
}

// A message stored without its last field (an older server's) is announced as
// encrypted content.
func TestReplayC13Old(t *testing.T) {
	_, a := zzRoot(t)
	p := zzPid(0, "n")
	if err := a.Create(p, false); err != nil {
		t.Fatal(err)
	}
	var names []string
	for i := 0; i < 6; i++ {
		f, err := a.Deliver(p.Identity, [32]byte{7, byte(i)}, []byte(fmt.Sprint("message", i)), true)
		if err != nil {
			t.Fatal(err)
		}
		if i%3 == 1 {
			b, _ := ioutil.ReadFile(f)
			ioutil.WriteFile(f, b[:len(b)-4], 0600)
		}
		names = append(names, filepath.Base(f))
	}
	c := make(chan *Notification, 1)
	if err := a.Online(p.Identity, c); err != nil {
		t.Fatal(err)
	}
	defer a.Offline(p.Identity)
	for i := range names {
		select {
		case n := <-c:
			if n.Error != nil || n.Identifier != names[i] || n.Cleartext != (i%3 != 1) || n.From != [32]byte{7, byte(i)} || string(n.Payload) != fmt.Sprint("message", i) {
				t.Fatalf("message %d, stored without its last field: %v, is announced wrongly (cleartext %v): %v", i, i%3 == 1, n.Cleartext, n.Error)
			}
		case <-time.After(5 * time.Second):
			t.Fatalf("message %d is not announced", i)
		}
	}
}

// The disk fills up while a message is stored.
func TestReplayC13Full(t *testing.T) {
	root, a := zzRoot(t)
	p := zzPid(0, "n")
	if err := a.Create(p, false); err != nil {
		t.Fatal(err)
	}
	before := zzTree(t, root)
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil {
		t.Skip()
	}
	if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 50, Max: old.Max}) != nil {
		t.Skip()
	}
	_, err := a.Deliver(p.Identity, [32]byte{1}, make([]byte, 1000), false)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		t.Fatal("a message that could not be written was accepted")
	}
	if d := zzDiff(before, zzTree(t, root)); d != "" {
		t.Fatalf("a failed delivery changed something: %s", d)
	}
}

// Creating and disabling at the same time.
func TestReplayC13Both(t *testing.T) {
	for round := 0; round < 200; round++ {
		root, a := zzRoot(t)
		p := zzPid(round, "n")
		done := make(chan error, 3)
		for k := 0; k < 2; k++ {
			k := k
			go func() { q := p; q.Nick = fmt.Sprint("n", k); done <- a.Create(q, false) }()
		}
		go func() { a.Disable(p.Identity); done <- fmt.Errorf("disable") }()
		ok := 0
		for k := 0; k < 3; k++ {
			if err := <-done; err == nil {
				ok++
			}
		}
		if ok != 1 {
			t.Fatalf("round %d: %d creations of one account succeeded: %v", round, ok, zzTree(t, root))
		}
		if a.Enabled(p.Identity) && a.Disabled(p.Identity) {
			t.Fatalf("round %d: the account is active and disabled", round)
		}
	}
}
