package account

import (
	"io/ioutil"
	mrand "math/rand"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/companyzero/zkc/zkidentity"
)

// zyRun performs operations on accounts whose files may be damaged; after is
// called after each.
func zyRun(t *testing.T, seed int64, after func(a *Account, what string)) {
	g := mrand.New(mrand.NewSource(seed))
	for round := 0; round < 12; round++ {
		d, err := ioutil.TempDir("", "zzacct")
		if err != nil {
			t.Skip(err)
		}
		a, err := New(d)
		if err != nil {
			t.Skip(err)
		}
		ntfn := make(chan *Notification, 5000)
		var pids []zkidentity.PublicIdentity
		for i := 0; i < 4; i++ {
			var p zkidentity.PublicIdentity
			p.Identity[i] = byte(i + 1)
			p.Nick = string(rune('a' + i))
			pids = append(pids, p)
		}
		names := []string{}
		for n := 0; n < 120; n++ {
			p := pids[g.Intn(4)]
			id := p.Identity
			what := ""
			switch g.Intn(12) {
			case 0:
				what = "Create"
				a.Create(p, g.Intn(2) == 0)
			case 1:
				what = "Push"
				a.Push(id)
			case 2:
				what = "Find"
				a.Find([]string{p.Nick, "nobody"}[g.Intn(2)])
			case 3:
				what = "Disable"
				a.Disable(id)
			case 4:
				what = "Enable"
				a.Enable(id)
			case 5:
				what = "Pull"
				a.Pull(id)
			case 6:
				what = "Deliver"
				if s, err := a.Deliver(id, pids[g.Intn(4)].Identity, make([]byte, g.Intn(50)), g.Intn(2) == 0); err == nil {
					names = append(names, s)
				}
			case 7:
				what = "Delete"
				s := "none"
				if len(names) > 0 && g.Intn(3) > 0 {
					s = names[g.Intn(len(names))]
				}
				a.Delete(id, s)
			case 8:
				what = "Offline"
				a.Offline(id)
			case 9:
				what = "Online"
				a.Online(id, ntfn)
			case 10:
				what = "Enabled"
				a.Enabled(id)
				a.Disabled(id)
			case 11:
				if round < 4 {
					continue
				}
				// something damages the files
				f := a.accountFile(id, UserIdentityFilename)
				c := a.accountFile(id, CacheDir)
				switch g.Intn(9) {
				case 0:
					ioutil.WriteFile(f, []byte("listed=1\nidentity=AAA=\n"), 0600)
				case 1:
					ioutil.WriteFile(f, []byte("listed=1\nidentity=?\n"), 0600)
				case 2:
					ioutil.WriteFile(f, []byte("listed=1\n"), 0600)
				case 3:
					ioutil.WriteFile(f, []byte("=\n[\n"), 0600)
				case 4:
					os.RemoveAll(c)
				case 5:
					ioutil.WriteFile(filepath.Join(c, "junk"), []byte{0, 0, 0, 1, 2}, 0600)
				case 6:
					os.Mkdir(filepath.Join(c, "dir"), 0700)
				case 7:
					os.MkdirAll(a.accountDirDisabled(id), 0700)
				case 8:
					if g.Intn(5) == 0 {
						os.RemoveAll(d)
					}
				}
				continue
			}
			after(a, what)
		}
		for _, p := range pids {
			a.Offline(p.Identity)
		}
		time.Sleep(10 * time.Millisecond)
		os.RemoveAll(d)
	}
}

func TestReplayC23(t *testing.T) {
	zyRun(t, 23, func(a *Account, what string) {})
}
