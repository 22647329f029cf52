package inidb

import (
	"bytes"
	"errors"
	"fmt"
	"io/ioutil"
	mrand "math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
)

func riDir(t *testing.T) (string, func()) {
	d, err := ioutil.TempDir("", "zkcverif")
	if err != nil {
		t.Fatal(err)
	}
	return d, func() { os.RemoveAll(d) }
}

type riModel map[string]map[string]string

func riCheck(t *testing.T, what string, i *INIDB, m riModel) bool {
	got := i.Tables()
	sort.Strings(got)
	var want []string
	for k := range m {
		want = append(want, k)
	}
	sort.Strings(want)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		t.Errorf("%s: tables %q, expected %q", what, got, want)
		return false
	}
	for tk, tv := range m {
		r := i.Records(tk)
		if len(r) != len(tv) {
			t.Errorf("%s: table %q has records %q, expected %q", what, tk, r, tv)
			return false
		}
		for k, v := range tv {
			g, err := i.Get(tk, k)
			if err != nil || g != v || r[k] != v {
				t.Errorf("%s: %q/%q is %q (%v), expected %q", what, tk, k, g, err, v)
				return false
			}
		}
		r["a record of the copy"] = "x"
		if _, err := i.Get(tk, "a record of the copy"); err == nil {
			t.Errorf("%s: the listed records are not a copy", what)
		}
		if _, err := i.Get(tk, "no such record"); !errors.Is(err, ErrNotFound) {
			t.Errorf("%s: a missing record returns %v", what, err)
		}
	}
	if _, err := i.Get("no such table", "x"); !errors.Is(err, ErrNotFound) {
		t.Errorf("%s: a record of a missing table returns %v", what, err)
	}
	return true
}

var riNames = []string{"", "a", "b", "ab", "a b", "a=b", "=", " a", "a ", "#a", ";a", "[a]", "[a", "a]", "a\nb", "a\rb", "\t", "a#b", "a;b", "é", "日本", "\"a\"", "'", "\\", "%v", "a.b", "%", strings.Repeat("n", 300), strings.Repeat("long", 3000)}

func riOpen(t *testing.T, fn string, depth int) *INIDB {
	i, err := New(fn, true, depth)
	if err != nil && !errors.Is(err, ErrCreated) {
		t.Fatalf("open: %v", err)
	}
	return i
}

func TestReplayC12Histories(t *testing.T) {
	for seed := int64(0); seed < 260; seed++ {
		d, done := riDir(t)
		g := mrand.New(mrand.NewSource(seed))
		fn := filepath.Join(d, "sub", "db.ini")
		depth := g.Intn(5) - 1
		if _, err := New(fn, false, depth); err == nil {
			t.Fatal("a missing database opens")
		}
		i, err := New(fn, true, depth)
		if !errors.Is(err, ErrCreated) {
			t.Fatalf("creation returns %v", err)
		}
		if i, err = New(fn, false, depth); err != nil {
			t.Fatalf("created database does not open: %v", err)
		}
		m := riModel{"": {}}
		names := riNames
		if seed%3 == 0 {
			names = []string{"", "a", "b", "c", "d e", "x"}
		}
		pick := func() string { return names[g.Intn(len(names))] }
		nk := 10
		if seed >= 60 { // few records, so that tables become empty
			names = []string{"", "a"}
			nk = 2
		}
		nops := 20 + g.Intn(60)
		for n := 0; n < nops; n++ {
			switch g.Intn(9) {
			case 0, 1:
				tb := pick()
				i.NewTable(tb)
				ok := false
				for _, x := range i.Tables() {
					ok = ok || x == tb
				}
				if ok && m[tb] == nil {
					m[tb] = map[string]string{}
				}
			case 2, 3, 4:
				tb, k, v := pick(), pick(), pick()
				if g.Intn(2) == 0 {
					v = fmt.Sprintf("value %d", g.Intn(1000))
				}
				if g.Intn(3) > 0 {
					k = fmt.Sprintf("key%d", g.Intn(nk))
				}
				err := i.Set(tb, k, v)
				if err == nil && m[tb] == nil {
					t.Fatalf("record set in missing table %q", tb)
				}
				if err == nil {
					m[tb][k] = v
				} else if m[tb] != nil && strings.Trim(k+v+"x", "abcdefghijklmnopqrstuvwxyz0123456789") == "" && k != "" {
					t.Fatalf("record %q/%q=%q refused: %v", tb, k, v, err)
				}
			case 5:
				tb, k := pick(), fmt.Sprintf("key%d", g.Intn(nk))
				err := i.Del(tb, k)
				if (err == nil) != (m[tb] != nil) {
					t.Fatalf("deletion in %q returns %v", tb, err)
				}
				delete(m[tb], k)
			case 6:
				tb := pick()
				if tb == "" {
					break // the default table always exists
				}
				err := i.DelTable(tb)
				if (err == nil) != (m[tb] != nil) {
					t.Fatalf("deletion of table %q returns %v", tb, err)
				}
				delete(m, tb)
			default:
				if err := i.Save(); err != nil {
					t.Fatalf("save: %v", err)
				}
				if !riCheck(t, "after saving", i, m) {
					t.FailNow()
				}
				if i, err = New(fn, false, depth); err != nil {
					t.Fatalf("seed %d: saved database does not open: %v", seed, err)
				}
			}
			if !riCheck(t, fmt.Sprintf("seed %d step %d", seed, n), i, m) {
				t.FailNow()
			}
		}
		done()
	}
}

func riRead(fn string) string {
	b, err := ioutil.ReadFile(fn)
	if err != nil {
		return "unreadable: " + err.Error()
	}
	return string(b)
}

// every failing step of a save leaves the previous file.
func TestReplayC12FailedSave(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	for _, limit := range []uint64{0, 10, 60, 1000, 4096, 5000, 9000} {
		for _, big := range []int{5000, 12000, 40000} {
			if int(limit) >= big {
				continue
			}
			d, done := riDir(t)
			fn := filepath.Join(d, "db.ini")
			i := riOpen(t, fn, 3)
			i.NewTable("t")
			i.Set("t", "a", "1")
			if err := i.Save(); err != nil {
				t.Fatal(err)
			}
			before := riRead(fn)
			i.Set("t", "b", strings.Repeat("x", big))
			var old syscall.Rlimit
			if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
				t.Fatal(err)
			}
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: limit, Max: old.Max})
			err := i.Save()
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
			if err == nil {
				t.Errorf("limit %d: a save that cannot be written reports success", limit)
			}
			if now := riRead(fn); now != before {
				t.Errorf("limit %d: a failed save (%v) changes the file to %.100q", limit, err, now)
			}
			if err := i.Save(); err != nil {
				t.Errorf("limit %d: the save after a failed one: %v", limit, err)
			}
			j, err := New(fn, false, 3)
			if err != nil {
				t.Fatalf("limit %d: %v", limit, err)
			}
			riCheck(t, "saved after a failed save", j, riModel{"": {}, "t": {"a": "1", "b": strings.Repeat("x", big)}})
			done()
		}
	}

	// no directory to write to
	d, done := riDir(t)
	defer done()
	os.Mkdir(filepath.Join(d, "s"), 0700)
	fn := filepath.Join(d, "s", "db.ini")
	i := riOpen(t, fn, 3)
	i.Set("", "a", "1")
	if err := i.Save(); err != nil {
		t.Fatal(err)
	}
	before := riRead(fn)
	os.Rename(filepath.Join(d, "s"), filepath.Join(d, "z"))
	i.Set("", "b", "1")
	if err := i.Save(); err == nil {
		t.Errorf("a save without a directory reports success")
	}
	os.Rename(filepath.Join(d, "z"), filepath.Join(d, "s"))
	if now := riRead(fn); now != before {
		t.Errorf("a failed save changes the file")
	}
	if err := i.Save(); err != nil {
		t.Errorf("the save after a failed one: %v", err)
	}
	j, err := New(fn, false, 3)
	if err != nil {
		t.Fatal(err)
	}
	riCheck(t, "saved after a failed save", j, riModel{"": {"a": "1", "b": "1"}})
}

// the file is never missing or incomplete while it is saved, and limiting
// the backups removes nothing else.
func TestReplayC12Crash(t *testing.T) {
	for depth := -1; depth < 4; depth++ {
		d, done := riDir(t)
		fn := filepath.Join(d, "db.ini")
		i := riOpen(t, fn, depth)
		for _, o := range []string{"db", "db.in", "xdb.ini.1", "db.iniold", "other"} {
			ioutil.WriteFile(filepath.Join(d, o), []byte("x"), 0600)
		}
		for n := 0; n < 50; n++ {
			i.Set("", fmt.Sprintf("k%d", n), strings.Repeat("v", 2000))
		}
		i.Set("", "end", "0")
		if err := i.Save(); err != nil {
			t.Fatal(err)
		}
		var stop int32
		bad := make(chan string, 1)
		fin := make(chan bool)
		go func() {
			defer close(fin)
			for atomic.LoadInt32(&stop) == 0 {
				b, err := ioutil.ReadFile(fn)
				msg := ""
				if err != nil {
					msg = err.Error()
				} else if bytes.Count(b, []byte{'v'}) != 50*2000 || !bytes.Contains(b, []byte("end = ")) {
					msg = fmt.Sprintf("only %d bytes", len(b))
				}
				if msg != "" {
					select {
					case bad <- msg:
					default:
					}
					return
				}
			}
		}()
		for n := 1; n < 150; n++ {
			i.Set("", "end", fmt.Sprint(n))
			if err := i.Save(); err != nil {
				t.Fatal(err)
			}
		}
		atomic.StoreInt32(&stop, 1)
		<-fin
		select {
		case m := <-bad:
			t.Errorf("while the database is saved its file is missing or incomplete: %s", m)
		default:
		}
		for _, o := range []string{"db", "db.in", "xdb.ini.1", "db.iniold", "other"} {
			if riRead(filepath.Join(d, o)) != "x" {
				t.Errorf("depth %d: saving removes %s", depth, o)
			}
		}
		done()
	}
}
