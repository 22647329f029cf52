package inidb

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestReplayC22(t *testing.T) {
	dir, err := ioutil.TempDir("", "zzinidb")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(dir)
	for depth := -1; depth < 3; depth++ {
		d := filepath.Join(dir, "x", string(rune('a'+depth+1)))
		f := filepath.Join(d, "db.ini")
		i, err := New(f, true, depth)
		if i == nil {
			t.Fatal(err)
		}
		free := func(what string) {
			if !i.mtx.TryLock() {
				t.Fatalf("%v: the lock of the database stays locked", what)
			}
			i.mtx.Unlock()
		}
		free("new")
		for r := 0; r < 4; r++ {
			for _, tab := range []string{"", "t", "none"} {
				if tab == "t" {
					i.NewTable(tab)
					free("new table")
					i.NewTable(tab)
					free("new table again")
				}
				i.Set(tab, "k", "v")
				free("set")
				i.Get(tab, "k")
				free("get")
				i.Get(tab, "none")
				free("get nothing")
				i.Records(tab)
				free("records")
				i.Tables()
				free("tables")
				i.Save()
				free("save")
				i.Save()
				free("save again")
				i.Del(tab, "k")
				free("del")
				i.Del(tab, "k")
				free("del again")
				i.DelTable(tab)
				free("del table")
				i.DelTable(tab)
				free("del table again")
			}
			i.Set("", "k", "v")
			switch r {
			case 0: // the database is gone
				os.Remove(f)
			case 1: // it is a directory
				os.Remove(f)
				os.MkdirAll(filepath.Join(f, "x"), 0700)
			case 2: // so is its directory
				os.RemoveAll(d)
			case 3:
				ioutil.WriteFile(d, nil, 0600)
			}
			i.Save()
			free("save")
		}
	}
}
