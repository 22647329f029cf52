package inidb

import (
	"io/ioutil"
	mrand "math/rand"
	"os"
	"path/filepath"
	"testing"
)

func TestReplayC23(t *testing.T) {
	dir, err := ioutil.TempDir("", "zzinidb")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "db.ini")
	g := mrand.New(mrand.NewSource(23))
	parts := []string{"", "\n", "=", "[", "]", "[]", "[t]", "a=b", "a", "#", ";", " ", "\x00", "\xff", "[ ]", "==", "\r\n"}
	for n := 0; n < 2000; n++ {
		var b []byte
		for k := g.Intn(8); k > 0; k-- {
			b = append(b, parts[g.Intn(len(parts))]...)
		}
		ioutil.WriteFile(f, b, 0600)
		i, err := New(f, g.Intn(2) == 0, g.Intn(3)-1)
		if err != nil || i == nil {
			continue
		}
		for _, tab := range append(i.Tables(), "none", "") {
			for k := range i.Records(tab) {
				i.Get(tab, k)
				if g.Intn(2) == 0 {
					i.Del(tab, k)
				}
			}
			i.Get(tab, "x")
			i.Set(tab, "x", "y")
			i.Del(tab, "y")
			if g.Intn(4) == 0 {
				i.DelTable(tab)
			}
			i.NewTable(tab)
		}
		if n%50 == 0 {
			i.Save()
		}
	}
}
