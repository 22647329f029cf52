package debug

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func zzFree(t *testing.T, d *Debug, what string) {
	if !d.TryLock() {
		t.Fatalf("%v: the lock of the log stays locked", what)
	}
	d.Unlock()
}

func TestReplayC22(t *testing.T) {
	dir, err := ioutil.TempDir("", "zzdebug")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "log")
	d, err := New(f, "15:04")
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		d.Register(1, "[ONE]")
		zzFree(t, d, "registering")
		d.Register(2, "[TWO]")
		zzFree(t, d, "registering another")
		for j := 0; j < 4; j++ {
			d.Info(j, "%v %v", i, j)
			zzFree(t, d, "information")
			d.Error(j, "nothing")
			zzFree(t, d, "an error")
			d.Dbg(j, "%v")
			zzFree(t, d, "debug")
			d.T(j, "x", 1)
			zzFree(t, d, "trace")
			if j%2 == 0 {
				d.EnableDebug()
				zzFree(t, d, "debug on")
				d.EnableTrace()
				zzFree(t, d, "trace on")
			} else {
				d.DisableDebug()
				zzFree(t, d, "debug off")
				d.DisableTrace()
				zzFree(t, d, "trace off")
			}
		}
		if i == 1 {
			// the file cannot be opened any more
			os.Remove(f)
			os.Mkdir(f, 0700)
		}
	}
}
