package addressbook

import (
	"encoding/hex"
	"testing"

	"github.com/companyzero/zkc/zkidentity"
)

func TestReplayC22(t *testing.T) {
	a := New()
	free := func(what string) {
		if !a.TryLock() {
			t.Fatalf("%v: the lock stays locked", what)
		}
		a.Unlock()
	}
	for round := 0; round < 3; round++ {
		for i := 0; i < 12; i++ {
			var p zkidentity.PublicIdentity
			p.Identity[round] = byte(i % 7)
			p.Nick = []string{"a", "b", "", "a_"}[i%4]
			a.Add(p)
			free("add")
			a.FindNick(p.Nick)
			free("find nick")
			a.FindNick("no such nick")
			free("find no nick")
			a.FindIdentity(p.Identity)
			free("find identity")
			a.FindIdentity([32]byte{9, 9, 9, byte(i)})
			free("find no identity")
			a.FindIdentityS(hex.EncodeToString(p.Identity[:]))
			free("find identity as text")
			a.FindIdentityS("zz")
			free("find bad identity as text")
			a.All()
			free("all")
			if i%3 == 0 {
				a.Del(p.Identity)
				free("del")
				a.Del(p.Identity)
				free("del again")
			}
		}
	}
}
