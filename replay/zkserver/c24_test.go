package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func zzTokens(t *testing.T, d string, m map[string]string) {
	f := filepath.Join(d, pendingPath)
	os.RemoveAll(filepath.Dir(f))
	if err := os.MkdirAll(filepath.Dir(f), 0700); err != nil {
		t.Fatal(err)
	}
	i, err := inidb.New(f, true, 10)
	if err != nil && err != inidb.ErrCreated {
		t.Fatal(err)
	}
	for k, v := range m {
		if err = i.Set("", k, v); err != nil {
			t.Fatal(err)
		}
	}
	if err = i.Save(); err != nil {
		t.Fatal(err)
	}
}

func zzStored(t *testing.T, d string) map[string]string {
	i, err := inidb.New(filepath.Join(d, pendingPath), false, 10)
	if err != nil {
		t.Fatal(err)
	}
	return i.Records("")
}

// zzAsk asks for an account for identity i; the reply, or no reply.
func zzAsk(t *testing.T, z *ZKS, i int, token string) (string, bool) {
	c, gone := zzConnect(t, z)
	defer func() {
		c.Close()
		<-gone
	}()
	xdr.Marshal(c, rpc.InitialCmdCreateAccount)
	xdr.Marshal(c, rpc.CreateAccount{Token: token, PublicIdentity: zzIdentity(t, i).Public})
	var r rpc.CreateAccountReply
	if _, err := xdr.Unmarshal(c, &r); err != nil {
		return "", false
	}
	return r.Error, true
}

func zzIn(h time.Duration) string { return strconv.FormatInt(time.Now().Add(h).Unix(), 10) }

func TestReplayC24Policy(t *testing.T) {
	for _, p := range []string{"no", "", "YES", "Yes", "yes ", "tokens", "Token", "other"} {
		z, d := zzUsers(t, 0)
		zzTokens(t, d, map[string]string{"good": zzIn(time.Hour)})
		z.settings.CreatePolicy = p
		if e, ok := zzAsk(t, z, 1, "good"); ok && e == "" || zzHas(t, z, 1) {
			t.Fatalf("policy %q allows accounts", p)
		}
	}
	z, _ := zzUsers(t, 0)
	z.settings.CreatePolicy = "yes"
	for i := 1; i <= 3; i++ {
		if zzHas(t, z, i) {
			t.Fatal("an account exists already")
		}
		if e, ok := zzAsk(t, z, i, ""); !ok || e != "" || !zzHas(t, z, i) {
			t.Fatal("policy yes does not create accounts")
		}
	}
	// one connection, several requests
	c, _ := zzConnect(t, z)
	for i := 4; i <= 6; i++ {
		xdr.Marshal(c, rpc.InitialCmdCreateAccount)
		xdr.Marshal(c, rpc.CreateAccount{PublicIdentity: zzIdentity(t, i).Public})
		var r rpc.CreateAccountReply
		if _, err := xdr.Unmarshal(c, &r); err != nil || r.Error != "" || !zzHas(t, z, i) {
			t.Fatal(err, r)
		}
	}
	c.Close()
}

func TestReplayC24Replace(t *testing.T) {
	z, d := zzUsers(t, 2)
	id := zzIdentity(t, 1).Public
	file := filepath.Join(d, "users", zzKey(t, 1), "publicidentity")
	fi, err := ioutil.ReadDir(filepath.Dir(file))
	if err != nil {
		t.Fatal(err)
	}
	read := func() (l []string) {
		for _, f := range fi {
			b, err := ioutil.ReadFile(filepath.Join(filepath.Dir(file), f.Name()))
			if err == nil {
				l = append(l, f.Name()+string(b))
			}
		}
		return
	}
	before := fmt.Sprint(read())
	if _, err := z.account.Deliver(id.Identity, id.Identity, []byte("x"), false); err != nil {
		t.Fatal(err)
	}
	if err := z.account.Disable(zzIdentity(t, 2).Public.Identity); err != nil {
		t.Fatal(err)
	}
	for _, p := range []string{"yes", "token"} {
		z.settings.CreatePolicy = p
		zzTokens(t, d, map[string]string{"a": zzIn(time.Hour), "b": zzIn(time.Hour)})
		if e, _ := zzAsk(t, z, 1, "a"); e == "" {
			t.Fatal("creating an account that exists is not reported as a failure")
		}
		if e, _ := zzAsk(t, z, 2, "b"); e == "" || zzHas(t, z, 2) {
			t.Fatal("a disabled account was created again")
		}
	}
	if fmt.Sprint(read()) != before || len(zzBox(t, d, 1)) != 1 {
		t.Fatal("an existing account was changed")
	}
}

func TestReplayC24Token(t *testing.T) {
	z, d := zzUsers(t, 0)
	z.settings.CreatePolicy = "token"
	if e, _ := zzAsk(t, z, 1, "any"); e == "" || zzHas(t, z, 1) {
		t.Fatal("a token of an empty server was accepted")
	}
	zzTokens(t, d, map[string]string{
		"good":  zzIn(time.Hour),
		"good2": zzIn(1000 * time.Hour),
		"soon":  zzIn(20 * time.Second),
		"old":   zzIn(-time.Hour),
		"past":  zzIn(-5 * time.Second),
		"zero":  "0",
		"neg":   "-5",
		"word":  "never",
		"float": zzIn(time.Hour) + ".5",
		"hex":   "0x7fffffffff",
		"huge":  "99999999999999999999999999",
	})
	for _, k := range []string{"", "goo", "GOOD", "good ", " good", "good=", "goodgood", "[good]", "x"} {
		if e, _ := zzAsk(t, z, 1, k); e == "" || zzHas(t, z, 1) {
			t.Fatalf("token %q was accepted", k)
		}
	}
	for k := range zzStored(t, d) {
		if k != "good" && k != "good2" && k != "soon" {
			t.Fatalf("token %q is still stored", k)
		}
	}
	zzTokens(t, d, map[string]string{
		"good": zzIn(time.Hour), "old": zzIn(-time.Hour), "past": zzIn(-5 * time.Second), "zero": "0", "neg": "-5",
		"word": "never", "float": zzIn(time.Hour) + ".5", "hex": "0x7fffffffff", "huge": "99999999999999999999999999",
	})
	all := zzStored(t, d)
	for k := range all {
		if k == "good" {
			continue
		}
		zzTokens(t, d, all)
		if e, _ := zzAsk(t, z, 1, k); e == "" || zzHas(t, z, 1) {
			t.Fatalf("token %v (%v) was accepted", k, all[k])
		}
		if zzStored(t, d)["good"] != all["good"] {
			t.Fatalf("asking with token %v removed another", k)
		}
	}
	// once each, in any order, restarting the server in between
	m := map[string]string{}
	for i := 0; i < 6; i++ {
		m[fmt.Sprint("tok", i)] = zzIn(time.Duration(1+i) * time.Hour)
	}
	zzTokens(t, d, m)
	for i := 0; i < 6; i++ {
		k := fmt.Sprint("tok", i*5%6)
		if e, ok := zzAsk(t, z, 1+i, k); !ok || e != "" || !zzHas(t, z, 1+i) {
			t.Fatalf("token %v was refused: %v", k, e)
		}
		delete(m, k)
		if fmt.Sprint(zzStored(t, d)) != fmt.Sprint(m) {
			t.Fatalf("stored tokens are %v, not %v", zzStored(t, d), m)
		}
		if e, _ := zzAsk(t, z, 10+i, k); e == "" || zzHas(t, z, 10+i) {
			t.Fatalf("token %v was accepted twice", k)
		}
	}
}

// A token that cannot be taken off the disk is not accepted.
func TestReplayC24Full(t *testing.T) {
	z, d := zzUsers(t, 0)
	z.settings.CreatePolicy = "token"
	m := map[string]string{"a": zzIn(time.Hour), "b": zzIn(time.Hour), "c": zzIn(time.Hour)}
	zzTokens(t, d, m)
	for round := 0; round < 3; round++ {
		zzFull(t, uint64(2+5*round), func() {
			if e, _ := zzAsk(t, z, 1, "a"); e == "" {
				t.Error("token accepted, though it was not used up")
			}
		})
		if _, ok := zzStored(t, d)["a"]; ok && zzHas(t, z, 1) {
			t.Fatal("an account was created and its token is still stored")
		}
	}
	for _, k := range []string{"b", "c"} {
		if _, ok := zzStored(t, d)[k]; !ok {
			t.Fatalf("token %v is gone", k)
		}
	}
}

// One token, many connections.
func TestReplayC24Concurrent(t *testing.T) {
	const n = 8
	z, d := zzUsers(t, 0)
	session.Init()
	z.settings.CreatePolicy = "token"
	for i := 0; i < n; i++ {
		zzIdentity(t, i+1)
	}
	for round := 0; round < 25; round++ {
		m := map[string]string{"one": zzIn(time.Hour)}
		for i := 0; i < round*20; i++ {
			m[fmt.Sprint("more", i)] = zzIn(time.Hour)
		}
		zzTokens(t, d, m)
		var wg sync.WaitGroup
		var ok [n]bool
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				e, r := zzAsk(t, z, i+1, "one")
				ok[i] = r && e == ""
			}(i)
		}
		wg.Wait()
		k, a := 0, 0
		for i := range ok {
			if ok[i] {
				k++
			}
			if zzHas(t, z, i+1) {
				a++
				os.RemoveAll(filepath.Join(d, "users", zzKey(t, i+1)))
			}
		}
		if k != 1 || a != 1 {
			t.Fatalf("one token was accepted %d times and made %d accounts", k, a)
		}
		if l := zzStored(t, d); len(l) != round*20 {
			t.Fatalf("%d other tokens left, not %d", len(l), round*20)
		}
	}
	// different tokens at the same time
	for round := 0; round < 10; round++ {
		m := map[string]string{}
		for i := 0; i < n; i++ {
			m[fmt.Sprint("t", i)] = zzIn(time.Hour)
		}
		zzTokens(t, d, m)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				if e, r := zzAsk(t, z, i+1, fmt.Sprint("t", i)); !r || e != "" {
					t.Errorf("a good token was refused: %v", e)
				}
			}(i)
		}
		wg.Wait()
		if l := zzStored(t, d); len(l) != 0 || t.Failed() {
			t.Fatalf("%d used tokens left", len(l))
		}
		for i := 0; i < n; i++ {
			if !zzHas(t, z, i+1) {
				t.Fatal("an account reported as created does not exist")
			}
			os.RemoveAll(filepath.Join(d, "users", zzKey(t, i+1)))
		}
	}
}
