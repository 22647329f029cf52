package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"io"
	"path"
	"strconv"
	"time"

	"github.com/companyzero/zkc/debug"
	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zzv"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// Logging is assumed free of effects on the server's state.
func zzLog(d *debug.Debug, id int, format string, args ...interface{}) {}

func zzDBErr() error {
	e := zzv.NewErr()
	zzv.Assume(!errors.Is(e, inidb.ErrCreated))
	return e
}

func zzSetup(z *ZKS) {
	zzv.Assume(z.settings != nil && z.Debug != nil && z.account != nil)
	zzv.Assume(zzv.LockState(&z.Mutex) == 0)
	zzv.Assume(zzv.LockState(&z.rendezvousMtx) == 0)
}

// unmarshal: decodes like xdr.
func zzUnmarshal(z *ZKS, r io.Reader, v interface{}) (int, error) {
	return xdr.Unmarshal(r, v)
}

// The rendezvous database: the token zzTok stands for every token.
var (
	zzZ      *ZKS
	zzTok    string
	zzHad    bool
	zzOld    string
	zzHeld   int // how often the lock has been taken
	zzOpened int // the value of zzHeld when the database was read, 0: not held
	zzDBs    int
	zzSaved  int
	zzHas    bool
	zzVal    string
	zzAny    string // the token stored by this request
	zzSent   int
	zzReply  RPCWrapper
	zzReq    rpc.Rendezvous
)

func zzRdvLock(z *ZKS) { zzHeld++ }

func zzRdvOpen(file string, create bool, depth int) (*inidb.INIDB, error) {
	if zzv.Choose() {
		return nil, zzDBErr()
	}
	zzv.Assert("the rendezvous database is used", zzv.EqB(file, path.Join(zzZ.settings.Root, rendezvousPath)))
	zzOpened = 0
	if zzv.LockState(&zzZ.rendezvousMtx) == 1 {
		zzOpened = zzHeld
	}
	zzDBs++
	if zzv.Choose() {
		zzHad = false
		return inidb.ZzNew(file, depth), inidb.ErrCreated
	}
	i := inidb.ZzOpen(file, depth)
	v, err := i.Get("", zzTok)
	zzHad, zzOld = err == nil, v
	return i, nil
}

func zzRdvSave(i *inidb.INIDB) error {
	zzv.Assert("records are saved by the session that read them last", zzv.LockState(&zzZ.rendezvousMtx) == 1 && zzOpened == zzHeld)
	if zzv.Choose() {
		return zzDBErr()
	}
	v, err := i.Get("", zzTok)
	zzHas, zzVal = err == nil, v
	zzv.Assert("a stored record is never lost or replaced", zzv.Imp(zzHad, zzv.And(zzHas, zzv.EqB(zzVal, zzOld))))
	zzSaved++
	return nil
}

func zzSend(c chan *RPCWrapper, m *RPCWrapper) {
	zzv.Assert("no lock is held while a reply waits", zzv.LockState(&zzZ.rendezvousMtx) == 0 && zzv.LockState(&zzZ.Mutex) == 0)
	zzSent++
	zzReply = *m
}

func zzRandom() (uint64, error) {
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	return uint64(zzv.FreshInt("random", 0, 1<<62)), nil
}

func zzSleep(d time.Duration) {}

//@ verify C15 C16 C22 C23 nopanic locks cutknown
//@ use inidb.New := zzRdvOpen
//@ use (*inidb.INIDB).Save := zzRdvSave
//@ use tools.RandomUint64 := zzRandom
//@ use time.Sleep := zzSleep
//@ use lock zkserver.ZKS.rendezvousMtx := zzRdvLock
//@ use send *zkserver.RPCWrapper := zzSend
//@ use (*debug.Debug).T := zzLog
//@ use (*debug.Debug).Error := zzLog
//@ use (*debug.Debug).Dbg := zzLog
func zzvRendezvous(z *ZKS, w chan *RPCWrapper, msg rpc.Message, r rpc.Rendezvous, tok string) {
	zzSetup(z)
	zzv.Assume(w != nil)
	zzZ, zzTok = z, tok
	zzHeld, zzOpened, zzDBs, zzSaved, zzSent = 0, 0, 0, 0, 0
	zzHas = false
	err := z.handleRendezvous(w, msg, r)
	if err != nil {
		zzv.Assert("a failed request stores nothing", zzSaved == 0 && zzSent == 0)
		zzv.Reach("failed")
		return
	}
	zzv.Assert("a request is answered once", zzSent == 1)
	zzv.Assert("a request is answered under its tag", zzReply.Message.Tag == msg.Tag && zzReply.Message.Command == rpc.TaggedCmdRendezvousReply)
	p := zzReply.Payload.(rpc.RendezvousReply)
	if p.Error != "" {
		zzv.Assert("a refused request stores nothing", zzSaved == 0)
		zzv.Reach("refused")
		return
	}
	exp, eerr := strconv.ParseUint(r.Expiration, 10, 64)
	zzv.Assert("an oversized blob is refused", len(r.Blob) <= 4096)
	zzv.Assert("a lifetime above the limit is refused", eerr == nil && exp <= 168)
	zzv.Assert("success is reported after the blob is stored", zzSaved == 1)
	if zzv.EqB(p.Token, tok) {
		zzv.Assert("a token in use is never given out again", !zzHad)
		b, derr := base64.StdEncoding.DecodeString(zzVal)
		zzv.Assert("the blob is stored under the token", zzHas && derr == nil && zzv.EqB(b, zzv.Enc("xdr", r)))
		zzv.Reach("stored")
	} else {
		zzv.Assert("nothing else is stored", zzHas == zzHad)
		zzv.Reach("other")
	}
}

func zzPullOpen(file string, create bool, depth int) (*inidb.INIDB, error) {
	if zzv.Choose() {
		return nil, zzDBErr()
	}
	zzv.Assert("the rendezvous database is used", zzv.EqB(file, path.Join(zzZ.settings.Root, rendezvousPath)))
	if zzv.Choose() {
		zzHad = false
		return inidb.ZzNew(file, depth), inidb.ErrCreated
	}
	i := inidb.ZzOpen(file, depth)
	if zzAny == "stored" {
		var b bytes.Buffer
		b.Write(zzv.Enc("xdr", zzReq))
		s := base64.StdEncoding.EncodeToString(b.Bytes())
		zzv.Assume(i.Set("", zzTok, s) == nil)
	}
	v, err := i.Get("", zzTok)
	zzHad, zzOld = err == nil, v
	return i, nil
}

//@ verify C15 C16 C22 C23 nopanic locks
//@ use inidb.New := zzPullOpen
//@ use (*inidb.INIDB).Save := zzRdvSave
//@ use (*zkserver.ZKS).unmarshal := zzUnmarshal
//@ use send *zkserver.RPCWrapper := zzSend
//@ use (*debug.Debug).T := zzLog
//@ use (*debug.Debug).Error := zzLog
//@ use (*debug.Debug).Dbg := zzLog
func zzvRendezvousPull(z *ZKS, w chan *RPCWrapper, msg rpc.Message, r rpc.RendezvousPull, stored rpc.Rendezvous) {
	zzSetup(z)
	zzv.Assume(w != nil)
	zzZ, zzTok = z, r.Token
	zzHeld, zzOpened, zzDBs, zzSaved, zzSent = 0, 0, 0, 0, 0
	zzAny = ""
	if zzv.Choose() {
		zzAny, zzReq = "stored", stored
	}
	err := z.handleRendezvousPull(w, msg, r)
	zzv.Assert("fetching stores nothing", zzSaved == 0)
	if err != nil {
		zzv.Assert("a failed request is not answered", zzSent == 0)
		zzv.Reach("failed")
		return
	}
	zzv.Assert("a request is answered once", zzSent == 1)
	zzv.Assert("a request is answered under its tag", zzReply.Message.Tag == msg.Tag && zzReply.Message.Command == rpc.TaggedCmdRendezvousPullReply)
	p := zzReply.Payload.(rpc.RendezvousPullReply)
	if p.Error != "" {
		zzv.Assert("an error carries no blob", len(p.Blob) == 0)
		zzv.Assert("a stored blob is returned", !zzHad || zzAny != "stored")
		zzv.Reach("refused")
		return
	}
	zzv.Assert("a token that is not stored yields an error", zzHad)
	zzv.Assert("a reply names the token asked for", zzv.EqB(p.Token, r.Token))
	if zzAny == "stored" {
		zzv.Assert("the blob returned is the one stored", zzv.EqB(p.Blob, stored.Blob))
		zzv.Reach("returned")
	}
}
