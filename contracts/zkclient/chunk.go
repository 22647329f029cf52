package main

import (
	"crypto/sha256"
	"encoding/hex"
	"io"
	"os"
	"path"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zzv"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// The spool directory as one transfer sees it.
var (
	zzSpoolDir  string // everything that is received
	zzPeerDir   string // what is in transfer from zzPeer
	zzSpoolFile string // the data of the transfer
	zzDescFile  string // what was announced
	zzDigest    [32]byte
	zzAnn       rpc.ChunkNew // the announced file
	zzAnnOK     bool         // it is stored, completely
	zzData      []byte       // the data so far
	zzDataOK    bool         // the file of the data exists
	zzPay       []byte
	zzOff       uint64
	zzNewName   string // a name that was looked for and is free
	zzMoved     int
	zzOpened    int
	zzTorn      bool // a chunk was written in part
	zzAppended  int
	zzNewFile   bool // a transfer is being announced
)

type zzFI struct{ n int64 }

func (f zzFI) Name() string       { return "" }
func (f zzFI) Size() int64        { return f.n }
func (f zzFI) Mode() os.FileMode  { return 0 }
func (f zzFI) ModTime() time.Time { return time.Time{} }
func (f zzFI) IsDir() bool        { return false }
func (f zzFI) Sys() interface{}   { return nil }

func zzSetupSpool(z *ZKC, from [32]byte, digest [32]byte) {
	zzSetupZ(z)
	zzPeer, zzDigest = from, digest
	zzSpoolDir = path.Join(z.settings.Root, spoolDir)
	zzPeerDir = path.Join(zzSpoolDir, hex.EncodeToString(from[:]))
	zzSpoolFile = path.Join(zzPeerDir, hex.EncodeToString(digest[:]))
	zzDescFile = path.Join(zzPeerDir, hex.EncodeToString(digest[:])+"."+descriptor)
	zzNewName, zzMoved, zzOpened, zzTorn, zzAppended = "", 0, 0, false, 0
	zzNewFile = false
	// what earlier chunks left: see the end of zzvAnnounce and zzvChunk
	zzAnnOK, zzDataOK = zzv.Choose(), zzv.Choose()
	zzv.Havoc(&zzAnn)
	zzData = zzv.FreshBytes("data", -1)
	zzv.Assume(zzAnn.Digest == digest && zzAnn.Size <= z.attachmentSize)
}

func zzMkdirS(d string, m os.FileMode) error {
	zzv.Assert("directories are made below the spool directory only", zzv.EqB(d, zzPeerDir) || zzv.EqB(d, zzSpoolDir))
	if zzv.Choose() {
		return zzv.NewErr()
	}
	return nil
}

func zzHandle(name string, app bool) *os.File {
	f := new(os.File)
	zzv.GSet(f, "name", name)
	zzv.GSet(f, "append", app)
	zzv.GSet(f, "closed", false)
	zzOpened++
	return f
}

func zzCreateS(name string) (*os.File, error) {
	zzv.Assert("files are created below the directory of the peer only", zzv.EqB(name, zzDescFile) || zzv.EqB(name, zzSpoolFile))
	zzv.Assert("a chunk does not discard what was received", zzNewFile)
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	if zzv.EqB(name, zzDescFile) {
		zzAnnOK = false
	} else {
		zzData, zzDataOK = nil, true
	}
	return zzHandle(name, false), nil
}

func zzOpenS(name string) (*os.File, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	return zzHandle(name, false), nil
}

func zzOpenFileS(name string, flag int, m os.FileMode) (*os.File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) == 0 {
		return zzOpenS(name)
	}
	if flag&os.O_TRUNC != 0 {
		return zzCreateS(name)
	}
	zzv.Assert("files are written below the directory of the peer only", zzv.EqB(name, zzSpoolFile) || zzNewFile && zzv.EqB(name, zzDescFile))
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	if zzv.EqB(name, zzSpoolFile) && !zzDataOK {
		if flag&os.O_CREATE == 0 {
			return nil, zzv.NewErr()
		}
		zzData, zzDataOK = nil, true
	}
	return zzHandle(name, flag&os.O_APPEND != 0), nil
}

func zzNameOf(f *os.File) string {
	n, _ := zzv.GGet(f, "name").(string)
	return n
}

func zzCloseS(f *os.File) error {
	c, _ := zzv.GGet(f, "closed").(bool)
	if c {
		return zzv.NewErr()
	}
	zzv.GSet(f, "closed", true)
	zzOpened--
	return nil
}

func zzStatS(f *os.File) (os.FileInfo, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	if !zzv.EqB(zzNameOf(f), zzSpoolFile) {
		return zzFI{int64(zzv.FreshInt("size", 0, 1<<62))}, nil
	}
	return zzFI{int64(len(zzData))}, nil
}

func zzStatPath(name string) (os.FileInfo, error) {
	if zzv.Choose() {
		if zzv.EqB(name, zzSpoolFile) {
			zzv.Assume(zzDataOK)
			return zzFI{int64(len(zzData))}, nil
		}
		return zzFI{int64(zzv.FreshInt("size", 0, 1<<62))}, nil
	}
	zzNewName = name
	return nil, zzv.NewErr()
}

func zzWriteS(f *os.File, b []byte) (int, error) {
	name := zzNameOf(f)
	c, _ := zzv.GGet(f, "closed").(bool)
	zzv.Assert("a file is written while it is open", !c)
	zzv.Assert("only the data of the transfer is written", zzv.EqB(name, zzSpoolFile) && !zzNewFile)
	app, _ := zzv.GGet(f, "append").(bool)
	zzv.Assert("a chunk goes where its offset says", app && uint64(len(zzData)) == zzOff && zzAppended == 0)
	zzv.Assert("a chunk is written as it came", zzv.EqB(b, zzPay))
	zzv.Assert("no more is written than was announced", zzAnnOK && uint64(len(zzData)) <= zzAnn.Size && uint64(len(b)) <= zzAnn.Size-uint64(len(zzData)))
	zzAppended++
	if zzv.Choose() {
		n := zzv.FreshInt("written", 0, len(b))
		zzData = append(zzData[:len(zzData):len(zzData)], b[:n]...)
		zzTorn = true
		return n, zzv.NewErr()
	}
	zzData = append(zzData[:len(zzData):len(zzData)], b...)
	return len(b), nil
}

func zzStored(w io.Writer, v interface{}) (int, error) {
	f, ok := w.(*os.File)
	if !ok {
		return 0, nil
	}
	cn, is := v.(rpc.ChunkNew)
	if !is {
		p, isp := v.(*rpc.ChunkNew)
		zzv.Assert("what is announced is stored", isp)
		cn = *p
	}
	zzv.Assert("what is announced is stored in its descriptor", zzNewFile && zzv.EqB(zzNameOf(f), zzDescFile))
	zzv.Assert("a file is announced under its own digest", cn.Digest == zzDigest)
	zzv.Assert("a file larger than the limit is refused", cn.Size <= zzC.attachmentSize)
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	zzAnn, zzAnnOK = cn, true
	return 0, nil
}

func zzNewEnc(w io.Writer) *xdr.Encoder {
	e := new(xdr.Encoder)
	zzv.GSet(e, "w", w)
	return e
}
func zzEncode(e *xdr.Encoder, v interface{}) (int, error) {
	w, _ := zzv.GGet(e, "w").(io.Writer)
	return zzStored(w, v)
}

func zzLoaded(r io.Reader, v interface{}) (int, error) {
	f, ok := r.(*os.File)
	zzv.Assert("what was announced is read from its descriptor", ok && zzv.EqB(zzNameOf(f), zzDescFile))
	if !zzAnnOK || zzv.Choose() {
		return 0, zzv.NewErr()
	}
	p, ok := v.(*rpc.ChunkNew)
	zzv.Assert("what was announced is read as it was stored", ok)
	*p = zzAnn
	return 0, nil
}

func zzNewDec(r io.Reader) *xdr.Decoder {
	d := new(xdr.Decoder)
	zzv.GSet(d, "r", r)
	return d
}
func zzDecode(d *xdr.Decoder, v interface{}) (int, error) {
	r, _ := zzv.GGet(d, "r").(io.Reader)
	return zzLoaded(r, v)
}

func zzFileSum(name string) (*[32]byte, error) {
	zzv.Assert("the received data is digested", zzv.EqB(name, zzSpoolFile))
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	d := sha256.Sum256(zzData)
	return &d, nil
}

func zzRenameS(o, n string) error {
	zzv.Assert("only the received data is moved", zzv.EqB(o, zzSpoolFile) && !zzNewFile)
	zzv.Assert("a file is completed directly in the spool directory", zzv.PathIn(n, zzSpoolDir) && zzv.EqB(path.Dir(n), zzSpoolDir))
	zzv.Assert("a completed file replaces no other", zzv.EqB(n, zzNewName))
	zzv.Assert("a file is completed once it is as large as announced", zzAnnOK && uint64(len(zzData)) == zzAnn.Size && !zzTorn)
	sum := sha256.Sum256(zzData)
	zzv.Assert("a file is completed only if it has the announced digest", sum == zzDigest)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzMoved++
	zzDataOK = false
	return nil
}

func zzRemoveS(n string) error {
	zzv.Assert("only what belongs to the transfer is removed", zzv.EqB(n, zzDescFile) && zzMoved == 1)
	if zzv.Choose() {
		return zzv.NewErr()
	}
	zzAnnOK = false
	return nil
}

func zzFindPeer(ab *addressbook.AddressBook, id [32]byte) (*zkidentity.PublicIdentity, error) {
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	p := new(zkidentity.PublicIdentity)
	zzv.Havoc(p)
	return p, nil
}

//@ verify C18 C22 C23 nopanic locks
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC).FloodfT := zzFlood
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzFindPeer
//@ use os.MkdirAll := zzMkdirS
//@ use os.Mkdir := zzMkdirS
//@ use os.Create := zzCreateS
//@ use os.Open := zzOpenS
//@ use os.OpenFile := zzOpenFileS
//@ use os.Stat := zzStatPath
//@ use os.Lstat := zzStatPath
//@ use os.Rename := zzRenameS
//@ use os.Remove := zzRemoveS
//@ use (*os.File).Stat := zzStatS
//@ use (*os.File).Close := zzCloseS
//@ use (*os.File).Write := zzWriteS
//@ use github.com/davecgh/go-xdr/xdr2.NewEncoder := zzNewEnc
//@ use (*github.com/davecgh/go-xdr/xdr2.Encoder).Encode := zzEncode
//@ use github.com/davecgh/go-xdr/xdr2.Marshal := zzStored
//@ use github.com/marcopeereboom/goutil.FileSHA256 := zzFileSum
func zzvAnnounce(z *ZKC, msg rpc.Message, p rpc.Push, cn rpc.ChunkNew) {
	zzSetupSpool(z, p.From, cn.Digest)
	zzNewFile = true
	had, was := zzAnnOK, len(zzData)
	err := z.doHandleChunkNew(msg, p, cn)
	zzv.Assert("no file is left open", zzOpened == 0)
	if err == nil {
		zzv.Assert("an announced file starts empty", zzAnnOK && zzDataOK && len(zzData) == 0)
		zzv.Assert("what was announced is what is stored", zzv.Same(zzAnn, cn))
		zzv.Reach("announced")
	} else {
		zzv.Reach("refused")
	}
	if cn.Size > z.attachmentSize {
		zzv.Assert("a file larger than the limit changes nothing", err != nil && zzAnnOK == had && len(zzData) == was)
		zzv.Reach("too large")
	}
	// the invariant that chunks rely on
	zzv.Assert("a stored announcement is within the limit and under its digest", !zzAnnOK || zzAnn.Digest == zzDigest && zzAnn.Size <= z.attachmentSize)
}

//@ verify C18 C22 C23 nopanic locks
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC).FloodfT := zzFlood
//@ use (*zkclient/addressbook.AddressBook).FindIdentity := zzFindPeer
//@ use os.MkdirAll := zzMkdirS
//@ use os.Mkdir := zzMkdirS
//@ use os.Create := zzCreateS
//@ use os.Open := zzOpenS
//@ use os.OpenFile := zzOpenFileS
//@ use os.Stat := zzStatPath
//@ use os.Lstat := zzStatPath
//@ use os.Rename := zzRenameS
//@ use os.Remove := zzRemoveS
//@ use (*os.File).Stat := zzStatS
//@ use (*os.File).Close := zzCloseS
//@ use (*os.File).Write := zzWriteS
//@ use github.com/davecgh/go-xdr/xdr2.NewDecoder := zzNewDec
//@ use (*github.com/davecgh/go-xdr/xdr2.Decoder).Decode := zzDecode
//@ use github.com/davecgh/go-xdr/xdr2.Unmarshal := zzLoaded
//@ use github.com/marcopeereboom/goutil.FileSHA256 := zzFileSum
func zzvChunk(z *ZKC, msg rpc.Message, p rpc.Push, c rpc.Chunk) {
	zzSetupSpool(z, p.From, c.Digest)
	zzPay, zzOff = c.Payload, c.Offset
	was := uint64(len(zzData))
	ann := zzAnnOK
	err := z.doHandleChunk(msg, p, c)
	zzv.Assert("no file is left open", zzOpened == 0)
	if err == nil {
		zzv.Assert("a chunk is accepted where the last one ended", ann && zzOff == was && zzAppended == 1 && !zzTorn)
		if uint64(len(zzData)) == zzAnn.Size {
			zzv.Assert("a complete file is moved into place", zzMoved == 1)
			zzv.Reach("completed")
		} else {
			zzv.Assert("an incomplete file is not moved", zzMoved == 0)
			zzv.Reach("stored")
		}
	} else {
		zzv.Assert("what is not completed is not moved", zzMoved == 0)
		zzv.Reach("refused")
	}
	zzv.Assert("what was received stays", uint64(len(zzData)) >= was)
}
