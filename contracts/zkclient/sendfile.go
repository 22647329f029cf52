package main

import (
	"crypto/sha256"
	"errors"
	"io"
	"os"
	"path"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zzv"
)

// Sending a file.
var (
	zzSFName  string
	zzSFSize  int64
	zzSFile   *os.File
	zzSFTold  bool
	zzSFData  []byte // what the file holds
	zzSFHash  bool   // it was digested
	zzSFPos   int    // where it is read
	zzSFHave  bool   // something was read that was not sent yet
	zzSFRead  []byte
	zzSFEnd   bool
	zzSFOff   int // what was sent
	zzSFOffU  uint64 // the same
	zzSFDesc  rpc.ChunkNew
	zzSFSaid  bool // it was announced
	zzSFDone  bool // the user was told that it was sent
	zzSFTo    [32]byte
	zzSFSum   [32]byte
	zzSFMime  string
	zzSFClose bool
)

func zzSFExpand(s string) (string, error) {
	if zzv.Choose() {
		return "", zzv.NewErr()
	}
	zzSFName = zzv.FreshString("expanded")
	return zzSFName, nil
}
func zzSFOpen(name string) (*os.File, error) {
	zzv.Assert("the file that was named is sent", zzv.EqB(name, zzSFName))
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzSFile = new(os.File)
	return zzSFile, nil
}
func zzSFStat(f *os.File) (os.FileInfo, error) {
	zzv.Assert("the file that was named is sent", f == zzSFile)
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzv.Havoc(&zzSFSize)
	zzv.Assume(zzSFSize >= 0)
	return zzFI{zzSFSize}, nil
}
func zzSFKind(f *os.File) (string, error) {
	if zzv.Choose() {
		return "", zzv.NewErr()
	}
	zzSFMime = zzv.FreshString("mime")
	return zzSFMime, nil
}
func zzSFGo(z *ZKC, nick string, f *os.File, id [32]byte, cn *rpc.ChunkNew) {
	zzv.Assert("the file is sent to who was named, once", !zzSFTold && f == zzSFile && f != nil && zzv.EqB(id[:], zzSFTo[:]))
	zzv.Assert("a file is announced as it is, and by its name only", cn.Size == uint64(zzSFSize) && zzv.EqB(cn.Filename, path.Base(zzSFName)) && zzv.EqB(cn.MIME, zzSFMime) && cn.ChunkSize == z.chunkSize)
	zzv.Assert("only a file that the server takes is sent", cn.Size <= z.attachmentSize)
	zzSFTold = true
}

//@ verify C18 C22 C23 nopanic locks cutknown
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use github.com/mitchellh/go-homedir.Expand := zzSFExpand
//@ use os.Open := zzSFOpen
//@ use (*os.File).Stat := zzSFStat
//@ use zkclient.FileMIME := zzSFKind
//@ use go (*zkclient.ZKC).completeSend := zzSFGo
func zzvSendFile(z *ZKC, id [32]byte, nick, filename, desc string) {
	zzSetupZ(z)
	zzSFTold, zzSFTo, zzSFile = false, id, nil
	err := z.send(id, nick, filename, desc)
	zzv.Assert("success means that the file is sent", (err == nil) == zzSFTold)
	if err == nil {
		zzv.Reach("sent")
	}
}

func zzSFCopy(w io.Writer, r io.Reader) (int64, error) {
	f, ok := r.(*os.File)
	zzv.Assert("the file is digested from its start", ok && f == zzSFile && zzSFPos == 0 && !zzSFHash)
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	n, err := w.Write(zzSFData)
	zzSFHash = true
	zzSFPos = n
	return int64(n), err
}
func zzSFSeek(f *os.File, off int64, whence int) (int64, error) {
	zzv.Assert("the file is read again", f == zzSFile && off == 0 && whence == io.SeekStart)
	if zzv.Choose() {
		return 0, zzv.NewErr()
	}
	zzSFPos = 0
	return 0, nil
}
func zzSFReads(f *os.File, b []byte) (int, error) {
	zzv.Assert("what was read is sent before more is read", f == zzSFile && !zzSFHave && !zzSFClose)
	zzv.Assert("a chunk is as long as the server allows", uint64(len(b)) == zzC.chunkSize)
	zzv.Assert("the file is sent from its start", zzSFPos == zzSFOff)
	if zzv.Choose() {
		zzSFEnd = true
		return 0, io.EOF
	}
	if zzv.Choose() {
		e := zzv.NewErr()
		zzv.Assume(!errors.Is(e, io.EOF))
		return 0, e
	}
	n := zzv.FreshInt("read", 0, len(b))
	zzSFRead = zzv.FreshBytes("chunk", n)
	copy(b, zzSFRead)
	zzSFHave = true
	zzSFPos += n
	return n, nil
}
func zzSFSend(z *ZKC, hi bool, id *[32]byte, payload interface{}) {
	zzv.Assert("the file goes to who was named", zzv.EqB(id[:], zzSFTo[:]))
	if c, ok := payload.(rpc.Chunk); ok {
		zzv.Assert("a file is announced before it is sent", zzSFSaid && !hi)
		zzv.Assert("a chunk is what was read, once", zzSFHave && zzv.EqB(c.Payload, zzSFRead))
		// the same place, counted in either type
		zzv.Assert("a chunk is sent for where it was read", zzv.Or(c.Offset == uint64(zzSFOff), c.Offset == zzSFOffU))
		zzv.Assert("a chunk is part of what was announced", zzv.Same(c.Digest, zzSFSum))
		zzSFOff += len(zzSFRead)
		zzSFOffU += uint64(len(zzSFRead))
		zzSFHave = false
		zzv.Reach("chunk")
		return
	}
	c, ok := payload.(rpc.ChunkNew)
	zzv.Assert("a file is announced once", ok && !zzSFSaid && hi)
	d := zzSFDesc
	d.Digest = zzSFSum
	zzv.Assert("a file is announced with its digest", zzSFHash && zzv.Same(c, d))
	zzSFSaid = true
}
func zzSFFlood(z *ZKC, nick, format string, args ...interface{}) {
	zzv.Assert("a file is called sent once all of it was", zzSFSaid && zzSFEnd && !zzSFHave)
	zzSFDone = true
	zzv.Reach("done")
}
func zzSFShut(f *os.File) error { zzSFClose = true; return nil }

//@ verify C18 C22 C23 nopanic locks cutknown
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*zkclient.ZKC).FloodfT := zzSFFlood
//@ use (*zkclient.ZKC).scheduleCRPC := zzSFSend
//@ use io.Copy := zzSFCopy
//@ use (*os.File).Seek := zzSFSeek
//@ use (*os.File).Read := zzSFReads
//@ use (*os.File).Close := zzSFShut
func zzvSendChunks(z *ZKC, nick string, id [32]byte, cn rpc.ChunkNew) {
	zzSetupZ(z)
	zzv.Assume(z.chunkSize > 0 && z.chunkSize < 1<<30)
	zzSFile, zzSFData, zzSFTo, zzSFDesc = new(os.File), zzv.FreshBytes("file", -1), id, cn
	zzSFSum = sha256.Sum256(zzSFData)
	zzSFHash, zzSFPos, zzSFHave, zzSFEnd, zzSFOff, zzSFOffU, zzSFSaid, zzSFDone, zzSFClose = false, 0, false, false, 0, 0, false, false, false
	z.completeSend(nick, zzSFile, id, &cn)
	zzv.Assert("the file is closed", zzSFClose)
	zzv.Assert("the user is told", !zzSFEnd || zzSFDone)
}
