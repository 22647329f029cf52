package main

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/debug"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/tagstack"
	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
)

// the terminal that windows are drawn for
//
//go:linkname zzMaxX github.com/companyzero/ttk.maxX
var zzMaxX int

//go:linkname zzMaxY github.com/companyzero/ttk.maxY
var zzMaxY int

//go:linkname zzTermOut github.com/nsf/termbox-go.out
var zzTermOut *os.File

//go:linkname zzTermFuncs github.com/nsf/termbox-go.funcs
var zzTermFuncs []string

// zzScreen gives ttk a terminal of its own to draw windows on.
func zzScreen(t *testing.T) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		t.Skip(err)
	}
	var n, u int32
	ioctl := func(r uintptr, p unsafe.Pointer) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), r, uintptr(p)); e != 0 {
			t.Skip(e)
		}
	}
	ioctl(syscall.TIOCSPTLCK, unsafe.Pointer(&u))
	ioctl(syscall.TIOCGPTN, unsafe.Pointer(&n))
	ioctl(syscall.TIOCSWINSZ, unsafe.Pointer(&[4]uint16{25, 80, 0, 0}))
	s, err := os.OpenFile("/dev/pts/"+strconv.Itoa(int(n)), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		t.Skip(err)
	}
	go io.Copy(ioutil.Discard, m)
	done := make(chan struct{})
	ttk.Queue(func() {
		zzTermFuncs = make([]string, 64)
		zzTermOut = s
		close(done)
	})
	<-done
}

func init() { zzMaxX, zzMaxY = 80, 25 }

// zzClient is a client with all of its files in a scratch directory and nothing
// on a terminal.  What it sends stays in its queues.
func zzClient(t *testing.T, nick string) *ZKC {
	t.Helper()
	d, err := ioutil.TempDir("", "zzcli")
	if err != nil {
		t.Skip(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	z := &ZKC{
		serverAddress:     "server:12345",
		ab:                addressbook.New(),
		conversation:      make([]*conversation, 1, 16),
		pendingIdentities: make(map[string]*time.Time),
		groups:            make(map[string]rpc.GroupList),
		settings:          &Settings{Root: filepath.Join(d, "root"), TimeFormat: "15:04:05", LongTimeFormat: "2006-01-02 15:04:05"},
		chunkSize:         128,
		msgSize:           1 << 20,
		attachmentSize:    4096,
		online:            true,
		tagStack:          tagstack.New(tagDepth),
		tagCallback:       make([]*cb, tagDepth),
		done:              make(chan struct{}),
		hi:                make(chan wireMsg, 4096),
		lo:                make(chan wireMsg, 4096),
	}
	for _, x := range []string{inboundDir, logsDir, spoolDir, groupchatDir} {
		if err = os.MkdirAll(filepath.Join(z.settings.Root, x), 0700); err != nil {
			t.Skip(err)
		}
	}
	z.Debug, err = debug.New(filepath.Join(d, "log"), z.settings.TimeFormat)
	if err != nil {
		t.Skip(err)
	}
	z.Register(idZKC, "")
	z.Register(idRPC, "[RPC]")
	z.Register(idSnd, "[SND]")
	z.id, err = zkidentity.New(nick, nick)
	if err != nil {
		t.Skip(err)
	}
	z.mw = &mainWindow{quitC: make(chan struct{}), zkc: z}
	z.ttkMW = ttk.NewWindow(z.mw)
	z.conversation[0].id = &z.id.Public
	return z
}

// zzFiles gives b what a finished key exchange leaves behind: a's identity and
// the ratchet with it.
func zzFiles(t *testing.T, a, b *ZKC, r *ratchet.Ratchet) {
	t.Helper()
	var err error
	if !b.identityExists(a.id.Public.Identity) {
		err = b.saveIdentity(a.id.Public)
	}
	if err == nil {
		err = b.updateRatchet(r, false)
	}
	if err != nil {
		t.Fatal(err)
	}
	b.addressBookAdd(a.id.Public)
}

// zzMeet lets two clients know each other.
func zzMeet(t *testing.T, a, b *ZKC) {
	t.Helper()
	mk := func(me, other *ZKC) *ratchet.Ratchet {
		r := ratchet.New(rand.Reader)
		r.MyPrivateKey = &me.id.PrivateKey
		r.MySigningPublic = &me.id.Public.SigKey
		r.TheirIdentityPublic = &other.id.Public.Identity
		r.TheirSigningPublic = &other.id.Public.SigKey
		r.TheirPublicKey = &other.id.Public.Key
		return r
	}
	ra, rb := mk(a, b), mk(b, a)
	ka, kb := new(ratchet.KeyExchange), new(ratchet.KeyExchange)
	err := ra.FillKeyExchange(ka)
	if err == nil {
		err = rb.FillKeyExchange(kb)
	}
	if err == nil {
		err = ra.CompleteKeyExchange(kb, true)
	}
	if err == nil {
		err = rb.CompleteKeyExchange(ka, false)
	}
	if err != nil {
		t.Fatal(err)
	}
	zzFiles(t, b, a, ra)
	zzFiles(t, a, b, rb)
}

// zzSeal encrypts what from sends to another client.
func zzSeal(t *testing.T, from, to *ZKC, payload interface{}) rpc.Push {
	t.Helper()
	r, err := from.loadRatchet(to.id.Public.Identity, false)
	if err != nil {
		t.Fatal(err)
	}
	m, err := from.crpc(r, payload)
	if err == nil {
		err = from.updateRatchet(r, false)
	}
	if err != nil {
		t.Fatal(err)
	}
	return rpc.Push{From: from.id.Public.Identity, Received: time.Now().Unix(), Payload: m}
}

// zzTell delivers it.
func zzTell(t *testing.T, from, to *ZKC, payload interface{}) error {
	t.Helper()
	return to.handlePush(rpc.Message{Command: rpc.TaggedCmdPush}, zzSeal(t, from, to, payload))
}

type zzOut struct {
	to      [32]byte
	payload interface{}
}

// zzSent returns what a client sent since.
func zzSent(z *ZKC) (out []zzOut) {
	for {
		select {
		case m := <-z.hi:
			if m.id != nil {
				out = append(out, zzOut{*m.id, m.payload})
			}
		case m := <-z.lo:
			if m.id != nil {
				out = append(out, zzOut{*m.id, m.payload})
			}
		default:
			return
		}
	}
}

// zzDrawn waits until all that was queued for the terminal was done.
func zzDrawn() {
	for i := 0; i < 3; i++ {
		c := make(chan struct{})
		ttk.Queue(func() { close(c) })
		<-c
	}
}

// zzLines returns what a window shows.
func zzLines(c *conversation) (out []string) {
	zzDrawn()
	done := make(chan struct{})
	ttk.Queue(func() {
		v := reflect.ValueOf(c.console).Elem().FieldByName("content")
		s := *(*[]string)(unsafe.Pointer(v.UnsafeAddr()))
		for _, l := range s {
			out = append(out, ttk.Unescape(l))
		}
		close(done)
	})
	<-done
	return
}

// zzShows tells whether some window, and which, shows a text.
func zzShows(z *ZKC, text string) (out []*conversation) {
	zzDrawn()
	z.RLock()
	cs := append([]*conversation{}, z.conversation...)
	z.RUnlock()
	for _, c := range cs {
		if strings.Contains(strings.Join(zzLines(c), "\n"), text) {
			out = append(out, c)
		}
	}
	return
}

// zzTree lists all files below a directory with their contents.
func zzTree(d string) map[string]string {
	m := make(map[string]string)
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := ioutil.ReadFile(p)
			r, _ := filepath.Rel(d, p)
			m[r] = string(b)
		}
		return nil
	})
	return m
}

// zzDiffer lists the files that differ between two listings.
func zzDiffer(a, b map[string]string) (out []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			out = append(out, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

// zzTrap reports a panic, or no end, as a failure.
func zzTrap(t *testing.T, what string, f func()) {
	t.Helper()
	c := make(chan interface{}, 1)
	go func() {
		defer func() { c <- recover() }()
		f()
	}()
	select {
	case e := <-c:
		if e != nil {
			t.Fatalf("%v: panic: %v", what, e)
		}
	case <-time.After(20 * time.Second):
		t.Fatalf("%v: does not end", what)
	}
}

var _ = bytes.Equal
var _ = fmt.Sprint

// zzFull runs f with every write beyond n bytes failing.
func zzFull(t *testing.T, n uint64, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil {
		t.Skip()
	}
	if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}) != nil {
		t.Skip()
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}
