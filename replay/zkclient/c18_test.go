package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/companyzero/zkc/rpc"
)

// zzXfer is a client with a peer that sends it files.
type zzXfer struct {
	t        *testing.T
	me, peer *ZKC
	top      string
	ok       map[[32]byte]uint64 // what was announced within the limit
	was      map[string]string
}

func zzNewXfer(t *testing.T) *zzXfer {
	x := &zzXfer{t: t, me: zzClient(t, "me"), peer: zzClient(t, "peer"), ok: make(map[[32]byte]uint64)}
	zzMeet(t, x.me, x.peer)
	x.top = filepath.Dir(x.me.settings.Root)
	x.was = zzTree(x.top)
	return x
}

// say delivers a message and checks which files changed.
func (x *zzXfer) say(payload interface{}) {
	x.t.Helper()
	zzTrap(x.t, "file transfer", func() { zzTell(x.t, x.peer, x.me, payload) })
	now := zzTree(x.top)
	defer func() { x.was = now }()
	spool := filepath.Join("root", spoolDir)
	mine := filepath.Join(spool, hex.EncodeToString(x.peer.id.Public.Identity[:]))
	for _, f := range zzDiffer(x.was, now) {
		switch {
		case f == "log", strings.HasPrefix(f, filepath.Join("root", logsDir)+"/"),
			strings.HasPrefix(f, filepath.Join("root", inboundDir)+"/"):
			// logs and ratchets
		case strings.HasPrefix(f, mine+"/"):
			if uint64(len(now[f])) > x.me.attachmentSize {
				x.t.Errorf("%v bytes are stored, the limit is %v", len(now[f]), x.me.attachmentSize)
			}
		case filepath.Dir(f) == spool:
			if _, had := x.was[f]; had {
				x.t.Errorf("%v, which was there, is changed", f)
				continue
			}
			d := sha256.Sum256([]byte(now[f]))
			n, ok := x.ok[d]
			if !ok || n != uint64(len(now[f])) {
				x.t.Errorf("%v is completed with %v bytes that were not announced", f, len(now[f]))
			}
		default:
			x.t.Errorf("%v is written, outside the spool directory of the peer", f)
		}
	}
}

// announce offers data under a name and a size.
func (x *zzXfer) announce(name string, data []byte, size uint64) [32]byte {
	x.t.Helper()
	d := sha256.Sum256(data)
	if size <= x.me.attachmentSize && size == uint64(len(data)) {
		x.ok[d] = size
	}
	x.say(rpc.ChunkNew{Size: size, ChunkSize: 16, Filename: name, Digest: d})
	return d
}
func (x *zzXfer) chunk(d [32]byte, off int, b []byte) {
	x.t.Helper()
	x.say(rpc.Chunk{Offset: uint64(off), Digest: d, Payload: b})
}

// completed lists the completed files that hold data.
func (x *zzXfer) completed(data []byte) (out []string) {
	for f, b := range x.was {
		if filepath.Dir(f) == filepath.Join("root", spoolDir) && b == string(data) {
			out = append(out, f)
		}
	}
	return
}

func zzFill(n int, c byte) []byte {
	b := bytes.Repeat([]byte{c}, n)
	for i := range b {
		b[i] += byte(i)
	}
	return b
}

func TestReplayC18Names(t *testing.T) {
	x := zzNewXfer(t)
	os.MkdirAll(filepath.Join(x.top, "root", "keep"), 0700)
	id := hex.EncodeToString(x.peer.id.Public.Identity[:])
	for i, n := range []string{"plain", "plain", "../up", "../../up", filepath.Join(x.top, "abs"), "a/b/c", "..", ".", "/", "", "../inbound/" + id + "/ratchet.xdr",
		"..\\up", "../keep/x", id, strings.ToUpper(id), "../spool/plain", "plain/../../up", "x\x00y", strings.Repeat("n", 300)} {
		data := zzFill(40, byte(i))
		d := x.announce(n, data, 40)
		x.chunk(d, 0, data[:16])
		x.chunk(d, 16, data[16:32])
		x.chunk(d, 32, data[32:])
		if i < 2 && len(x.completed(data)) != 1 {
			t.Errorf("%q is completed %v times", n, len(x.completed(data)))
		}
	}
}

func TestReplayC18Chunks(t *testing.T) {
	x := zzNewXfer(t)
	data := zzFill(48, 7)
	for i, f := range []func(d [32]byte){
		// out of order, twice, beyond the end, empty
		func(d [32]byte) { x.chunk(d, 16, data[16:32]); x.chunk(d, 0, data[:16]); x.chunk(d, 32, data[32:]) },
		func(d [32]byte) { x.chunk(d, 0, data[:16]); x.chunk(d, 0, data[:16]); x.chunk(d, 16, data[16:32]) },
		func(d [32]byte) { x.chunk(d, 0, append(data[:48:48], 1)) },
		func(d [32]byte) { x.chunk(d, 0, data[:32]); x.chunk(d, 32, append(data[32:48:48], 1, 2)) },
		func(d [32]byte) { x.chunk(d, 0, data[:32]); x.chunk(d, 32, zzFill(16, 9)) },
		func(d [32]byte) { x.chunk(d, -1, data); x.chunk(d, 1<<62, data) },
		func(d [32]byte) { x.chunk(d, 0, nil); x.chunk(d, 0, data) },
		func(d [32]byte) { x.chunk(d, 0, data[:16]); x.announce("again", data, 48); x.chunk(d, 16, data[16:]) },
		func(d [32]byte) { x.chunk(d, 0, data[:16]); x.chunk(d, 16, data[16:]); x.chunk(d, 48, data) },
	} {
		d := x.announce("f", data, 48)
		f(d)
		// a fresh start always gets there
		was := len(x.completed(data))
		x.announce("f", data, 48)
		x.chunk(d, 0, data[:20])
		x.chunk(d, 20, data[20:])
		if len(x.completed(data)) != was+1 {
			t.Errorf("case %v: the file is not completed", i)
		}
	}
	// one wrong byte, in any number of chunks
	for n := 1; n <= 4; n++ {
		for bad := -1; bad < n; bad++ {
			was := len(x.completed(data))
			d := x.announce("f", data, 48)
			for i := 0; i < n; i++ {
				b := append([]byte{}, data[i*48/n:(i+1)*48/n]...)
				if i == bad {
					b[len(b)-1] ^= 1
				}
				x.chunk(d, i*48/n, b)
			}
			if (len(x.completed(data)) == was+1) != (bad < 0) {
				t.Errorf("%v chunks, the wrong one is %v: the file is completed %v times", n, bad, len(x.completed(data))-was)
			}
		}
	}
	// a chunk of a file that nobody announced
	x.chunk(sha256.Sum256(zzFill(9, 1)), 0, zzFill(9, 1))
}

func TestReplayC18Size(t *testing.T) {
	x := zzNewXfer(t)
	max := int(x.me.attachmentSize)
	for _, n := range []int{max - 1, max, max + 1, 2 * max} {
		data := zzFill(n, byte(n))
		d := x.announce("big", data, uint64(n))
		for o := 0; o < n; o += 1000 {
			e := o + 1000
			if e > n {
				e = n
			}
			x.chunk(d, o, data[o:e])
		}
		if want := n <= max; want != (len(x.completed(data)) == 1) {
			t.Errorf("a file of %v bytes is completed %v times, the limit is %v", n, len(x.completed(data)), max)
		}
	}
	// less announced than sent, more than fits a file
	data := zzFill(64, 3)
	for _, n := range []uint64{32, 65, 1 << 63, ^uint64(0)} {
		d := x.announce("lie", data, n)
		for o := 0; o < 64; o += 16 {
			x.chunk(d, o, data[o:o+16])
		}
		for o := 64; o < 3*max; o += 1024 {
			x.chunk(d, o, make([]byte, 1024))
		}
	}
}

// TestReplayC18Peers: what one peer sends does not touch the files of another.
func TestReplayC18Peers(t *testing.T) {
	x := zzNewXfer(t)
	y := zzClient(t, "other")
	zzMeet(t, x.me, y)
	data := zzFill(48, 5)
	d := x.announce("f", data, 48)
	x.chunk(d, 0, data[:16])
	z := &zzXfer{t: t, me: x.me, peer: y, top: x.top, ok: make(map[[32]byte]uint64), was: zzTree(x.top)}
	z.chunk(d, 16, data[16:])
	z.announce("f", data, 48)
	z.chunk(d, 0, data[:32])
	x.was = zzTree(x.top)
	x.chunk(d, 16, data[16:])
	if len(x.completed(data)) != 1 {
		t.Error("the file of the first peer is not completed")
	}
}

func TestReplayC18Logs(t *testing.T) {
	me := zzClient(t, "me")
	for _, n := range []string{"a/b", "../up", "../../up", filepath.Dir(me.settings.Root) + "/abs", ".."} {
		p := zzClient(t, n)
		zzMeet(t, me, p)
		for _, d := range []string{"root/logs/..", "root/..", "root/logs/a"} {
			os.MkdirAll(filepath.Join(filepath.Dir(me.settings.Root), d), 0700)
		}
		was := zzTree(filepath.Dir(me.settings.Root))
		zzTell(t, p, me, rpc.PrivateMessage{Text: "hi"})
		zzDrawn()
		for _, f := range zzDiffer(was, zzTree(filepath.Dir(me.settings.Root))) {
			if f == "log" || strings.HasPrefix(f, "root/"+inboundDir) || filepath.Dir(f) == "root/"+logsDir {
				continue
			}
			t.Errorf("nick %q: %v is written", n, f)
		}
	}
}

// TestReplayC18Send: a file arrives as it was sent.
func TestReplayC18Send(t *testing.T) {
	x := zzNewXfer(t)
	d := filepath.Join(x.top, "from")
	os.MkdirAll(d, 0700)
	cs, max := int(x.peer.chunkSize), int(x.peer.attachmentSize)
	for i, n := range []int{1, cs - 1, cs, cs + 1, 2 * cs, 10*cs + 7, max - 1, max, max + 1} {
		data := zzFill(n, byte(3*i))
		name := filepath.Join(d, "file"+string(rune('a'+i)))
		if err := ioutil.WriteFile(name, data, 0600); err != nil {
			t.Skip(err)
		}
		var err error
		zzTrap(t, "send", func() { err = x.peer.send(x.me.id.Public.Identity, "me", name, "a file") })
		if (err == nil) != (n <= max) {
			t.Fatalf("%v bytes, limit %v: %v", n, max, err)
		}
		if err != nil {
			time.Sleep(20 * time.Millisecond)
			if len(x.peer.hi)+len(x.peer.lo) != 0 {
				t.Fatal("a file that is too large is sent")
			}
			continue
		}
		var all []wireMsg
		said := false
		for got := 0; got < n; {
			select {
			case m := <-x.peer.hi:
				c, ok := m.payload.(rpc.ChunkNew)
				if !ok || said || got != 0 || c.Filename != filepath.Base(name) || c.Size != uint64(n) || c.Digest != sha256.Sum256(data) || *m.id != x.me.id.Public.Identity {
					t.Fatalf("announced as %+v", m.payload)
				}
				said = true
				x.ok[c.Digest] = c.Size
				all = append([]wireMsg{m}, all...)
			case m := <-x.peer.lo:
				c, ok := m.payload.(rpc.Chunk)
				if !ok || c.Offset != uint64(got) || len(c.Payload) > cs || len(c.Payload) == 0 || *m.id != x.me.id.Public.Identity {
					t.Fatalf("%v bytes sent, then %+v", got, m.payload)
				}
				got += len(c.Payload)
				all = append(all, m)
			case <-time.After(10 * time.Second):
				t.Fatalf("%v of %v bytes are sent", got, n)
			}
		}
		time.Sleep(20 * time.Millisecond)
		if !said || len(x.peer.lo) != 0 {
			t.Fatal("more is sent than the file")
		}
		x.was = zzTree(x.top)
		for _, m := range all {
			x.say(m.payload)
		}
		if len(x.completed(data)) != 1 {
			t.Fatalf("a file of %v bytes does not arrive", n)
		}
		zzDrawn()
		x.was = zzTree(x.top)
	}
}
