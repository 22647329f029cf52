package main

import (
	"testing"

	"github.com/companyzero/zkc/rpc"
)

// TestReplayC27Windows: peers with the nick of another peer, of a group or of
// the console.
func TestReplayC27Windows(t *testing.T) {
	me := zzClient(t, "me")
	var peers []*ZKC
	for _, n := range []string{"bob", "bob", "bob x", "pals", "console", "me"} {
		p := zzClient(t, n)
		zzMeet(t, me, p)
		peers = append(peers, p)
	}
	me.groups["pals"] = rpc.GroupList{Name: "pals", Generation: 1, Members: [][32]byte{me.id.Public.Identity, peers[0].id.Public.Identity}}
	text := []string{"first-bob", "second-bob", "bob-x", "peer-pals", "peer-console", "peer-me"}
	for i, p := range peers {
		if err := zzTell(t, p, me, rpc.PrivateMessage{Text: text[i]}); err != nil {
			t.Fatal(err)
		}
	}
	if err := zzTell(t, peers[0], me, rpc.GroupMessage{Name: "pals", Generation: 1, Message: "group-pals"}); err != nil {
		t.Fatal(err)
	}
	for i, p := range peers {
		w := zzShows(me, text[i])
		if len(w) != 1 {
			t.Fatalf("%v is shown in %v windows", text[i], len(w))
		}
		if w[0].group || w[0].id.Identity != p.id.Public.Identity {
			t.Errorf("%v is not shown in the window of its sender", text[i])
		}
	}
	w := zzShows(me, "group-pals")
	if len(w) != 1 || !w[0].group {
		t.Error("the message of a group is not shown in its window")
	}
	// answer in each window
	zzSent(me)
	me.RLock()
	n := len(me.conversation)
	me.RUnlock()
	for i := 1; i < n; i++ {
		me.Lock()
		me.active = i
		c := me.conversation[i]
		me.Unlock()
		if err := me.mw.action("an answer"); err != nil {
			t.Errorf("answer in the window of %v: %v", c.nick, err)
			continue
		}
		out := zzSent(me)
		if len(out) != 1 {
			t.Errorf("an answer to %v is sent %v times", c.nick, len(out))
			continue
		}
		if c.group {
			g, ok := out[0].payload.(rpc.GroupMessage)
			if !ok || g.Name != c.nick || g.Message != "an answer" {
				t.Errorf("an answer to the group goes elsewhere: %#v", out[0])
			}
			continue
		}
		pm, ok := out[0].payload.(rpc.PrivateMessage)
		if !ok || pm.Text != "an answer" || out[0].to != c.id.Identity {
			t.Errorf("an answer to %v goes elsewhere: %#v", c.nick, out[0])
		}
	}
}
