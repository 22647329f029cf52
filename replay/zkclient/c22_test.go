package main

import (
	"testing"
	"time"

	"github.com/companyzero/zkc/rpc"
)

// zzAllFree reports locks that a step left held.
func zzAllFree(s *zzStorm, what string) {
	if h := zzHeld(s.me); len(h) != 0 {
		s.t.Fatalf("%v: %v stays locked", what, h)
	}
}

func TestReplayC22Peers(t *testing.T) {
	s := zzNewStorm(t, 11, zzAllFree)
	s.peersMessages(500)
	s.garbledPushes(100)
}

// Others wait for the locks all the time.
func TestReplayC22Busy(t *testing.T) {
	s := zzNewStorm(t, 17, func(s *zzStorm, what string) {})
	s.busy(func() {
		s.peersMessages(300)
		s.garbledPushes(60)
		s.commands(300)
		s.failing(5)
		for i := 0; i < 8; i++ {
			id := zzClient(t, "new").id.Public
			var err error
			s.do("asking for keys", func() { err = s.me.step1IDKX(id) })
			if err != nil {
				t.Log(err)
			}
		}
	})
}

func TestReplayC22Server(t *testing.T) {
	zzNewStorm(t, 16, zzAllFree).serverMessages(30, 40)
}

func TestReplayC22Commands(t *testing.T) {
	zzNewStorm(t, 12, zzAllFree).commands(500)
}

func TestReplayC22Files(t *testing.T) {
	zzNewStorm(t, 13, zzAllFree).files(4)
}

func TestReplayC22Failing(t *testing.T) {
	zzNewStorm(t, 14, zzAllFree).failing(20)
}

// TestReplayC22Full: nothing can be written.
func TestReplayC22Full(t *testing.T) {
	s := zzNewStorm(t, 15, zzAllFree)
	var held []string
	zzFull(t, 0, func() {
		z := s.me
		id := s.peers[0].id.Public.Identity
		for what, f := range map[string]func(){
			"storing a ratchet": func() {
				r, err := z.loadRatchet(id, false)
				if err == nil {
					z.updateRatchet(r, false)
				}
			},
			"storing an identity": func() { z.saveIdentity(s.peers[0].id.Public) },
			"encrypting":          func() { z.cacheCRPC(id, rpc.PrivateMessage{Text: "x"}, nil) },
			"a new group":         func() { z.gcNew([]string{"/gc", "new", "fresh"}) },
			"a list of a group": func() {
				z.handleGroupList(rpc.Message{}, rpc.Push{From: id}, rpc.GroupList{Name: "room", Generation: 9, Members: z.groups["room"].Members})
			},
			"leaving a group": func() { z.gcPart([]string{"/gc", "part", "room"}) },
			"an invitation": func() {
				z.handleGroupInvite(rpc.Message{}, rpc.Push{From: id}, rpc.GroupInvite{Name: "gg", Expires: time.Now().Unix() + 9})
			},
			"inviting": func() { z.gcInvite([]string{"/gc", "invite", "mine", "room"}) },
			"a key":    func() { z.saveKey(&[32]byte{}) },
			"a new certificate": func() {
				z.online, z.provisionalCert, z.serverIdentity = false, []byte("x"), &z.id.Public
				z.mw.action("/acceptnewcert")
			},
			"saving windows": func() { saveConversations(z) },
			"a reset":        func() { z.handleResetRatchet(id) },
			"forgetting":     func() { z.addressBookDel("room") },
		} {
			zzTrap(t, what, f)
			if h := zzHeld(z); len(h) != 0 {
				held = append(held, what)
				held = append(held, h...)
				return
			}
			z.online = true
		}
	})
	if len(held) != 0 {
		t.Fatalf("nothing can be written: %v stay locked", held)
	}
}
