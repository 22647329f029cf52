package main

import "testing"

// zzAllFree reports locks that a step left held.
func zzAllFree(s *zzStorm, what string) {
	if h := zzHeld(s.z); len(h) != 0 {
		s.t.Fatalf("%v: %v stays locked", what, h)
	}
}

func TestReplayC22Clients(t *testing.T) {
	zzNewStorm(t, 11, zzAllFree).clients(60, 40)
}

func TestReplayC22Strangers(t *testing.T) {
	s := zzNewStorm(t, 12, zzAllFree)
	s.strangers(200)
	s.admin(100)
}

func TestReplayC22Files(t *testing.T) {
	zzNewStorm(t, 13, zzAllFree).files(4)
}

func TestReplayC22Full(t *testing.T) {
	zzNewStorm(t, 14, zzAllFree).full(15)
}
