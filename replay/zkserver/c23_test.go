package main

import "testing"

func zzCalm(*zzStorm, string) {}

func TestReplayC23Clients(t *testing.T) {
	zzNewStorm(t, 1, zzCalm).clients(60, 40)
}

func TestReplayC23Strangers(t *testing.T) {
	s := zzNewStorm(t, 2, zzCalm)
	s.strangers(200)
	s.admin(100)
}

func TestReplayC23Files(t *testing.T) {
	zzNewStorm(t, 3, zzCalm).files(4)
}

func TestReplayC23Full(t *testing.T) {
	zzNewStorm(t, 4, zzCalm).full(15)
}
