package debug

import (
	"github.com/companyzero/zkc/zzv"
)

// The log of a process.  Everybody logs, also while holding other locks.

//@ verify C22 C23 nopanic locks guard=debug.Debug.subsystems/Mutex
func zzvLog(d *Debug, id int, format, x string, n int, e error) {
	zzv.Assume(zzv.LockState(&d.Mutex) == 0)
	switch n {
	case 0:
		d.Log(id, format, x, e)
	case 1:
		d.Info(id, format, x, e)
	case 2:
		d.Warn(id, format, x, e)
	case 3:
		d.Error(id, format, x, e)
	case 4:
		d.Critical(id, format, x, e)
	case 5:
		d.Dbg(id, format, x, e)
	default:
		d.T(id, format, x, e)
	}
	zzv.Assert("the lock is released", zzv.LockState(&d.Mutex) == 0)
	zzv.Reach("end")
}

//@ verify C22 C23 nopanic locks guard=debug.Debug.subsystems/Mutex
func zzvRegister(filename, format, name string, id, n int) {
	d, err := New(filename, format)
	if err != nil {
		zzv.Assert("a log that can not be used is not handed out", d == nil)
		return
	}
	err = d.Register(id, name)
	err2 := d.Register(n, name)
	zzv.Assert("a part of the program is registered once", err == nil && (err2 != nil) == (n == id))
	d.EnableDebug()
	d.EnableTrace()
	zzOff(d)
	zzv.Assert("the lock is released", zzv.LockState(&d.Mutex) == 0)
	zzv.Reach("end")
}
func zzOff(d *Debug) {
	d.DisableDebug()
	d.DisableTrace()
}
