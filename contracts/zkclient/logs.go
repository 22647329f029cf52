package main

import (
	"net"
	"os"
	"path"

	"github.com/companyzero/zkc/debug"
	"github.com/companyzero/zkc/zzv"
)

// Logs of windows.
var (
	zzLogs   int
	zzLogOut int
)

func zzSplitHP(addr string) (string, string, error) {
	if zzv.Choose() {
		return "", "", zzv.NewErr()
	}
	h, p := zzv.FreshString("host"), zzv.FreshString("port")
	zzv.Assume(zzv.Simple(h)) // the address the client is configured with
	return h, p, nil
}
func zzOpenLog(name string, flag int, m os.FileMode) (*os.File, error) {
	zzv.Assert("a log is kept in the log directory", zzv.PathIn(name, path.Join(zzC.settings.Root, logsDir)))
	zzv.Assert("a log keeps what was logged before", flag&os.O_TRUNC == 0 && flag&os.O_APPEND != 0)
	zzv.Assert("logs are private", m == 0600)
	if zzv.Choose() {
		return nil, zzv.NewErr()
	}
	zzLogs++
	return new(os.File), nil
}
func zzLogClose(f *os.File) error { zzLogs--; return nil }

func zzLogCons(d *debug.Debug, id int, format string, args ...interface{}) {}

//@ verify C18 C22 C23 nopanic locks cutknown nonnil=zkclient.conversation.id
//@ use net.SplitHostPort := zzSplitHP
//@ use os.OpenFile := zzOpenLog
//@ use (*os.File).Close := zzLogClose
//@ use (*zkclient.ZKC).printf := zzPrint
//@ use (*debug.Debug).Log := zzLogCons
func zzvLog(z *ZKC, id int, text string) {
	zzSetupZ(z)
	zzv.NoNils(z.conversation)
	zzLogs = 0
	z.log(id, "%v", text)
	zzv.Assert("no log is left open", zzLogs == 0)
	zzv.Reach("logged")
}

var _ = net.IPv4len
