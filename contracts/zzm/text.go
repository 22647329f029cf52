package zzm

import (
	"github.com/companyzero/zkc/zzv"
)

//@ model strings.HasPrefix
func HasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

//@ model strings.HasSuffix
func HasSuffix(s, p string) bool { return len(s) >= len(p) && s[len(s)-len(p):] == p }

//@ model bytes.HasPrefix
func BHasPrefix(s, p []byte) bool { return HasPrefix(string(s), string(p)) }

//@ model strings.TrimPrefix
func TrimPrefix(s, p string) string {
	if HasPrefix(s, p) {
		return s[len(p):]
	}
	return s
}

//@ model strings.TrimSuffix
func TrimSuffix(s, p string) string {
	if HasSuffix(s, p) {
		return s[:len(s)-len(p)]
	}
	return s
}

//@ model os.IsNotExist
func IsNotExist(err error) bool { return err != nil && zzv.UFBool("os.IsNotExist", err) }

//@ model os.IsExist
func IsExist(err error) bool { return err != nil && zzv.UFBool("os.IsExist", err) }

//@ model errors.Is
func ErrorsIs(err, target error) bool {
	if err == target {
		return true
	}
	return err != nil && target != nil && zzv.UFBool("errors.Is", err, target)
}
