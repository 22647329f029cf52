package main

import (
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

import "fmt"

func sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

// isGhostFn: f is contract code or an assumed contract.
func (v *Verifier) isGhostFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	n := v.prog.Fset.Position(f.Pos()).Filename
	return strings.HasPrefix(filepath.Base(n), "zzv_") || f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/zzm")
}
