package main

import (
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Paths.  A path put together from a directory and simple names (no slash, not
// "", "." or "..") is the text clean(dir) "/" name "/" name ...; anything else
// is an unknown function of its elements.

type pathSplit struct{ dir, base *Term }

func (ex *Ex) simpleTerm(s *Term) *Term { return ex.tc.UF("simple", SBool, nil, nil, nil, s) }

// plainTerm: s has no slash.
func (ex *Ex) plainTerm(s *Term) *Term { return ex.tc.UF("noslash", SBool, nil, nil, nil, s) }

// simpleName: e is known to be one component of a path.
func (ex *Ex) simpleName(st *State, e *Term) bool {
	if e.op == OBLit {
		return e.str != "" && e.str != "." && e.str != ".." && !strings.Contains(e.str, "/")
	}
	if ex.valid(st, ex.simpleTerm(e)) {
		return true
	}
	ok := false
	for _, s := range ex.tc.segs(e) {
		switch {
		case s.op == OBLit:
			if strings.Contains(s.str, "/") {
				return false
			}
			if strings.Trim(s.str, ".") != "" {
				ok = true // some character that is not a dot
			}
		case s.op == OUF && (s.str == "ctor:dec" || s.str == "ctor:hex"):
			if s.str == "ctor:dec" || ex.valid(st, ex.tc.Lt(ex.tc.Zero, s.blen)) {
				ok = true
			}
		case ex.valid(st, ex.tc.Or(ex.simpleTerm(s), ex.plainTerm(s))):
			if strings.Trim(lits(ex.tc.segs(e)), ".") != "" {
				ok = true
			} else if ex.valid(st, ex.tc.Lt(ex.tc.Int(2), e.blen)) {
				ok = true
			}
		default:
			return false
		}
	}
	return ok
}

// simpleIf: a condition under which e is one component of a path (exactly that
// when e is not put together from pieces).
func (ex *Ex) simpleIf(e *Term) *Term {
	tc := ex.tc
	if e.op == OBLit {
		return tc.Bool(e.str != "" && e.str != "." && e.str != ".." && !strings.Contains(e.str, "/"))
	}
	ss := tc.segs(e)
	if len(ss) < 2 {
		return ex.simpleTerm(e)
	}
	if strings.Trim(lits(ss), ".") == "" || strings.Contains(lits(ss), "/") {
		return tc.False
	}
	r := tc.True
	for _, s := range ss {
		if s.op != OBLit {
			r = tc.And(r, ex.simpleTerm(s))
		}
	}
	return r
}

func lits(ss []*Term) string {
	r := ""
	for _, s := range ss {
		if s.op == OBLit {
			r += s.str
		}
	}
	return r
}

func (ex *Ex) joinPath(st *State, name string, elems []*Term) *Term {
	tc := ex.tc
	all := true
	var parts []*Term
	for _, e := range elems {
		if e.op == OBLit && e.str == "" {
			continue
		}
		all = all && e.op == OBLit
		parts = append(parts, e)
	}
	if all {
		var ss []string
		for _, e := range parts {
			ss = append(ss, e.str)
		}
		return tc.BLit(path.Join(ss...))
	}
	cur := parts[0]
	if _, ok := ex.pathOf[cur]; !ok {
		cur = ex.cleanPath(cur)
	}
	for _, e := range parts[1:] {
		// a literal may name several components
		var comps []*Term
		if e.op == OBLit {
			for _, c := range strings.Split(e.str, "/") {
				if c != "" && c != "." {
					comps = append(comps, tc.BLit(c))
				}
			}
		} else {
			comps = []*Term{e}
		}
		for _, c := range comps {
			if c.op == OBLit && c.str == ".." {
				if sp, ok := ex.pathOf[cur]; ok && sp.base != nil {
					cur = sp.dir
					continue
				}
			}
			if !ex.simpleName(st, c) {
				return tc.UF("path.Join", SBytes, nil, nil, nil, elems...)
			}
			n := tc.BCat(cur, tc.BLit("/"), c)
			ex.pathOf[n] = pathSplit{cur, c}
			cur = n
		}
	}
	return cur
}

func (ex *Ex) cleanPath(p *Term) *Term {
	if p.op == OBLit {
		return ex.tc.BLit(path.Clean(p.str))
	}
	if _, ok := ex.pathOf[p]; ok {
		return p
	}
	c := ex.tc.UF("clean", SBytes, nil, nil, nil, p)
	ex.pathOf[c] = pathSplit{}
	return c
}

// pathIn: p is known to name something below dir.
func (ex *Ex) pathIn(p, dir *Term) bool {
	dir = ex.cleanPath(dir)
	for {
		sp, ok := ex.pathOf[p]
		if !ok || sp.base == nil {
			return false
		}
		if sp.dir == dir {
			return true
		}
		p = sp.dir
	}
}

func pathIntrinsics(m map[string]handler) {
	m["path/filepath.ToSlash"] = func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
		ex.ret(st, dst, args[0]) // the separator is already a slash
	}
	for _, n := range []string{"strings.Replace", "strings.ReplaceAll"} {
		m[n] = func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			tc := ex.tc
			var ts []*Term
			for _, a := range args[:3] {
				ts = append(ts, a.(*Term))
			}
			all := len(args) == 3
			if !all {
				n := args[3].(*Term)
				all = ex.valid(st, tc.Lt(n, tc.Zero))
			}
			if s, o, r := ts[0], ts[1], ts[2]; all && s.op == OBLit && o.op == OBLit && r.op == OBLit {
				ex.ret(st, dst, tc.BLit(strings.Replace(s.str, o.str, r.str, -1)))
				return
			}
			for _, a := range args[3:] {
				ts = append(ts, a.(*Term))
			}
			r := tc.UF("strings.Replace", SBytes, nil, nil, nil, ts...)
			if all && ts[1].op == OBLit && ts[1].str == "/" && ts[2].op == OBLit && !strings.Contains(ts[2].str, "/") {
				ex.assume(st, ex.plainTerm(r))
			}
			ex.externs["(pure) strings.Replace"]++
			ex.ret(st, dst, r)
		}
	}
	m["path/filepath.FromSlash"] = m["path/filepath.ToSlash"]
	for _, pk := range []string{"path", "path/filepath"} {
		pk := pk
		m[pk+".Join"] = func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			var es []*Term
			for _, a := range ex.variadic(st, args[0]) {
				es = append(es, ex.bytesOf(st, a))
			}
			if len(es) == 0 {
				pure(ex, st, fn, args, dst)
				return
			}
			ex.ret(st, dst, ex.joinPath(st, fnName(fn), es))
		}
		m[pk+".Clean"] = func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.cleanPath(args[0].(*Term)))
		}
		m[pk+".Base"] = func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			if sp, ok := ex.pathOf[args[0].(*Term)]; ok && sp.base != nil {
				ex.ret(st, dst, sp.base)
				return
			}
			if t := args[0].(*Term); ex.simpleName(st, t) {
				ex.ret(st, dst, t)
				return
			}
			if args[0].(*Term).op == OBLit {
				pure(ex, st, fn, args, dst)
				return
			}
			// a component, or one of the names of a directory
			r := ex.tc.UF("path.Base", SBytes, nil, nil, nil, args[0].(*Term))
			tc := ex.tc
			ex.assume(st, tc.Or(ex.simpleTerm(r), tc.Eq(r, tc.BLit(".")), tc.Eq(r, tc.BLit("..")), tc.Eq(r, tc.BLit("/"))))
			ex.externs["(pure) path.Base"]++
			ex.ret(st, dst, r)
		}
		m[pk+".Dir"] = func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			if sp, ok := ex.pathOf[args[0].(*Term)]; ok && sp.base != nil {
				ex.ret(st, dst, sp.dir)
				return
			}
			pure(ex, st, fn, args, dst)
		}
	}
}
