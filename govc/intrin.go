package main

import (
	"path"
	"path/filepath"
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type handler func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value)

var intrinsics map[string]handler

// SnapV is a frozen view of a value together with the heap it lives in.
type SnapV struct {
	heap   map[int]*Obj
	symres map[int]PtrV
	ifres  map[int]IfaceV
	val    Value
	typ    types.Type
}

func (ex *Ex) snap(st *State, v Value, t types.Type) *SnapV {
	s := &SnapV{heap: make(map[int]*Obj, len(st.heap)), symres: make(map[int]PtrV, len(st.symres)), ifres: make(map[int]IfaceV), val: v, typ: t}
	for k, o := range st.heap {
		s.heap[k] = o
	}
	for k, o := range st.symres {
		s.symres[k] = o
	}
	for k, o := range st.ifres {
		s.ifres[k] = o
	}
	return s
}

func constStr(v Value) string {
	t, ok := v.(*Term)
	if !ok || t.op != OBLit && t.blen.val == nil {
		return "?"
	}
	return t.str
}

func unIface(v Value) Value {
	if i, ok := v.(IfaceV); ok {
		return i.val
	}
	return v
}

// view gives object content as seen by a snapshot (or now, when s is nil).
func (ex *Ex) view(st *State, s *SnapV, id int) Value {
	if s == nil {
		return st.heap[id].val
	}
	if o, ok := s.heap[id]; ok {
		return o.val
	}
	o := st.heap[id]
	if o.sym {
		return o.init
	}
	return o.val
}

func (ex *Ex) viewNorm(st *State, s *SnapV, v Value) Value {
	// resolutions only ever grow, so the current tables serve both
	return ex.norm(st, v)
}

type pairKey struct{ a, b int }

// deepEq compares two values structurally through pointers.
func (ex *Ex) deepEq(st *State, sa *SnapV, a Value, sb *SnapV, b Value, seen map[pairKey]bool) *Term {
	tc := ex.tc
	a, b = ex.norm(st, a), ex.norm(st, b)
	if p, ok := a.(PtrV); ok {
		if _, ok := b.(SymPtr); ok {
			_ = p
			a, b = b, a
			sa, sb = sb, sa
		}
	}
	switch x := a.(type) {
	case nil:
		return tc.Bool(b == nil)
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return tc.False
		}
		return tc.Eq(x, y)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			return tc.False
		}
		r := tc.True
		for i := range x.f {
			r = tc.And(r, ex.deepEq(st, sa, x.f[i], sb, y.f[i], seen))
			if r == tc.False {
				return r
			}
		}
		return r
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.e) != len(y.e) {
			return tc.False
		}
		r := tc.True
		for i := range x.e {
			r = tc.And(r, ex.deepEq(st, sa, x.e[i], sb, y.e[i], seen))
		}
		return r
	case *Assoc:
		y, ok := b.(*Assoc)
		if !ok {
			return tc.False
		}
		return ex.assocEqD(st, sa, x, sb, y, seen)
	case PtrV:
		y, ok := b.(PtrV)
		if !ok {
			return tc.False
		}
		if x.obj == 0 || y.obj == 0 {
			return tc.Bool(x.obj == y.obj)
		}
		if x.obj == y.obj && sa == sb {
			return samePath(tc, x.path, y.path)
		}
		k := pairKey{x.obj, y.obj}
		if len(x.path) == 0 && len(y.path) == 0 {
			if seen[k] {
				return tc.True
			}
			seen[k] = true
		}
		return ex.deepEq(st, sa, ex.getPath(st, ex.view(st, sa, x.obj), x.path), sb, ex.getPath(st, ex.view(st, sb, y.obj), y.path), seen)
	case SymPtr:
		switch y := b.(type) {
		case SymPtr:
			if x.id == y.id {
				return tc.True
			}
			return tc.And(x.nilv, y.nilv)
		case PtrV:
			if y.obj == 0 {
				return x.nilv
			}
		}
		return tc.False
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			return tc.False
		}
		r := tc.Eq(x.len, y.len)
		if r == tc.False {
			return r
		}
		if x.obj == 0 || y.obj == 0 {
			return r // both empty
		}
		if x.obj == y.obj && sa == sb {
			return tc.And(r, samePath(tc, x.path, y.path), tc.Eq(x.off, y.off))
		}
		ca := ex.getPath(st, ex.view(st, sa, x.obj), x.path)
		cb := ex.getPath(st, ex.view(st, sb, y.obj), y.path)
		if ta, ok := ca.(*Term); ok {
			tb := cb.(*Term)
			return tc.And(r, tc.Eq(tc.BSlice(ta, x.off, x.len), tc.BSlice(tb, y.off, y.len)))
		}
		if n, ok := x.len.Int64(); ok {
			if m, ok := y.len.Int64(); ok && n == m {
				for i := int64(0); i < n; i++ {
					r = tc.And(r, ex.deepEq(st, sa, ex.getElem(st, ca, PE{ix: tc.Add(x.off, tc.Int(i))}), sb, ex.getElem(st, cb, PE{ix: tc.Add(y.off, tc.Int(i))}), seen))
				}
				return r
			}
		}
		aa, ok1 := ca.(*Assoc)
		ab, ok2 := cb.(*Assoc)
		if ok1 && ok2 && x.off == y.off {
			return tc.And(r, ex.assocEqD(st, sa, aa, sb, ab, seen))
		}
		return tc.False
	case MapV:
		y, ok := b.(MapV)
		if !ok {
			return tc.False
		}
		if x.obj == 0 || y.obj == 0 {
			if x.obj == y.obj {
				return tc.True
			}
			// nil versus empty map
			o := x.obj + y.obj
			s := sa
			if x.obj == 0 {
				s = sb
			}
			return tc.Eq(ex.view(st, s, o).(*Assoc).ln, tc.Zero)
		}
		if x.obj == y.obj && sa == sb {
			return tc.True
		}
		return ex.assocEqD(st, sa, ex.view(st, sa, x.obj).(*Assoc), sb, ex.view(st, sb, y.obj).(*Assoc), seen)
	case ChanV:
		y, ok := b.(ChanV)
		return tc.Bool(ok && x.obj == y.obj)
	case IfaceV:
		switch y := b.(type) {
		case IfaceV:
			if x.typ == nil || y.typ == nil {
				return tc.Bool(x.typ == nil && y.typ == nil)
			}
			if !types.Identical(x.typ, y.typ) {
				return tc.False
			}
			return ex.deepEq(st, sa, x.val, sb, y.val, seen)
		case SymIface:
			return ex.eqVal(st, a, b)
		}
		return tc.False
	case SymIface:
		return ex.eqVal(st, a, b)
	case FuncV:
		y, ok := b.(FuncV)
		return tc.Bool(ok && x.fn == y.fn)
	case SymFunc:
		y, ok := b.(SymFunc)
		return tc.Bool(ok && x.id == y.id)
	}
	ex.unsupported("deepEq %T %T", a, b)
	return nil
}

func (ex *Ex) assocEqD(st *State, sa *SnapV, x *Assoc, sb *SnapV, y *Assoc, seen map[pairKey]bool) *Term {
	tc := ex.tc
	if x.base != y.base {
		return tc.False
	}
	r := tc.Eq(x.ln, y.ln)
	cmp := func(p, q *Assoc, sp, sq *SnapV) {
		for _, e := range p.ents {
			if x.arr && ex.valid(st, tc.Le(x.ln, e.key.(*Term))) {
				continue
			}
			pr, v := ex.assocGet(st, q, e.key)
			c := tc.Eq(e.present, pr)
			r = tc.And(r, c)
			if r == tc.False {
				return
			}
			if e.present != tc.False {
				r = tc.And(r, tc.Imp(e.present, ex.deepEq(st, sp, e.val, sq, v, seen)))
			}
		}
	}
	cmp(x, y, sa, sb)
	cmp(y, x, sb, sa)
	// unknown part: shared values, but what they point to may have changed
	if x.base != 0 {
		for _, e := range st.bases[x.base].ents {
			if e.present == tc.False {
				continue
			}
			hidden := false
			for _, o := range append(append([]AEnt(nil), x.ents...), y.ents...) {
				if ex.identV(st, o.key, e.key) == tc.True {
					hidden = true
				}
			}
			if !hidden {
				r = tc.And(r, tc.Imp(e.present, ex.deepEq(st, sa, e.val, sb, e.val, seen)))
			}
		}
	}
	return r
}

// flatten turns a value into uninterpreted-function arguments.
func (ex *Ex) flatten(st *State, v Value, deep bool) []*Term {
	tc := ex.tc
	switch x := ex.norm(st, v).(type) {
	case *Term:
		return []*Term{x}
	case *StructV:
		var r []*Term
		for _, f := range x.f {
			r = append(r, ex.flatten(st, f, deep)...)
		}
		return r
	case *ArrV:
		var r []*Term
		for _, f := range x.e {
			r = append(r, ex.flatten(st, f, deep)...)
		}
		return r
	case SliceV:
		if x.obj == 0 {
			return []*Term{tc.Empty}
		}
		c := ex.getPath(st, st.heap[x.obj].val, x.path)
		if _, ok := c.(*Term); ok {
			return []*Term{ex.bytesOf(st, x)}
		}
		if n, ok := x.len.Int64(); ok && n <= 64 {
			r := []*Term{x.len}
			for i := int64(0); i < n; i++ {
				r = append(r, ex.flatten(st, ex.getElem(st, c, PE{ix: tc.Add(x.off, tc.Int(i))}), deep)...)
			}
			return r
		}
		if a, ok := c.(*Assoc); ok {
			r := []*Term{x.len, x.off, tc.Int(int64(a.base))}
			for _, e := range a.ents {
				r = append(r, ex.flatten(st, e.key, deep)...)
				r = append(r, ex.flatten(st, e.val, deep)...)
			}
			return r
		}
		return []*Term{tc.Int(int64(x.obj)), x.off, x.len}
	case PtrV:
		if x.obj == 0 {
			return []*Term{tc.Int(-1)}
		}
		if deep {
			return append([]*Term{tc.Int(1)}, ex.flatten(st, ex.load(st, x), deep)...)
		}
		if t, ok := ex.load(st, x).(*Term); ok && t.sort == SBytes {
			return []*Term{t}
		}
		return []*Term{tc.Int(int64(x.obj))}
	case SymPtr:
		if deep && ex.decide(st, tc.Not(x.nilv)) {
			return append([]*Term{tc.Int(1)}, ex.flatten(st, ex.load(st, x), deep)...)
		}
		return []*Term{tc.Ite(x.nilv, tc.Int(-1), tc.Int(int64(-100-x.id)))}
	case IfaceV:
		if x.typ == nil {
			return []*Term{tc.Int(-1)}
		}
		return ex.flatten(st, x.val, deep)
	case SymIface:
		return []*Term{tc.Int(int64(-100000 - x.id))}
	case MapV:
		if x.obj == 0 {
			return []*Term{tc.Int(-1)}
		}
		a := st.heap[x.obj].val.(*Assoc)
		r := []*Term{a.ln, tc.Int(int64(a.base))}
		for _, e := range a.ents {
			r = append(r, e.present)
			r = append(r, ex.flatten(st, e.key, deep)...)
			r = append(r, ex.flatten(st, e.val, deep)...)
		}
		return r
	case ChanV:
		return []*Term{tc.Int(int64(x.obj))}
	case FuncV:
		return []*Term{tc.UF("fn:"+showVal(x), SInt, nil, nil, nil)}
	case SymFunc:
		return []*Term{tc.Int(int64(x.id))}
	}
	ex.unsupported("flatten %T", v)
	return nil
}

func (ex *Ex) flattenVar(st *State, v Value, deep bool) []*Term {
	var r []*Term
	s := v.(SliceV)
	n, ok := s.len.Int64()
	if !ok {
		ex.unsupported("variadic of symbolic length")
	}
	for i := int64(0); i < n; i++ {
		r = append(r, ex.flatten(st, ex.getElem(st, ex.getPath(st, st.heap[s.obj].val, s.path), PE{ix: ex.tc.Add(s.off, ex.tc.Int(i))}), deep)...)
	}
	return r
}

func (ex *Ex) variadic(st *State, v Value) []Value {
	s := v.(SliceV)
	n, ok := s.len.Int64()
	if !ok {
		return nil
	}
	var r []Value
	for i := int64(0); i < n; i++ {
		r = append(r, ex.getElem(st, ex.getPath(st, st.heap[s.obj].val, s.path), PE{ix: ex.tc.Add(s.off, ex.tc.Int(i))}))
	}
	return r
}

// newError makes a fresh non-nil error.
func (ex *Ex) newError(st *State, why string) Value {
	ex.symN++
	return SymIface{id: ex.symN, t: types.Universe.Lookup("error").Type(), nilv: ex.tc.False, ext: true}
}

// pureRes builds the results of a pure external function.
func (ex *Ex) pureRes(st *State, name string, sig *types.Signature, args []*Term) []Value {
	tc := ex.tc
	var out []Value
	for i, t := range resTypes(sig) {
		nm := fmt.Sprintf("%s#%d", name, i)
		switch kindOf(t) {
		case kString:
			out = append(out, tc.UF(nm, SBytes, nil, nil, nil, args...))
		case kBool:
			out = append(out, tc.UF(nm, SBool, nil, nil, nil, args...))
		case kInt:
			b, s := intInfo(t)
			lo, hi := typeRange(b, s)
			out = append(out, tc.UF(nm, SInt, lo, hi, nil, args...))
		case kOpaque:
			out = append(out, tc.UF(nm, SInt, nil, nil, nil, args...))
		case kByteArr:
			out = append(out, tc.UF(nm, SBytes, nil, nil, tc.Int(t.Underlying().(*types.Array).Len()), args...))
		case kSlice:
			if isByte(t.Underlying().(*types.Slice).Elem()) {
				out = append(out, ex.newBytes(st, tc.UF(nm, SBytes, nil, nil, nil, args...)))
				continue
			}
			out = append(out, ex.freshV(st, t, nm))
		case kIface:
			if types.Identical(t, types.Universe.Lookup("error").Type()) {
				ex.symN++
				out = append(out, SymIface{id: ex.symN, t: t, nilv: tc.UF(nm+".nil", SBool, nil, nil, nil, args...)})
				continue
			}
			out = append(out, ex.freshV(st, t, nm))
		default:
			out = append(out, ex.freshV(st, t, nm))
		}
	}
	return out
}

// externals treated as pure (deterministic, effect free) functions.
var pureExt = map[string]bool{
	"strings.TrimSpace": true, "strings.ToLower": true, "strings.ToUpper": true, "strings.Trim": true,
	"strings.TrimLeft": true, "strings.TrimRight": true,
	"strings.Replace": true, "strings.Repeat": true, "strings.Index": true, "strings.IndexByte": true,
	"strings.Contains": true, "strings.ContainsAny": true, "strings.LastIndex": true, "strings.EqualFold": true, "strings.ContainsRune": true, "strings.IndexRune": true,
	"strings.Count": true, "strings.Title": true, "strings.Compare": true,
	"path/filepath.Join": true, "path.Join": true, "path/filepath.Base": true, "path.Base": true, "path/filepath.Dir": true, "path.Dir": true, "path/filepath.Ext": true, "path/filepath.Clean": true, "path/filepath.IsAbs": true,
	"strconv.Itoa": true, "strconv.FormatInt": true, "strconv.FormatUint": true, "strconv.Atoi": true, "strconv.ParseInt": true, "strconv.ParseUint": true, "strconv.ParseBool": true, "strconv.Quote": true,
	"unicode.IsSpace": true, "unicode.IsLetter": true, "unicode.IsDigit": true, "unicode.ToLower": true,
	"bytes.Compare": true, "bytes.Contains": true,
	"time.ParseDuration": true, "(time.Duration).String": true,
}

// foldText evaluates a few text functions on constants.
var foldText = map[string]func(a, b string) interface{}{
	"strings.TrimSpace": func(a, _ string) interface{} { return strings.TrimSpace(a) },
	"strings.ToLower":   func(a, _ string) interface{} { return strings.ToLower(a) },
	"strings.ToUpper":   func(a, _ string) interface{} { return strings.ToUpper(a) },
	"strings.Contains":  func(a, b string) interface{} { return strings.Contains(a, b) },
	"path.Base":         func(a, _ string) interface{} { return path.Base(a) },
	"path.Dir":          func(a, _ string) interface{} { return path.Dir(a) },
	"path/filepath.Base": func(a, _ string) interface{} { return filepath.Base(a) },
	"path/filepath.Dir":  func(a, _ string) interface{} { return filepath.Dir(a) },
}

func pure(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
	if f := foldText[fnName(fn)]; f != nil {
		var lit []string
		for _, a := range args {
			if t, ok := a.(*Term); ok && t.op == OBLit {
				lit = append(lit, t.str)
			}
		}
		if len(lit) == len(args) {
			switch r := f(lit[0], lit[len(lit)-1]).(type) {
			case string:
				ex.ret(st, dst, ex.tc.BLit(r))
			case bool:
				ex.ret(st, dst, ex.tc.Bool(r))
			}
			return
		}
	}
	name := fnName(fn)
	switch name {
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		// one function: the decimal form of an integer
		if len(args) == 1 || args[1] == ex.tc.Int(10) {
			if t := args[0].(*Term); t.op == OConst && t.val != nil {
				ex.ret(st, dst, ex.tc.BLit(t.val.String()))
				return
			}
			args, name = args[:1], "strconv.Itoa"
		}
	}
	var ts []*Term
	for _, a := range args {
		ts = append(ts, ex.flatten(st, a, true)...)
	}
	ex.externs["(pure) "+name]++
	ex.ret(st, dst, ex.pureRes(st, name, fn.Signature, ts)...)
}

func (ex *Ex) lockTerm(st *State, p Value) *Term { return ex.load(st, p).(*Term) }

func (ex *Ex) lockOp(st *State, fn *ssa.Function, p Value, dst ssa.Value, pre func(cur *Term) *Term, upd func(cur *Term) *Term, what string) {
	r := ex.resolve(st, p)
	cur := ex.load(st, p).(*Term)
	c := pre(cur)
	if ex.opts.LockLabel != "" {
		ex.oblige(st, ex.opts.LockLabel, c, what+" at "+ex.where(st))
	}
	if c == ex.tc.False {
		panic(pathEnd{"deadlock: " + what})
	}
	ex.assume(st, c)
	ex.store(st, p, upd(cur))
	ex.lockTaken(st, r, what)
	// hook
	if len(r.path) > 0 {
		o := st.heap[r.obj]
		par := r.path[:len(r.path)-1]
		pt := ex.typeAt(o.typ, par)
		hn := what + " " + strings.ReplaceAll(namedPath(pt), modPath+"/", "")
		if stt, ok := pt.Underlying().(*types.Struct); ok && r.path[len(r.path)-1].ix == nil {
			hn += "." + stt.Field(r.path[len(r.path)-1].f).Name()
		}
		if g := ex.modelFor(hn); g != nil {
			ex.models[hn]++
			ex.pushFrame(st, g, []Value{PtrV{obj: r.obj, path: par}}, nil, dst)
			return
		}
	}
	ex.ret(st, dst)
}

// guard checks that the lock that protects a field is held when real code
// touches the field of a shared (not freshly built) object.  Specifications
// read T.field/mutex.
func (ex *Ex) guard(st *State, v Value, write bool) {
	p, ok := v.(PtrV)
	if !ok || len(p.path) == 0 {
		return
	}
	o := st.heap[p.obj]
	if o == nil || !o.sym {
		return
	}
	fn := st.top().fn
	if f := ex.prog.Fset.Position(fn.Pos()).Filename; strings.HasPrefix(filepath.Base(f), "zzv_") {
		return
	}
	for i, pe := range p.path {
		if pe.ix != nil {
			continue
		}
		t := ex.typeAt(o.typ, p.path[:i])
		sty, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		full := strings.ReplaceAll(namedPath(t), modPath+"/", "") + "." + sty.Field(pe.f).Name()
		for _, g := range ex.opts.Guards {
			k := strings.Index(g, "/")
			if k < 0 || g[:k] != full {
				continue
			}
			for m := 0; m < sty.NumFields(); m++ {
				if sty.Field(m).Name() != g[k+1:] {
					continue
				}
				l := ex.load(st, PtrV{obj: p.obj, path: append(append([]PE{}, p.path[:i]...), PE{f: m})})
				lt, ok := l.(*Term)
				if !ok {
					ex.unsupported("guard %s is not a lock", g)
				}
				c := ex.tc.Eq(lt, ex.tc.One)
				if !write {
					c = ex.tc.Not(ex.tc.Eq(lt, ex.tc.Zero))
				}
				ex.oblige(st, full+" is accessed under "+g[k+1:], c, "unlocked access at "+ex.where(st))
			}
		}
	}
}

func (ex *Ex) bytesArg(st *State, v Value) *Term {
	v = unIface(v)
	switch x := ex.norm(st, v).(type) {
	case *Term:
		return x
	case SliceV:
		return ex.bytesOf(st, x)
	case PtrV, SymPtr:
		if t, ok := ex.load(st, x).(*Term); ok {
			return t
		}
	}
	ex.unsupported("bytesArg %T", v)
	return nil
}

func init() {
	v := func(n string) string { return "zzv." + n }
	intrinsics = map[string]handler{
		v("Assume"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			c := args[0].(*Term)
			ex.assume(st, c)
			if ex.sol.Check(st.pc, nil) == Unsat {
				panic(pathEnd{"assumption excludes path"})
			}
			ex.ret(st, dst)
		},
		v("Assert"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			l := constStr(args[0])
			c := args[1].(*Term)
			if ex.oblige(st, l, c, "contract clause "+l+" does not hold") {
				ex.know(st, c)
			} else if c != ex.tc.False {
				if ex.sol.Check(st.pc, c) == Unsat {
					panic(pathEnd{"assert failed"})
				}
				ex.assume(st, c)
			} else {
				panic(pathEnd{"assert failed"})
			}
			ex.ret(st, dst)
		},
		v("Reach"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			l := constStr(args[0])
			if !ex.covers[l] && !st.mute {
				if ex.sol.Check(st.pc, nil) == Sat {
					ex.covers[l] = true
				}
			}
			ex.ret(st, dst)
		},
		v("Havoc"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			i := args[0].(IfaceV)
			t := i.typ.Underlying().(*types.Pointer).Elem()
			ex.store(st, i.val, ex.freshV(st, t, "havoc"))
			ex.ret(st, dst)
		},
		v("Choose"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			b := ex.decide(st, ex.choice(st, "choose", 0))
			ex.ret(st, dst, ex.tc.Bool(b))
		},
		v("ChooseInt"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			lo, _ := args[0].(*Term).Int64()
			hi, _ := args[1].(*Term).Int64()
			for i := lo; i < hi; i++ {
				if ex.decide(st, ex.choice(st, "chooseint", int(i))) {
					ex.ret(st, dst, ex.tc.Int(i))
					return
				}
			}
			ex.ret(st, dst, ex.tc.Int(hi))
		},
		v("Snap"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			i, ok := ex.norm(st, args[0]).(IfaceV)
			if !ok {
				ex.unsupported("Snap of %T", args[0])
			}
			s := ex.snap(st, i.val, i.typ)
			ex.ret(st, dst, IfaceV{typ: i.typ, val: s})
		},
		v("Same"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			un := func(a Value) (*SnapV, Value) {
				a = ex.norm(st, a)
				i, ok := a.(IfaceV)
				if !ok {
					return nil, a
				}
				if s, ok := i.val.(*SnapV); ok {
					return s, s.val
				}
				return nil, i.val
			}
			sa, a := un(args[0])
			sb, b := un(args[1])
			ex.ret(st, dst, ex.deepEq(st, sa, a, sb, b, map[pairKey]bool{}))
		},
		v("Ident"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.identV(st, unIface(args[0]), unIface(args[1])))
		},
		v("UFBytes"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ts := ex.flattenVar(st, args[2], true)
			ex.ret(st, dst, ex.newBytes(st, ex.ufBytes(constStr(args[0]), args[1].(*Term), ts)))
		},
		v("UFString"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ts := ex.flattenVar(st, args[1], true)
			ex.ret(st, dst, ex.ufBytes(constStr(args[0]), ex.tc.Int(-1), ts))
		},
		v("UFBool"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ts := ex.flattenVar(st, args[1], true)
			ex.ret(st, dst, ex.tc.UF(constStr(args[0]), SBool, nil, nil, nil, ts...))
		},
		v("UFInt"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ts := ex.flattenVar(st, args[1], true)
			lo, hi := typeRange(64, true)
			ex.ret(st, dst, ex.tc.UF(constStr(args[0]), SInt, lo, hi, nil, ts...))
		},
		v("Ctor"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ts := ex.flattenVar(st, args[2], true)
			ex.ret(st, dst, ex.newBytes(st, ex.ufBytes("ctor:"+constStr(args[0]), args[1].(*Term), ts)))
		},
		v("CtorString"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ts := ex.flattenVar(st, args[2], true)
			ex.ret(st, dst, ex.ufBytes("ctor:"+constStr(args[0]), args[1].(*Term), ts))
		},
		v("Uncons"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			t := ex.bytesArg(st, args[1])
			k, _ := args[2].(*Term).Int64()
			if t.op == OUF && t.str == "ctor:"+constStr(args[0]) && int(k) < len(t.args) && t.args[k].sort == SBytes {
				ex.ret(st, dst, ex.newBytes(st, t.args[k]), ex.tc.True)
				return
			}
			ex.ret(st, dst, ex.zero(types.NewSlice(types.Typ[types.Uint8])), ex.tc.False)
		},
		// Open(box, nonce, key): idealised authenticated encryption.
		v("Open"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			tc := ex.tc
			b, n, k := ex.bytesOf(st, args[0]), ex.bytesOf(st, args[1]), ex.bytesOf(st, args[2])
			if b.op == OUF && b.str == "ctor:seal" {
				ok := ex.decide(st, tc.And(tc.Eq(b.args[0], n), tc.Eq(b.args[1], k)))
				if ok {
					ex.ret(st, dst, ex.newBytes(st, b.args[2]), tc.True)
				} else {
					ex.ret(st, dst, ex.zero(types.NewSlice(types.Typ[types.Uint8])), tc.False)
				}
				return
			}
			ln := tc.Sub(b.blen, tc.Int(16))
			c := tc.And(tc.Le(tc.Zero, ln), tc.UF("openok", SBool, nil, nil, nil, b, n, k))
			if ex.decide(st, c) {
				ex.ret(st, dst, ex.newBytes(st, tc.UF("openmsg", SBytes, nil, nil, ln, b, n, k)), tc.True)
			} else {
				ex.ret(st, dst, ex.zero(types.NewSlice(types.Typ[types.Uint8])), tc.False)
			}
		},
		// DH(priv, point): commutative scalar multiplication.
		v("DH"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.newBytes(st, ex.dh(ex.bytesOf(st, args[0]), ex.bytesOf(st, args[1]))))
		},
		v("Enc"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			i, ok := ex.norm(st, args[1]).(IfaceV)
			if !ok {
				ex.ret(st, dst, ex.newBytes(st, ex.ufBytes("ctor:enc", ex.tc.Int(-1), ex.flatten(st, args[1], true))))
				return
			}
			val, typ := i.val, i.typ
			for {
				pt, ok := typ.Underlying().(*types.Pointer)
				if !ok {
					break
				}
				if ex.isNil(st, val) == ex.tc.True {
					break
				}
				val, typ = ex.load(st, val), pt.Elem()
			}
			ts := ex.flatten(st, val, true)
			t := ex.ufBytes("ctor:"+constStr(args[0])+":"+types.TypeString(typ, nil), ex.tc.Int(-1), ts)
			if _, ok := ex.encs[t]; !ok {
				ex.encs[t] = ex.snap(st, val, typ)
			}
			ex.ret(st, dst, ex.newBytes(st, t))
		},
		// Dec(codec, b, p) (consumed int, known bool)
		v("Dec"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			tc := ex.tc
			b := ex.bytesOf(st, args[1])
			i, ok := ex.norm(st, args[2]).(IfaceV)
			if !ok {
				ex.unsupported("Dec into %T", args[2])
			}
			segs := tc.segs(b)
			if len(segs) > 0 {
				if s, ok := ex.encs[segs[0]]; ok {
					pt := i.typ.Underlying().(*types.Pointer).Elem()
					into := i.val
					if pp, ok := pt.Underlying().(*types.Pointer); ok && types.Identical(pp.Elem(), s.typ) {
						// a pointer is followed, one that is nil is made
						if ex.decide(st, ex.isNil(st, ex.load(st, into))) {
							ex.store(st, into, PtrV{obj: ex.newObj(st, pp.Elem(), ex.zero(pp.Elem())).id})
						}
						into, pt = ex.load(st, into), pp.Elem()
					}
					if types.Identical(pt, s.typ) && strings.HasPrefix(segs[0].str, "ctor:"+constStr(args[0])+":") {
						ex.store(st, into, ex.copyIn(st, s, s.val, map[int]int{}))
						ex.ret(st, dst, segs[0].blen, tc.True)
						return
					}
				}
			}
			ex.ret(st, dst, tc.Zero, tc.False)
		},
		v("GSet"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			st.ghost[ex.ghostKey(st, args[0], constStr(args[1]))] = args[2]
			ex.ret(st, dst)
		},
		v("GGet"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			g, ok := st.ghost[ex.ghostKey(st, args[0], constStr(args[1]))]
			if !ok {
				g = IfaceV{}
			}
			ex.ret(st, dst, g)
		},
		v("FreshBytes"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			n := args[1].(*Term)
			if k, ok := n.Int64(); ok && k < 0 {
				n = ex.tc.FreshLen("len")
			}
			ex.ret(st, dst, ex.newBytes(st, ex.tc.BVar(ex.tc.Fresh(constStr(args[0])), n)))
		},
		v("FreshString"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.tc.BVar(ex.tc.Fresh(constStr(args[0])), ex.tc.FreshLen("len")))
		},
		v("FreshInt"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			t := ex.freshV(st, types.Typ[types.Int], constStr(args[0])).(*Term)
			ex.assume(st, ex.tc.Le(args[1].(*Term), t))
			ex.assume(st, ex.tc.Le(t, args[2].(*Term)))
			ex.ret(st, dst, t)
		},
		v("NSegs"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.tc.Int(int64(len(ex.tc.segs(ex.bytesOf(st, unIface(args[0])))))))
		},
		v("Seg"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			i, _ := args[1].(*Term).Int64()
			ex.ret(st, dst, ex.tc.segs(ex.bytesOf(st, unIface(args[0])))[i])
		},
		v("IsLit"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			if ex.bytesOf(st, unIface(args[0])).op == OBLit {
				ex.ret(st, dst, ex.tc.True)
				return
			}
			ex.ret(st, dst, ex.tc.False)
		},
		v("Log"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			if ex.v.debug {
				s := ""
				for _, a := range ex.variadic(st, args[0]) {
					s += " " + ex.showDeep(st, unIface(a), 4)
				}
				fmt.Println("LOG", ex.where(st), s)
			}
			ex.ret(st, dst)
		},
		v("NewErr"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.newError(st, ""))
		},
		v("NonNil"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			for _, a := range ex.variadic(st, args[0]) {
				ex.assume(st, ex.tc.Not(ex.isNil(st, unIface(a))))
			}
			ex.ret(st, dst)
		},
		v("Watch"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			st.watch = append(st.watch, args[0].(*Term))
			ex.ret(st, dst)
		},
		v("LockState"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.load(st, unIface(args[0])).(*Term))
		},
		v("And"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			var ts []*Term
			for _, a := range ex.variadic(st, args[0]) {
				ts = append(ts, a.(*Term))
			}
			ex.ret(st, dst, ex.tc.And(ts...))
		},
		v("Or"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			var ts []*Term
			for _, a := range ex.variadic(st, args[0]) {
				ts = append(ts, a.(*Term))
			}
			ex.ret(st, dst, ex.tc.Or(ts...))
		},
		v("Imp"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.tc.Imp(args[0].(*Term), args[1].(*Term)))
		},
		v("Simple"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.simpleTerm(ex.bytesOf(st, args[0])))
		},
		v("EqB"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.tc.Eq(ex.bytesArg(st, args[0]), ex.bytesArg(st, args[1])))
		},
		v("NoNils"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.noNils(st, unIface(args[0]))
			ex.ret(st, dst)
		},
		v("NoneEq"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.noneEq(st, unIface(args[0]), unIface(args[1]))
			ex.ret(st, dst)
		},
		v("KeyedBy"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.addLaw(st, args, false)
			ex.ret(st, dst)
		},
		v("DistinctBy"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.addLaw(st, args, true)
			ex.ret(st, dst)
		},
		v("IsFresh"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			r := ex.norm(st, unIface(args[0]))
			p, ok := r.(PtrV)
			ex.ret(st, dst, ex.tc.Bool(ok && p.obj != 0 && !st.heap[p.obj].sym))
		},
		v("PathIn"): func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.tc.Bool(ex.pathIn(args[0].(*Term), args[1].(*Term))))
		},

		"(*sync.Mutex).Lock": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.lockOp(st, fn, args[0], dst, func(c *Term) *Term { return ex.tc.Eq(c, ex.tc.Zero) }, func(c *Term) *Term { return ex.tc.One }, "lock")
		},
		"(*sync.Mutex).Unlock": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.lockOp(st, fn, args[0], dst, func(c *Term) *Term { return ex.tc.Eq(c, ex.tc.One) }, func(c *Term) *Term { return ex.tc.Zero }, "unlock")
		},
		"(*sync.RWMutex).Lock": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.lockOp(st, fn, args[0], dst, func(c *Term) *Term { return ex.tc.Eq(c, ex.tc.Zero) }, func(c *Term) *Term { return ex.tc.One }, "lock")
		},
		"(*sync.RWMutex).Unlock": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.lockOp(st, fn, args[0], dst, func(c *Term) *Term { return ex.tc.Eq(c, ex.tc.One) }, func(c *Term) *Term { return ex.tc.Zero }, "unlock")
		},
		"(*sync.RWMutex).RLock": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			tc := ex.tc
			ex.lockOp(st, fn, args[0], dst, func(c *Term) *Term { return tc.Eq(c, tc.Zero) }, // a waiting writer stops a second reader
				func(c *Term) *Term { return tc.Ite(tc.Eq(c, tc.Zero), tc.Int(2), tc.Add(c, tc.One)) }, "rlock")
		},
		"(*sync.RWMutex).RUnlock": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			tc := ex.tc
			ex.lockOp(st, fn, args[0], dst, func(c *Term) *Term { return tc.Le(tc.Int(2), c) },
				func(c *Term) *Term { return tc.Ite(tc.Eq(c, tc.Int(2)), tc.Zero, tc.Sub(c, tc.One)) }, "runlock")
		},
		"fmt.Errorf": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.newError(st, constStr(args[0])))
		},
		"fmt.Sprintf": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.sprintf(st, args[0], args[1]))
		},
		"time.Now": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.freshV(st, resTypes(fn.Signature)[0], "now"))
		},
		"(time.Time).Add": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.tc.Add(args[0].(*Term), args[1].(*Term)))
		},
		"(time.Time).Sub": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			d := ex.tc.Sub(args[0].(*Term), args[1].(*Term))
			lo, hi := typeRange(64, true)
			tc := ex.tc
			// saturates
			ex.ret(st, dst, tc.Ite(tc.Le(tc.Big(hi), d), tc.Big(hi), tc.Ite(tc.Le(d, tc.Big(lo)), tc.Big(lo), d)))
		},
		"(time.Time).Before": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.tc.Lt(args[0].(*Term), args[1].(*Term)))
		},
		"(time.Time).After": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.tc.Lt(args[1].(*Term), args[0].(*Term)))
		},
		"(time.Time).Equal": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.tc.Eq(args[1].(*Term), args[0].(*Term)))
		},
		"(time.Time).IsZero": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			z := new(bigInt).Mul(bi(timeZero), bi(1000000000))
			ex.ret(st, dst, ex.tc.Eq(args[0].(*Term), ex.tc.Big(z)))
		},
		"(time.Time).Unix": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.tc.Div(args[0].(*Term), bi(1000000000)))
		},
		"(time.Time).UnixNano": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.tc.Wrap(args[0].(*Term), 64, true))
		},
		"time.Unix": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.tc.Add(ex.tc.MulC(args[0].(*Term), bi(1000000000)), args[1].(*Term)))
		},
		"time.Until": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			n := ex.freshV(st, fn.Params[0].Type(), "now").(*Term)
			ex.ret(st, dst, ex.tc.Wrap(ex.tc.Sub(args[0].(*Term), n), 64, true))
		},
		"time.Since": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			n := ex.freshV(st, fn.Params[0].Type(), "now").(*Term)
			ex.ret(st, dst, ex.tc.Wrap(ex.tc.Sub(n, args[0].(*Term)), 64, true))
		},
		"bytes.Equal": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.tc.Eq(ex.bytesOf(st, args[0]), ex.bytesOf(st, args[1])))
		},
		"crypto/subtle.ConstantTimeCompare": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.tc.Ite(ex.tc.Eq(ex.bytesOf(st, args[0]), ex.bytesOf(st, args[1])), ex.tc.One, ex.tc.Zero))
		},
		"crypto/hmac.Equal": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			ex.ret(st, dst, ex.tc.Eq(ex.bytesOf(st, args[0]), ex.bytesOf(st, args[1])))
		},
		"os.Exit": func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			panic(pathEnd{"os.Exit"})
		},
	}
	pathIntrinsics(intrinsics)
	for n := range pureExt {
		if intrinsics[n] == nil {
			intrinsics[n] = pure
		}
	}
}

func (ex *Ex) ufBytes(name string, n *Term, ts []*Term) *Term {
	var ln *Term
	if k, ok := n.Int64(); !ok || k >= 0 {
		ln = n
	}
	return ex.tc.UF(name, SBytes, nil, nil, ln, ts...)
}

func (ex *Ex) dh(priv, pt *Term) *Term {
	tc := ex.tc
	n := tc.Int(32)
	if pt.op == OUF && pt.str == "scalarbase" {
		a, b := priv, pt.args[0]
		if a.id > b.id {
			a, b = b, a
		}
		return tc.UF("dhshared", SBytes, nil, nil, n, a, b)
	}
	return tc.UF("x25519", SBytes, nil, nil, n, priv, pt)
}

func (ex *Ex) ghostKey(st *State, v Value, key string) string {
	v = unIface(v)
	switch x := ex.norm(st, v).(type) {
	case PtrV:
		k := fmt.Sprintf("%d", x.obj)
		for _, p := range x.path {
			if p.ix != nil {
				k += "[" + p.ix.String() + "]"
			} else {
				k += fmt.Sprintf(".%d", p.f)
			}
		}
		return k + ":" + key
	case SymPtr:
		return ex.ghostKey(st, ex.resolve(st, x), key)
	case SymIface:
		return fmt.Sprintf("i%d:%s", x.id, key)
	case ChanV:
		return fmt.Sprintf("c%d:%s", x.obj, key)
	case *Term:
		return fmt.Sprintf("t%d:%s", x.id, key)
	}
	ex.unsupported("ghostKey %T", v)
	return ""
}

// copyIn clones a snapshot value into the current heap.
func (ex *Ex) copyIn(st *State, s *SnapV, v Value, m map[int]int) Value {
	cp := func(id int) int {
		if n, ok := m[id]; ok {
			return n
		}
		src := st.heap[id]
		if o, ok := s.heap[id]; ok {
			src = o
		}
		if src == nil {
			ex.unsupported("copyIn: object")
		}
		o := ex.newObj(st, src.typ, nil)
		m[id] = o.id
		val := src.val
		if _, ok := s.heap[id]; !ok && src.sym {
			val = src.init
		}
		ex.setObj(st, o.id, ex.copyIn(st, s, val, m))
		return o.id
	}
	switch x := ex.norm(st, v).(type) {
	case *StructV:
		n := &StructV{}
		for _, f := range x.f {
			n.f = append(n.f, ex.copyIn(st, s, f, m))
		}
		return n
	case *ArrV:
		n := &ArrV{}
		for _, f := range x.e {
			n.e = append(n.e, ex.copyIn(st, s, f, m))
		}
		return n
	case *Assoc:
		n := *x
		n.ents = nil
		for _, e := range x.ents {
			n.ents = append(n.ents, AEnt{e.key, e.present, ex.copyIn(st, s, e.val, m)})
		}
		return &n
	case PtrV:
		if x.obj == 0 {
			return x
		}
		return PtrV{obj: cp(x.obj), path: x.path}
	case SliceV:
		if x.obj == 0 {
			return x
		}
		x.obj = cp(x.obj)
		return x
	case MapV:
		if x.obj == 0 {
			return x
		}
		return MapV{cp(x.obj)}
	default:
		return x
	}
}

func (ex *Ex) showDeep(st *State, v Value, d int) string {
	v = ex.norm(st, v)
	if d < 0 {
		return "..."
	}
	switch x := v.(type) {
	case *Term:
		return x.show(6)
	case PtrV:
		if x.obj == 0 {
			return "nil"
		}
		return "&" + ex.showDeep(st, ex.load(st, x), d-1)
	case *StructV:
		var s []string
		for _, f := range x.f {
			s = append(s, ex.showDeep(st, f, d-1))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case SliceV:
		if x.obj == 0 {
			return "nil[]"
		}
		if _, ok := ex.getPath(st, st.heap[x.obj].val, x.path).(*Term); ok {
			return ex.bytesOf(st, x).show(6)
		}
		return fmt.Sprintf("slice(len=%v)%s", x.len, ex.showDeep(st, ex.getPath(st, st.heap[x.obj].val, x.path), d-1))
	case MapV:
		if x.obj == 0 {
			return "nil map"
		}
		return "map" + ex.showDeep(st, st.heap[x.obj].val, d)
	case *Assoc:
		s := fmt.Sprintf("assoc(base=%d,len=%v)[", x.base, x.ln)
		for _, e := range x.ents {
			s += fmt.Sprintf("%s(%v)->%s ", showVal(e.key), e.present, ex.showDeep(st, e.val, d-1))
		}
		return s + "]"
	case IfaceV:
		if x.typ == nil {
			return "nil"
		}
		return fmt.Sprintf("%s:%s", x.typ, ex.showDeep(st, x.val, d-1))
	}
	return showVal(v)
}

// sprintf models fmt.Sprintf: exact for %s/%v/%d on strings and constants,
// an uninterpreted function of format and arguments otherwise.
func (ex *Ex) sprintf(st *State, f Value, va Value) Value {
	tc := ex.tc
	ft := f.(*Term)
	args := ex.variadic(st, va)
	if ft.op == OBLit {
		var out []*Term
		lit := ""
		ai := 0
		ok := true
		s := ft.str
		for i := 0; i < len(s); i++ {
			if s[i] != '%' {
				lit += string(s[i])
				continue
			}
			i++
			if i >= len(s) {
				ok = false
				break
			}
			if s[i] == '%' {
				lit += "%"
				continue
			}
			j := i
			for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
				j++
			}
			if j >= len(s) || ai >= len(args) {
				ok = false
				break
			}
			verb := s[i : j+1]
			i = j
			a := ex.norm(st, args[ai])
			ai++
			out = append(out, tc.BLit(lit))
			lit = ""
			iv, isI := a.(IfaceV)
			if isI && iv.typ != nil {
				k := kindOf(iv.typ)
				_, hasM := hasStringer(iv.typ)
				if verb == "x" && !hasM {
					var b *Term
					switch x := iv.val.(type) {
					case *Term:
						if x.sort == SBytes {
							b = x
						}
					case SliceV:
						if e, is := iv.typ.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); is && e.Kind() == types.Uint8 {
							b = ex.bytesOf(st, x)
						}
					}
					if b != nil {
						out = append(out, ex.ufBytes("ctor:hex", tc.MulC(b.blen, bi(2)), []*Term{b}))
						continue
					}
				}
				if t, is := iv.val.(*Term); is && !hasM {
					if k == kString && (verb == "s" || verb == "v") {
						out = append(out, t)
						continue
					}
					if k == kInt && (verb == "d" || verb == "v") {
						if t.IsConst() {
							out = append(out, tc.BLit(t.val.String()))
						} else {
							out = append(out, tc.UF("ctor:dec", SBytes, nil, nil, nil, t))
						}
						continue
					}
					if k == kInt && strings.HasSuffix(verb, "x") {
						out = append(out, tc.UF("ctor:fmt%"+verb, SBytes, nil, nil, nil, t))
						continue
					}
				}
			}
			out = append(out, tc.UF("fmt%"+verb, SBytes, nil, nil, nil, ex.flatten(st, a, true)...))
		}
		if ok {
			out = append(out, tc.BLit(lit))
			return tc.BCat(out...)
		}
	}
	var ts []*Term
	ts = append(ts, ft)
	for _, a := range args {
		ts = append(ts, ex.flatten(st, a, true)...)
	}
	return tc.UF("sprintf", SBytes, nil, nil, nil, ts...)
}

func hasStringer(t types.Type) (string, bool) {
	ms := types.NewMethodSet(t)
	for _, n := range []string{"Error", "String"} {
		if ms.Lookup(nil, n) != nil {
			return n, true
		}
	}
	return "", false
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

