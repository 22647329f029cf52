package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnInfo struct {
	idx   map[ssa.Value]int
	n     int
	loops map[int]*loopInfo // by header index
}
type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	impure bool // header has side effects
	hasIf  bool // header ends in an exit test
}

type Obl struct {
	Label     string
	Where     string
	Instances int
	Failed    bool
	Reason    string
	Path      []string
	Model     []string
	Backends  map[string]int
}

type RootOpts struct {
	Name     string
	Fn       *ssa.Function
	Props    []string
	NoPanic  string // label under which run time panics are obligations
	Unroll   int    // symbolic loop tests are unrolled up to this count
	MaxSteps int
	MaxPaths int
	Uses     map[string]string // qualified function -> ghost function
	Bounded  string            // non-empty: a bounded stand-in; text of the bound
	ChanBlock bool
	NoBlock   bool // a send on a full channel is a violation
	CutKnown  bool // loops with known bounds are cut too
	GoRun     bool // a started goroutine is run, instead of its starter
	PanicFns []string // restrict nopanic to these functions (substring)
	NoAlias  bool
	Invs     []string
	Lit      bool
	Covers   []string
	NoInit   bool
	LockLabel string
	Guards   []string
	NonNil   []string // pkg.T.f: never nil in a received value
	Secs     int
	pkg      string
}

type Ex struct {
	v     *Verifier
	prog  *ssa.Program
	tc    *TC
	sol   *Solver
	opts  *RootOpts
	work  []*State
	cur   *State
	symN  int
	objN  int
	encs  map[*Term]*SnapV
	lockEdges map[lockEdge]string
	forks map[string]int // with -debug: forks per line
	pathOf map[*Term]pathSplit
	closes map[int]bool // channels some path closes; 0: one of unknown origin
	obls  map[string]*Obl
	order []string
	incomplete map[string]int // reasons the exploration is incomplete
	externs    map[string]int // unmodelled external calls
	inlined    map[string]int
	models     map[string]int
	paths      int
	infeasible int
	steps      int
	covers     map[string]bool
	deadline   time.Time
	ended      int
	discDepth  int
	trace      bool
	loopNotes  map[string]string
	sol2       *Solver
	crossAgree, crossUnknown int
	inProve    bool
	gerr       map[int]bool // SymIface ids of external sentinel errors
	forceCut   map[*ssa.BasicBlock]bool // loops to cut when they are entered
}

type pathEnd struct{ why string }
type incompleteErr struct{ why string }

func (ex *Ex) unsupported(f string, a ...interface{}) {
	panic(incompleteErr{fmt.Sprintf(f, a...)})
}

func (v *Verifier) info(fn *ssa.Function) *FnInfo {
	v.mu.Lock()
	defer v.mu.Unlock()
	if fi, ok := v.fns[fn]; ok {
		return fi
	}
	fi := &FnInfo{idx: map[ssa.Value]int{}, loops: map[int]*loopInfo{}}
	add := func(x ssa.Value) { fi.idx[x] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(ssa.Value); ok {
				add(x)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := fi.loops[s.Index]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s.Index] = li
				}
				var stk []*ssa.BasicBlock
				if !li.body[b] {
					li.body[b] = true
					stk = append(stk, b)
				}
				for len(stk) > 0 {
					x := stk[len(stk)-1]
					stk = stk[:len(stk)-1]
					for _, p := range x.Preds {
						if !li.body[p] {
							li.body[p] = true
							stk = append(stk, p)
						}
					}
				}
			}
		}
	}
	for _, li := range fi.loops {
		for _, in := range li.header.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
					li.impure = true
				}
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.Defer, *ssa.Go:
				li.impure = true
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					li.impure = true
				}
			case *ssa.If:
				for _, s := range li.header.Succs {
					if !li.body[s] {
						li.hasIf = true
					}
				}
			}
		}
	}
	v.fns[fn] = fi
	return fi
}

// ---------------------------------------------------------------------------
// path condition

// know records a fact (already on, or implied by, the path condition).
func (ex *Ex) know(st *State, c *Term) {
	st.pcset[c] = true
	var t *Term
	switch {
	case c.op == OGe0:
		t = c.args[0]
	case c.op == OEq && c.args[0].sort == SInt:
		t = c.args[0]
	default:
		return
	}
	base, k := ex.split(t)
	low := func(b *Term, v *bigInt) {
		if o, ok := st.lb[b]; !ok || o.Cmp(v) < 0 {
			st.lb[b] = v
		}
	}
	low(base, new(bigInt).Neg(k))
	if c.op == OEq {
		low(ex.tc.Neg(base), k)
	}
}

func (ex *Ex) split(t *Term) (*Term, *bigInt) {
	if t.op == OLin && t.val.Sign() != 0 {
		return ex.tc.Sub(t, ex.tc.Big(t.val)), t.val
	}
	return t, new(bigInt)
}

// quick decides c from recorded bounds: 1 true, -1 false, 0 do not know.
func (ex *Ex) quick(st *State, c *Term) int {
	if st.pcset[c] {
		return 1
	}
	var t *Term
	switch {
	case c.op == ONot:
		return -ex.quick(st, c.args[0])
	case c.op == OGe0:
		t = c.args[0]
	case c.op == OEq && c.args[0].sort == SInt && c.args[1] == ex.tc.Zero:
		t = c.args[0]
	case c.op == OAnd:
		r := 1
		for _, a := range c.args {
			switch ex.quick(st, a) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		return r
	case c.op == OOr:
		r := -1
		for _, a := range c.args {
			switch ex.quick(st, a) {
			case 1:
				return 1
			case 0:
				r = 0
			}
		}
		return r
	default:
		return 0
	}
	if t.IsConst() {
		return 0
	}
	base, k := ex.split(t)
	lo := st.lb[base]
	hi := st.lb[ex.tc.Neg(base)]
	if lo != nil {
		lo = new(bigInt).Add(lo, k)
	}
	if hi != nil {
		hi = new(bigInt).Sub(k, hi)
	}
	if t.lo != nil && (lo == nil || lo.Cmp(t.lo) < 0) {
		lo = t.lo
	}
	if t.hi != nil && (hi == nil || hi.Cmp(t.hi) > 0) {
		hi = t.hi
	}
	if c.op == OGe0 {
		if lo != nil && lo.Sign() >= 0 {
			return 1
		}
		if hi != nil && hi.Sign() < 0 {
			return -1
		}
		return 0
	}
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return -1
	}
	if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
		return 1
	}
	return 0
}

func (ex *Ex) assume(st *State, c *Term) {
	if c == ex.tc.True || st.pcset[c] {
		return
	}
	if c == ex.tc.False {
		panic(pathEnd{"infeasible"})
	}
	if c.op == OAnd {
		for _, a := range c.args {
			ex.assume(st, a)
		}
		return
	}
	st.pc = append(st.pc, c)
	ex.know(st, c)
}

func (ex *Ex) valid(st *State, c *Term) bool {
	if c == ex.tc.True || st.pcset[c] {
		return true
	}
	if c == ex.tc.False {
		return ex.sol.Check(st.pc, nil) == Unsat
	}
	if c.op == OAnd {
		for _, a := range c.args {
			if !ex.valid(st, a) {
				return false
			}
		}
		return true
	}
	switch ex.quick(st, c) {
	case 1:
		return true
	}
	if n, ok := st.negc[c]; ok && n == len(st.pc) {
		return false
	}
	if ex.sol.Check(st.pc, ex.tc.Not(c)) == Unsat {
		ex.know(st, c)
		return true
	}
	st.negc[c] = len(st.pc)
	return false
}

// decide picks a branch; when both are feasible the other one is queued and
// will re-execute the current instruction.
func (ex *Ex) decide(st *State, c *Term) bool {
	tc := ex.tc
	if c.IsConst() {
		return c == tc.True
	}
	if st.pcset[c] {
		return true
	}
	nc := tc.Not(c)
	if st.pcset[nc] {
		return false
	}
	switch ex.quick(st, c) {
	case 1:
		return true
	case -1:
		return false
	}
	if ex.sol.Check(st.pc, c) == Unsat {
		ex.know(st, nc)
		return false
	}
	if ex.sol.Check(st.pc, nc) == Unsat {
		ex.know(st, c)
		return true
	}
	st.nforks++
	o := st.clone()
	o.seq = st.seq - 1
	o.pc = append(o.pc, nc)
	ex.know(o, nc)
	ex.pushNote(o, nc)
	ex.work = append(ex.work, o)
	if ex.forks != nil {
		ex.forks[ex.where(st)]++
	}
	st.pc = append(st.pc, c)
	ex.know(st, c)
	ex.pushNote(st, c)
	return true
}

func (ex *Ex) pushNote(st *State, c *Term) {
	if len(st.frames) == 0 {
		return
	}
	st.note = append(st.note, fmt.Sprintf("%s: %s", ex.where(st), c))
}

func (ex *Ex) where(st *State) string {
	if len(st.frames) == 0 {
		return "init"
	}
	f := st.top()
	p := token.NoPos
	if f.ip < len(f.blk.Instrs) {
		p = f.blk.Instrs[f.ip].Pos()
	}
	if p == token.NoPos {
		for i := f.ip; i >= 0 && p == token.NoPos; i-- {
			if i < len(f.blk.Instrs) {
				p = f.blk.Instrs[i].Pos()
			}
		}
	}
	ps := ex.prog.Fset.Position(p)
	fn := ps.Filename
	if i := strings.LastIndex(fn, "/"); i >= 0 {
		fn = fn[i+1:]
	}
	return fmt.Sprintf("%s(%s:%d)", f.fn.RelString(nil), fn, ps.Line)
}

// oblige records one instance of a proof obligation and tries to discharge it.
func (ex *Ex) oblige(st *State, label string, c *Term, what string) bool {
	if st.mute {
		return true
	}
	o := ex.obls[label]
	if o == nil {
		o = &Obl{Label: label, Backends: map[string]int{}}
		ex.obls[label] = o
		ex.order = append(ex.order, label)
	}
	o.Instances++
	if c == ex.tc.True || st.pcset[c] {
		o.Backends["simplifier"]++
		return true
	}
	if ex.valid(st, c) {
		o.Backends["z3"]++
		if ex.sol2 != nil {
			switch ex.sol2.Check(st.pc, ex.tc.Not(c)) {
			case Unsat:
				ex.crossAgree++
			case Unknown:
				ex.crossUnknown++
			default:
				ex.incomplete["solvers disagree on "+label]++
			}
		}
		return true
	}
	// second opinion
	r := ex.sol.Check(st.pc, ex.tc.Not(c))
	if r == Unknown {
		if ex.v.second(ex.tc, st.pc, ex.tc.Not(c)) == Unsat {
			o.Backends["cvc5"]++
			return true
		}
	}
	if !o.Failed {
		o.Failed = true
		o.Where = ex.where(st)
		o.Reason = what
		if r == Unknown {
			o.Reason += " [solver: unknown]"
		} else {
			o.Reason += " [solver: counterexample]"
		}
		o.Path = append(append([]string(nil), st.note...), "FAILED: "+c.show(8))
		o.Model = ex.model(st, c)
	}
	return false
}

func (ex *Ex) model(st *State, c *Term) []string {
	seen := map[*Term]bool{}
	var vars []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if (t.op == OVar || t.op == OUF && t.sort != SBytes) && t.sort != SBytes {
			vars = append(vars, t)
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.blen != nil {
			walk(t.blen)
		}
	}
	for _, p := range st.pc {
		walk(p)
	}
	walk(c)
	if len(vars) > 400 {
		vars = vars[:400]
	}
	m := ex.sol.Model(st.pc, ex.tc.Not(c), vars)
	var out []string
	for _, v := range vars {
		if x, ok := m[v]; ok {
			out = append(out, fmt.Sprintf("%s = %s", v, x))
		}
	}
	return out
}

// check: cond must hold or the program panics at run time.
func (ex *Ex) check(st *State, cond *Term, what string) {
	if cond == ex.tc.True {
		return
	}
	if ex.opts.NoPanic != "" && !st.mute && ex.panicScope(st) {
		ex.oblige(st, ex.opts.NoPanic, cond, "run-time panic possible: "+what+" at "+ex.where(st))
	}
	if cond != ex.tc.False && !st.pcset[cond] {
		if ex.sol.Check(st.pc, cond) == Unsat {
			panic(pathEnd{"panic: " + what})
		}
	}
	if cond == ex.tc.False {
		panic(pathEnd{"panic: " + what})
	}
	ex.assume(st, cond)
}

func (ex *Ex) panicScope(st *State) bool {
	if len(ex.opts.PanicFns) == 0 {
		return true
	}
	n := st.top().fn.RelString(nil)
	for _, p := range ex.opts.PanicFns {
		if strings.Contains(n, p) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// heap access

func (ex *Ex) resolve(st *State, v Value) PtrV {
	switch p := v.(type) {
	case PtrV:
		if p.obj == 0 {
			ex.check(st, ex.tc.False, "nil pointer dereference")
		}
		return p
	case SymPtr:
		if r, ok := st.symres[p.id]; ok {
			return r
		}
		ex.check(st, ex.tc.Not(p.nilv), "nil pointer dereference")
		nm := p.nilv.str
		if i := strings.Index(nm, ".nil!"); i >= 0 {
			nm = nm[:i]
		}
		o := ex.newObj(st, p.elem, nil)
		val := ex.freshV(st, p.elem, "*"+nm)
		o = &Obj{id: o.id, typ: p.elem, val: val, sym: true, init: val, name: nm}
		st.heap[o.id] = o
		r := PtrV{obj: o.id}
		st.symres[p.id] = r
		if st.disc != nil {
			st.disc.syms[p.id] = p
		}
		for _, n := range ex.opts.NonNil {
			k := strings.LastIndex(n, ".")
			if k < 0 || n[:k] != strings.ReplaceAll(namedPath(p.elem), modPath+"/", "") {
				continue
			}
			stt, ok := p.elem.Underlying().(*types.Struct)
			if !ok {
				ex.unsupported("nonnil of %s", p.elem)
			}
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == n[k+1:] {
					ex.assume(st, ex.tc.Not(ex.isNil(st, val.(*StructV).f[i])))
				}
			}
		}
		return r
	}
	ex.unsupported("deref of %T", v)
	return PtrV{}
}

func (ex *Ex) load(st *State, v Value) Value {
	p := ex.resolve(st, v)
	return ex.getPath(st, st.heap[p.obj].val, p.path)
}

func (ex *Ex) getPath(st *State, v Value, path []PE) Value {
	for _, pe := range path {
		v = ex.getElem(st, v, pe)
	}
	return v
}

func (ex *Ex) getElem(st *State, v Value, pe PE) Value {
	tc := ex.tc
	if pe.ix == nil {
		s, ok := v.(*StructV)
		if !ok {
			ex.unsupported("field of %T", v)
		}
		return s.f[pe.f]
	}
	switch a := v.(type) {
	case *Term:
		return tc.BAt(a, pe.ix)
	case *ArrV:
		if k, ok := pe.ix.Int64(); ok {
			if k < 0 || k >= int64(len(a.e)) {
				panic(pathEnd{"index"})
			}
			return a.e[k]
		}
		// merge scalars, fork otherwise
		if len(a.e) > 0 {
			if _, ok := a.e[0].(*Term); ok {
				r := a.e[len(a.e)-1].(*Term)
				for i := len(a.e) - 2; i >= 0; i-- {
					r = tc.Ite(tc.Eq(pe.ix, tc.Int(int64(i))), a.e[i].(*Term), r)
				}
				return r
			}
		}
		for i := range a.e {
			if ex.decide(st, tc.Eq(pe.ix, tc.Int(int64(i)))) {
				return a.e[i]
			}
		}
		panic(pathEnd{"index"})
	case *Assoc:
		_, val := ex.assocGet(st, a, pe.ix)
		return val
	}
	ex.unsupported("index of %T", v)
	return nil
}

func (ex *Ex) store(st *State, v Value, nv Value) {
	p := ex.resolve(st, v)
	ex.storeAt(st, p.obj, p.path, nv)
}

func (ex *Ex) storeAt(st *State, obj int, path []PE, nv Value) {
	o := st.heap[obj]
	ex.recordWrite(st, obj, path)
	ex.setObj(st, obj, ex.setPath(st, o.val, path, nv))
}

func (ex *Ex) recordWrite(st *State, obj int, path []PE) {
	d := st.disc
	if d == nil {
		return
	}
	for ; d != nil; d = d.outer {
		if obj > d.maxObj && !st.heap[obj].sym {
			continue
		}
		var pp []PE
		for _, pe := range path {
			if pe.ix != nil {
				break
			}
			pp = append(pp, pe)
		}
		k := fmt.Sprint(obj)
		for _, pe := range pp {
			k += fmt.Sprintf(".%d", pe.f)
		}
		d.writes[k] = writeRec{obj, pp}
		if obj > d.maxObj {
			d.symWrites = append(d.symWrites, symWrite{st.heap[obj].typ, pp})
		}
	}
}

func (ex *Ex) setPath(st *State, v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	tc := ex.tc
	pe := path[0]
	if pe.ix == nil {
		s, ok := v.(*StructV)
		if !ok {
			ex.unsupported("field store into %T", v)
		}
		n := &StructV{f: append([]Value(nil), s.f...)}
		n.f[pe.f] = ex.setPath(st, s.f[pe.f], path[1:], nv)
		return n
	}
	switch a := v.(type) {
	case *Term:
		return tc.BReplace(a, pe.ix, tc.BUnit(nv.(*Term)))
	case *ArrV:
		if k, ok := pe.ix.Int64(); ok {
			n := &ArrV{e: append([]Value(nil), a.e...)}
			if k < 0 || int(k) >= len(n.e) {
				panic(pathEnd{"index"})
			}
			n.e[k] = ex.setPath(st, a.e[k], path[1:], nv)
			return n
		}
		if x, ok := nv.(*Term); ok && len(path) == 1 && x.sort != SBytes {
			n := &ArrV{}
			for i, e := range a.e {
				n.e = append(n.e, tc.Ite(tc.Eq(pe.ix, tc.Int(int64(i))), x, e.(*Term)))
			}
			return n
		}
		for i := range a.e {
			if ex.decide(st, tc.Eq(pe.ix, tc.Int(int64(i)))) {
				n := &ArrV{e: append([]Value(nil), a.e...)}
				n.e[i] = ex.setPath(st, a.e[i], path[1:], nv)
				return n
			}
		}
		panic(pathEnd{"index"})
	case *Assoc:
		if len(path) > 1 {
			_, old := ex.assocGet(st, a, pe.ix)
			nv = ex.setPath(st, old, path[1:], nv)
		}
		return ex.assocSet(st, a, pe.ix, nv)
	}
	ex.unsupported("index store into %T", v)
	return nil
}

// ---- association lists (maps, symbolic arrays) ----

func (ex *Ex) eqKey(st *State, a, b Value) *Term { return ex.eqVal(st, a, b) }

// find returns the overlay index for key, or -1 (forks on unknown equality).
func (ex *Ex) findEnt(st *State, ents []AEnt, k Value) int {
	// syntactic hit first
	for i, e := range ents {
		if ex.eqKey(st, e.key, k) == ex.tc.True {
			return i
		}
	}
	for i, e := range ents {
		c := ex.eqKey(st, e.key, k)
		if c == ex.tc.False {
			continue
		}
		if ex.decide(st, c) {
			return i
		}
	}
	return -1
}

func (ex *Ex) baseGet(st *State, a *Assoc, k Value) (*Term, Value) {
	if a.base == 0 {
		if a.arr {
			return ex.tc.True, ex.zero(a.et)
		}
		return ex.tc.False, ex.zero(a.et)
	}
	b := st.bases[a.base]
	if i := ex.findEnt(st, b.ents, k); i >= 0 {
		return b.ents[i].present, b.ents[i].val
	}
	pres := ex.tc.True
	if !a.arr {
		pres = ex.tc.Var(ex.tc.Fresh(b.name+".has"), SBool, nil, nil)
		ex.assume(st, ex.tc.Imp(pres, ex.tc.Lt(ex.tc.Zero, a.ln)))
		if b.ln != nil && len(b.ents) > 0 {
			// distinct entries, all counted
			sum := ex.tc.Ite(pres, ex.tc.One, ex.tc.Zero)
			for _, e := range b.ents {
				sum = ex.tc.Add(sum, ex.tc.Ite(e.present, ex.tc.One, ex.tc.Zero))
			}
			ex.assume(st, ex.tc.Le(sum, b.ln))
		}
	}
	nm := fmt.Sprintf("%s[%s]", b.name, strings.ReplaceAll(showKey(k), "!", "_"))
	nb := &Base{name: b.name, ln: b.ln, ents: append(append([]AEnt(nil), b.ents...), AEnt{k, pres, nil})}
	val := ex.freshV(st, a.et, nm)
	// elements of maps and slices of pointers are assumed non-nil unless a
	// contract says otherwise
	nb.ents[len(nb.ents)-1].val = val
	nb.laws = b.laws
	st.bases[a.base] = nb
	for _, l := range nb.laws {
		ex.applyLaw(st, nb, l, len(nb.ents)-1)
	}
	if st.disc != nil {
		for d := st.disc; d != nil; d = d.outer {
			d.baseTouched = true
		}
	}
	return pres, val
}

// applyLaw assumes what l says about entry i and the ones before it.
func (ex *Ex) applyLaw(st *State, b *Base, l baseLaw, i int) {
	tc := ex.tc
	e := b.ents[i]
	fld := func(v Value) Value {
		sv, ok := ex.norm(st, v).(*StructV)
		if !ok {
			ex.unsupported("law on entries of type %T", v)
		}
		return sv.f[l.field]
	}
	if l.nonnil {
		ex.assume(st, tc.Imp(e.present, tc.Not(ex.isNil(st, e.val))))
		return
	}
	if l.not != nil {
		ex.assume(st, tc.Not(ex.eqVal(st, e.val, l.not)))
		return
	}
	if l.from != nil {
		k := e.key.(*Term)
		for _, p := range l.from {
			if ex.decide(st, tc.And(tc.Le(p.lo, k), tc.Lt(k, p.hi))) {
				ex.assume(st, ex.identV(st, e.val, ex.getElem(st, p.src, PE{ix: tc.Add(p.off, tc.Sub(k, p.lo))})))
				return
			}
		}
		return
	}
	if !l.distinct {
		ex.assume(st, tc.Imp(e.present, ex.identV(st, fld(e.val), e.key)))
		return
	}
	for j := 0; j < i; j++ {
		o := b.ents[j]
		ex.assume(st, tc.Imp(tc.And(e.present, o.present), tc.Or(ex.eqKey(st, o.key, e.key), tc.Not(ex.eqVal(st, fld(o.val), fld(e.val))))))
	}
}

// addLaw registers a law for every entry of map m, which must be as it was
// received.
func (ex *Ex) addLaw(st *State, args []Value, distinct bool) {
	mi := unIface(args[0])
	m, ok := ex.norm(st, mi).(MapV)
	if !ok || m.obj == 0 {
		ex.unsupported("law on %T", mi)
	}
	a, ok := st.heap[m.obj].val.(*Assoc)
	if !ok || a.base == 0 || len(a.ents) != 0 {
		ex.unsupported("law on a known map")
	}
	name := args[1].(*Term)
	if name.op != OBLit {
		ex.unsupported("law: field name")
	}
	stt, ok := a.et.Underlying().(*types.Struct)
	if !ok {
		ex.unsupported("law on elements of type %s", a.et)
	}
	l := baseLaw{field: -1, distinct: distinct}
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == name.str {
			l.field = i
		}
	}
	if l.field < 0 {
		ex.unsupported("law: no field %s", name.str)
	}
	b := *st.bases[a.base]
	b.laws = append(append([]baseLaw(nil), b.laws...), l)
	st.bases[a.base] = &b
	for i := range b.ents {
		ex.applyLaw(st, &b, l, i)
	}
}

// noneEq: no element of a slice (as it was received) equals x.
func (ex *Ex) noneEq(st *State, v, x Value) {
	sl, ok := ex.norm(st, v).(SliceV)
	if !ok {
		ex.unsupported("NoneEq on %T", v)
	}
	if sl.obj == 0 {
		return
	}
	a, ok := ex.getPath(st, st.heap[sl.obj].val, sl.path).(*Assoc)
	if !ok || a.base == 0 || len(a.ents) != 0 {
		ex.unsupported("NoneEq on a known value")
	}
	b := *st.bases[a.base]
	l := baseLaw{not: x}
	b.laws = append(append([]baseLaw(nil), b.laws...), l)
	st.bases[a.base] = &b
	for i := range b.ents {
		ex.applyLaw(st, &b, l, i)
	}
}

// noNils: no entry of a map or slice (as it was received) is nil.
func (ex *Ex) noNils(st *State, v Value) {
	obj := 0
	var path []PE
	switch x := ex.norm(st, v).(type) {
	case MapV:
		obj = x.obj
	case SliceV:
		obj, path = x.obj, x.path
	default:
		ex.unsupported("NoNils on %T", v)
	}
	if obj == 0 {
		return
	}
	a, ok := ex.getPath(st, st.heap[obj].val, path).(*Assoc)
	if !ok || a.base == 0 || len(a.ents) != 0 {
		ex.unsupported("NoNils on a known value")
	}
	b := *st.bases[a.base]
	l := baseLaw{nonnil: true}
	b.laws = append(append([]baseLaw(nil), b.laws...), l)
	st.bases[a.base] = &b
	for i := range b.ents {
		ex.applyLaw(st, &b, l, i)
	}
}

func showKey(v Value) string {
	if t, ok := v.(*Term); ok {
		return t.show(1)
	}
	return "k"
}

func (ex *Ex) assocGet(st *State, a *Assoc, k Value) (*Term, Value) {
	if i := ex.findEnt(st, a.ents, k); i >= 0 {
		return a.ents[i].present, a.ents[i].val
	}
	return ex.baseGet(st, a, k)
}

func (ex *Ex) assocSet(st *State, a *Assoc, k Value, v Value) *Assoc {
	i := ex.findEnt(st, a.ents, k)
	n := &Assoc{base: a.base, ln: a.ln, kt: a.kt, et: a.et, arr: a.arr}
	if a.arr {
		if i >= 0 {
			n.ents = append([]AEnt(nil), a.ents...)
			n.ents[i].val = v
		} else {
			n.ents = append(append([]AEnt(nil), a.ents...), AEnt{k, ex.tc.True, v})
		}
		return n
	}
	var was *Term
	if i >= 0 {
		was = a.ents[i].present
	} else {
		was, _ = ex.baseGet(st, a, k)
	}
	n.ln = ex.tc.Add(a.ln, ex.tc.Ite(was, ex.tc.Zero, ex.tc.One))
	if i >= 0 {
		n.ents = append([]AEnt(nil), a.ents...)
		n.ents[i] = AEnt{a.ents[i].key, ex.tc.True, v}
	} else {
		n.ents = append(append([]AEnt(nil), a.ents...), AEnt{k, ex.tc.True, v})
	}
	return n
}

func (ex *Ex) assocDel(st *State, a *Assoc, k Value) *Assoc {
	i := ex.findEnt(st, a.ents, k)
	var was *Term
	if i >= 0 {
		was = a.ents[i].present
	} else {
		was, _ = ex.baseGet(st, a, k)
	}
	n := &Assoc{base: a.base, kt: a.kt, et: a.et, arr: a.arr}
	n.ln = ex.tc.Sub(a.ln, ex.tc.Ite(was, ex.tc.One, ex.tc.Zero))
	if i >= 0 {
		n.ents = append([]AEnt(nil), a.ents...)
		n.ents[i] = AEnt{a.ents[i].key, ex.tc.False, ex.zero(a.et)}
	} else if a.base != 0 {
		n.ents = append(append([]AEnt(nil), a.ents...), AEnt{k, ex.tc.False, ex.zero(a.et)})
	} else {
		n.ents = a.ents
	}
	return n
}

// ---------------------------------------------------------------------------
// equality (Go ==)

func (ex *Ex) norm(st *State, v Value) Value {
	if p, ok := v.(SymPtr); ok {
		if r, ok := st.symres[p.id]; ok {
			return r
		}
	}
	if p, ok := v.(SymIface); ok {
		if r, ok := st.ifres[p.id]; ok {
			return r
		}
	}
	return v
}

func (ex *Ex) isNil(st *State, v Value) *Term {
	tc := ex.tc
	switch x := ex.norm(st, v).(type) {
	case PtrV:
		return tc.Bool(x.obj == 0)
	case SymPtr:
		return x.nilv
	case SliceV:
		return x.nilv
	case MapV:
		return tc.Bool(x.obj == 0)
	case ChanV:
		return tc.Bool(x.obj == 0)
	case IfaceV:
		return tc.Bool(x.typ == nil)
	case SymIface:
		return x.nilv
	case FuncV:
		return tc.Bool(x.fn == nil && x.blt == nil)
	case SymFunc:
		return x.nilv
	case nil:
		return tc.True
	}
	ex.unsupported("isNil %T", v)
	return nil
}

func samePath(tc *TC, a, b []PE) *Term {
	if len(a) != len(b) {
		return tc.False
	}
	r := tc.True
	for i := range a {
		if (a[i].ix == nil) != (b[i].ix == nil) {
			return tc.False
		}
		if a[i].ix == nil {
			if a[i].f != b[i].f {
				return tc.False
			}
		} else {
			r = tc.And(r, tc.Eq(a[i].ix, b[i].ix))
		}
	}
	return r
}

func (ex *Ex) eqVal(st *State, a, b Value) *Term {
	tc := ex.tc
	a, b = ex.norm(st, a), ex.norm(st, b)
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return tc.Eq(x, y)
		}
	case *StructV:
		y := b.(*StructV)
		r := tc.True
		for i := range x.f {
			r = tc.And(r, ex.eqVal(st, x.f[i], y.f[i]))
		}
		return r
	case *ArrV:
		y := b.(*ArrV)
		r := tc.True
		for i := range x.e {
			r = tc.And(r, ex.eqVal(st, x.e[i], y.e[i]))
		}
		return r
	case PtrV:
		switch y := b.(type) {
		case PtrV:
			if x.obj == 0 || y.obj == 0 || x.obj != y.obj {
				return tc.Bool(x.obj == y.obj)
			}
			return samePath(tc, x.path, y.path)
		case SymPtr:
			if x.obj == 0 {
				return y.nilv
			}
			return tc.False // separation: distinct symbolic pointers do not alias
		}
	case SymPtr:
		switch y := b.(type) {
		case SymPtr:
			if x.id == y.id {
				return tc.True
			}
			return tc.And(x.nilv, y.nilv)
		case PtrV:
			return ex.eqVal(st, b, a)
		}
	case MapV:
		return tc.Bool(x.obj == b.(MapV).obj)
	case ChanV:
		return tc.Bool(x.obj == b.(ChanV).obj)
	case SliceV: // only against nil
		y := b.(SliceV)
		if y.nilv == tc.True {
			return x.nilv
		}
		if x.nilv == tc.True {
			return y.nilv
		}
	case FuncV, SymFunc:
		if ex.isNil(st, b) == tc.True {
			return ex.isNil(st, a)
		}
		if ex.isNil(st, a) == tc.True {
			return ex.isNil(st, b)
		}
	case IfaceV:
		switch y := b.(type) {
		case IfaceV:
			if x.typ == nil || y.typ == nil {
				return tc.Bool(x.typ == nil && y.typ == nil)
			}
			if !types.Identical(x.typ, y.typ) {
				return tc.False
			}
			return ex.eqVal(st, x.val, y.val)
		case SymIface:
			if x.typ == nil {
				return y.nilv
			}
			if p, ok := x.val.(PtrV); ok && y.ext && st.heap[p.obj] != nil && !st.heap[p.obj].sym {
				return tc.False
			}
			return tc.And(tc.Not(y.nilv), tc.Var(fmt.Sprintf("ifeq_%d_%s", y.id, showVal(x.val)), SBool, nil, nil))
		}
	case SymIface:
		switch y := b.(type) {
		case IfaceV:
			return ex.eqVal(st, b, a)
		case SymIface:
			if x.id == y.id {
				return tc.True
			}
			if ex.gerr[x.id] && ex.gerr[y.id] {
				return tc.False
			}
			i, j := x.id, y.id
			if i > j {
				i, j = j, i
			}
			// equal only if both nil or both the same non-nil value
			return tc.Or(tc.And(x.nilv, y.nilv), tc.And(tc.Not(x.nilv), tc.Not(y.nilv), tc.Var(fmt.Sprintf("ifeq_%d_%d", i, j), SBool, nil, nil)))
		}
	}
	ex.unsupported("== on %T and %T", a, b)
	return nil
}

// ---------------------------------------------------------------------------
// operands

func (ex *Ex) val(st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constV(st, x)
	case *ssa.Global:
		return PtrV{obj: ex.globalObj(st, x)}
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return FuncV{blt: x}
	}
	f := st.top()
	i, ok := f.fi.idx[v]
	if !ok {
		ex.unsupported("no register for %s", v)
	}
	r := f.env[i]
	if r == nil {
		ex.unsupported("unset register %s in %s", v.Name(), f.fn)
	}
	return r
}

func (ex *Ex) set(st *State, v ssa.Value, x Value) {
	f := st.top()
	f.env[f.fi.idx[v]] = x
}

func (ex *Ex) constV(st *State, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return ex.zero(t)
	}
	switch kindOf(t) {
	case kBool:
		return ex.tc.Bool(constant.BoolVal(c.Value))
	case kInt, kUnsafe:
		v := constant.ToInt(c.Value)
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			ex.unsupported("const %s", c)
		}
		return ex.tc.Big(n)
	case kString:
		if c.Value.Kind() == constant.String {
			return ex.tc.BLit(constant.StringVal(c.Value))
		}
	case kFloat:
		return ex.tc.UF("float:"+c.Value.ExactString(), SInt, nil, nil, nil)
	case kIface:
		return IfaceV{}
	}
	ex.unsupported("const %s : %s", c, t)
	return nil
}

func (ex *Ex) globalObj(st *State, g *ssa.Global) int {
	if id, ok := st.globals[g]; ok {
		return id
	}
	t := g.Type().(*types.Pointer).Elem()
	var v Value
	inMod := ex.v.inModule(g.Pkg)
	if inMod {
		v = ex.zero(t) // initialisers are executed by runInit
	} else {
		v = ex.freshV(st, t, g.String())
		if si, ok := v.(SymIface); ok {
			ex.assume(st, ex.tc.Not(si.nilv))
			if types.Identical(t, types.Universe.Lookup("error").Type()) {
				ex.gerr[si.id] = true
			}
		}
		if sp, ok := v.(SymPtr); ok {
			ex.assume(st, ex.tc.Not(sp.nilv))
		}
	}
	o := ex.newObj(st, t, v)
	st.globals[g] = o.id
	if st.disc != nil {
		for d := st.disc; d != nil; d = d.outer {
			d.globals[g] = true
		}
	}
	return o.id
}

// ---------------------------------------------------------------------------
// main loop

func (ex *Ex) pushFrame(st *State, fn *ssa.Function, args []Value, bind []Value, dst ssa.Value) *Frame {
	if len(fn.Blocks) == 0 {
		ex.unsupported("no body: %s", fn)
	}
	if len(st.frames) > 60 {
		ex.unsupported("call depth exceeded at %s", fn)
	}
	fi := ex.v.info(fn)
	f := &Frame{fi: fi, fn: fn, blk: fn.Blocks[0], env: make([]Value, fi.n), bind: bind, dst: dst, loops: map[int]loopSt{}}
	for i, p := range fn.Params {
		f.env[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[fi.idx[p]] = bind[i]
	}
	st.frames = append(st.frames, f)
	return f
}

// run explores everything reachable from the queued states.
func (ex *Ex) run() {
	for len(ex.work) > 0 {
		st := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		ex.runState(st)
		if ex.paths > ex.opts.MaxPaths && ex.discDepth == 0 {
			ex.incomplete[fmt.Sprintf("more than %d paths", ex.opts.MaxPaths)]++
			ex.work = nil
		}
		if time.Now().After(ex.deadline) {
			ex.incomplete["time budget exhausted"]++
			ex.work = nil
		}
	}
}

func (ex *Ex) runState(st *State) {
	if !st.mute {
		ex.paths++
	}
	for ex.runState1(st) {
	}
}

func (ex *Ex) runState1(st *State) (again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case restart:
				again = true
			case recut:
				panic(r)
			case pathEnd:
				if ex.trace {
					fmt.Fprintf(os.Stderr, "path end: %s at %s\n", e.why, ex.where(st))
				}
				if !st.mute {
					ex.ended++
				}
			case incompleteErr:
				if ex.v.debug {
					fmt.Fprintf(os.Stderr, "incomplete: %s at %s\n", e.why, ex.where(st))
				}
				if st.mute {
					for d := st.disc; d != nil; d = d.outer {
						d.failed = e.why
					}
				} else {
					ex.incomplete[e.why+" at "+ex.where(st)]++
				}
			default:
				if os.Getenv("GOVC_CRASH") != "" {
					panic(r)
				}
				if ex.v.debug {
					fmt.Fprintf(os.Stderr, "engine error %v at %s\n", r, ex.where(st))
				}
				if st.mute {
					for d := st.disc; d != nil; d = d.outer {
						d.failed = fmt.Sprint(r)
					}
				} else {
					ex.incomplete[fmt.Sprintf("engine error %v at %s", r, ex.where(st))]++
				}
			}
		}
	}()
	for len(st.frames) > 0 {
		ex.cur = st
		st.steps++
		st.seq++
		ex.steps++
		if st.steps > ex.opts.MaxSteps {
			ex.unsupported("step limit")
		}
		if st.steps%2000 == 0 && time.Now().After(ex.deadline) {
			ex.unsupported("time budget exhausted")
		}
		ex.step(st)
	}
	return false
}

// choice names a nondeterministic boolean stably across re-execution of the
// current instruction.
func (ex *Ex) choice(st *State, pfx string, k int) *Term {
	return ex.tc.Var(fmt.Sprintf("%s@%d.%d", pfx, st.seq, k), SBool, nil, nil)
}

func (ex *Ex) step(st *State) {
	f := st.top()
	in := f.blk.Instrs[f.ip]
	switch x := in.(type) {
	case *ssa.Jump:
		ex.jump(st, f.blk.Succs[0])
		return
	case *ssa.If:
		ex.doIf(st, x)
		return
	case *ssa.Return:
		var res []Value
		for _, r := range x.Results {
			res = append(res, ex.val(st, r))
		}
		ex.doReturn(st, res)
		return
	case *ssa.Panic:
		v := ex.val(st, x.X)
		ex.explicitPanic(st, v)
		return
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			ex.callDeferred(st, d)
			return // re-executed until empty
		}
		f.ip++
		return
	case *ssa.Call:
		ex.doCall(st, &x.Call, x)
		return
	case *ssa.Defer:
		d := deferred{call: &x.Call}
		d.fn, d.args = ex.evalCall(st, &x.Call)
		f.defers = append(f.defers, d)
		f.ip++
		return
	case *ssa.Go:
		fn, args := ex.evalCall(st, &x.Call)
		ex.doGo(st, &x.Call, fn, args)
		return
	}
	ex.simple(st, in)
	f.ip++
}

func (ex *Ex) explicitPanic(st *State, v Value) {
	// recovered by a deferred function?
	ex.check(st, ex.tc.False, "explicit panic")
}

func (ex *Ex) callDeferred(st *State, d deferred) {
	f := st.top()
	n := len(st.frames)
	ex.invoke(st, d.call, d.fn, d.args, nil)
	if len(st.frames) > n {
		st.top().retDefer = true
	} else {
		_ = f
		// handled inline: invoke advanced ip
		st.top().ip--
	}
}

func (ex *Ex) doReturn(st *State, res []Value) {
	f := st.top()
	if d := st.disc; d != nil && len(st.frames) <= d.depth {
		panic(pathEnd{"loop exit"})
	}
	for _, ls := range f.loops {
		if ls.final {
			panic(pathEnd{"leaves a loop that ended normally"})
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.onRet != nil {
		f.onRet(ex, st, res)
		return
	}
	if len(st.frames) == 0 {
		return
	}
	c := st.top()
	if f.retDefer {
		return // RunDefers re-executes
	}
	if f.dst != nil {
		ex.set(st, f.dst, packRes(res))
	}
	c.ip++
}

func packRes(res []Value) Value {
	switch len(res) {
	case 0:
		return TupleV{}
	case 1:
		return res[0]
	}
	return TupleV(res)
}

func (ex *Ex) doIf(st *State, x *ssa.If) {
	f := st.top()
	c := ex.val(st, x.Cond).(*Term)
	li := f.fi.loops[f.blk.Index]
	if li != nil && li.hasIf && !c.IsConst() {
		ls := f.loops[f.blk.Index]
		if ls.cut == nil && ex.quick(st, c) == 0 {
			a := ex.sol.Check(st.pc, c)
			b := Unsat
			if a != Unsat {
				b = ex.sol.Check(st.pc, ex.tc.Not(c))
			}
			if a != Unsat && b != Unsat {
				if ls.count >= ex.opts.Unroll {
					if li.impure {
						// cannot re-execute the header: cut was due at entry
						ex.unsupported("loop with impure header not cut: %s", f.fn)
					}
					ex.cutLoop(st, li)
					return
				}
			}
		}
	}
	if li != nil && li.hasIf && ex.opts.CutKnown && !li.impure && !ex.v.isGhostFn(f.fn) {
		// known to go on (a loop known not to start is left)
		if ls := f.loops[f.blk.Index]; ls.cut == nil && ls.count == 0 && (c.IsConst() || ex.valid(st, c) == li.body[f.blk.Succs[0]]) {
			ex.cutLoop(st, li)
			return
		}
	}
	if ex.decide(st, c) {
		ex.jump(st, f.blk.Succs[0])
	} else {
		ex.jump(st, f.blk.Succs[1])
	}
}

func (ex *Ex) jump(st *State, to *ssa.BasicBlock) {
	f := st.top()
	from := f.blk
	if d := st.disc; d != nil && len(st.frames) == d.depth {
		if to == d.li.header {
			ex.backEdge(st, d, from)
			panic(pathEnd{"discovery back edge"})
		}
		if !d.li.body[to] {
			panic(pathEnd{"loop exit"})
		}
	}
	for h := range f.loops {
		if li := f.fi.loops[h]; !li.body[to] {
			if f.loops[h].final {
				panic(pathEnd{"leaves a loop that ended normally"})
			}
			delete(f.loops, h)
		}
	}
	li := f.fi.loops[to.Index]
	// evaluate phis
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vals []Value
	n := 0
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, ex.val(st, phi.Edges[pi]))
		n++
	}
	if li != nil && li.body[from] {
		ls := f.loops[to.Index]
		if ls.final {
			for i := 0; i < n; i++ {
				f.env[f.fi.idx[to.Instrs[i].(*ssa.Phi)]] = vals[i]
			}
			ls.marks = append(ls.marks[:len(ls.marks):len(ls.marks)], markRec{ls.cut.mark(st), ls.visit})
			ls.visit = nil
			ls.next(st)
			f.loops[to.Index] = ls
			return
		}
		if ls.cut != nil {
			// real pass back edge: inductive step
			for i := 0; i < n; i++ {
				f.env[f.fi.idx[to.Instrs[i].(*ssa.Phi)]] = vals[i]
			}
			ex.checkInvs(st, ls.cut)
			panic(pathEnd{"back edge"})
		}
		ls.count++
		if ls.count > 6000 {
			ex.unsupported("loop iteration limit in %s", f.fn)
		}
		if ls.count > 70 && ls.count > ex.opts.Unroll && st.nforks-ls.nf0 >= ls.count && !ex.forceCut[li.header] {
			// every pass splits the path: the loop has no bound of its own
			panic(recut{li.header})
		}
		f.loops[to.Index] = ls
	} else if li != nil {
		f.loops[to.Index] = loopSt{nf0: st.nforks}
	}
	for i := 0; i < n; i++ {
		f.env[f.fi.idx[to.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	f.prev, f.blk, f.ip = from, to, n
	if li != nil {
		ls := f.loops[to.Index]
		if ls.cut == nil && ls.count == 0 && ex.forceCut[li.header] {
			ex.cutLoop(st, li)
			return
		}
		if ls.cut == nil && (!li.hasIf || li.impure) && (ls.count >= ex.opts.Unroll || ls.count == 0 && ex.rangesUnknown(st, li)) {
			ex.cutLoop(st, li)
			return
		}
	}
}

// rangesUnknown: the loop ranges over a map that is not fully known; unrolling
// it says nothing.
func (ex *Ex) rangesUnknown(st *State, li *loopInfo) bool {
	f := st.top()
	for _, in := range li.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := f.env[f.fi.idx[nx.Iter]].(*IterV); ok && it != nil && it.m != nil {
				if m, ok := it.m.(MapV); ok && m.obj != 0 {
					a, ok := st.heap[m.obj].val.(*Assoc)
					return ok && a.base != 0
				}
			}
		}
	}
	return false
}
