package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type symWrite struct {
	typ  types.Type
	path []PE
}

type discovery struct {
	outer       *discovery
	li          *loopInfo
	depth       int
	maxObj      int
	writes      map[string]writeRec
	symWrites   []symWrite
	syms        map[int]SymPtr
	globals     map[*ssa.Global]bool
	ghostW      map[string]bool
	baseTouched bool
	failed      string
	startHeap   map[int]*Obj
	startGhost  map[string]Value
	startPhis   []Value
	startMark   []Value
	mark        func(*State) []Value
	havocPhi    map[int]bool
	phiChanged  map[int]bool
	modified    map[string]writeRec
	cands       []*cand
	entryMark   map[*cand]Value
	nextPhi     map[int]Value
	ci          *cutInfo
}

// cand is a candidate relation between the loop states at two passes of the
// header (the first one earlier); it must be transitive.  Candidates are kept
// only when every iteration from an arbitrary header state satisfies them.
type cand struct {
	phi  int
	obj  int // a map object, when not 0
	key  Value
	desc string
	rel  func(a, b Value) *Term
	// get, when set, reads the related value; inv: the relation is between the
	// state at loop entry and any later one (need not be transitive).
	get  func(s *State) Value
	inv  bool
	// take, when set, makes what the relation says known of a value that is
	// only known by it.
	take func(s *State, v Value)
	dead bool
	// deadOth: not even kept by the iterations that visit another key
	deadOth bool
	seen    int
}

// markRec is the loop state after (or instead of) the visit of key.
type markRec struct {
	vals []Value
	key  Value
}

type cutInfo struct {
	fn   *ssa.Function
	phis []*ssa.Phi
	invs []*loopInv
	// rehavoc makes everything the loop modifies arbitrary again and restarts
	// the header.
	// before: the header state is the one in which that key is visited.
	rehavoc func(s *State, marks []markRec, before Value)
	// atPick: key is about to be visited in the current state.
	atPick func(s *State, key Value)
	mark   func(s *State) []Value
	havocs func(obj int) bool
}

func loopPhis(li *loopInfo) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range li.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

// identV: structural identity of two values.
func (ex *Ex) identV(st *State, a, b Value) *Term {
	tc := ex.tc
	a, b = ex.norm(st, a), ex.norm(st, b)
	switch x := a.(type) {
	case nil:
		return tc.Bool(b == nil)
	case *Term:
		if y, ok := b.(*Term); ok && y.sort == x.sort {
			return tc.Eq(x, y)
		}
		return tc.False
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			return tc.False
		}
		if x == y {
			return tc.True
		}
		r := tc.True
		for i := range x.f {
			r = tc.And(r, ex.identV(st, x.f[i], y.f[i]))
		}
		return r
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.e) != len(y.e) {
			return tc.False
		}
		if x == y {
			return tc.True
		}
		r := tc.True
		for i := range x.e {
			r = tc.And(r, ex.identV(st, x.e[i], y.e[i]))
		}
		return r
	case *Assoc:
		y, ok := b.(*Assoc)
		if !ok {
			return tc.False
		}
		if x == y {
			return tc.True
		}
		return ex.assocEq(st, x, y, func(p, q Value) *Term { return ex.identV(st, p, q) })
	case SliceV:
		y, ok := b.(SliceV)
		if !ok || x.obj != y.obj {
			return tc.False
		}
		return tc.And(samePath(tc, x.path, y.path), tc.Eq(x.off, y.off), tc.Eq(x.len, y.len), tc.Eq(x.cap, y.cap), tc.Eq(x.nilv, y.nilv))
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return tc.False
		}
		r := tc.True
		for i := range x {
			r = tc.And(r, ex.identV(st, x[i], y[i]))
		}
		return r
	case FuncV:
		y, ok := b.(FuncV)
		return tc.Bool(ok && x.fn == y.fn && x.blt == y.blt && len(x.bind) == 0 && len(y.bind) == 0)
	case SymFunc:
		y, ok := b.(SymFunc)
		return tc.Bool(ok && x.id == y.id)
	case *IterV:
		y, ok := b.(*IterV)
		return tc.Bool(ok && x == y)
	case *ChanC:
		y, ok := b.(*ChanC)
		return tc.Bool(ok && x == y)
	case *SnapV:
		y, ok := b.(*SnapV)
		return tc.Bool(ok && x == y)
	}
	switch b.(type) {
	case PtrV, SymPtr, IfaceV, SymIface, MapV, ChanV:
		if _, ok := a.(IfaceV); ok {
			x := a.(IfaceV)
			if y, ok := b.(IfaceV); ok && x.typ != nil && y.typ != nil {
				if !types.Identical(x.typ, y.typ) {
					return tc.False
				}
				return ex.identV(st, x.val, y.val)
			}
		}
		return ex.eqVal(st, a, b)
	}
	return tc.False
}

// assocEq compares two association lists over the same unknown part.
func (ex *Ex) assocEq(st *State, x, y *Assoc, eq func(a, b Value) *Term) *Term {
	tc := ex.tc
	if x == y {
		return tc.True
	}
	if x.base != y.base {
		if x.base == 0 && y.base == 0 {
			// both fully known
		} else {
			return tc.False
		}
	}
	r := tc.Eq(x.ln, y.ln)
	one := func(p, q *Assoc) {
		for _, e := range p.ents {
			pr, v := ex.assocPeek(st, q, e.key)
			if pr == nil {
				r = tc.False
				return
			}
			r = tc.And(r, tc.Eq(e.present, pr))
			if e.present != tc.False {
				r = tc.And(r, tc.Imp(e.present, eq(e.val, v)))
			}
		}
	}
	one(x, y)
	one(y, x)
	return r
}

func (ex *Ex) assocPeek(st *State, a *Assoc, k Value) (*Term, Value) { return ex.assocGet(st, a, k) }

func (ex *Ex) typeAt(t types.Type, path []PE) types.Type {
	for _, pe := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(pe.f).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			ex.unsupported("typeAt %s", t)
		}
	}
	return t
}

// havocAt replaces the value at obj.path by an arbitrary one.
func (ex *Ex) havocAt(st *State, obj int, path []PE) {
	o := st.heap[obj]
	old := ex.getPath(st, o.val, path)
	if c, ok := old.(*ChanC); ok && !ex.closes[obj] && !ex.closes[0] {
		// nothing in the loop closes it
		n := ex.havocVal(st, old, o.typ, fmt.Sprintf("loop_%s%d", o.name, obj)).(*ChanC)
		n.closed = c.closed
		ex.setObj(st, obj, n)
		return
	}
	nv := ex.havocVal(st, old, ex.typeAt(o.typ, path), fmt.Sprintf("loop_%s%d", o.name, obj))
	ex.setObj(st, obj, ex.setPath(st, o.val, path, nv))
}

func (ex *Ex) havocVal(st *State, old Value, t types.Type, name string) Value {
	tc := ex.tc
	switch x := old.(type) {
	case *Term:
		if x.sort == SBytes && kindSafe(t) != kString {
			return tc.BVar(tc.Fresh(name), x.blen)
		}
	case *Assoc:
		ln := x.ln
		if !x.arr {
			ln = tc.FreshLen(name)
		}
		return ex.newSymAssoc(st, x.kt, x.et, x.arr, ln, name)
	case *ArrV:
		if a, ok := t.Underlying().(*types.Array); ok {
			n := &ArrV{}
			for i := range x.e {
				n.e = append(n.e, ex.havocVal(st, x.e[i], a.Elem(), fmt.Sprintf("%s[%d]", name, i)))
			}
			return n
		}
	case *ChanC:
		return &ChanC{elem: x.elem, closed: tc.Var(tc.Fresh(name+".closed"), SBool, nil, nil), nsent: tc.Var(tc.Fresh(name+".nsent"), SInt, bi(0), nil), capv: x.capv}
	}
	if isOpaque(t) && namedPath(t) != "time.Time" {
		return tc.Var(tc.Fresh(name), SInt, nil, nil)
	}
	return ex.freshV(st, t, name)
}

func kindSafe(t types.Type) tkind {
	defer func() { recover() }()
	return kindOf(t)
}

func (ex *Ex) cutLoop(st *State, li *loopInfo) {
	f := st.top()
	tc := ex.tc
	phis := loopPhis(li)
	ci := &cutInfo{fn: f.fn, phis: phis}
	// pin iterators to generic mode
	for b := range li.body {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || li.body[nx.Iter.(*ssa.Range).Block()] {
				continue
			}
			i := f.fi.idx[nx.Iter]
			if it, ok := f.env[i].(*IterV); ok && it != nil {
				f.env[i] = &IterV{m: it.m, str: it.str, pos: -1}
			}
		}
	}
	havocPhi := map[int]bool{}
	havocW := map[string]writeRec{}
	var symW []symWrite
	ghostW := map[string]bool{}
	entry := make([]Value, len(phis))
	for i, p := range phis {
		entry[i] = f.env[f.fi.idx[p]]
	}
	cands := ex.loopCands(st, li, phis, entry)
	candGet := func(s *State, c *cand) Value {
		if c.get != nil {
			return c.get(s)
		}
		if c.obj != 0 {
			o := s.heap[c.obj]
			if o == nil {
				return nil
			}
			a, ok := o.val.(*Assoc)
			if !ok {
				if t, ok := o.val.(*Term); ok && c.key == nil {
					return t
				}
				return nil
			}
			p, v := ex.assocGet(s, a, c.key)
			return TupleV{p, v}
		}
		g := s.top()
		return g.env[g.fi.idx[phis[c.phi]]]
	}
	candMark := func(s *State) []Value {
		var r []Value
		for _, c := range cands {
			r = append(r, candGet(s, c))
		}
		return r
	}
	entryMark := map[*cand]Value{}
	for _, c := range cands {
		entryMark[c] = candGet(st, c)
	}
	// the map ranged over, and what is known of its keys
	var rangeObj int
	var rangeKT types.Type
	for _, in := range li.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := f.env[f.fi.idx[nx.Iter]].(*IterV); ok && it != nil && it.m != nil {
				if m, ok := it.m.(MapV); ok {
					rangeObj = m.obj
					rangeKT = nx.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map).Key()
				}
			}
		}
	}
	mapCands := func(obj int) {
		if t, ok := st.heap[obj].val.(*Term); ok && t.sort == SBool {
			for _, c := range []*cand{
				{obj: obj, desc: "stays-set", rel: func(a, b Value) *Term { return tc.Imp(a.(*Term), b.(*Term)) }},
				{obj: obj, desc: "stays-clear", rel: func(a, b Value) *Term { return tc.Imp(b.(*Term), a.(*Term)) }},
			} {
				cands = append(cands, c)
				entryMark[c] = t
			}
			return
		}
		ea, ok := st.heap[obj].val.(*Assoc)
		if !ok || ea.arr {
			return
		}
		var keys []AEnt
		keys = append(keys, ex.allEnts(st, ea)...)
		var na *Assoc
		if rangeObj != 0 && rangeObj != obj {
			na, _ = st.heap[rangeObj].val.(*Assoc)
			if na != nil && types.Identical(na.kt, ea.kt) {
				for _, e := range ex.allEnts(st, na) {
					ex.assocGet(st, ea, e.key)
				}
				keys = ex.allEnts(st, ea)
				for _, e := range ex.allEnts(st, na) {
					if ex.findEnt(st, keys, e.key) < 0 {
						keys = append(keys, e)
					}
				}
			} else {
				na = nil
			}
		}
		for _, e := range keys {
			inN := tc.False
			var vN Value
			if na != nil {
				inN, vN = ex.assocGet(st, na, e.key)
				if !types.Identical(na.et, ea.et) {
					vN = nil
				}
			}
			pr := func(v Value) *Term { return v.(TupleV)[0].(*Term) }
			vl := func(v Value) Value { return v.(TupleV)[1] }
			for _, r := range []struct {
				d string
				f func(a, b Value) *Term
			}{
				{"kept", func(a, b Value) *Term { return tc.Imp(pr(a), pr(b)) }},
				{"not-added", func(a, b Value) *Term { return tc.Imp(pr(b), pr(a)) }},
				{"only-from-range", func(a, b Value) *Term { return tc.Or(inN, tc.Imp(pr(b), pr(a))) }},
				{"only-range-removed", func(a, b Value) *Term { return tc.Or(inN, tc.Imp(pr(a), pr(b))) }},
				{"not-overwritten", func(a, b Value) *Term {
					return tc.Imp(tc.And(pr(a), pr(b)), ex.identV(st, vl(a), vl(b)))
				}},
				{"kept-or-copied", func(a, b Value) *Term {
					if vN == nil {
						return tc.True
					}
					return tc.Imp(pr(b), tc.Or(tc.And(inN, ex.identV(st, vl(b), vN)), tc.And(pr(a), ex.identV(st, vl(b), vl(a)))))
				}},
				{"others-unchanged", func(a, b Value) *Term {
					return tc.Or(inN, tc.Imp(tc.And(pr(a), pr(b)), ex.identV(st, vl(a), vl(b))))
				}},
			} {
				c := &cand{obj: obj, key: e.key, desc: r.d, rel: r.f}
				cands = append(cands, c)
				entryMark[c] = candGet(st, c)
			}
		}
	}
	addCand := func(c *cand) {
		e := c.get(st)
		if e == nil {
			return
		}
		if c.inv && !ex.valid(st, c.rel(e, e)) {
			return
		}
		entryMark[c] = e
		cands = append(cands, c)
	}
	// what a flag or error variable says about the other things the loop
	// changes: nothing else changed while it has its initial value
	type look struct {
		name string
		get  func(s *State) Value
	}
	var flags, cells []look
	isText := func(v Value) bool { t, ok := v.(*Term); return ok && t.sort == SBytes }
	pair := func(fl, ce look) {
		g := func(s *State) Value {
			a, b := fl.get(s), ce.get(s)
			if a == nil || b == nil {
				return nil
			}
			return TupleV{a, b}
		}
		same := func(a, b Value) *Term { return ex.identV(st, a.(TupleV)[0], b.(TupleV)[0]) }
		addCand(&cand{get: g, inv: true, desc: fl.name + " initial => " + ce.name + " initial", rel: func(a, b Value) *Term {
			return tc.Imp(same(a, b), ex.identV(st, a.(TupleV)[1], b.(TupleV)[1]))
		}})
		if isText(ce.get(st)) {
			addCand(&cand{get: g, inv: true, desc: fl.name + " changed => " + ce.name + " grew", rel: func(a, b Value) *Term {
				return tc.Or(same(a, b), tc.Lt(a.(TupleV)[1].(*Term).blen, b.(TupleV)[1].(*Term).blen))
			}})
		}
	}
	addLook := func(l look, flag bool) {
		if flag {
			for _, c := range cells {
				pair(l, c)
			}
			flags = append(flags, l)
			return
		}
		for _, f := range flags {
			pair(f, l)
		}
		cells = append(cells, l)
	}
	// how integers are apart stays as it is, or changes in one direction
	var ints []look
	addInt := func(l look) {
		v, ok := l.get(st).(*Term)
		if !ok || v.sort != SInt {
			return
		}
		for _, o := range ints {
			o := o
			d := tc.Sub(v, o.get(st).(*Term))
			if !d.IsConst() {
				continue
			}
			g := func(s *State) Value {
				a, ok1 := l.get(s).(*Term)
				b, ok2 := o.get(s).(*Term)
				if !ok1 || !ok2 {
					return nil
				}
				return TupleV{a, b}
			}
			diff := func(b Value) *Term { return tc.Sub(b.(TupleV)[0].(*Term), b.(TupleV)[1].(*Term)) }
			addCand(&cand{get: g, inv: true, desc: l.name + " gains nothing on " + o.name, rel: func(_, b Value) *Term {
				return tc.Le(diff(b), d)
			}})
			addCand(&cand{get: g, inv: true, desc: l.name + " loses nothing to " + o.name, rel: func(_, b Value) *Term {
				return tc.Le(d, diff(b))
			}})
		}
		ints = append(ints, l)
	}
	phiGet := func(i int) func(s *State) Value {
		return func(s *State) Value { g := s.top(); return g.env[g.fi.idx[phis[i]]] }
	}
	grows := func(l look) {
		addCand(&cand{get: l.get, desc: l.name + " grows or stays", rel: func(a, b Value) *Term {
			x, ok1 := a.(*Term)
			y, ok2 := b.(*Term)
			if !ok1 || !ok2 || x.sort != SBytes || y.sort != SBytes {
				return tc.False
			}
			return tc.Or(tc.Eq(x, y), tc.Lt(x.blen, y.blen))
		}})
		addCand(&cand{get: l.get, desc: l.name + " stays a path component", rel: func(a, b Value) *Term {
			x, ok1 := a.(*Term)
			y, ok2 := b.(*Term)
			if !ok1 || !ok2 || x.sort != SBytes || y.sort != SBytes {
				return tc.False
			}
			return tc.Imp(ex.simpleIf(x), ex.simpleIf(y))
		}})
		if t, ok := l.get(st).(*Term); ok {
			if sp, ok := ex.pathOf[t]; ok && sp.base != nil {
				addCand(&cand{get: l.get, inv: true, desc: l.name + " stays in its directory", rel: func(_, b Value) *Term {
					y, ok := b.(*Term)
					if !ok {
						return tc.False
					}
					p, ok := ex.pathOf[y]
					return tc.Bool(ok && p.base != nil && p.dir == sp.dir)
				}, take: func(s *State, v Value) {
					y := v.(*Term)
					if _, ok := ex.pathOf[y]; ok || y.op != OVar {
						return
					}
					b := tc.UF("path.base", SBytes, nil, nil, nil, y)
					ex.pathOf[y] = pathSplit{sp.dir, b}
					ex.assume(s, ex.simpleTerm(b))
					ex.assume(s, tc.Eq(y, tc.BCat(sp.dir, tc.BLit("/"), b)))
				}})
			}
		}
	}
	phiCands := func(i int, next Value) {
		k := kindSafe(phis[i].Type())
		l := look{"phi_" + phis[i].Comment, phiGet(i)}
		switch k {
		case kIface, kPtr:
			addCand(&cand{get: l.get, desc: l.name + " one of two", rel: func(a, b Value) *Term {
				return tc.Or(ex.identV(st, a, b), ex.identV(st, next, b))
			}})
			addLook(l, true)
		case kBool:
			addLook(l, true)
		case kString:
			grows(l)
			addLook(l, false)
		case kInt:
			addInt(l)
		}
	}
	cellCands := func(w writeRec) {
		o := st.heap[w.obj]
		if o == nil {
			return
		}
		l := look{fmt.Sprintf("%s%d%v", o.name, w.obj, w.path), func(s *State) (v Value) {
			o := s.heap[w.obj]
			if o == nil {
				return nil
			}
			defer func() {
				if r := recover(); r != nil {
					v = nil
				}
			}()
			return ex.getPath(s, o.val, w.path)
		}}
		switch v := l.get(st).(type) {
		case *Term:
			if v.sort == SBytes {
				grows(l)
				addLook(l, false)
			} else if v.sort == SInt {
				addInt(l)
			} else if v.sort == SBool {
				addLook(l, true)
				// set once the loop has passed a watched index
				for _, w := range st.watch {
					w := w
					for i, p := range phis {
						if kindSafe(p.Type()) != kInt {
							continue
						}
						ph := phiGet(i)
						g := func(s *State) Value {
							a, b := ph(s), l.get(s)
							if a == nil || b == nil {
								return nil
							}
							return TupleV{a, b}
						}
						for _, past := range []func(v *Term) *Term{
							func(v *Term) *Term { return tc.Lt(w, v) },
							func(v *Term) *Term { return tc.Le(w, v) },
						} {
							past := past
							addCand(&cand{get: g, inv: true, desc: l.name + " set once past the watched index", rel: func(_, b Value) *Term {
								return tc.Imp(past(b.(TupleV)[0].(*Term)), b.(TupleV)[1].(*Term))
							}})
						}
					}
				}
			}
		case IfaceV, SymIface:
			addLook(l, true)
		}
	}
	modified := func(obj int) bool {
		for _, w := range havocW {
			if w.obj == obj {
				return true
			}
		}
		return false
	}
	// othOK: c survives every iteration but the one visiting its own key, and
	// that key is visited at most once.
	othOK := func(s *State, c *cand) bool {
		if c.deadOth || c.key == nil || c.obj == 0 || rangeObj == 0 {
			return false
		}
		a, ok := st.heap[c.obj].val.(*Assoc)
		if !ok || !types.Identical(a.kt, rangeKT) {
			return false
		}
		if !modified(rangeObj) {
			return true
		}
		for _, o := range cands {
			if o.obj == rangeObj && o.desc == "not-added" && !o.dead && ex.identV(s, o.key, c.key) == tc.True {
				return true
			}
		}
		return false
	}
	sameKey := func(s *State, c *cand, k Value) bool {
		return c.key != nil && k != nil && ex.identV(s, c.key, k) == tc.True
	}
	atPick := func(s *State, key Value) {
		for _, c := range cands {
			if c.dead && sameKey(s, c, key) && othOK(s, c) {
				if e, now := entryMark[c], candGet(s, c); e != nil && now != nil {
					ex.assume(s, c.rel(e, now))
				}
			}
		}
	}
	apply := func(s *State, marks []markRec, before Value) []Value {
		g := s.top()
		for i, p := range phis {
			if havocPhi[i] {
				g.env[g.fi.idx[p]] = ex.havocVal(s, entry[i], p.Type(), "phi_"+p.Comment)
			}
		}
		var ks []string
		for k := range havocW {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			w := havocW[k]
			if _, ok := s.heap[w.obj]; ok {
				ex.havocAt(s, w.obj, w.path)
			}
		}
		for _, w := range symW {
			var ids []int
			for id, o := range s.heap {
				if o.sym && types.Identical(o.typ, w.typ) {
					ids = append(ids, id)
				}
			}
			sort.Ints(ids)
			for _, id := range ids {
				ex.havocAt(s, id, w.path)
			}
		}
		for k := range ghostW {
			delete(s.ghost, k)
		}
		for i, c := range cands {
			if c.obj == 0 && c.get == nil && !havocPhi[c.phi] {
				continue
			}
			now := candGet(s, c)
			if now == nil {
				continue
			}
			if e := entryMark[c]; e != nil && (!c.dead || sameKey(s, c, before) && othOK(s, c)) {
				if c.take != nil {
					c.take(s, now)
				}
				ex.assume(s, c.rel(e, now))
			}
			for _, m := range marks {
				if m.vals[i] != nil && !c.inv && (!c.dead || sameKey(s, c, m.key) && othOK(s, c)) {
					ex.assume(s, c.rel(m.vals[i], now))
				}
			}
		}
		vals := make([]Value, len(phis))
		for i, p := range phis {
			vals[i] = g.env[g.fi.idx[p]]
		}
		g.blk, g.ip = li.header, len(phis)
		g.loops[li.header.Index] = loopSt{cut: ci}
		return vals
	}
	ci.mark = candMark
	ci.havocs = modified
	ci.atPick = atPick
	for round := 0; ; round++ {
		if round > 14 {
			ex.unsupported("loop havoc did not stabilise in %s", f.fn)
		}
		s := st.clone()
		s.mute = true
		d := &discovery{outer: st.disc, li: li, depth: len(s.frames), maxObj: ex.objN, writes: map[string]writeRec{}, syms: map[int]SymPtr{}, globals: map[*ssa.Global]bool{}, ghostW: map[string]bool{}, havocPhi: havocPhi, phiChanged: map[int]bool{}, modified: map[string]writeRec{}, cands: cands, entryMark: entryMark, nextPhi: map[int]Value{}, ci: ci, mark: candMark}
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(pathEnd); is {
						ok = false
						return
					}
					panic(r)
				}
			}()
			d.startPhis = apply(s, nil, nil)
			d.startMark = candMark(s)
			return true
		}()
		if !ok {
			break
		}
		s.disc = d
		d.startHeap = make(map[int]*Obj, len(s.heap))
		for k, v := range s.heap {
			d.startHeap[k] = v
		}
		d.startGhost = make(map[string]Value, len(s.ghost))
		for k, v := range s.ghost {
			d.startGhost[k] = v
		}
		save, cur := ex.work, ex.cur
		ex.work = []*State{s}
		ex.discDepth++
		ex.run()
		ex.discDepth--
		ex.work, ex.cur = save, cur
		if d.failed != "" {
			ex.unsupported("in loop of %s: %s", f.fn, d.failed)
		}
		again := false
		// things first materialised inside the loop
		var gl []*ssa.Global
		for g := range d.globals {
			if _, ok := st.globals[g]; !ok {
				gl = append(gl, g)
			}
		}
		sort.Slice(gl, func(i, j int) bool { return gl[i].String() < gl[j].String() })
		for _, g := range gl {
			ex.globalObj(st, g)
			again = true
		}
		if len(d.symWrites) > 0 {
			var ids []int
			for id := range d.syms {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			for _, id := range ids {
				if _, ok := st.symres[id]; !ok && ex.symKnown(st, id) {
					// materialise (nil-ness is left to the deref sites)
					p := d.syms[id]
					if ex.valid(st, ex.tc.Not(p.nilv)) {
						ex.resolve(st, p)
						again = true
					}
				}
			}
			for _, w := range d.symWrites {
				found := false
				for _, o := range symW {
					if types.Identical(o.typ, w.typ) && fmt.Sprint(o.path) == fmt.Sprint(w.path) {
						found = true
					}
				}
				if !found {
					symW = append(symW, w)
					again = true
				}
			}
		}
		for i := range phis {
			if d.phiChanged[i] && !havocPhi[i] {
				havocPhi[i] = true
				again = true
				phiCands(i, d.nextPhi[i])
			}
		}
		for k, w := range d.modified {
			if _, ok := havocW[k]; !ok {
				havocW[k] = w
				again = true
				if len(w.path) == 0 {
					mapCands(w.obj)
				}
				cellCands(w)
			}
		}
		for k := range d.ghostW {
			if !ghostW[k] {
				ghostW[k] = true
				again = true
			}
		}
		for _, c := range cands {
			if c.diedNow() {
				again = true
			}
		}
		if !again {
			break
		}
	}
	if ex.v.debug {
		var mods []string
		for k := range havocW {
			mods = append(mods, k)
		}
		sort.Strings(mods)
		ph := ""
		for i, p := range phis {
			if havocPhi[i] {
				ph += " " + p.Name() + "(" + p.Comment + ")"
			}
		}
		for _, c := range cands {
			if !c.dead && (c.obj != 0 || c.get != nil) {
				ph += fmt.Sprintf(" {%d[%s] %s}", c.obj, showCKey(c.key), c.desc)
			}
		}
		if os.Getenv("GOVC_CUT") != "" {
			fmt.Fprintln(os.Stderr, "CUT", f.fn.Name(), ph, st.note[max(0, len(st.note)-4):])
		}
		ex.loopNotes[fmt.Sprintf("%s#%d", f.fn, li.header.Index)] = fmt.Sprintf("havoc phis:%s heap:%v", ph, mods)
	}
	ci.rehavoc = func(s *State, marks []markRec, before Value) { apply(s, marks, before) }
	apply(st, nil, nil)
	if ex.opts.Invs != nil {
		ex.assumeInvs(st, ci)
	}
}

func (ex *Ex) symKnown(st *State, id int) bool { return true }


// diedNow: c got weaker in this round, which forces another one.
func (c *cand) diedNow() bool {
	n := 0
	if c.dead {
		n++
	}
	if c.deadOth {
		n++
	}
	r := n != c.seen
	c.seen = n
	return r
}

func (ex *Ex) loopCands(st *State, li *loopInfo, phis []*ssa.Phi, entry []Value) []*cand {
	tc := ex.tc
	f := st.top()
	var cs []*cand
	var bounds []*Term
	if li.hasIf {
		last := li.header.Instrs[len(li.header.Instrs)-1].(*ssa.If)
		if b, ok := last.Cond.(*ssa.BinOp); ok {
			switch b.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				for _, o := range []ssa.Value{b.X, b.Y} {
					func() {
						defer func() { recover() }()
						var v Value
						if c, ok := o.(*ssa.Const); ok {
							v = ex.constV(st, c)
						} else if i, ok := f.fi.idx[o]; ok {
							v = f.env[i]
						}
						if t, ok := v.(*Term); ok && t.sort == SInt {
							bounds = append(bounds, t)
						}
					}()
				}
			}
		}
	}
	bounds = append(bounds, st.watch...)
	for i, p := range phis {
		i := i
		if kindSafe(p.Type()) == kBool {
			cs = append(cs, &cand{phi: i, desc: "stays-set", rel: func(a, b Value) *Term { return tc.Imp(a.(*Term), b.(*Term)) }})
			cs = append(cs, &cand{phi: i, desc: "stays-clear", rel: func(a, b Value) *Term { return tc.Imp(b.(*Term), a.(*Term)) }})
			continue
		}
		if kindSafe(p.Type()) != kInt {
			continue
		}
		e, ok := entry[i].(*Term)
		if !ok {
			continue
		}
		cs = append(cs, &cand{phi: i, desc: "up", rel: func(a, b Value) *Term { return tc.Le(a.(*Term), b.(*Term)) }})
		cs = append(cs, &cand{phi: i, desc: "down", rel: func(a, b Value) *Term { return tc.Le(b.(*Term), a.(*Term)) }})
		for _, n := range bounds {
			n := n
			for _, c := range []*cand{
				{phi: i, desc: "le-bound", rel: func(_, v Value) *Term { return tc.Le(v.(*Term), n) }},
				{phi: i, desc: "lt-bound", rel: func(_, v Value) *Term { return tc.Lt(v.(*Term), n) }},
			} {
				if ex.valid(st, c.rel(e, e)) {
					cs = append(cs, c)
				}
			}
		}
	}
	return cs
}

// backEdge is reached in discovery mode.
func (ex *Ex) backEdge(st *State, d *discovery, from *ssa.BasicBlock) {
	f := st.top()
	to := d.li.header
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for i, phi := range d.ci.phis {
		nv := ex.val(st, phi.Edges[pi])
		if !d.havocPhi[i] {
			if !ex.valid(st, ex.identV(st, nv, d.startPhis[i])) {
				d.phiChanged[i] = true
				if d.nextPhi[i] == nil {
					d.nextPhi[i] = nv
				}
			}
		}
	}
	// candidates, with the phis of the next pass in place
	save := make([]Value, len(d.ci.phis))
	next := make([]Value, len(d.ci.phis))
	for i, phi := range d.ci.phis {
		save[i] = f.env[f.fi.idx[phi]]
		next[i] = ex.val(st, phi.Edges[pi])
	}
	for i, phi := range d.ci.phis {
		f.env[f.fi.idx[phi]] = next[i]
	}
	end := d.mark(st)
	for i, phi := range d.ci.phis {
		f.env[f.fi.idx[phi]] = save[i]
	}
	var picked Value
	for _, in := range to.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if t, ok := f.env[f.fi.idx[nx]].(TupleV); ok && !nx.IsString {
				picked = t[1]
			}
		}
	}
	for i, c := range d.cands {
		if c.dead && c.deadOth || i >= len(d.startMark) || d.startMark[i] == nil {
			continue
		}
		if end[i] == nil {
			c.dead, c.deadOth = true, true
			continue
		}
		from := d.startMark[i]
		if c.inv {
			from = d.entryMark[c]
		}
		rel := c.rel(from, end[i])
		if !c.dead && !ex.valid(st, rel) {
			c.dead = true
		}
		if c.dead && !c.deadOth {
			c.deadOth = true
			if picked != nil && c.key != nil {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(pathEnd); ok {
								panic(r)
							}
						}
					}()
					c.deadOth = !ex.valid(st, ex.tc.Or(ex.eqKey(st, picked, c.key), rel))
				}()
			}
		}
	}
	for k, w := range d.writes {
		if _, ok := d.modified[k]; ok {
			continue
		}
		so, ok := d.startHeap[w.obj]
		if !ok {
			continue // created in the loop
		}
		a := ex.getPath(st, so.val, w.path)
		b := ex.getPath(st, st.heap[w.obj].val, w.path)
		if !ex.valid(st, ex.identV(st, a, b)) {
			d.modified[k] = w
		}
	}
	for k, v := range st.ghost {
		o, ok := d.startGhost[k]
		if !ok {
			continue
		}
		if !ex.valid(st, ex.identV(st, o, v)) {
			d.ghostW[k] = true
		}
	}
	for k := range d.startGhost {
		if _, ok := st.ghost[k]; !ok {
			d.ghostW[k] = true
		}
	}
}

// ---- user supplied loop invariants ----

type loopInv struct {
	label string
	fn    *ssa.Function
}

func (ex *Ex) assumeInvs(st *State, ci *cutInfo) {}
func (ex *Ex) checkInvs(st *State, ci *cutInfo)  {}

func showCKey(k Value) string {
	if k == nil {
		return ""
	}
	return showKey(k)
}
