package main

import (
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (ex *Ex) simple(st *State, in ssa.Instruction) {
	tc := ex.tc
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := ex.newObj(st, t, ex.zero(t))
		o.name = x.Comment
		ex.set(st, x, PtrV{obj: o.id})
	case *ssa.Store:
		v := ex.val(st, x.Val)
		p := ex.val(st, x.Addr)
		if len(ex.opts.Guards) > 0 {
			ex.guard(st, p, true)
		}
		ex.store(st, p, v)
	case *ssa.FieldAddr:
		p := ex.resolve(st, ex.val(st, x.X))
		ex.set(st, x, PtrV{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], PE{f: x.Field})})
	case *ssa.Field:
		ex.set(st, x, ex.getElem(st, ex.val(st, x.X), PE{f: x.Field}))
	case *ssa.IndexAddr:
		i := ex.val(st, x.Index).(*Term)
		switch b := ex.val(st, x.X).(type) {
		case SliceV:
			ex.check(st, tc.And(tc.Le(tc.Zero, i), tc.Lt(i, b.len)), "index out of range")
			ex.set(st, x, PtrV{obj: b.obj, path: append(b.path[:len(b.path):len(b.path)], PE{ix: tc.Add(b.off, i)})})
		default:
			p := ex.resolve(st, b)
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			ex.check(st, tc.And(tc.Le(tc.Zero, i), tc.Lt(i, tc.Int(n))), "index out of range")
			ex.set(st, x, PtrV{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], PE{ix: i})})
		}
	case *ssa.Index:
		i := ex.val(st, x.Index).(*Term)
		b := ex.val(st, x.X)
		var n *Term
		switch y := b.(type) {
		case *Term:
			n = y.blen
		case *ArrV:
			n = tc.Int(int64(len(y.e)))
		case *Assoc:
			n = y.ln
		}
		ex.check(st, tc.And(tc.Le(tc.Zero, i), tc.Lt(i, n)), "index out of range")
		ex.set(st, x, ex.getElem(st, b, PE{ix: i}))
	case *ssa.UnOp:
		ex.unop(st, x)
	case *ssa.BinOp:
		ex.set(st, x, ex.binop(st, x.Op, ex.val(st, x.X), ex.val(st, x.Y), x.X.Type(), x.Y.Type()))
	case *ssa.ChangeType:
		ex.set(st, x, ex.val(st, x.X))
	case *ssa.ChangeInterface:
		ex.set(st, x, ex.val(st, x.X))
	case *ssa.Convert:
		ex.set(st, x, ex.convert(st, ex.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		ex.set(st, x, IfaceV{typ: x.X.Type(), val: ex.val(st, x.X)})
	case *ssa.Extract:
		tp, ok := ex.val(st, x.Tuple).(TupleV)
		if !ok {
			ex.unsupported("extract of %T", ex.val(st, x.Tuple))
		}
		ex.set(st, x, tp[x.Index])
	case *ssa.MakeClosure:
		fv := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.bind = append(fv.bind, ex.val(st, b))
		}
		ex.set(st, x, fv)
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		o := ex.newObj(st, x.Type(), &Assoc{ln: tc.Zero, kt: m.Key(), et: m.Elem()})
		ex.set(st, x, MapV{o.id})
	case *ssa.MakeChan:
		c := &ChanC{known: true, capv: ex.val(st, x.Size).(*Term), closed: tc.False, elem: x.Type().Underlying().(*types.Chan).Elem(), nsent: tc.Zero}
		ex.check(st, tc.Le(tc.Zero, c.capv), "makechan: size out of range")
		o := ex.newObj(st, x.Type(), c)
		ex.set(st, x, ChanV{o.id})
	case *ssa.MakeSlice:
		e := x.Type().Underlying().(*types.Slice).Elem()
		n := ex.val(st, x.Len).(*Term)
		c := ex.val(st, x.Cap).(*Term)
		ex.check(st, tc.And(tc.Le(tc.Zero, n), tc.Le(n, c)), "makeslice: len out of range")
		ex.set(st, x, ex.makeSlice(st, e, n, c))
	case *ssa.Slice:
		ex.slice(st, x)
	case *ssa.Lookup:
		ex.lookup(st, x)
	case *ssa.MapUpdate:
		m, ok := ex.val(st, x.Map).(MapV)
		if !ok || m.obj == 0 {
			ex.check(st, tc.False, "assignment to entry in nil map")
		}
		k, v := ex.val(st, x.Key), ex.val(st, x.Value)
		ex.recordWrite(st, m.obj, nil)
		ex.setObj(st, m.obj, ex.assocSet(st, st.heap[m.obj].val.(*Assoc), k, v))
	case *ssa.Range:
		switch b := ex.val(st, x.X).(type) {
		case MapV:
			ex.set(st, x, &IterV{m: b})
		case *Term:
			ex.set(st, x, &IterV{str: b})
		}
	case *ssa.Next:
		ex.next(st, x)
	case *ssa.TypeAssert:
		ex.typeAssert(st, x)
	case *ssa.Send:
		ex.doSend(st, ex.val(st, x.Chan), ex.val(st, x.X), x.Chan.Type())
	case *ssa.Select:
		ex.doSelect(st, x)
	case *ssa.SliceToArrayPointer:
		s := ex.val(st, x.X).(SliceV)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		ex.check(st, tc.Le(tc.Int(n), s.len), "slice to array pointer: length")
		ex.unsupported("slice to array pointer")
	default:
		ex.unsupported("instruction %T", in)
	}
}

func (ex *Ex) makeSlice(st *State, e types.Type, n, c *Term) SliceV {
	tc := ex.tc
	var content Value
	if isByte(e) {
		content = tc.BZero(c)
	} else if k, ok := c.Int64(); ok && k <= 4096 {
		a := &ArrV{}
		z := ex.zero(e)
		for i := int64(0); i < k; i++ {
			a.e = append(a.e, z)
		}
		content = a
	} else {
		content = &Assoc{ln: c, arr: true, et: e, kt: types.Typ[types.Int]}
	}
	o := ex.newObj(st, types.NewArray(e, 0), content)
	return SliceV{obj: o.id, off: tc.Zero, len: n, cap: c, nilv: tc.False}
}

// bytesOf reads the content of a byte slice (or string).
func (ex *Ex) bytesOf(st *State, v Value) *Term {
	switch s := v.(type) {
	case *Term:
		return s
	case SliceV:
		if s.obj == 0 {
			return ex.tc.Empty
		}
		c, ok := ex.getPath(st, st.heap[s.obj].val, s.path).(*Term)
		if !ok {
			ex.unsupported("bytesOf non-bytes")
		}
		return ex.tc.BSlice(c, s.off, s.len)
	}
	ex.unsupported("bytesOf %T", v)
	return nil
}

func (ex *Ex) newBytes(st *State, b *Term) SliceV {
	o := ex.newObj(st, types.NewArray(types.Typ[types.Uint8], 0), b)
	return SliceV{obj: o.id, off: ex.tc.Zero, len: b.blen, cap: b.blen, nilv: ex.tc.False}
}

func (ex *Ex) unop(st *State, x *ssa.UnOp) {
	tc := ex.tc
	switch x.Op {
	case token.MUL:
		p := ex.val(st, x.X)
		if len(ex.opts.Guards) > 0 {
			ex.guard(st, p, false)
		}
		ex.set(st, x, ex.load(st, p))
	case token.NOT:
		ex.set(st, x, tc.Not(ex.val(st, x.X).(*Term)))
	case token.SUB:
		v := ex.val(st, x.X).(*Term)
		if kindOf(x.Type()) == kFloat {
			ex.set(st, x, tc.UF("fneg", SInt, nil, nil, nil, v))
			return
		}
		b, s := intInfo(x.Type())
		ex.set(st, x, tc.Wrap(tc.Neg(v), b, s))
	case token.XOR:
		v := ex.val(st, x.X).(*Term)
		b, s := intInfo(x.Type())
		if s {
			ex.set(st, x, tc.Sub(tc.Neg(v), tc.One))
		} else {
			_, hi := typeRange(b, false)
			ex.set(st, x, tc.Sub(tc.Big(hi), v))
		}
	case token.ARROW:
		v := ex.doRecv(st, ex.val(st, x.X), x.CommaOk, x.X.Type())
		ex.set(st, x, v)
		if x.CommaOk {
			if v.(TupleV)[1] == tc.True {
				ex.recvHook(st, ex.val(st, x.X), v.(TupleV)[0], x.X.Type())
			}
		} else {
			ex.recvHook(st, ex.val(st, x.X), v, x.X.Type())
		}
	default:
		ex.unsupported("unop %s", x.Op)
	}
}

func (ex *Ex) binop(st *State, op token.Token, a, b Value, ta, tb types.Type) Value {
	tc := ex.tc
	switch op {
	case token.EQL:
		return ex.eqVal(st, a, b)
	case token.NEQ:
		return tc.Not(ex.eqVal(st, a, b))
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		ex.unsupported("binop %s on %T %T", op, a, b)
	}
	switch kindOf(ta) {
	case kString:
		switch op {
		case token.ADD:
			return tc.BCat(x, y)
		case token.LSS:
			return tc.UF("strlt", SBool, nil, nil, nil, x, y)
		case token.GTR:
			return tc.UF("strlt", SBool, nil, nil, nil, y, x)
		case token.LEQ:
			return tc.Not(tc.UF("strlt", SBool, nil, nil, nil, y, x))
		case token.GEQ:
			return tc.Not(tc.UF("strlt", SBool, nil, nil, nil, x, y))
		}
	case kBool:
		switch op {
		case token.AND, token.LAND:
			return tc.And(x, y)
		case token.OR, token.LOR:
			return tc.Or(x, y)
		}
	case kFloat:
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return tc.UF("f"+op.String(), SBool, nil, nil, nil, x, y)
		}
		return tc.UF("f"+op.String(), SInt, nil, nil, nil, x, y)
	}
	bits, signed := 64, true
	if kindOf(ta) == kInt {
		bits, signed = intInfo(ta)
	}
	switch op {
	case token.ADD:
		return tc.Wrap(tc.Add(x, y), bits, signed)
	case token.SUB:
		return tc.Wrap(tc.Sub(x, y), bits, signed)
	case token.MUL:
		return tc.Wrap(tc.Mul(x, y), bits, signed)
	case token.LSS:
		return tc.Lt(x, y)
	case token.LEQ:
		return tc.Le(x, y)
	case token.GTR:
		return tc.Lt(y, x)
	case token.GEQ:
		return tc.Le(y, x)
	case token.QUO, token.REM:
		ex.check(st, tc.Not(tc.Eq(y, tc.Zero)), "integer divide by zero")
		if !y.IsConst() || y.val.Sign() < 0 {
			lo, hi := typeRange(bits, signed)
			return tc.UF("int"+op.String(), SInt, lo, hi, nil, x, y)
		}
		if x.lo != nil && x.lo.Sign() >= 0 {
			if op == token.QUO {
				return tc.Div(x, y.val)
			}
			return tc.Mod(x, y.val)
		}
		neg := tc.Lt(x, tc.Zero)
		q := tc.Ite(neg, tc.Neg(tc.Div(tc.Neg(x), y.val)), tc.Div(x, y.val))
		if op == token.QUO {
			return q
		}
		return tc.Ite(neg, tc.Neg(tc.Mod(tc.Neg(x), y.val)), tc.Mod(x, y.val))
	case token.AND:
		return tc.BitAnd(x, y)
	case token.OR:
		return tc.BitOr(x, y)
	case token.XOR:
		return tc.BitXor(x, y)
	case token.AND_NOT:
		return tc.Sub(x, tc.BitAnd(x, y))
	case token.SHL, token.SHR:
		if !y.IsConst() {
			// enumerate small shift amounts
			for i := int64(0); i < int64(bits); i++ {
				if ex.decide(st, tc.Eq(y, tc.Int(i))) {
					y = tc.Int(i)
					break
				}
			}
			if !y.IsConst() {
				y = tc.Int(int64(bits))
			}
		}
		k, ok := y.Int64()
		if !ok || k > 4096 {
			k = 4096
		}
		p := new(bigInt).Lsh(bi(1), uint(k))
		if op == token.SHL {
			return tc.Wrap(tc.MulC(x, p), bits, signed)
		}
		return tc.Div(x, p)
	}
	ex.unsupported("binop %s", op)
	return nil
}

func (ex *Ex) convert(st *State, v Value, from, to types.Type) Value {
	tc := ex.tc
	fk, tk := kindOf(from), kindOf(to)
	switch {
	case tk == kInt && fk == kInt:
		b, s := intInfo(to)
		if b == 8 && !s && !inRange(v.(*Term), bi(0), bi(255)) {
			// keep the byte structure: values are put together again
			return tc.Mod(v.(*Term), bi(256))
		}
		return tc.Wrap(v.(*Term), b, s)
	case tk == kInt && fk == kFloat:
		b, s := intInfo(to)
		lo, hi := typeRange(b, s)
		return tc.UF("f2i", SInt, lo, hi, nil, v.(*Term))
	case tk == kFloat:
		return tc.UF("2f", SInt, nil, nil, nil, v.(*Term))
	case tk == kString && fk == kSlice:
		if isByte(from.Underlying().(*types.Slice).Elem()) {
			return ex.bytesOf(st, v)
		}
		return ex.freshV(st, to, "runes")
	case tk == kString && fk == kString:
		return v
	case tk == kString && fk == kInt:
		if k, ok := v.(*Term).Int64(); ok {
			return tc.BLit(string(rune(k)))
		}
		return tc.UF("rune2str", SBytes, nil, nil, nil, v.(*Term))
	case tk == kSlice && fk == kString:
		if isByte(to.Underlying().(*types.Slice).Elem()) {
			return ex.newBytes(st, v.(*Term))
		}
		return ex.freshV(st, to, "runes")
	case tk == fk:
		return v
	}
	ex.unsupported("convert %s to %s", from, to)
	return nil
}

func (ex *Ex) slice(st *State, x *ssa.Slice) {
	tc := ex.tc
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return ex.val(st, v).(*Term)
	}
	switch b := ex.val(st, x.X).(type) {
	case *Term: // string
		lo, hi := opt(x.Low, tc.Zero), opt(x.High, b.blen)
		ex.check(st, tc.And(tc.Le(tc.Zero, lo), tc.Le(lo, hi), tc.Le(hi, b.blen)), "slice bounds out of range")
		ex.set(st, x, tc.BSlice(b, lo, tc.Sub(hi, lo)))
	case SliceV:
		lo, hi := opt(x.Low, tc.Zero), opt(x.High, b.len)
		mx := opt(x.Max, b.cap)
		ex.check(st, tc.And(tc.Le(tc.Zero, lo), tc.Le(lo, hi), tc.Le(hi, mx), tc.Le(mx, b.cap)), "slice bounds out of range")
		ex.set(st, x, SliceV{obj: b.obj, path: b.path, off: tc.Add(b.off, lo), len: tc.Sub(hi, lo), cap: tc.Sub(mx, lo), nilv: b.nilv})
	default:
		p := ex.resolve(st, b)
		n := tc.Int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		lo, hi := opt(x.Low, tc.Zero), opt(x.High, n)
		mx := opt(x.Max, n)
		ex.check(st, tc.And(tc.Le(tc.Zero, lo), tc.Le(lo, hi), tc.Le(hi, mx), tc.Le(mx, n)), "slice bounds out of range")
		ex.set(st, x, SliceV{obj: p.obj, path: p.path, off: lo, len: tc.Sub(hi, lo), cap: tc.Sub(mx, lo), nilv: tc.False})
	}
}

func (ex *Ex) lookup(st *State, x *ssa.Lookup) {
	tc := ex.tc
	b := ex.val(st, x.X)
	k := ex.val(st, x.Index)
	if s, ok := b.(*Term); ok {
		i := k.(*Term)
		ex.check(st, tc.And(tc.Le(tc.Zero, i), tc.Lt(i, s.blen)), "index out of range")
		ex.set(st, x, tc.BAt(s, i))
		return
	}
	m := b.(MapV)
	mt := x.X.Type().Underlying().(*types.Map)
	if m.obj == 0 {
		if x.CommaOk {
			ex.set(st, x, TupleV{ex.zero(mt.Elem()), tc.False})
		} else {
			ex.set(st, x, ex.zero(mt.Elem()))
		}
		return
	}
	pres, val := ex.assocGet(st, st.heap[m.obj].val.(*Assoc), k)
	if !pres.IsConst() {
		if ex.decide(st, pres) {
			pres = tc.True
		} else {
			pres = tc.False
		}
	}
	if pres == tc.False {
		val = ex.zero(mt.Elem())
	}
	if x.CommaOk {
		ex.set(st, x, TupleV{val, pres})
	} else {
		ex.set(st, x, val)
	}
}

func (ex *Ex) next(st *State, x *ssa.Next) {
	tc := ex.tc
	it := ex.val(st, x.Iter).(*IterV)
	f := st.top()
	upd := func(n *IterV) { f.env[f.fi.idx[x.Iter]] = n }
	if it.str != nil {
		if it.str.op == OBLit && it.pos >= 0 {
			if it.pos >= len(it.str.str) {
				ex.set(st, x, TupleV{tc.False, tc.Zero, tc.Zero})
				return
			}
			r, n := utf8.DecodeRuneInString(it.str.str[it.pos:])
			upd(&IterV{str: it.str, pos: it.pos + n})
			ex.set(st, x, TupleV{tc.True, tc.Int(int64(it.pos)), tc.Int(int64(r))})
			return
		}
		ok := ex.choice(st, "more", 0)
		i := tc.Var(tc.Fresh("ri"), SInt, bi(0), maxLen)
		ex.assume(st, tc.Imp(ok, tc.Lt(i, it.str.blen)))
		r := tc.Var(tc.Fresh("rune"), SInt, bi(0), bi(0x10ffff))
		// an ASCII rune is the byte at that position
		at := tc.BAt(it.str, i)
		ex.assume(st, tc.Imp(tc.And(ok, tc.Lt(r, tc.Int(128))), tc.Eq(at, r)))
		ex.set(st, x, TupleV{ok, i, r})
		return
	}
	m := it.m.(MapV)
	mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	if m.obj == 0 {
		ex.set(st, x, TupleV{tc.False, ex.zero(mt.Key()), ex.zero(mt.Elem())})
		return
	}
	a := st.heap[m.obj].val.(*Assoc)
	if ls := f.loops[f.blk.Index]; ls.final {
		// the loop ends normally: every entry known to be in the (unmodified)
		// map was visited, and its iteration did not leave the loop.
		for len(ls.todo) > 0 {
			k := ls.todo[0]
			pr, val := ex.assocGet(st, a, k)
			present := ex.decide(st, pr) // may fork: nothing is changed before
			ls.todo = ls.todo[1:]
			f.loops[f.blk.Index] = ls
			if !present {
				// never in the map, or removed before it was reached: no
				// iteration visits it
				ls.marks = append(ls.marks[:len(ls.marks):len(ls.marks)], markRec{ls.cut.mark(st), k})
				ls.next(st)
				st.top().loops[f.blk.Index] = ls
				panic(restart{})
			}
			ls.visit = k
			f.loops[f.blk.Index] = ls
			ex.set(st, x, TupleV{tc.True, k, val})
			return
		}
		ls.final = false
		f.loops[f.blk.Index] = ls
		ex.set(st, x, TupleV{tc.False, ex.zero(mt.Key()), ex.zero(mt.Elem())})
		return
	}
	if a.base == 0 {
		// fully known: insertion order, skipping what was visited
		if it.pos >= 0 {
			for _, e := range a.ents {
				vis := false
				for _, s := range it.seen {
					if ex.identV(st, s, e.key) == tc.True {
						vis = true
					}
				}
				if vis || e.present == tc.False {
					continue
				}
				if e.present != tc.True && !ex.decide(st, e.present) {
					continue
				}
				upd(&IterV{m: it.m, seen: append(it.seen[:len(it.seen):len(it.seen)], e.key)})
				ex.set(st, x, TupleV{tc.True, e.key, e.val})
				return
			}
			ex.set(st, x, TupleV{tc.False, ex.zero(mt.Key()), ex.zero(mt.Elem())})
			return
		}
	}
	// unknown part: an arbitrary present entry
	ok := ex.choice(st, "more", 0)
	if !ex.decideMore(st, ok, it, a) {
		known := ex.knownEnts(st, a)
		li := f.fi.loops[f.blk.Index]
		if it.pos >= 0 {
			// unrolled: nothing known may be left unvisited
			for _, e := range known {
				if !ex.seenKey(st, it, e.key) {
					ex.assume(st, tc.Not(e.present))
				}
			}
		} else if ls := f.loops[f.blk.Index]; li != nil && ls.cut != nil && ls.cut.rehavoc != nil && len(known) > 0 {
			n := loopSt{cut: ls.cut, final: true}
			for _, e := range known {
				n.todo = append(n.todo, e.key)
			}
			n.next(st)
			st.top().loops[f.blk.Index] = n
			panic(restart{})
		}
		ex.set(st, x, TupleV{tc.False, ex.zero(mt.Key()), ex.zero(mt.Elem())})
		return
	}
	// pick a known entry or a new one
	all := ex.knownEnts(st, a)
	for pk, e := range all {
		if ex.seenKey(st, it, e.key) {
			continue
		}
		c := ex.choice(st, "pick", pk+1)
		if ex.fork(st, c) {
			ex.assume(st, e.present)
			if it.pos >= 0 {
				upd(&IterV{m: it.m, seen: append(it.seen[:len(it.seen):len(it.seen)], e.key)})
			} else if ls := f.loops[f.blk.Index]; ls.cut != nil && ls.cut.atPick != nil {
				ls.cut.atPick(st, e.key)
			}
			ex.set(st, x, TupleV{tc.True, e.key, e.val})
			return
		}
	}
	if a.base == 0 {
		panic(pathEnd{"no entry to pick"})
	}
	k := ex.freshV(st, mt.Key(), "key")
	for _, e := range ex.allEnts(st, a) {
		ex.assume(st, tc.Not(ex.eqKey(st, e.key, k)))
	}
	pres, val := ex.baseGet(st, a, k)
	ex.assume(st, pres)
	if it.pos >= 0 {
		upd(&IterV{m: it.m, seen: append(it.seen[:len(it.seen):len(it.seen)], k)})
	}
	ex.set(st, x, TupleV{tc.True, k, val})
}

// next makes the loop state arbitrary again for the next entry to replay, or
// for the normal end of the loop.
func (ls *loopSt) next(st *State) {
	if len(ls.todo) == 0 {
		ls.cut.rehavoc(st, ls.marks, nil)
	} else {
		ls.cut.rehavoc(st, nil, ls.todo[0])
	}
}

// allEnts lists every entry the map has been asked about.
func (ex *Ex) allEnts(st *State, a *Assoc) []AEnt {
	var all []AEnt
	all = append(all, a.ents...)
	if a.base != 0 {
		for _, e := range st.bases[a.base].ents {
			shadow := false
			for _, o := range a.ents {
				if ex.identV(st, o.key, e.key) == ex.tc.True {
					shadow = true
				}
			}
			if !shadow {
				all = append(all, e)
			}
		}
	}
	return all
}

// knownEnts: those that may be present.
func (ex *Ex) knownEnts(st *State, a *Assoc) []AEnt {
	var r []AEnt
	for _, e := range ex.allEnts(st, a) {
		if e.present != ex.tc.False {
			r = append(r, e)
		}
	}
	return r
}

func (ex *Ex) seenKey(st *State, it *IterV, k Value) bool {
	for _, s := range it.seen {
		if ex.identV(st, s, k) == ex.tc.True {
			return true
		}
	}
	return false
}

// decideMore: whether a range over a partly unknown map continues.  The
// header test must not be forked here on the first visit (the loop is cut at
// its If), so the choice is left symbolic by returning through the If; but
// the tuple needs a concrete key, so fork now.
func (ex *Ex) decideMore(st *State, ok *Term, it *IterV, a *Assoc) bool {
	f := st.top()
	li := f.fi.loops[f.blk.Index]
	if li != nil {
		ls := f.loops[f.blk.Index]
		if ls.cut == nil && ls.count >= ex.opts.Unroll {
			// cut here: restart the header in generic mode
			ex.cutLoop(st, li)
			panic(restart{})
		}
	}
	return ex.fork(st, ok)
}

type restart struct{}

// recut: the loop must be cut when it is entered.
type recut struct{ header *ssa.BasicBlock }

// fork splits on a fresh boolean.
func (ex *Ex) fork(st *State, c *Term) bool { return ex.decide(st, c) }

func (ex *Ex) typeAssert(st *State, x *ssa.TypeAssert) {
	tc := ex.tc
	v := ex.norm(st, ex.val(st, x.X))
	var ok *Term
	var res Value
	zero := func() Value { return ex.zero(x.AssertedType) }
	isI := types.IsInterface(x.AssertedType)
	switch i := v.(type) {
	case IfaceV:
		good := i.typ != nil
		if good {
			if isI {
				good = types.Implements(i.typ, x.AssertedType.Underlying().(*types.Interface))
				res = i
			} else {
				good = types.Identical(i.typ, x.AssertedType)
				res = i.val
			}
		}
		ok = tc.Bool(good)
	case SymIface:
		if isI {
			if ex.decide(st, i.nilv) {
				ok = tc.False
			} else if types.Implements(i.t, x.AssertedType.Underlying().(*types.Interface)) {
				ok, res = tc.True, i
			} else {
				c := tc.Var(sprintf("implements_%d_%s", i.id, x.AssertedType), SBool, nil, nil)
				ok = tc.Bool(ex.decide(st, c))
				res = i
			}
		} else if it, is := i.t.Underlying().(*types.Interface); is && !types.Implements(x.AssertedType, it) {
			ok = tc.False // its type has more methods
		} else {
			c := tc.And(tc.Not(i.nilv), tc.Var(sprintf("dyntype_%d_%s", i.id, x.AssertedType), SBool, nil, nil))
			if ex.decide(st, c) {
				fv := ex.freshV(st, x.AssertedType, sprintf("dyn%d", i.id))
				if sp, is := fv.(SymPtr); is {
					ex.assume(st, tc.Not(sp.nilv))
				}
				r := IfaceV{typ: x.AssertedType, val: fv}
				st.ifres[i.id] = r
				ok, res = tc.True, fv
			} else {
				ok = tc.False
			}
		}
	default:
		ex.unsupported("type assert on %T", v)
	}
	if x.CommaOk {
		if ok == tc.False {
			res = zero()
		}
		ex.set(st, x, TupleV{res, ok})
		return
	}
	ex.check(st, ok, "failed type assertion")
	ex.set(st, x, res)
}
