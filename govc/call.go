package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Ex) evalCall(st *State, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, ex.val(st, a))
	}
	return ex.val(st, c.Value), args
}

func (ex *Ex) doCall(st *State, c *ssa.CallCommon, dst ssa.Value) {
	fn, args := ex.evalCall(st, c)
	ex.invoke(st, c, fn, args, dst)
}

// finish a call that was handled without a frame.
func (ex *Ex) ret(st *State, dst ssa.Value, res ...Value) {
	if dst != nil {
		ex.set(st, dst, packRes(res))
	}
	st.top().ip++
}

func resTypes(sig *types.Signature) []types.Type {
	var r []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, sig.Results().At(i).Type())
	}
	return r
}

func (ex *Ex) havocRes(st *State, sig *types.Signature, name string) []Value {
	var r []Value
	for _, t := range resTypes(sig) {
		r = append(r, ex.freshV(st, t, name))
	}
	return r
}

func (ex *Ex) invoke(st *State, c *ssa.CallCommon, fn Value, args []Value, dst ssa.Value) {
	if c.IsInvoke() {
		recv := ex.norm(st, fn)
		ex.invokeMethod(st, c, recv, args, dst)
		return
	}
	switch f := fn.(type) {
	case FuncV:
		if f.blt != nil {
			ex.builtin(st, f.blt, c, args, dst)
			return
		}
		if f.fn == nil {
			ex.check(st, ex.tc.False, "call of nil function")
		}
		ex.callFn(st, f.fn, args, f.bind, dst)
	case SymFunc:
		ex.check(st, ex.tc.Not(f.nilv), "call of nil function")
		ex.externs["(function value) "+c.Value.Type().String()]++
		ex.ret(st, dst, ex.havocRes(st, c.Signature(), "fv")...)
	default:
		ex.unsupported("call of %T", fn)
	}
}

func ifaceMethodName(c *ssa.CallCommon) string {
	t := c.Value.Type()
	n := namedPath(t)
	if n == "" {
		n = t.String()
	}
	return "(" + n + ")." + c.Method.Name()
}

func (ex *Ex) invokeMethod(st *State, c *ssa.CallCommon, recv Value, args []Value, dst ssa.Value) {
	tc := ex.tc
	if x, ok := recv.(SymIface); ok {
		if !ex.valid(st, tc.Not(x.nilv)) {
			ex.check(st, tc.Not(x.nilv), "method call on nil interface")
		}
	}
	name := ifaceMethodName(c)
	switch r := recv.(type) {
	case IfaceV:
		if r.typ == nil {
			ex.check(st, tc.False, "method call on nil interface")
		}
		m := ex.prog.LookupMethod(r.typ, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			ex.unsupported("no method %s on %s", c.Method.Name(), r.typ)
		}
		ex.callFn(st, m, append([]Value{r.val}, args...), nil, dst)
	case SymIface:
		if g := ex.modelFor(name); g != nil {
			ex.models[name]++
			ex.pushFrame(st, g, append([]Value{recv}, args...), nil, dst)
			return
		}
		if name == "(error).Error" {
			// errors of libraries and of fmt.Errorf have a text
			txt := tc.UF("errstr", SBytes, nil, nil, nil, tc.Int(int64(r.id)))
			ex.assume(st, tc.Lt(tc.Zero, tc.BLen(txt)))
			ex.ret(st, dst, txt)
			return
		}
		ex.externs[name]++
		ex.ret(st, dst, ex.havocRes(st, c.Signature(), c.Method.Name())...)
	default:
		ex.unsupported("invoke on %T", recv)
	}
}

func (ex *Ex) modelFor(name string) *ssa.Function {
	if g, ok := ex.opts.Uses[name]; ok {
		if g == "-" { // explicitly real code
			return nil
		}
		if f := ex.v.ghost[g]; f != nil {
			return f
		}
		ex.unsupported("no ghost function %s", g)
	}
	return ex.v.modelFns[name]
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

func (ex *Ex) callFn(st *State, fn *ssa.Function, args []Value, bind []Value, dst ssa.Value) {
	name := fnName(fn)
	if h, ok := intrinsics[name]; ok && (ex.opts.Uses[name] == "" || ex.inUse(st, name)) {
		h(ex, st, fn, args, dst)
		return
	}
	if g := ex.modelFor(name); g != nil && g != fn && !ex.inGhost(st, g) {
		ex.models[name]++
		if len(g.Params) != len(args) {
			ex.unsupported("model %s has %d params, call has %d", g, len(g.Params), len(args))
		}
		ex.lockStandIn(st, fn)
		ex.pushFrame(st, g, args, nil, dst)
		return
	}
	if fn.Synthetic == "package initializer" && !ex.v.inModule(fn.Pkg) {
		ex.ret(st, dst)
		return
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		ex.pushFrame(st, fn, args, bind, dst)
		return
	}
	if len(fn.Blocks) > 0 && ex.v.inlinable(fn) {
		// recursion guard
		n := 0
		for _, f := range st.frames {
			if f.fn == fn {
				n++
			}
		}
		if n > 6 {
			ex.unsupported("recursion in %s", fn)
		}
		ex.inlined[name]++
		ex.pushFrame(st, fn, args, bind, dst)
		return
	}
	ex.externs[name]++
	ex.lockStandIn(st, fn)
	r := ex.havocRes(st, fn.Signature, fn.Name())
	if n := len(r); n > 1 && fn.Signature.Results().At(n-1).Type().String() == "error" && !ex.v.inModule(fn.Pkg) {
		// a library that reports no error returns no nil pointer
		for i, x := range r[:n-1] {
			if _, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Pointer); ok {
				ex.assume(st, ex.tc.Or(ex.tc.Not(ex.isNil(st, r[n-1])), ex.tc.Not(ex.isNil(st, x))))
			}
		}
	}
	if len(r) == 1 && strings.HasPrefix(fn.Name(), "New") && !ex.v.inModule(fn.Pkg) {
		// a library constructor makes something
		if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok {
			ex.assume(st, ex.tc.Not(ex.isNil(st, r[0])))
		}
	}
	ex.ret(st, dst, r...)
}

// inGhost: a model calling the function it models reaches the real one.
func (ex *Ex) inGhost(st *State, g *ssa.Function) bool {
	return len(st.frames) > 0 && st.top().fn == g
}

// inUse: a contract function calling what it stands for reaches the original.
func (ex *Ex) inUse(st *State, name string) bool {
	g := ex.v.ghost[ex.opts.Uses[name]]
	return g != nil && ex.inGhost(st, g)
}

func (ex *Ex) doGo(st *State, c *ssa.CallCommon, fn Value, args []Value) {
	name := "?"
	switch f := fn.(type) {
	case FuncV:
		if f.fn != nil {
			name = fnName(f.fn)
		}
	}
	if c.IsInvoke() {
		name = ifaceMethodName(c)
	}
	if g := ex.modelFor("go " + name); g != nil {
		ex.models["go "+name]++
		ex.pushFrame(st, g, args, nil, nil)
		return
	}
	if f, ok := fn.(FuncV); ok && f.fn != nil && len(f.fn.Blocks) > 0 && ex.opts.GoRun && strings.HasPrefix(f.fn.Package().Pkg.Path(), modPath) {
		if ex.fork(st, ex.choice(st, "go", 0)) {
			// the goroutine itself; what its starter does meanwhile is left
			// to the hooks
			ex.models["(goroutine) "+name]++
			ex.pushFrame(st, f.fn, args, f.bind, nil)
			st.top().onRet = func(ex *Ex, st *State, res []Value) { panic(pathEnd{"goroutine ends"}) }
			return
		}
		st.top().ip++
		return
	}
	ex.externs["go "+name]++
	st.top().ip++
}

// ---- builtins ----

func (ex *Ex) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Value, dst ssa.Value) {
	tc := ex.tc
	switch b.Name() {
	case "len", "cap":
		var r *Term
		switch x := args[0].(type) {
		case *Term:
			r = x.blen
		case SliceV:
			r = x.len
			if b.Name() == "cap" {
				r = x.cap
			}
		case MapV:
			if x.obj == 0 {
				r = tc.Zero
			} else {
				r = st.heap[x.obj].val.(*Assoc).ln
				if !r.IsConst() {
					ex.assume(st, tc.Le(tc.Zero, r))
				}
			}
		case ChanV:
			if x.obj == 0 {
				r = tc.Zero
			} else {
				cc := st.heap[x.obj].val.(*ChanC)
				if b.Name() == "cap" && cc.capv != nil {
					r = cc.capv
				} else if cc.known && b.Name() == "len" {
					r = tc.Int(int64(len(cc.buf)))
				} else {
					r = tc.FreshLen("chanlen")
				}
			}
		case *ArrV:
			r = tc.Int(int64(len(x.e)))
		case PtrV, SymPtr:
			r = tc.Int(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		default:
			ex.unsupported("len of %T", args[0])
		}
		ex.ret(st, dst, r)
	case "append":
		ex.ret(st, dst, ex.append_(st, args[0].(SliceV), args[1], c.Args[0].Type()))
	case "copy":
		ex.ret(st, dst, ex.copy_(st, args[0].(SliceV), args[1], c.Args[0].Type()))
	case "delete":
		m := args[0].(MapV)
		if m.obj != 0 {
			a := ex.assocDel(st, st.heap[m.obj].val.(*Assoc), args[1])
			ex.recordWrite(st, m.obj, nil)
			ex.setObj(st, m.obj, a)
		}
		ex.ret(st, dst)
	case "close":
		ch := args[0].(ChanV)
		if ch.obj == 0 {
			ex.check(st, tc.False, "close of nil channel")
		}
		cc := *st.heap[ch.obj].val.(*ChanC)
		ex.check(st, tc.Not(cc.closed), "close of closed channel")
		cc.closed = tc.True
		if ex.closes == nil {
			ex.closes = map[int]bool{}
		}
		ex.closes[ch.obj] = true
		if st.heap[ch.obj].sym {
			ex.closes[0] = true
		}
		ex.recordWrite(st, ch.obj, nil)
		ex.setObj(st, ch.obj, &cc)
		ex.ret(st, dst)
		if g := ex.hookFor("close", c.Args[0].Type()); g != nil {
			ex.pushFrame(st, g, []Value{ch}, nil, nil)
			st.top().onRet = func(ex *Ex, st *State, res []Value) {}
		}
	case "panic":
		ex.explicitPanic(st, args[0])
	case "recover":
		ex.ret(st, dst, IfaceV{})
	case "print", "println":
		ex.ret(st, dst)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			if b.Name() == "min" {
				r = tc.Ite(tc.Le(r, y), r, y)
			} else {
				r = tc.Ite(tc.Le(r, y), y, r)
			}
		}
		ex.ret(st, dst, r)
	case "ssa:wrapnilchk":
		if ex.isNil(st, args[0]) == tc.True {
			ex.check(st, tc.False, "nil receiver")
		}
		ex.ret(st, dst, args[0])
	default:
		ex.unsupported("builtin %s", b.Name())
	}
}

func (ex *Ex) append_(st *State, s SliceV, more Value, t types.Type) Value {
	tc := ex.tc
	e := t.Underlying().(*types.Slice).Elem()
	if isByte(e) {
		add := ex.bytesOf(st, more)
		nl := tc.Add(s.len, add.blen)
		if add.blen == tc.Zero {
			return s
		}
		inPlace := false
		if s.obj != 0 && s.cap != s.len {
			inPlace = ex.decide(st, tc.Le(nl, s.cap))
		}
		if inPlace {
			old := ex.getPath(st, st.heap[s.obj].val, s.path).(*Term)
			ex.storeAt(st, s.obj, s.path, tc.BReplace(old, tc.Add(s.off, s.len), add))
			return SliceV{obj: s.obj, path: s.path, off: s.off, len: nl, cap: s.cap, nilv: tc.False}
		}
		r := ex.newBytes(st, tc.BCat(ex.bytesOf(st, s), add))
		r.nilv = tc.And(s.nilv, tc.Eq(add.blen, tc.Zero))
		return r
	}
	m := more.(SliceV)
	if m.len == tc.Zero {
		return s
	}
	// fully concrete
	sl, ok1 := s.len.Int64()
	ml, ok2 := m.len.Int64()
	if ok2 && m.obj != 0 {
		var add []Value
		for i := int64(0); i < ml; i++ {
			add = append(add, ex.getElem(st, ex.getPath(st, st.heap[m.obj].val, m.path), PE{ix: tc.Add(m.off, tc.Int(i))}))
		}
		if ok1 {
			var cur []Value
			for i := int64(0); i < sl; i++ {
				cur = append(cur, ex.getElem(st, ex.getPath(st, st.heap[s.obj].val, s.path), PE{ix: tc.Add(s.off, tc.Int(i))}))
			}
			if sc, ok := s.cap.Int64(); ok && s.obj != 0 && sl+ml <= sc {
				for i, v := range add {
					ex.storeAt(st, s.obj, append(s.path[:len(s.path):len(s.path)], PE{ix: tc.Add(s.off, tc.Int(sl+int64(i)))}), v)
				}
				return SliceV{obj: s.obj, path: s.path, off: s.off, len: tc.Int(sl + ml), cap: s.cap, nilv: tc.False}
			}
			o := ex.newObj(st, types.NewArray(e, 0), &ArrV{e: append(cur, add...)})
			n := tc.Int(sl + ml)
			return SliceV{obj: o.id, off: tc.Zero, len: n, cap: n, nilv: tc.False}
		}
		// symbolic length + known elements: new array sharing the unknown part
		a, isA := ex.getPath(st, st.heap[s.obj].val, s.path).(*Assoc)
		if isA && s.off == tc.Zero {
			if s.cap != s.len && ex.decide(st, tc.Le(tc.Add(s.len, m.len), s.cap)) {
				for i, v := range add {
					ex.storeAt(st, s.obj, append(s.path[:len(s.path):len(s.path)], PE{ix: tc.Add(tc.Add(s.off, s.len), tc.Int(int64(i)))}), v)
				}
				return SliceV{obj: s.obj, path: s.path, off: s.off, len: tc.Add(s.len, m.len), cap: s.cap, nilv: tc.False}
			}
			n := a
			for i, v := range add {
				n = ex.assocSet(st, n, tc.Add(s.len, tc.Int(int64(i))), v)
			}
			nl := tc.Add(s.len, m.len)
			n.ln = nl
			o := ex.newObj(st, types.NewArray(e, 0), n)
			return SliceV{obj: o.id, off: tc.Zero, len: nl, cap: nl, nilv: tc.False}
		}
	}
	// anything else: a sequence whose elements are looked up when needed
	nl := tc.Add(s.len, m.len)
	n := ex.newSymAssoc(st, types.Typ[types.Int], e, true, nl, "append")
	var from []piece
	if s.obj != 0 {
		from = append(from, piece{ex.getPath(st, st.heap[s.obj].val, s.path), s.off, tc.Zero, s.len})
	}
	if m.obj != 0 {
		from = append(from, piece{ex.getPath(st, st.heap[m.obj].val, m.path), m.off, s.len, nl})
	}
	nb := *st.bases[n.base]
	nb.laws = []baseLaw{{from: from}}
	st.bases[n.base] = &nb
	o := ex.newObj(st, types.NewArray(e, 0), n)
	if s.obj != 0 && s.cap != s.len { // may have written in place
		old := st.heap[s.obj]
		if a, ok := ex.getPath(st, old.val, s.path).(*Assoc); ok {
			ex.storeAt(st, s.obj, s.path, ex.newSymAssoc(st, a.kt, a.et, true, a.ln, "append"))
		}
	}
	return SliceV{obj: o.id, off: tc.Zero, len: nl, cap: nl, nilv: tc.And(s.nilv, tc.Eq(m.len, tc.Zero))}
}

func (ex *Ex) copy_(st *State, d SliceV, src Value, t types.Type) Value {
	tc := ex.tc
	e := t.Underlying().(*types.Slice).Elem()
	var sl *Term
	if x, ok := src.(*Term); ok {
		sl = x.blen
	} else {
		sl = src.(SliceV).len
	}
	var n *Term
	if sl == d.len || ex.decide(st, tc.Le(sl, d.len)) {
		n = sl
	} else {
		n = d.len
	}
	if n == tc.Zero {
		return n
	}
	if isByte(e) {
		b := tc.BSlice(ex.bytesOf(st, src), tc.Zero, n)
		old := ex.getPath(st, st.heap[d.obj].val, d.path).(*Term)
		ex.storeAt(st, d.obj, d.path, tc.BReplace(old, d.off, b))
		return n
	}
	s := src.(SliceV)
	if k, ok := n.Int64(); ok {
		var vs []Value
		for i := int64(0); i < k; i++ {
			vs = append(vs, ex.getElem(st, ex.getPath(st, st.heap[s.obj].val, s.path), PE{ix: tc.Add(s.off, tc.Int(i))}))
		}
		for i := int64(0); i < k; i++ {
			ex.storeAt(st, d.obj, append(d.path[:len(d.path):len(d.path)], PE{ix: tc.Add(d.off, tc.Int(i))}), vs[i])
		}
		return n
	}
	// whole-array copy
	ea, ok := ex.getPath(st, st.heap[s.obj].val, s.path).(*Assoc)
	da, ok2 := ex.getPath(st, st.heap[d.obj].val, d.path).(*Assoc)
	if ok && ok2 && s.off == tc.Zero && d.off == tc.Zero && n == d.len && n == da.ln {
		ex.storeAt(st, d.obj, d.path, &Assoc{base: ea.base, ents: ea.ents, ln: da.ln, kt: ea.kt, et: ea.et, arr: true})
		return n
	}
	if ok2 {
		ex.externs["(imprecise) copy of symbolic sequences"]++
		ex.storeAt(st, d.obj, d.path, ex.newSymAssoc(st, da.kt, da.et, true, da.ln, "copy"))
		return n
	}
	ex.unsupported("copy")
	return nil
}

// ---- channels ----

func (ex *Ex) chanC(st *State, ch Value) (*ChanC, int) {
	c, ok := ch.(ChanV)
	if !ok {
		ex.unsupported("channel %T", ch)
	}
	if c.obj == 0 {
		panic(pathEnd{"blocked on nil channel"})
	}
	return st.heap[c.obj].val.(*ChanC), c.obj
}

func (ex *Ex) hookFor(kind string, t types.Type) *ssa.Function {
	e := t.Underlying().(*types.Chan).Elem()
	n := kind + " " + strings.ReplaceAll(types.TypeString(e, nil), modPath+"/", "")
	if g := ex.modelFor(n); g != nil {
		ex.models[n]++
		return g
	}
	return nil
}

func (ex *Ex) doSend(st *State, ch, v Value, t types.Type) {
	cc, id := ex.chanC(st, ch)
	ex.check(st, ex.tc.Not(cc.closed), "send on closed channel")
	if g := ex.hookFor("send", t); g != nil {
		ex.chanPush(st, cc, id, v)
		ex.pushFrame(st, g, []Value{ch, v}, nil, nil)
		// step() has yet to advance past the Send, which has no result
		st.top().onRet = func(ex *Ex, st *State, res []Value) {}
		return
	}
	ex.chanPush(st, cc, id, v)
}

// recvHook runs the ghost function of a receive, which sees the value received.
func (ex *Ex) recvHook(st *State, ch, v Value, t types.Type) {
	if g := ex.hookFor("recv", t); g != nil {
		ex.pushFrame(st, g, []Value{ch, v}, nil, nil)
		st.top().onRet = func(ex *Ex, st *State, res []Value) {}
	}
}

func (ex *Ex) chanPush(st *State, cc *ChanC, id int, v Value) {
	n := *cc
	n.nsent = ex.tc.Add(cc.nsent, ex.tc.One)
	if cc.known {
		if ex.opts.NoBlock {
			ex.check(st, ex.tc.Lt(ex.tc.Int(int64(len(cc.buf))), cc.capv), "send on a full channel blocks")
		} else if ex.opts.ChanBlock {
			if !ex.decide(st, ex.tc.Lt(ex.tc.Int(int64(len(cc.buf))), cc.capv)) {
				panic(pathEnd{"blocked on full channel"})
			}
		}
		n.buf = append(cc.buf[:len(cc.buf):len(cc.buf)], v)
	}
	ex.recordWrite(st, id, nil)
	ex.setObj(st, id, &n)
}

func (ex *Ex) doRecv(st *State, ch Value, commaOk bool, t types.Type) Value {
	tc := ex.tc
	cc, id := ex.chanC(st, ch)
	ok := tc.True
	var v Value
	if cc.known && len(cc.buf) > 0 {
		n := *cc
		v = cc.buf[0]
		n.buf = cc.buf[1:]
		ex.recordWrite(st, id, nil)
		ex.setObj(st, id, &n)
	} else if cc.closed == tc.True {
		v, ok = ex.zero(cc.elem), tc.False
	} else {
		if cc.known && ex.opts.ChanBlock {
			panic(pathEnd{"blocked on empty channel"})
		}
		if commaOk {
			ok = tc.Bool(ex.decide(st, ex.choice(st, "recvok", 0)))
		}
		if ok == tc.True {
			v = ex.freshV(st, cc.elem, "recv")
		} else {
			v = ex.zero(cc.elem)
		}
	}
	if commaOk {
		return TupleV{v, ok}
	}
	return v
}

func (ex *Ex) doSelect(st *State, x *ssa.Select) {
	tc := ex.tc
	n := len(x.States)
	pick := -1
	// a receive that is ready rules out default
	ready := -1
	for i, s := range x.States {
		if s.Dir == types.RecvOnly {
			if c, ok := ex.val(st, s.Chan).(ChanV); ok && c.obj != 0 {
				if cc, _ := ex.chanC(st, c); cc.closed == tc.True || (cc.known && len(cc.buf) > 0) {
					ready = i
				}
			}
		} else if ex.opts.ChanBlock {
			if c, ok := ex.val(st, s.Chan).(ChanV); ok && c.obj != 0 {
				if cc, _ := ex.chanC(st, c); cc.known && int64(len(cc.buf)) < mustInt(cc.capv) && mustInt(cc.capv) < 1<<40 {
					ready = i
				}
			}
		}
	}
	// candidate order: each state, then default
	for i := 0; i < n; i++ {
		s := x.States[i]
		chv := ex.val(st, s.Chan)
		if c, ok := chv.(ChanV); ok && c.obj == 0 {
			continue // nil channel never ready
		}
		if s.Dir == types.SendOnly && ex.opts.ChanBlock {
			cc, _ := ex.chanC(st, chv)
			if cc.known && int64(len(cc.buf)) >= mustInt(cc.capv) {
				continue
			}
		}
		if s.Dir == types.RecvOnly && ex.opts.ChanBlock {
			cc, _ := ex.chanC(st, chv)
			if cc.known && len(cc.buf) == 0 && cc.closed == tc.False {
				continue
			}
		}
		last := i == n-1 && x.Blocking || i == ready && !x.Blocking
		if last || ex.decide(st, ex.choice(st, "select", i)) {
			pick = i
			break
		}
	}
	if pick < 0 && x.Blocking {
		panic(pathEnd{"blocked in select"})
	}
	res := TupleV{tc.Int(int64(pick)), tc.False}
	ok := tc.False
	var recvs []Value
	for i := 0; i < n; i++ {
		s := x.States[i]
		if s.Dir == types.RecvOnly {
			e := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if i == pick {
				r := ex.doRecv(st, ex.val(st, s.Chan), true, s.Chan.Type()).(TupleV)
				recvs = append(recvs, r[0])
				ok = r[1].(*Term)
			} else {
				recvs = append(recvs, ex.zero(e))
			}
		}
	}
	res[1] = ok
	res = append(res, recvs...)
	if pick >= 0 && x.States[pick].Dir == types.RecvOnly && ok == tc.True {
		j := 0
		for i := 0; i < pick; i++ {
			if x.States[i].Dir == types.RecvOnly {
				j++
			}
		}
		s := x.States[pick]
		ex.set(st, x, res)
		ex.recvHook(st, ex.val(st, s.Chan), recvs[j], s.Chan.Type())
		return
	}
	if pick >= 0 && x.States[pick].Dir == types.SendOnly {
		s := x.States[pick]
		ex.set(st, x, res)
		ex.doSend(st, ex.val(st, s.Chan), ex.val(st, s.Send), s.Chan.Type())
		return
	}
	ex.set(st, x, res)
}

func mustInt(t *Term) int64 {
	if t == nil {
		return 1 << 40
	}
	n, ok := t.Int64()
	if !ok {
		return 1 << 40
	}
	return n
}
