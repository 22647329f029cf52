package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type StructV struct{ f []Value }
type ArrV struct{ e []Value }
type PE struct {
	f  int
	ix *Term
}
type PtrV struct {
	obj  int
	path []PE
}
type SymPtr struct {
	id   int
	elem types.Type
	nilv *Term
}
type SliceV struct {
	obj           int
	path          []PE
	off, len, cap *Term
	nilv          *Term
}
type MapV struct {
	obj int // 0 nil
}
type ChanV struct{ obj int }
type IfaceV struct {
	typ types.Type
	val Value
}
type SymIface struct {
	id   int
	t    types.Type
	nilv *Term
	ext  bool // made outside: none of the values built by the verified code
}
type FuncV struct {
	fn   *ssa.Function
	bind []Value
	blt  *ssa.Builtin
}
type SymFunc struct {
	id   int
	nilv *Term
	sig  types.Type
}
type TupleV []Value

// Assoc is the content of a map or of a symbolic-length array.
type Assoc struct {
	base int // id in State.bases, 0 if there is no unknown part
	ents []AEnt
	ln   *Term // number of present keys (maps) / length (arrays)
	kt   types.Type
	et   types.Type
	arr  bool
}
type AEnt struct {
	key     Value
	present *Term
	val     Value
}
type Base struct {
	ents []AEnt
	name string
	ln   *Term // number of entries (maps)
	laws []baseLaw
}

// baseLaw holds for every entry of the unknown part: its field equals its key,
// or (distinct) no two entries have an equal field.
type baseLaw struct {
	field    int
	distinct bool
	nonnil   bool // the entry is not nil
	not      Value // the entry differs from this
	from     []piece
}

// piece: the entries from lo up to hi are those of src from off on.
type piece struct {
	src         Value
	off, lo, hi *Term
}

// ChanC is the content of a channel object.
type ChanC struct {
	known  bool
	buf    []Value
	capv   *Term
	closed *Term
	elem   types.Type
	nsent  *Term
}

// IterV is a range iterator.
type IterV struct {
	m    Value
	str  *Term
	pos  int
	seen []Value
}

type Obj struct {
	id   int
	typ  types.Type
	val  Value
	sym  bool  // lazily created symbolic input object
	init Value // initial content, for sym
	name string
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

type loopSt struct {
	count int
	nf0   int // splits of the path when the loop was entered
	cut   *cutInfo
	// final: the loop is about to end normally; the iterations of the entries
	// in todo are still to be replayed (each from an arbitrary loop state).
	final bool
	todo  []Value
	marks []markRec
	visit Value // the entry being replayed
}
type Frame struct {
	fi     *FnInfo
	fn     *ssa.Function
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	env    []Value
	bind   []Value
	defers []deferred
	loops  map[int]loopSt
	// where the result goes in the caller (nil when none)
	dst ssa.Value
	// when set, called on return instead of normal result passing
	onRet func(ex *Ex, st *State, res []Value)
	retDefer bool // callee of RunDefers: result dropped and ip not advanced
	panicking bool
}

type State struct {
	frames []*Frame
	heap   map[int]*Obj
	pc     []*Term
	pcset  map[*Term]bool
	lb     map[*Term]*bigInt // lower bounds of linear forms
	negc   map[*Term]int     // not valid when the path condition had this length
	ghost  map[string]Value
	symres map[int]PtrV
	ifres  map[int]IfaceV
	iftag  map[int]bool // interface resolved to "nil" etc
	bases  map[int]*Base
	note   []string
	steps  int
	seq    int
	mute   bool // discovery mode: no obligations
	writes map[string]writeRec
	globals map[*ssa.Global]int
	disc   *discovery
	muteP  bool
	pan    Value // current panic value
	held   []held
	nforks int     // undecided conditions that this path took a side of
	watch  []*Term // indices that loop counters are compared with (zzv.Watch)
}

type writeRec struct {
	obj  int
	path []PE
}

func (s *State) clone() *State {
	n := &State{mute: s.mute, steps: s.steps, seq: s.seq, disc: s.disc, muteP: s.muteP, pan: s.pan, held: s.held, nforks: s.nforks, watch: s.watch[:len(s.watch):len(s.watch)]}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = append([]Value(nil), f.env...)
		g.defers = append([]deferred(nil), f.defers...)
		g.loops = make(map[int]loopSt, len(f.loops))
		for k, v := range f.loops {
			g.loops[k] = v
		}
		n.frames[i] = &g
	}
	n.heap = make(map[int]*Obj, len(s.heap)+8)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.pcset = make(map[*Term]bool, len(s.pcset)+8)
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.lb = make(map[*Term]*bigInt, len(s.lb)+8)
	for k, v := range s.lb {
		n.lb[k] = v
	}
	n.negc = make(map[*Term]int, len(s.negc)+8)
	for k, v := range s.negc {
		n.negc[k] = v
	}
	n.ghost = make(map[string]Value, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.symres = make(map[int]PtrV, len(s.symres))
	for k, v := range s.symres {
		n.symres[k] = v
	}
	n.ifres = make(map[int]IfaceV, len(s.ifres))
	for k, v := range s.ifres {
		n.ifres[k] = v
	}
	n.bases = make(map[int]*Base, len(s.bases))
	for k, v := range s.bases {
		n.bases[k] = v
	}
	n.globals = make(map[*ssa.Global]int, len(s.globals))
	for k, v := range s.globals {
		n.globals[k] = v
	}
	n.note = s.note[:len(s.note):len(s.note)]
	n.writes = s.writes
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// ---------------------------------------------------------------------------

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func namedPath(t types.Type) string {
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return o.Pkg().Path() + "." + o.Name()
	}
	return ""
}

// opaque types are represented by one integer.
var opaqueTypes = map[string]bool{
	"time.Time": true, "sync.Mutex": true, "sync.RWMutex": true, "sync.Once": true,
	"sync.WaitGroup": true, "time.Location": true, "math/big.Int": true,
}

func isOpaque(t types.Type) bool { return opaqueTypes[namedPath(t)] }

// timeZero is the integer standing for the zero time.Time (year 1, in ns
// relative to the epoch).
const timeZero = -62135596800

type tkind int

const (
	kBool tkind = iota
	kInt
	kFloat
	kString
	kStruct
	kByteArr
	kArr
	kPtr
	kSlice
	kMap
	kChan
	kIface
	kFunc
	kTuple
	kOpaque
	kUnsafe
)

func kindOf(t types.Type) tkind {
	if isOpaque(t) {
		return kOpaque
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case u.Kind() == types.UnsafePointer:
			return kUnsafe
		case i&types.IsBoolean != 0:
			return kBool
		case i&types.IsInteger != 0:
			return kInt
		case i&types.IsString != 0:
			return kString
		case i&types.IsFloat != 0, i&types.IsComplex != 0:
			return kFloat
		case u.Kind() == types.UntypedNil:
			return kPtr
		}
	case *types.Struct:
		return kStruct
	case *types.Array:
		if isByte(u.Elem()) {
			return kByteArr
		}
		return kArr
	case *types.Pointer:
		return kPtr
	case *types.Slice:
		return kSlice
	case *types.Map:
		return kMap
	case *types.Chan:
		return kChan
	case *types.Interface:
		return kIface
	case *types.Signature:
		return kFunc
	case *types.Tuple:
		return kTuple
	}
	panic(fmt.Sprintf("kindOf %v %T", t, t.Underlying()))
}

func intInfo(t types.Type) (bits int, signed bool) {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func (ex *Ex) zero(t types.Type) Value {
	tc := ex.tc
	switch kindOf(t) {
	case kOpaque:
		if namedPath(t) == "time.Time" {
			return tc.Big(new(bigInt).Mul(bi(timeZero), bi(1000000000)))
		}
		return tc.Zero
	case kBool:
		return tc.False
	case kInt, kFloat, kUnsafe:
		return tc.Zero
	case kString:
		return tc.Empty
	case kStruct:
		s := t.Underlying().(*types.Struct)
		v := &StructV{}
		for i := 0; i < s.NumFields(); i++ {
			v.f = append(v.f, ex.zero(s.Field(i).Type()))
		}
		return v
	case kByteArr:
		return tc.BZero(tc.Int(t.Underlying().(*types.Array).Len()))
	case kArr:
		a := t.Underlying().(*types.Array)
		if a.Len() > 4096 {
			return &Assoc{ln: tc.Int(a.Len()), arr: true, et: a.Elem(), kt: types.Typ[types.Int]}
		}
		v := &ArrV{}
		z := ex.zero(a.Elem())
		for i := int64(0); i < a.Len(); i++ {
			v.e = append(v.e, z)
		}
		return v
	case kPtr:
		return PtrV{}
	case kSlice:
		return SliceV{off: tc.Zero, len: tc.Zero, cap: tc.Zero, nilv: tc.True}
	case kMap:
		return MapV{}
	case kChan:
		return ChanV{}
	case kIface:
		return IfaceV{}
	case kFunc:
		return FuncV{}
	case kTuple:
		tp := t.Underlying().(*types.Tuple)
		var v TupleV
		for i := 0; i < tp.Len(); i++ {
			v = append(v, ex.zero(tp.At(i).Type()))
		}
		return v
	}
	panic("zero " + t.String())
}

// freshV makes an arbitrary value of type t.
func (ex *Ex) freshV(st *State, t types.Type, name string) Value {
	tc := ex.tc
	switch kindOf(t) {
	case kOpaque:
		if namedPath(t) == "time.Time" {
			lo := new(bigInt).Mul(bi(timeZero), bi(1000000000))
			hi := new(bigInt).Mul(bi(1<<40), bi(1000000000))
			return tc.Var(tc.Fresh(name), SInt, lo, hi)
		}
		if namedPath(t) == "math/big.Int" {
			return tc.Var(tc.Fresh(name), SInt, nil, nil)
		}
		return tc.Zero // locks are free, WaitGroups empty
	case kBool:
		return tc.Var(tc.Fresh(name), SBool, nil, nil)
	case kInt:
		b, s := intInfo(t)
		lo, hi := typeRange(b, s)
		return tc.Var(tc.Fresh(name), SInt, lo, hi)
	case kFloat, kUnsafe:
		return tc.Var(tc.Fresh(name), SInt, nil, nil)
	case kString:
		ln := tc.FreshLen(name + ".len")
		return tc.BVar(tc.Fresh(name), ln)
	case kStruct:
		s := t.Underlying().(*types.Struct)
		v := &StructV{}
		for i := 0; i < s.NumFields(); i++ {
			v.f = append(v.f, ex.freshV(st, s.Field(i).Type(), name+"."+s.Field(i).Name()))
		}
		return v
	case kByteArr:
		return tc.BVar(tc.Fresh(name), tc.Int(t.Underlying().(*types.Array).Len()))
	case kArr:
		a := t.Underlying().(*types.Array)
		if a.Len() > 256 {
			return ex.newSymAssoc(st, types.Typ[types.Int], a.Elem(), true, tc.Int(a.Len()), name)
		}
		v := &ArrV{}
		for i := int64(0); i < a.Len(); i++ {
			v.e = append(v.e, ex.freshV(st, a.Elem(), fmt.Sprintf("%s[%d]", name, i)))
		}
		return v
	case kPtr:
		e := t.Underlying().(*types.Pointer).Elem()
		ex.symN++
		return SymPtr{id: ex.symN, elem: e, nilv: tc.Var(tc.Fresh(name+".nil"), SBool, nil, nil)}
	case kSlice:
		e := t.Underlying().(*types.Slice).Elem()
		ln := tc.FreshLen(name + ".len")
		var c Value
		if isByte(e) {
			c = tc.BVar(tc.Fresh(name), ln)
		} else {
			c = ex.newSymAssoc(st, types.Typ[types.Int], e, true, ln, name)
		}
		o := ex.newObj(st, types.NewArray(e, 0), c)
		o.sym = true
		o.init = c
		nv := tc.Var(tc.Fresh(name+".nil"), SBool, nil, nil)
		ex.assume(st, tc.Imp(nv, tc.Eq(ln, tc.Zero)))
		return SliceV{obj: o.id, off: tc.Zero, len: ln, cap: ln, nilv: nv}
	case kMap:
		m := t.Underlying().(*types.Map)
		c := ex.newSymAssoc(st, m.Key(), m.Elem(), false, tc.FreshLen(name+".len"), name)
		o := ex.newObj(st, t, c)
		o.sym = true
		o.init = c
		return MapV{o.id}
	case kChan:
		o := ex.newObj(st, t, &ChanC{elem: t.Underlying().(*types.Chan).Elem(), closed: tc.False, nsent: tc.Zero})
		o.name = name
		return ChanV{o.id}
	case kIface:
		ex.symN++
		return SymIface{id: ex.symN, t: t, nilv: tc.Var(tc.Fresh(name+".nil"), SBool, nil, nil)}
	case kFunc:
		ex.symN++
		return SymFunc{id: ex.symN, nilv: tc.Var(tc.Fresh(name+".nil"), SBool, nil, nil), sig: t}
	case kTuple:
		tp := t.Underlying().(*types.Tuple)
		v := TupleV{}
		for i := 0; i < tp.Len(); i++ {
			v = append(v, ex.freshV(st, tp.At(i).Type(), fmt.Sprintf("%s#%d", name, i)))
		}
		return v
	}
	panic("fresh " + t.String())
}

func (ex *Ex) newSymAssoc(st *State, kt, et types.Type, arr bool, ln *Term, name string) *Assoc {
	ex.symN++
	st.bases[ex.symN] = &Base{name: name, ln: ln}
	return &Assoc{base: ex.symN, ln: ln, kt: kt, et: et, arr: arr}
}

func (ex *Ex) newObj(st *State, t types.Type, v Value) *Obj {
	ex.objN++
	o := &Obj{id: ex.objN, typ: t, val: v}
	st.heap[o.id] = o
	return o
}

func (ex *Ex) setObj(st *State, id int, v Value) {
	o := *st.heap[id]
	o.val = v
	st.heap[id] = &o
}

func showVal(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<unset>"
	case *Term:
		return x.String()
	case *StructV:
		var s []string
		for _, f := range x.f {
			s = append(s, showVal(f))
		}
		return "{" + strings.Join(s, " ") + "}"
	case PtrV:
		if x.obj == 0 {
			return "nil"
		}
		return fmt.Sprintf("&obj%d%v", x.obj, x.path)
	case SymPtr:
		return fmt.Sprintf("symptr%d", x.id)
	case SliceV:
		return fmt.Sprintf("slice(obj%d,%v,len=%v)", x.obj, x.off, x.len)
	case IfaceV:
		if x.typ == nil {
			return "nil-iface"
		}
		return fmt.Sprintf("iface(%v,%s)", x.typ, showVal(x.val))
	case SymIface:
		return fmt.Sprintf("symiface%d", x.id)
	case TupleV:
		var s []string
		for _, f := range x {
			s = append(s, showVal(f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case FuncV:
		if x.fn == nil {
			return "nil-func"
		}
		return x.fn.String()
	case *ArrV:
		var s []string
		for _, f := range x.e {
			s = append(s, showVal(f))
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return fmt.Sprintf("%T", v)
}

type bigInt = bigIntAlias
