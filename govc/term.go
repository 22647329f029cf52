package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Terms: hash-consed, simplified on construction.  Three sorts: Bool, Int
// (mathematical), Bytes (finite byte sequences; Go strings, byte slices and
// byte arrays).

type Sort uint8

const (
	SBool Sort = iota
	SInt
	SBytes
)

type Op uint8

const (
	OConst  Op = iota // Int/Bool constant
	OBLit             // Bytes literal
	OVar
	OUF
	ONot
	OAnd
	OOr
	OIte
	OEq  // Int, Bool or Bytes atoms
	OGe0 // args[0] >= 0
	OLin // cst + sum coef*args
	OMul // nonlinear product (2 args)
	ODiv // args[0] div val (euclidean, const positive)
	OMod // args[0] mod val
	OBLen
	OBAt
	OBCat
	OBSlice // base, off, len
	OBUnit
	OBZero // len
)

type Term struct {
	id   int
	op   Op
	sort Sort
	args []*Term
	val  *big.Int   // const / divisor / lin constant
	cfs  []*big.Int // lin coefficients
	str  string     // literal, var or UF name
	lo   *big.Int
	hi   *big.Int
	blen *Term
	depth int
}

type TC struct {
	tab   map[string]*Term
	n     int
	fresh int
	// path sensitive prover hook, may be nil
	prove func(*Term) bool
	True, False, Zero, One, Empty *Term
}

var bigs [600]*big.Int

func init() {
	for i := range bigs {
		bigs[i] = big.NewInt(int64(i))
	}
}
func bi(n int64) *big.Int {
	if n >= 0 && n < int64(len(bigs)) {
		return bigs[n]
	}
	return big.NewInt(n)
}

var b255 = big.NewInt(255)
var maxLen = new(big.Int).Lsh(big.NewInt(1), 40)

func NewTC() *TC {
	tc := &TC{tab: map[string]*Term{}}
	tc.True = tc.mk(&Term{op: OConst, sort: SBool, val: bi(1)})
	tc.False = tc.mk(&Term{op: OConst, sort: SBool, val: bi(0)})
	tc.Zero = tc.Int(0)
	tc.One = tc.Int(1)
	tc.Empty = tc.BLit("")
	return tc
}

func (tc *TC) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('A' + t.op))
	sb.WriteByte(byte('0' + t.sort))
	sb.WriteString(t.str)
	sb.WriteByte('|')
	if t.val != nil {
		sb.WriteString(t.val.String())
	}
	for i, a := range t.args {
		sb.WriteByte(',')
		if t.cfs != nil {
			sb.WriteString(t.cfs[i].String())
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(a.id))
	}
	if t.op == OVar && t.sort == SBytes && t.blen != nil {
		sb.WriteByte('#')
		sb.WriteString(strconv.Itoa(t.blen.id))
	}
	k := sb.String()
	if r, ok := tc.tab[k]; ok {
		return r
	}
	tc.n++
	t.id = tc.n
	for _, a := range t.args {
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	tc.tab[k] = t
	return t
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) Int64() (int64, bool) {
	if t.op == OConst && t.val.IsInt64() {
		return t.val.Int64(), true
	}
	return 0, false
}

func (tc *TC) Int(n int64) *Term { return tc.Big(bi(n)) }
func (tc *TC) Big(n *big.Int) *Term {
	return tc.mk(&Term{op: OConst, sort: SInt, val: n, lo: n, hi: n})
}
func (tc *TC) Bool(b bool) *Term {
	if b {
		return tc.True
	}
	return tc.False
}
func (tc *TC) BLit(s string) *Term {
	return tc.mk(&Term{op: OBLit, sort: SBytes, str: s, blen: tc.Int(int64(len(s)))})
}
func (tc *TC) Var(name string, s Sort, lo, hi *big.Int) *Term {
	return tc.mk(&Term{op: OVar, sort: s, str: name, lo: lo, hi: hi})
}
func (tc *TC) BVar(name string, ln *Term) *Term {
	if z, ok := ln.Int64(); ok && z == 0 {
		return tc.Empty
	}
	return tc.mk(&Term{op: OVar, sort: SBytes, str: name, blen: ln})
}
func (tc *TC) Fresh(pfx string) string {
	tc.fresh++
	return fmt.Sprintf("%s!%d", pfx, tc.fresh)
}
func (tc *TC) FreshLen(pfx string) *Term {
	return tc.Var(tc.Fresh(pfx), SInt, bi(0), maxLen)
}

// UF application.
func (tc *TC) UF(name string, s Sort, lo, hi *big.Int, ln *Term, args ...*Term) *Term {
	if s == SBytes {
		if ln == nil {
			// length is itself an uninterpreted function of the arguments
			ln = tc.mk(&Term{op: OUF, sort: SInt, str: name + "#len", args: args, lo: bi(0), hi: maxLen})
		}
		if z, ok := ln.Int64(); ok && z == 0 {
			return tc.Empty
		}
	}
	return tc.mk(&Term{op: OUF, sort: s, str: name, args: args, lo: lo, hi: hi, blen: ln})
}

// ---- linear arithmetic ----

type linAcc struct {
	c  *big.Int
	m  map[*Term]*big.Int
}

func newLin() *linAcc { return &linAcc{c: new(big.Int), m: map[*Term]*big.Int{}} }
func (l *linAcc) add(t *Term, k *big.Int) {
	switch t.op {
	case OConst:
		l.c.Add(l.c, new(big.Int).Mul(t.val, k))
	case OLin:
		l.c.Add(l.c, new(big.Int).Mul(t.val, k))
		for i, a := range t.args {
			l.add1(a, new(big.Int).Mul(t.cfs[i], k))
		}
	default:
		l.add1(t, k)
	}
}
func (l *linAcc) add1(a *Term, k *big.Int) {
	if x, ok := l.m[a]; ok {
		l.m[a] = new(big.Int).Add(x, k)
	} else {
		l.m[a] = k
	}
}
func (tc *TC) fromLin(l *linAcc) *Term {
	var as []*Term
	for a, k := range l.m {
		if k.Sign() != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return tc.Big(l.c)
	}
	if len(as) == 1 && l.c.Sign() == 0 && l.m[as[0]].Cmp(bi(1)) == 0 {
		return as[0]
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	t := &Term{op: OLin, sort: SInt, val: l.c, args: as}
	lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for _, a := range as {
		k := l.m[a]
		t.cfs = append(t.cfs, k)
		al, ah := a.lo, a.hi
		if k.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(al, k))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(ah, k))
			}
		}
	}
	t.lo, t.hi = lo, hi
	// digit recombination: k*(x mod m) + k*m*(x div m) ==> k*x
	if len(as) >= 2 {
		if r := tc.recombine(t); r != nil {
			return r
		}
	}
	return tc.mk(t)
}

// recombine rewrites k*(x mod m) + k*m*(x div m) to k*x, and
// k*((x div d) mod m) + k*m*(x div d*m) to k*(x div d).
func (tc *TC) recombine(t *Term) *Term {
	for i, a := range t.args {
		if a.op != OMod {
			continue
		}
		want := new(big.Int).Mul(t.cfs[i], a.val)
		q := tc.Div(a.args[0], a.val)
		if q.op == OLin || q.op == OConst {
			continue
		}
		for j, b := range t.args {
			if b == q && t.cfs[j].Cmp(want) == 0 {
				l := newLin()
				l.c.Set(t.val)
				for x, c := range t.args {
					if x != i && x != j {
						l.add(c, t.cfs[x])
					}
				}
				l.add(a.args[0], t.cfs[i])
				return tc.fromLin(l)
			}
		}
	}
	return nil
}

func (tc *TC) Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tc.Big(new(big.Int).Add(a.val, b.val))
	}
	l := newLin()
	l.add(a, bi(1))
	l.add(b, bi(1))
	return tc.fromLin(l)
}
func (tc *TC) Sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, bi(1))
	l.add(b, bi(-1))
	return tc.fromLin(l)
}
func (tc *TC) Neg(a *Term) *Term { return tc.Sub(tc.Zero, a) }
func (tc *TC) MulC(a *Term, k *big.Int) *Term {
	l := newLin()
	l.add(a, k)
	return tc.fromLin(l)
}
func (tc *TC) Mul(a, b *Term) *Term {
	if a.IsConst() {
		return tc.MulC(b, a.val)
	}
	if b.IsConst() {
		return tc.MulC(a, b.val)
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := &Term{op: OMul, sort: SInt, args: []*Term{a, b}}
	if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		t.lo = new(big.Int).Mul(a.lo, b.lo)
		if a.hi != nil && b.hi != nil {
			t.hi = new(big.Int).Mul(a.hi, b.hi)
		}
	}
	return tc.mk(t)
}

// Div is floor division by a positive constant.
func (tc *TC) Div(a *Term, d *big.Int) *Term {
	if d.Cmp(bi(1)) == 0 {
		return a
	}
	if a.IsConst() {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.val, d, m)
		return tc.Big(q)
	}
	if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(d) < 0 {
		return tc.Zero
	}
	if a.op == ODiv {
		return tc.Div(a.args[0], new(big.Int).Mul(a.val, d))
	}
	// (x mod d*e) div d  ==> (x div d) mod e
	if a.op == OMod {
		q, m := new(big.Int).DivMod(a.val, d, new(big.Int))
		if m.Sign() == 0 {
			return tc.Mod(tc.Div(a.args[0], d), q)
		}
	}
	// split multiples
	if a.op == OLin {
		lq, lr := newLin(), newLin()
		q, m := new(big.Int).DivMod(a.val, d, new(big.Int))
		lq.c.Set(q)
		lr.c.Set(m)
		for i, x := range a.args {
			q, m := new(big.Int).DivMod(a.cfs[i], d, new(big.Int))
			if q.Sign() != 0 {
				if m.Sign() == 0 {
					lq.add(x, q)
					continue
				}
			}
			lr.add(x, a.cfs[i])
		}
		if len(lq.m) > 0 || lq.c.Sign() != 0 {
			r := tc.fromLin(lr)
			return tc.Add(tc.fromLin(lq), tc.Div(r, d))
		}
	}
	t := &Term{op: ODiv, sort: SInt, args: []*Term{a}, val: d}
	if a.lo != nil {
		t.lo = new(big.Int).Div(a.lo, d)
	}
	if a.hi != nil {
		t.hi = new(big.Int).Div(a.hi, d)
	}
	return tc.mk(t)
}

// Mod is euclidean modulus by a positive constant.
func (tc *TC) Mod(a *Term, d *big.Int) *Term {
	if a.IsConst() {
		return tc.Big(new(big.Int).Mod(a.val, d))
	}
	if d.Cmp(bi(1)) == 0 {
		return tc.Zero
	}
	if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(d) < 0 {
		return a
	}
	if a.op == OMod {
		if new(big.Int).Mod(a.val, d).Sign() == 0 {
			return tc.Mod(a.args[0], d)
		}
	}
	if a.op == OLin {
		l := newLin()
		l.c.Mod(a.val, d)
		ch := l.c.Cmp(a.val) != 0
		for i, x := range a.args {
			k := new(big.Int).Mod(a.cfs[i], d)
			if k.Sign() == 0 {
				ch = true
				continue
			}
			if x.op == OMod && new(big.Int).Mod(x.val, d).Sign() == 0 {
				// k*(y mod e*d) == k*y (mod d)
				ch = true
				l.add(x.args[0], k)
				continue
			}
			// keep small negative coefs as they are
			if a.cfs[i].CmpAbs(d) < 0 {
				k = a.cfs[i]
			} else {
				ch = true
			}
			l.add(x, k)
		}
		if ch {
			return tc.Mod(tc.fromLin(l), d)
		}
	}
	t := &Term{op: OMod, sort: SInt, args: []*Term{a}, val: d, lo: bi(0), hi: new(big.Int).Sub(d, bi(1))}
	return tc.mk(t)
}

func inRange(t *Term, lo, hi *big.Int) bool {
	return t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0
}

func typeRange(bits int, signed bool) (lo, hi *big.Int) {
	if signed {
		h := new(big.Int).Lsh(bi(1), uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, bi(1))
	}
	h := new(big.Int).Lsh(bi(1), uint(bits))
	return bi(0), h.Sub(h, bi(1))
}

// Wrap reduces a mathematical integer to the machine range.
func (tc *TC) Wrap(t *Term, bits int, signed bool) *Term {
	lo, hi := typeRange(bits, signed)
	if inRange(t, lo, hi) {
		return t
	}
	if !t.IsConst() && tc.prove != nil {
		if tc.prove(tc.And(tc.Le(tc.Big(lo), t), tc.Le(t, tc.Big(hi)))) {
			return t
		}
	}
	m := new(big.Int).Lsh(bi(1), uint(bits))
	if !signed {
		return tc.Mod(t, m)
	}
	h := new(big.Int).Lsh(bi(1), uint(bits-1))
	return tc.Sub(tc.Mod(tc.Add(t, tc.Big(h)), m), tc.Big(h))
}

func (tc *TC) Ge0(t *Term) *Term {
	if t.lo != nil && t.lo.Sign() >= 0 {
		return tc.True
	}
	if t.hi != nil && t.hi.Sign() < 0 {
		return tc.False
	}
	if t.op == OLin {
		// normalise by gcd
		g := new(big.Int)
		for _, k := range t.cfs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(bi(1)) > 0 {
			l := newLin()
			l.c.Div(t.val, g) // floor is right for >= 0
			for i, a := range t.args {
				l.add(a, new(big.Int).Div(t.cfs[i], g))
			}
			return tc.Ge0(tc.fromLin(l))
		}
	}
	return tc.mk(&Term{op: OGe0, sort: SBool, args: []*Term{t}})
}
func (tc *TC) Le(a, b *Term) *Term { return tc.Ge0(tc.Sub(b, a)) }
func (tc *TC) Lt(a, b *Term) *Term { return tc.Ge0(tc.Sub(tc.Sub(b, a), tc.One)) }

// ---- booleans ----

func (tc *TC) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return tc.Bool(a.val.Sign() == 0)
	case ONot:
		return a.args[0]
	case OGe0: // not t>=0  ==  -t-1 >= 0
		return tc.Ge0(tc.Sub(tc.Neg(a.args[0]), tc.One))
	}
	return tc.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}
func (tc *TC) And(xs ...*Term) *Term { return tc.nary(OAnd, xs) }
func (tc *TC) Or(xs ...*Term) *Term  { return tc.nary(OOr, xs) }
func (tc *TC) nary(op Op, xs []*Term) *Term {
	zero, unit := tc.False, tc.True
	if op == OOr {
		zero, unit = tc.True, tc.False
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x] {
			return true
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[tc.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return tc.mk(&Term{op: op, sort: SBool, args: out})
}
func (tc *TC) Imp(a, b *Term) *Term { return tc.Or(tc.Not(a), b) }

func (tc *TC) Ite(c, a, b *Term) *Term {
	if c == tc.True || a == b {
		return a
	}
	if c == tc.False {
		return b
	}
	if a.sort == SBool {
		return tc.And(tc.Imp(c, a), tc.Or(c, b))
	}
	t := &Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}}
	if a.sort == SInt {
		if a.lo != nil && b.lo != nil {
			t.lo = a.lo
			if b.lo.Cmp(a.lo) < 0 {
				t.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			t.hi = a.hi
			if b.hi.Cmp(a.hi) > 0 {
				t.hi = b.hi
			}
		}
	}
	if a.sort == SBytes {
		t.blen = tc.Ite(c, a.blen, b.blen)
	}
	return tc.mk(t)
}

func (tc *TC) Eq(a, b *Term) *Term {
	if a == b {
		return tc.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s / %s", a, b))
	}
	switch a.sort {
	case SBool:
		if a.IsConst() {
			if a == tc.True {
				return b
			}
			return tc.Not(b)
		}
		if b.IsConst() {
			return tc.Eq(b, a)
		}
		return tc.And(tc.Imp(a, b), tc.Imp(b, a))
	case SInt:
		d := tc.Sub(a, b)
		if d.IsConst() {
			return tc.Bool(d.val.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return tc.False
		}
		if d.op == OUF && d.str == "bor" {
			return tc.And(tc.Eq(d.args[0], tc.Zero), tc.Eq(d.args[1], tc.Zero))
		}
		// ite against constants
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[0].op == OIte && p[1].IsConst() && (p[0].args[1].IsConst() || p[0].args[2].IsConst()) {
				x := p[0]
				return tc.Ite(x.args[0], tc.Eq(x.args[1], p[1]), tc.Eq(x.args[2], p[1]))
			}
		}
		if d.op == OLin && d.cfs[0].Sign() < 0 {
			d = tc.Neg(d)
		}
		return tc.mk(&Term{op: OEq, sort: SBool, args: []*Term{d, tc.Zero}})
	}
	return tc.beq(a, b)
}

// ---- bytes ----

func (tc *TC) isTrue(c *Term) bool {
	if c == tc.True {
		return true
	}
	if c == tc.False {
		return false
	}
	return tc.prove != nil && tc.prove(c)
}

func (tc *TC) BLen(b *Term) *Term {
	if b.blen == nil {
		panic("no blen " + b.String())
	}
	return b.blen
}

func (tc *TC) BUnit(x *Term) *Term {
	if n, ok := x.Int64(); ok {
		return tc.BLit(string([]byte{byte(n)}))
	}
	if x.op == OBAt {
		return tc.BSlice(x.args[0], x.args[1], tc.One)
	}
	return tc.mk(&Term{op: OBUnit, sort: SBytes, args: []*Term{x}, blen: tc.One})
}

func (tc *TC) BZero(n *Term) *Term {
	if k, ok := n.Int64(); ok && k <= 65536 {
		if k < 0 {
			k = 0
		}
		return tc.BLit(strings.Repeat("\x00", int(k)))
	}
	return tc.mk(&Term{op: OBZero, sort: SBytes, args: []*Term{n}, blen: n})
}

func (tc *TC) segs(b *Term) []*Term {
	if b.op == OBCat {
		return b.args
	}
	if b == tc.Empty {
		return nil
	}
	return []*Term{b}
}

func (tc *TC) BCat(xs ...*Term) *Term {
	var out []*Term
	push := func(s *Term) {
		if s == tc.Empty {
			return
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			if l.op == OBLit && s.op == OBLit {
				out[len(out)-1] = tc.BLit(l.str + s.str)
				return
			}
			if l.op == OBZero && s.op == OBZero {
				out[len(out)-1] = tc.BZero(tc.Add(l.args[0], s.args[0]))
				return
			}
			if l.op == OBSlice && s.op == OBSlice && l.args[0] == s.args[0] {
				if tc.Add(l.args[1], l.args[2]) == s.args[1] {
					out[len(out)-1] = tc.BSlice(l.args[0], l.args[1], tc.Add(l.args[2], s.args[2]))
					return
				}
			}
		}
		out = append(out, s)
	}
	for _, x := range xs {
		for _, s := range tc.segs(x) {
			push(s)
		}
	}
	if len(out) == 0 {
		return tc.Empty
	}
	if len(out) == 1 {
		return out[0]
	}
	ln := tc.Zero
	for _, s := range out {
		ln = tc.Add(ln, s.blen)
	}
	return tc.mk(&Term{op: OBCat, sort: SBytes, args: out, blen: ln})
}

// BSlice(b, off, n): bytes b[off:off+n]; callers guarantee bounds.
func (tc *TC) BSlice(b, off, n *Term) *Term {
	if n == tc.Zero {
		return tc.Empty
	}
	if off == tc.Zero && n == b.blen {
		return b
	}
	switch b.op {
	case OBLit:
		o, ok1 := off.Int64()
		k, ok2 := n.Int64()
		if ok1 && ok2 {
			if o < 0 || k < 0 || o+k > int64(len(b.str)) {
				break
			}
			return tc.BLit(b.str[o : o+k])
		}
	case OBZero:
		return tc.BZero(n)
	case OBSlice:
		return tc.BSlice(b.args[0], tc.Add(b.args[1], off), n)
	case OBUnit:
		if n == tc.One {
			return b
		}
	case OBCat:
		// locate first segment
		rem := off
		for i, s := range b.args {
			if tc.isTrue(tc.Le(s.blen, rem)) {
				rem = tc.Sub(rem, s.blen)
				continue
			}
			if !tc.isTrue(tc.Le(tc.Zero, rem)) || !tc.isTrue(tc.Lt(rem, s.blen)) && !(rem == tc.Zero) {
				break
			}
			// gather
			need := n
			var out []*Term
			for j := i; j < len(b.args); j++ {
				s := b.args[j]
				av := tc.Sub(s.blen, rem)
				if tc.isTrue(tc.Le(need, av)) {
					out = append(out, tc.BSlice(s, rem, need))
					return tc.BCat(out...)
				}
				if !tc.isTrue(tc.Le(av, need)) {
					out = nil
					break
				}
				out = append(out, tc.BSlice(s, rem, av))
				need = tc.Sub(need, av)
				rem = tc.Zero
				if need == tc.Zero {
					return tc.BCat(out...)
				}
			}
			break
		}
	}
	if tc.prove != nil && !n.IsConst() {
		if tc.prove(tc.Le(n, tc.Zero)) {
			return tc.Empty
		}
		if off == tc.Zero && tc.prove(tc.Eq(n, b.blen)) {
			return b
		}
	}
	return tc.mk(&Term{op: OBSlice, sort: SBytes, args: []*Term{b, off, n}, blen: n})
}

func (tc *TC) BAt(b, i *Term) *Term {
	switch b.op {
	case OBLit:
		if k, ok := i.Int64(); ok && k >= 0 && k < int64(len(b.str)) {
			return tc.Int(int64(b.str[k]))
		}
	case OBZero:
		return tc.Zero
	case OBUnit:
		return b.args[0]
	case OBSlice:
		return tc.BAt(b.args[0], tc.Add(b.args[1], i))
	case OBCat:
		rem := i
		for _, s := range b.args {
			if tc.isTrue(tc.Lt(rem, s.blen)) {
				if tc.isTrue(tc.Le(tc.Zero, rem)) {
					return tc.BAt(s, rem)
				}
				break
			}
			if !tc.isTrue(tc.Le(s.blen, rem)) {
				break
			}
			rem = tc.Sub(rem, s.blen)
		}
	}
	return tc.mk(&Term{op: OBAt, sort: SInt, args: []*Term{b, i}, lo: bi(0), hi: b255})
}

// BReplace overwrites b[off:off+len(x)] with x.
func (tc *TC) BReplace(b, off, x *Term) *Term {
	end := tc.Add(off, x.blen)
	return tc.BCat(tc.BSlice(b, tc.Zero, off), x, tc.BSlice(b, end, tc.Sub(b.blen, end)))
}

func (tc *TC) beq(a, b *Term) *Term {
	if a.op == OBLit && b.op == OBLit {
		return tc.Bool(a.str == b.str)
	}
	ld := tc.Eq(a.blen, b.blen)
	if ld == tc.False {
		return tc.False
	}
	if a == tc.Empty {
		return tc.Eq(b.blen, tc.Zero)
	}
	if b == tc.Empty {
		return tc.Eq(a.blen, tc.Zero)
	}
	if a.op == OIte && (b.op == OBLit || b.op == OIte) {
		return tc.Ite(a.args[0], tc.Eq(a.args[1], b), tc.Eq(a.args[2], b))
	}
	if b.op == OIte && a.op == OBLit {
		return tc.beq(b, a)
	}
	sa, sb := tc.segs(a), tc.segs(b)
	if len(sa) > 1 || len(sb) > 1 {
		var conj []*Term
		ia, ib := 0, 0
		var ra, rb *Term // current remainder of sa[ia], sb[ib]
		ra, rb = sa[0], sb[0]
		adv := func(which int) {
			if which == 0 {
				ia++
				if ia < len(sa) {
					ra = sa[ia]
				} else {
					ra = nil
				}
			} else {
				ib++
				if ib < len(sb) {
					rb = sb[ib]
				} else {
					rb = nil
				}
			}
		}
		progress := false
		for ra != nil && rb != nil {
			if ra.blen == rb.blen || tc.Eq(ra.blen, rb.blen) == tc.True {
				conj = append(conj, tc.beqAtom(ra, rb))
				adv(0)
				adv(1)
				progress = true
				continue
			}
			d := tc.Sub(ra.blen, rb.blen)
			if d.lo != nil && d.lo.Sign() > 0 { // ra longer
				conj = append(conj, tc.beqAtom(tc.BSlice(ra, tc.Zero, rb.blen), rb))
				ra = tc.BSlice(ra, rb.blen, tc.Sub(ra.blen, rb.blen))
				adv(1)
				progress = true
				continue
			}
			if d.hi != nil && d.hi.Sign() < 0 {
				conj = append(conj, tc.beqAtom(ra, tc.BSlice(rb, tc.Zero, ra.blen)))
				rb = tc.BSlice(rb, ra.blen, tc.Sub(rb.blen, ra.blen))
				adv(0)
				progress = true
				continue
			}
			if tc.prove != nil && !ra.blen.IsConst() && !rb.blen.IsConst() && tc.prove(tc.Eq(ra.blen, rb.blen)) {
				conj = append(conj, tc.beqAtom(ra, rb))
				adv(0)
				adv(1)
				progress = true
				continue
			}
			break
		}
		if ra == nil && rb == nil {
			return tc.And(append(conj, ld)...)
		}
		if progress {
			var ta, tb []*Term
			if ra != nil {
				ta = append(append(ta, ra), sa[min(ia+1, len(sa)):]...)
			}
			if rb != nil {
				tb = append(append(tb, rb), sb[min(ib+1, len(sb)):]...)
			}
			x, y := tc.BCat(ta...), tc.BCat(tb...)
			return tc.And(append(conj, ld, tc.beqTail(x, y))...)
		}
		return tc.And(ld, tc.beqTail(a, b))
	}
	return tc.And(ld, tc.beqAtom(a, b))
}

// beqTail tries to match equal suffixes, then gives up with an atom.
func (tc *TC) beqTail(a, b *Term) *Term {
	sa, sb := tc.segs(a), tc.segs(b)
	var conj []*Term
	for len(sa) > 0 && len(sb) > 0 {
		x, y := sa[len(sa)-1], sb[len(sb)-1]
		if tc.Eq(x.blen, y.blen) != tc.True {
			break
		}
		conj = append(conj, tc.beqAtom(x, y))
		sa, sb = sa[:len(sa)-1], sb[:len(sb)-1]
	}
	x, y := tc.BCat(sa...), tc.BCat(sb...)
	if x == y {
		return tc.And(conj...)
	}
	if x == tc.Empty || y == tc.Empty {
		conj = append(conj, tc.Eq(x.blen, y.blen))
		return tc.And(conj...)
	}
	return tc.And(append(conj, tc.beqAtom(x, y))...)
}

func (tc *TC) beqAtom(a, b *Term) *Term {
	if a == b {
		return tc.True
	}
	if a.op == OBLit && b.op == OBLit {
		return tc.Bool(a.str == b.str)
	}
	if a.op == OBCat || b.op == OBCat {
		if a.blen.IsConst() && b.blen.IsConst() {
			return tc.mkEq(a, b)
		}
	}
	if a.op == OBUnit || b.op == OBUnit {
		if a.blen == tc.One && b.blen == tc.One {
			return tc.Eq(tc.BAt(a, tc.Zero), tc.BAt(b, tc.Zero))
		}
	}
	// injective constructors
	if a.op == OUF && b.op == OUF && strings.HasPrefix(a.str, "ctor:") && strings.HasPrefix(b.str, "ctor:") {
		if a.str != b.str && (looseCtor(a.str) || looseCtor(b.str)) {
			return tc.mkEq(a, b)
		}
		if a.str != b.str || len(a.args) != len(b.args) {
			return tc.False
		}
		var cj []*Term
		for i := range a.args {
			if a.args[i].sort != b.args[i].sort {
				return tc.False
			}
			cj = append(cj, tc.Eq(a.args[i], b.args[i]))
		}
		return tc.And(cj...)
	}
	return tc.mkEq(a, b)
}

func (tc *TC) mkEq(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

// ---- bit operations ----

func (tc *TC) BitAnd(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tc.Big(new(big.Int).And(a.val, b.val))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.IsConst() && b.val.Sign() >= 0 {
		res := tc.Zero
		n := b.val.BitLen()
		for i := 0; i < n; {
			if b.val.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < n && b.val.Bit(j) == 1 {
				j++
			}
			p := new(big.Int).Lsh(bi(1), uint(i))
			w := new(big.Int).Lsh(bi(1), uint(j-i))
			res = tc.Add(res, tc.MulC(tc.Mod(tc.Div(a, p), w), p))
			i = j
		}
		return res
	}
	if a.id > b.id {
		a, b = b, a
	}
	var hi *big.Int
	lo := bi(0)
	if a.lo == nil || b.lo == nil || a.lo.Sign() < 0 || b.lo.Sign() < 0 {
		lo = nil
	} else if a.hi != nil {
		hi = a.hi
		if b.hi != nil && b.hi.Cmp(hi) < 0 {
			hi = b.hi
		}
	}
	return tc.UF("band", SInt, lo, hi, nil, a, b)
}

// trailing zero bits known of t.
func tz(t *Term) int {
	z := func(n *big.Int) int {
		if n.Sign() == 0 {
			return 1000
		}
		return int(n.TrailingZeroBits())
	}
	switch t.op {
	case OConst:
		return z(t.val)
	case OLin:
		m := z(t.val)
		for i, a := range t.args {
			if k := z(t.cfs[i]) + tz(a); k < m {
				m = k
			}
		}
		return m
	}
	return 0
}

func (tc *TC) BitOr(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tc.Big(new(big.Int).Or(a.val, b.val))
	}
	if a == b || b == tc.Zero {
		return a
	}
	if a == tc.Zero {
		return b
	}
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		if x.lo != nil && x.lo.Sign() >= 0 && x.hi != nil && y.lo != nil && y.lo.Sign() >= 0 && tz(y) >= x.hi.BitLen() {
			return tc.Add(x, y)
		}
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() && b.val.Sign() >= 0 && a.lo != nil && a.lo.Sign() >= 0 {
		return tc.Sub(tc.Add(a, b), tc.BitAnd(a, b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	var hi *big.Int
	lo := bi(0)
	if a.lo == nil || b.lo == nil || a.lo.Sign() < 0 || b.lo.Sign() < 0 {
		lo = nil
	} else if a.hi != nil && b.hi != nil {
		n := max(a.hi.BitLen(), b.hi.BitLen())
		hi = new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(n)), bi(1))
	}
	return tc.UF("bor", SInt, lo, hi, nil, a, b)
}

func (tc *TC) BitXor(a, b *Term) *Term {
	if a == b {
		return tc.Zero
	}
	if a.IsConst() && b.IsConst() {
		return tc.Big(new(big.Int).Xor(a.val, b.val))
	}
	if a == tc.Zero {
		return b
	}
	if b == tc.Zero {
		return a
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() && b.val.Sign() >= 0 && a.lo != nil && a.lo.Sign() >= 0 {
		return tc.Sub(tc.Add(a, b), tc.MulC(tc.BitAnd(a, b), bi(2)))
	}
	if a.id > b.id {
		a, b = b, a
	}
	var hi *big.Int
	lo := bi(0)
	if a.lo == nil || b.lo == nil || a.lo.Sign() < 0 || b.lo.Sign() < 0 {
		lo = nil
	} else if a.hi != nil && b.hi != nil {
		n := max(a.hi.BitLen(), b.hi.BitLen())
		hi = new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(n)), bi(1))
	}
	return tc.UF("bxor", SInt, lo, hi, nil, a, b)
}

// ---- printing ----

func (t *Term) String() string { return t.show(4) }
func (t *Term) show(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d < 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	as := func(sep string) string {
		var s []string
		for _, a := range t.args {
			s = append(s, a.show(d-1))
		}
		return strings.Join(s, sep)
	}
	switch t.op {
	case OConst:
		if t.sort == SBool {
			return strconv.FormatBool(t.val.Sign() != 0)
		}
		return t.val.String()
	case OBLit:
		if len(t.str) > 40 {
			return fmt.Sprintf("%q...(%d)", t.str[:16], len(t.str))
		}
		return strconv.Quote(t.str)
	case OVar:
		return t.str
	case OUF:
		return t.str + "(" + as(", ") + ")"
	case ONot:
		return "!" + as("")
	case OAnd:
		return "(" + as(" && ") + ")"
	case OOr:
		return "(" + as(" || ") + ")"
	case OIte:
		return "ite(" + as(", ") + ")"
	case OEq:
		return "(" + as(" == ") + ")"
	case OGe0:
		return "(" + as("") + " >= 0)"
	case OLin:
		s := t.val.String()
		if t.val.Sign() == 0 {
			s = ""
		}
		for i, a := range t.args {
			c := t.cfs[i].String()
			if c == "1" {
				c = ""
			} else if c == "-1" {
				c = "-"
			} else {
				c += "*"
			}
			if s != "" && t.cfs[i].Sign() > 0 {
				s += "+"
			}
			s += c + a.show(d-1)
		}
		return s
	case OMul:
		return as("*")
	case ODiv:
		return "(" + as("") + " div " + t.val.String() + ")"
	case OMod:
		return "(" + as("") + " mod " + t.val.String() + ")"
	case OBLen:
		return "len(" + as("") + ")"
	case OBAt:
		return t.args[0].show(d-1) + "[" + t.args[1].show(d-1) + "]"
	case OBCat:
		return "cat(" + as(", ") + ")"
	case OBSlice:
		return t.args[0].show(d-1) + "[" + t.args[1].show(d-1) + "+:" + t.args[2].show(d-1) + "]"
	case OBUnit:
		return "<" + as("") + ">"
	case OBZero:
		return "zero(" + as("") + ")"
	}
	return "?"
}
