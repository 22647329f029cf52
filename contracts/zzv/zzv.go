// Package zzv is the ghost vocabulary of the contracts.  It is laid over the
// repository by the verifier (go/packages overlay) and never compiled into
// the product.  Every function here is interpreted by the verifier.
package zzv

// Assume is a precondition (requires) clause.
func Assume(c bool) {}

// Assert is a postcondition / assertion clause; label names the obligation.
func Assert(label string, c bool) {}

// Reach is a cover point: the run fails when it is unreachable (vacuity).
func Reach(label string) {}

// Havoc makes *p arbitrary.
func Havoc(p interface{}) {}

// Choose is an arbitrary boolean (both are explored).
func Choose() bool { return false }

// ChooseInt is an arbitrary integer in [lo,hi], enumerated.
func ChooseInt(lo, hi int) int { return lo }

// Snap freezes x (old(x)).
func Snap(x interface{}) interface{} { return x }

// Same is deep equality; either side may be a Snap.
func Same(a, b interface{}) bool { return false }

// Ident is identity of two references (same backing storage).
func Ident(a, b interface{}) bool { return false }

// UF*: uninterpreted functions.  n < 0: unconstrained length.
func UFBytes(name string, n int, args ...interface{}) []byte { return nil }
func UFString(name string, args ...interface{}) string       { return "" }
func UFBool(name string, args ...interface{}) bool           { return false }
func UFInt(name string, args ...interface{}) int             { return 0 }

// Ctor: injective uninterpreted constructor.
func Ctor(name string, n int, args ...interface{}) []byte       { return nil }
func CtorString(name string, n int, args ...interface{}) string { return "" }

// Uncons returns argument k of b when b was built by Ctor(name).
func Uncons(name string, b interface{}, k int) ([]byte, bool) { return nil, false }

// Open is idealised authenticated decryption.
func Open(box, nonce, key []byte) ([]byte, bool) { return nil, false }

// DH is commutative scalar multiplication on curve points.
func DH(priv, point []byte) []byte { return nil }

// Enc/Dec: injective serialisation of a whole value.
func Enc(codec string, x interface{}) []byte                       { return nil }
func Dec(codec string, b []byte, p interface{}) (n int, known bool) { return 0, false }

// GSet/GGet: ghost fields attached to an object.
func GSet(obj interface{}, key string, val interface{}) {}
func GGet(obj interface{}, key string) interface{}      { return nil }

func Log(args ...interface{})     {}
func NewErr() error               { return nil }
func NonNil(ps ...interface{})    {}
func LockState(p interface{}) int { return 0 }

// Watch: for every loop counter, whether it stays below or at i is tried as a
// loop invariant.
func Watch(i int) {}
func And(cs ...bool) bool         { return false }
func Or(cs ...bool) bool          { return false }
func Imp(a, b bool) bool          { return false }
func EqB(a, b interface{}) bool   { return false }
func IsFresh(p interface{}) bool  { return false }
func PathIn(p, dir string) bool   { return false }

// FreshBytes / FreshInt: arbitrary values.
func FreshBytes(name string, n int) []byte  { return nil }
func FreshInt(name string, lo, hi int) int  { return 0 }
func FreshString(name string) string        { return "" }

// The pieces a text was put together from: constants and opaque values.
func NSegs(x interface{}) int            { return 0 }
func Seg(x interface{}, i int) string    { return "" }
func IsLit(x interface{}) bool           { return false }

// Representation invariants of a map (for all keys), assumed on entry: every
// entry's field equals its key; no two entries have an equal field.
func KeyedBy(m interface{}, field string)    {}
func DistinctBy(m interface{}, field string) {}

// NoNils: no entry of a map or slice is nil.
func NoNils(x interface{}) {}

// Simple: s is one component of a path (no slash, not "", "." or "..").
func Simple(s string) bool { return false }

// NoneEq: no element of the slice s (as it was received) equals x.
func NoneEq(s, x interface{}) {}
