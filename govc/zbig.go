package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// math/big.Int values are mathematical integers.
func init() {
	type h = func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value)
	op := func(f func(ex *Ex, a, b *Term) *Term) h {
		return func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
			a, b := ex.load(st, args[1]).(*Term), ex.load(st, args[2]).(*Term)
			ex.store(st, args[0], f(ex, a, b))
			ex.ret(st, dst, args[0])
		}
	}
	intrinsics["math/big.NewInt"] = func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
		o := ex.newObj(st, fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem(), args[0])
		ex.ret(st, dst, PtrV{obj: o.id})
	}
	intrinsics["(*math/big.Int).SetBytes"] = func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
		tc := ex.tc
		b := ex.bytesOf(st, args[1])
		n, ok := b.blen.Int64()
		if !ok || n > 128 {
			ex.unsupported("big.Int.SetBytes of unknown length")
		}
		r := tc.Zero
		for i := int64(0); i < n; i++ {
			r = tc.Add(tc.MulC(r, bi(256)), tc.BAt(b, tc.Int(i)))
		}
		ex.store(st, args[0], r)
		ex.ret(st, dst, args[0])
	}
	intrinsics["(*math/big.Int).SetInt64"] = func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
		ex.store(st, args[0], args[1])
		ex.ret(st, dst, args[0])
	}
	intrinsics["(*math/big.Int).Set"] = func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
		ex.store(st, args[0], ex.load(st, args[1]))
		ex.ret(st, dst, args[0])
	}
	intrinsics["(*math/big.Int).Cmp"] = func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
		tc := ex.tc
		a, b := ex.load(st, args[0]).(*Term), ex.load(st, args[1]).(*Term)
		ex.ret(st, dst, tc.Ite(tc.Lt(a, b), tc.Int(-1), tc.Ite(tc.Lt(b, a), tc.One, tc.Zero)))
	}
	intrinsics["(*math/big.Int).Sign"] = func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
		tc := ex.tc
		a := ex.load(st, args[0]).(*Term)
		ex.ret(st, dst, tc.Ite(tc.Lt(a, tc.Zero), tc.Int(-1), tc.Ite(tc.Lt(tc.Zero, a), tc.One, tc.Zero)))
	}
	intrinsics["(*math/big.Int).Add"] = op(func(ex *Ex, a, b *Term) *Term { return ex.tc.Add(a, b) })
	intrinsics["(*math/big.Int).Sub"] = op(func(ex *Ex, a, b *Term) *Term { return ex.tc.Sub(a, b) })
	intrinsics["(*math/big.Int).Mul"] = op(func(ex *Ex, a, b *Term) *Term {
		if !a.IsConst() && !b.IsConst() {
			ex.unsupported("big.Int.Mul of unknowns")
		}
		return ex.tc.Mul(a, b)
	})
	intrinsics["(*math/big.Int).Exp"] = op(func(ex *Ex, a, b *Term) *Term {
		if !a.IsConst() || !b.IsConst() {
			ex.unsupported("big.Int.Exp of unknowns")
		}
		return ex.tc.Big(new(big.Int).Exp(a.val, b.val, nil))
	})
	intrinsics["(*math/big.Int).Lsh"] = func(ex *Ex, st *State, fn *ssa.Function, args []Value, dst ssa.Value) {
		n, ok := args[2].(*Term).Int64()
		if !ok {
			ex.unsupported("big.Int.Lsh by an unknown")
		}
		ex.store(st, args[0], ex.tc.MulC(ex.load(st, args[1]).(*Term), new(big.Int).Lsh(bi(1), uint(n))))
		ex.ret(st, dst, args[0])
	}
}
