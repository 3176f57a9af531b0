package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// litCounter: the counter of a loop over a short list of literals. Such loops are unrolled: states are
// kept apart by the value of the counter.
func (x *Exec) litCounter(v ssa.Value) bool {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		v = b.X
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	if r, ok := x.litMemo[ph]; ok {
		return r
	}
	if x.litMemo == nil {
		x.litMemo = map[*ssa.Phi]bool{}
	}
	x.litMemo[ph] = false
	if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	short := func(y ssa.Value) bool {
		switch k := y.(type) {
		case *ssa.Const:
			if k.Value == nil || k.Value.Kind() != constant.Int {
				return false
			}
			n, ok := constant.Int64Val(k.Value)
			return ok && n <= 6
		case *ssa.Call:
			if b, ok := k.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && len(k.Call.Args) == 1 {
				if s, ok := k.Call.Args[0].(*ssa.Slice); ok && s.Low == nil && s.High == nil {
					if a, ok := s.X.(*ssa.Alloc); ok && a.Comment == "slicelit" {
						if at, ok := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
							return at.Len() <= 6
						}
					}
				}
			}
		}
		return false
	}
	cmp := func(w ssa.Value) bool {
		if w.Referrers() == nil {
			return false
		}
		for _, r := range *w.Referrers() {
			if b, ok := r.(*ssa.BinOp); ok && b.Op == token.LSS && b.X == w {
				if _, isLen := b.Y.(*ssa.Call); isLen && short(b.Y) {
					return true
				}
			}
		}
		return false
	}
	found := cmp(ph)
	if ph.Referrers() != nil {
		for _, r := range *ph.Referrers() {
			if b, ok := r.(*ssa.BinOp); ok && b.Op == token.ADD && cmp(b) {
				found = true
			}
		}
	}
	x.litMemo[ph] = found
	return found
}
