package absint

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// refine assumes cond == want; false if impossible.
func (e *Engine) refine(s *State, cond ssa.Value, want bool, depth int) bool {
	v := e.val(s, cond)
	if v.K == Bool {
		if want && v.B&MayTrue == 0 || !want && v.B&MayFalse == 0 {
			return false
		}
	}
	if depth > 8 {
		return true
	}
	set := trueV
	if !want {
		set = falseV
	}
	if len(v.Lab) > 0 {
		set = set.withLab(v.Lab)
	}
	e.setReg(s, cond, set)
	switch d := cond.(type) {
	case *ssa.UnOp:
		if d.Op == token.NOT {
			return e.refine(s, d.X, !want, depth+1)
		}
	case *ssa.BinOp:
		return e.refineCmp(s, d, want)
	case *ssa.Phi:
		return true
	case *ssa.Call:
		return e.refineCall(s, d, want)
	}
	return true
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return op
}

func swapOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func (e *Engine) refineCmp(s *State, d *ssa.BinOp, want bool) bool {
	op := d.Op
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return true
	}
	if !want {
		op = negOp(op)
	}
	if !e.refineSide(s, d.X, op, e.val(s, d.Y)) {
		return false
	}
	return e.refineSide(s, d.Y, swapOp(op), e.val(s, d.X))
}

func isNilConst(v *AV) bool { return v.MustNil() }

// refineSide assumes x op y where y is an abstract value.
func (e *Engine) refineSide(s *State, x ssa.Value, op token.Token, y *AV) bool {
	if _, ok := x.(*ssa.Const); ok {
		return true
	}
	xv := e.val(s, x)
	switch xv.K {
	case Bool:
		if y.K != Bool {
			return true
		}
		if op == token.EQL && y.B != 3 {
			return e.refine(s, x, y.B == MayTrue, 1)
		}
		if op == token.NEQ && y.B != 3 {
			return e.refine(s, x, y.B == MayFalse, 1)
		}
	case Int:
		if y.K != Int {
			return true
		}
		lo, hi := xv.Lo, xv.Hi
		switch op {
		case token.EQL:
			lo, hi = max(lo, y.Lo), min(hi, y.Hi)
		case token.NEQ:
			if y.Lo == y.Hi {
				if lo == y.Lo && lo != MinInt {
					lo++
				}
				if hi == y.Lo && hi != MaxInt {
					hi--
				}
			}
		case token.LSS:
			hi = min(hi, addSat(y.Hi, -1))
		case token.LEQ:
			hi = min(hi, y.Hi)
		case token.GTR:
			lo = max(lo, addSat(y.Lo, 1))
		case token.GEQ:
			lo = max(lo, y.Lo)
		}
		if lo > hi {
			return false
		}
		if lo != xv.Lo || hi != xv.Hi {
			n := *xv
			n.Lo, n.Hi = lo, hi
			e.setReg(s, x, &n)
			e.refineLen(s, x, lo, hi)
		}
	case Str:
		if y.K != Str {
			return true
		}
		if op == token.EQL && y.Consts != nil {
			var keep []string
			if xv.Consts != nil {
				for _, c := range xv.Consts {
					for _, k := range y.Consts {
						if c == k {
							keep = append(keep, c)
						}
					}
				}
			} else {
				for _, k := range y.Consts {
					if matchStr(xv, k) {
						keep = append(keep, k)
					}
				}
			}
			if len(keep) == 0 {
				return false
			}
			n := StrV(keep...)
			n.Lab = xv.Lab
			e.setReg(s, x, n)
		}
		if op == token.NEQ && len(y.Consts) == 1 {
			if xv.Consts != nil {
				var keep []string
				for _, c := range xv.Consts {
					if c != y.Consts[0] {
						keep = append(keep, c)
					}
				}
				if len(keep) == 0 {
					return false
				}
				if len(keep) != len(xv.Consts) {
					n := StrV(keep...)
					n.Lab = xv.Lab
					e.setReg(s, x, n)
				}
			} else if y.Consts[0] == "" && xv.Lo == 0 {
				n := *xv
				n.Lo = 1
				e.setReg(s, x, &n)
			}
		}
	default:
		if y.MustNil() {
			return e.refineNil(s, x, xv, op == token.EQL)
		}
		if op == token.EQL && y.K == Unk && y.Sent != "" && isRefKind(xv) {
			// err == sentinel
			if xv.Sent != "" && xv.Sent != y.Sent {
				return false
			}
			n := *xv
			n.Nil = y.NilBits()
			n.Sent = y.Sent
			e.setReg(s, x, &n)
		}
	}
	return true
}

func isRefKind(v *AV) bool {
	switch v.K {
	case Unk, Ptr, Slice, Map, Func, Iface:
		return true
	}
	return false
}

func (e *Engine) refineNil(s *State, x ssa.Value, xv *AV, isNil bool) bool {
	if !isRefKind(xv) {
		return true
	}
	bits := xv.NilBits()
	if isNil {
		if bits&MayNil == 0 {
			return false
		}
		if bits != MayNil {
			n := e.Zero(x.Type())
			if len(xv.Lab) > 0 {
				n = n.withLab(xv.Lab)
			}
			e.setReg(s, x, n)
		}
		return true
	}
	if bits&MayNonNil == 0 {
		return false
	}
	if bits != MayNonNil {
		n := *xv
		n.Nil = MayNonNil
		e.setReg(s, x, &n)
	}
	return true
}

// refineLen: x is an int register; if it is len(y), narrow y.
func (e *Engine) refineLen(s *State, x ssa.Value, lo, hi int64) {
	c, ok := x.(*ssa.Call)
	if !ok {
		return
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if ok && b.Name() == "len" {
		e.narrowLen(s, c.Call.Args[0], lo, hi)
	}
}

func (e *Engine) narrowLen(s *State, y ssa.Value, lo, hi int64) {
	yv := e.val(s, y)
	switch yv.K {
	case Slice, Map:
		n := *yv
		n.Lo, n.Hi = max(lo, yv.Lo), min(hi, yv.Hi)
		if n.Lo > 0 {
			n.Nil = MayNonNil
		}
		e.setReg(s, y, &n)
	case Str:
		if yv.Consts == nil {
			n := *yv
			n.Lo, n.Hi = max(lo, yv.Lo), min(hi, yv.Hi)
			if n.Hi == 0 {
				n = *StrV("").withLab(yv.Lab)
			}
			e.setReg(s, y, &n)
			return
		}
		var keep []string
		for _, c := range yv.Consts {
			if k := int64(len(c)); lo <= k && k <= hi {
				keep = append(keep, c)
			}
		}
		if len(keep) > 0 && len(keep) < len(yv.Consts) {
			e.setReg(s, y, StrV(keep...).withLab(yv.Lab))
		}
	case Unk:
		var k Kind
		switch under(y.Type()).(type) {
		case *types.Slice:
			k = Slice
		case *types.Map:
			k = Map
		default:
			return
		}
		n := &AV{K: k, Unk: true, Nil: yv.NilBits(), Lo: max(lo, 0), Hi: hi, Lab: yv.Lab}
		if n.Lo > 0 {
			n.Nil = MayNonNil
		}
		e.setReg(s, y, n)
	}
}

func matchStr(v *AV, k string) bool {
	if int64(len(k)) < v.Lo || int64(len(k)) > v.Hi {
		return false
	}
	if v.Suf != "" && !strings.HasSuffix(k, v.Suf) {
		return false
	}
	if v.Pre != nil {
		ok := false
		for _, p := range v.Pre {
			if strings.HasPrefix(k, p) {
				ok = true
			}
		}
		return ok
	}
	return true
}

func (e *Engine) refineCall(s *State, c *ssa.Call, want bool) bool {
	f := c.Call.StaticCallee()
	if f == nil || f.Pkg == nil {
		return true
	}
	switch f.String() {
	case "strings.HasSuffix":
		if sv, ok := e.val(s, c.Call.Args[1]).One(); ok && want {
			x := e.val(s, c.Call.Args[0])
			if x.K == Str && x.Consts == nil && len(sv) > len(x.Suf) {
				n := *x
				n.Suf = sv
				n.Lo = max(n.Lo, int64(len(sv)))
				e.setReg(s, c.Call.Args[0], &n)
			}
		}
	case "strings.HasPrefix":
		if sv, ok := e.val(s, c.Call.Args[1]).One(); ok && want {
			x := e.val(s, c.Call.Args[0])
			if x.K == Str && x.Consts == nil && x.Pre == nil {
				n := *x
				n.Pre = []string{sv}
				n.Lo = max(n.Lo, int64(len(sv)))
				e.setReg(s, c.Call.Args[0], &n)
			}
		}
	case "errors.Is":
		x := e.val(s, c.Call.Args[0])
		y := e.val(s, c.Call.Args[1])
		if want && isRefKind(x) && y.Sent != "" {
			n := *x
			n.Nil = MayNonNil
			n.Sent = y.Sent
			e.setReg(s, c.Call.Args[0], &n)
		}
	}
	return true
}
