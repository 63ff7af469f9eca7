package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// alloc (re)creates an object at its allocation site.
func (e *Engine) alloc(s *State, id ObjID, v *AV, self ssa.Value) {
	old := s.Heap[id]
	if old != nil && e.reachable(s, id, self) {
		s.setObj(id, &Obj{V: Join(old.V, v), At: old.At, Weak: true, Foc: old.Foc})
		return
	}
	s.setObj(id, &Obj{V: v})
}

// Referenced reports whether anything in the state refers to object id.
func (e *Engine) Referenced(s *State, id ObjID) bool { return e.referenced(s, id, nil) }

func (e *Engine) referenced(s *State, id ObjID, self ssa.Value) bool {
	found := false
	chk := func(o ObjID) {
		if o == id {
			found = true
		}
	}
	for r, v := range s.Env {
		if r == self {
			continue
		}
		refsIn(v, chk)
		if found {
			return true
		}
	}
	for _, d := range s.Def {
		refsIn(d.Fn, chk)
		for _, a := range d.Args {
			refsIn(a, chk)
		}
	}
	for k, o := range s.Heap {
		if k == id {
			continue
		}
		s.objRefs(o, chk)
		if found {
			return true
		}
	}
	return found
}

// reachable is referenced, not counting objects of the same activation that
// are themselves out of reach.
func (e *Engine) reachable(s *State, id ObjID, self ssa.Value) bool {
	if !e.referenced(s, id, self) {
		return false
	}
	ctx := e.objs[id].Ctx
	seen := map[ObjID]bool{id: true}
	for work := []ObjID{id}; len(work) > 0; {
		x := work[0]
		work = work[1:]
		found := false
		chk := func(o ObjID) { found = found || o == x }
		for r, v := range s.Env {
			if r != self {
				refsIn(v, chk)
			}
		}
		for _, d := range s.Def {
			refsIn(d.Fn, chk)
			for _, a := range d.Args {
				refsIn(a, chk)
			}
		}
		if found {
			return true
		}
		for k, o := range s.Heap {
			if seen[k] {
				continue
			}
			found = false
			s.objRefs(o, chk)
			if !found {
				continue
			}
			if in, ok := e.objs[k].Site.(ssa.Instruction); !ok || e.objs[k].Ctx != ctx || in.Parent() != selfParent(self) {
				return true
			}
			seen[k] = true
			work = append(work, k)
		}
	}
	return false
}

func selfParent(v ssa.Value) *ssa.Function {
	if v == nil {
		return nil
	}
	return v.Parent()
}

// iterKey tells objects made in different iterations of unrolled loops apart.
func (e *Engine) iterKey(s *State) string {
	if !e.PerIter || len(s.iter) == 0 {
		return ""
	}
	var b strings.Builder
	for _, x := range s.iter {
		fmt.Fprintf(&b, "#%d.%d", x.head, x.n)
	}
	return b.String()
}

func elemType(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

// ptrTo makes sure the pointer held in register x has a target, creating a
// symbolic object for pointers of unknown origin.
func (e *Engine) ptrTo(s *State, x ssa.Value, ctx *Ctx) *AV {
	p := e.val(s, x)
	if p.K == Ptr && len(p.Refs) > 0 {
		if p.Nil != MayNonNil {
			n := *p
			n.Nil = MayNonNil
			e.setReg(s, x, &n)
			return &n
		}
		return p
	}
	if p.K == Ptr && p.MustNil() {
		return p
	}
	et := elemType(x.Type())
	if et == nil {
		return p
	}
	if _, ok := under(et).(*types.Struct); !ok {
		return p
	}
	id := e.Obj(x, ctx, "sym", et, x.Pos())
	v := e.Unknown(et)
	if len(p.Lab) > 0 {
		v = v.withLab(p.Lab.Filter(isCohort))
	}
	e.alloc(s, id, v, x)
	n := &AV{K: Ptr, Nil: MayNonNil, Refs: []Ref{{O: id}}, Lab: p.Lab}
	e.setReg(s, x, n)
	return n
}

func (e *Engine) step(in ssa.Instruction, fn *ssa.Function, ctx *Ctx, s *State) []*State {
	one := func() []*State { return []*State{s} }
	e.instrCov[in] = true
	e.Mon.Instr(e, in, fn, ctx, s)
	switch in := in.(type) {
	case *ssa.DebugRef:
		return one()
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		id := e.Obj(in, ctx, e.iterKey(s), et, in.Pos())
		e.alloc(s, id, e.Zero(et), in)
		s.bind(in, PtrV(Ref{O: id}))
		return one()
	case *ssa.UnOp:
		return e.unop(in, ctx, s)
	case *ssa.BinOp:
		s.bind(in, e.binop(in.Op, e.val(s, in.X), e.val(s, in.Y), in.X.Type()))
		return one()
	case *ssa.Store:
		p := e.ptrTo(s, in.Addr, ctx)
		if p.MustNil() {
			return nil
		}
		e.store(s, p, e.val(s, in.Val))
		return one()
	case *ssa.FieldAddr:
		p := e.ptrTo(s, in.X, ctx)
		if p.MustNil() {
			return nil // nil dereference: path ends
		}
		r := &AV{K: Ptr, Nil: MayNonNil, Unk: p.Unk, Lab: p.Lab}
		for _, x := range p.Refs {
			r.Refs = append(r.Refs, Ref{x.O, pathStep(x.P, in.Field)})
		}
		if len(r.Refs) == 0 {
			r.Unk = true
			r.Lab = r.Lab.Union(e.fieldLab(elemType(in.X.Type()), in.Field))
		}
		s.bind(in, r)
		return one()
	case *ssa.Field:
		x := e.val(s, in.X)
		if x.K == Struct {
			s.bind(in, x.Elems[in.Field].withLab(x.Lab))
		} else {
			s.bind(in, e.unknownField(in.X.Type(), in.Field).withLab(x.Lab))
		}
		return one()
	case *ssa.IndexAddr:
		return e.indexAddr(in, ctx, s)
	case *ssa.Index:
		x := e.val(s, in.X)
		if x.K == Arr {
			i := e.val(s, in.Index)
			r := rune(anyElem)
			if n, ok := i.IntConst(); ok && n >= 0 && n < int64(len(x.Elems)) {
				r = rune(n + 1)
			}
			s.bind(in, e.elemOf(x, elemType(in.X.Type()), r))
		} else if b, ok := byteAt(x, e.val(s, in.Index)); ok {
			s.bind(in, b)
		} else {
			s.bind(in, e.Unknown(in.Type()).withLab(x.Lab))
		}
		return one()
	case *ssa.Lookup:
		return e.lookup(in, s)
	case *ssa.MapUpdate:
		m := e.val(s, in.Map)
		k, v := e.val(s, in.Key), e.val(s, in.Value)
		for _, r := range m.Refs {
			o := s.Heap[r.O]
			if o == nil {
				continue
			}
			nv := &AV{K: Arr, Sum: addVariant(o.V.Sum, v), Keys: k}
			if o.V.Keys != nil {
				nv.Keys = Join(o.V.Keys, k)
			}
			if len(m.Refs) == 1 && !m.Unk && !o.Weak {
				nv.Consts, nv.Elems = e.putEntry(s, o.V, k, v)
			}
			s.setObj(r.O, &Obj{V: nv, At: o.At, Weak: o.Weak})
		}
		if len(m.Refs) > 0 {
			n := *m
			n.Lo, n.Hi = max(m.Lo, 1), MaxInt
			e.setReg(s, in.Map, &n)
		}
		return one()
	case *ssa.MakeMap:
		id := e.Obj(in, ctx, e.iterKey(s), in.Type(), in.Pos())
		e.alloc(s, id, &AV{K: Arr, Consts: []string{}}, in)
		s.bind(in, &AV{K: Map, Nil: MayNonNil, Refs: []Ref{{O: id}}})
		return one()
	case *ssa.MakeSlice:
		et := elemType(in.Type())
		id := e.Obj(in, ctx, e.iterKey(s), types.NewSlice(et), in.Pos())
		n := e.val(s, in.Len)
		arr := &AV{K: Arr}
		lo, hi := int64(0), int64(MaxInt)
		if n.K == Int {
			lo, hi = max(n.Lo, 0), n.Hi
		}
		if lo == hi && hi > 0 && hi <= e.few() {
			for i := int64(0); i < hi; i++ {
				arr.Elems = append(arr.Elems, e.Zero(et))
			}
		} else if hi > 0 {
			arr.Sum = []*AV{e.Zero(et)}
		}
		e.alloc(s, id, arr, in)
		s.bind(in, &AV{K: Slice, Nil: MayNonNil, Refs: []Ref{{O: id}}, Lo: lo, Hi: hi})
		return one()
	case *ssa.MakeChan:
		id := e.Obj(in, ctx, e.iterKey(s), in.Type(), in.Pos())
		et := under(in.Type()).(*types.Chan).Elem()
		sent := e.Zero(et)
		if isError(et) {
			sent = FailErr("sent")
		}
		e.alloc(s, id, &AV{K: Struct, Elems: []*AV{IntV(0), falseV, sent}}, in)
		s.bind(in, &AV{K: Map, Nil: MayNonNil, Refs: []Ref{{O: id}}})
		return one()
	case *ssa.MakeClosure:
		f := &FnVal{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.Bind = append(f.Bind, e.val(s, b))
		}
		s.bind(in, &AV{K: Func, Nil: MayNonNil, Fns: []*FnVal{f}})
		return one()
	case *ssa.MakeInterface:
		x := e.val(s, in.X)
		s.bind(in, &AV{K: Iface, Nil: MayNonNil, Dyn: []Dyn{{in.X.Type(), x}}, Lab: x.Lab})
		return one()
	case *ssa.ChangeInterface:
		s.bind(in, e.val(s, in.X))
		if r, ok := s.From[in.X]; ok {
			s.From[in] = r
		}
		return one()
	case *ssa.ChangeType:
		s.bind(in, e.val(s, in.X))
		return one()
	case *ssa.Convert:
		if t, ok := e.runesText(s, e.val(s, in.X), in.X.Type(), in.Type()); ok {
			s.bind(in, t)
			return one()
		}
		s.bind(in, e.convert(e.val(s, in.X), in.X.Type(), in.Type()))
		return one()
	case *ssa.MultiConvert:
		s.bind(in, e.Unknown(in.Type()))
		return one()
	case *ssa.SliceToArrayPointer:
		s.bind(in, Top())
		return one()
	case *ssa.Slice:
		e.slice(in, ctx, s)
		return one()
	case *ssa.Extract:
		t := e.val(s, in.Tuple)
		if t.K == Tuple && in.Index < len(t.Elems) {
			s.bind(in, t.Elems[in.Index])
		} else {
			s.bind(in, e.Unknown(in.Type()))
		}
		return one()
	case *ssa.TypeAssert:
		return e.typeAssert(in, s)
	case *ssa.Range:
		x := e.val(s, in.X)
		if t, ok := x.One(); ok && x.K == Str && int64(len(t)) <= e.few() {
			x = TupleV(x, IntV(0))
		} else if k, _ := e.soleEntry(s, x); k != nil {
			x = TupleV(x, IntV(0))
		}
		s.bind(in, x)
		return one()
	case *ssa.Next:
		return e.next(in, s)
	case *ssa.Send:
		e.send(s, e.val(s, in.Chan), e.val(s, in.X))
		return one()
	case *ssa.Select:
		return e.choose(in, s)
	case *ssa.Defer:
		d := &Deferred{In: in}
		for _, a := range in.Call.Args {
			d.Args = append(d.Args, e.val(s, a))
		}
		d.Fn = e.val(s, in.Call.Value)
		for i, x := range s.Def {
			if x.In == in {
				nd := &Deferred{In: in, Many: true, Fn: Join(x.Fn, d.Fn)}
				for j := range d.Args {
					nd.Args = append(nd.Args, Join(x.Args[j], d.Args[j]))
				}
				s.Def = append([]*Deferred(nil), s.Def...)
				s.Def[i] = nd
				return one()
			}
		}
		s.Def = append(append([]*Deferred(nil), s.Def...), d)
		return one()
	case *ssa.RunDefers:
		states := one()
		for len(states) > 0 {
			var next []*State
			done := true
			for _, t := range states {
				if len(t.Def) == 0 {
					next = append(next, t)
					continue
				}
				done = false
				d := t.Def[len(t.Def)-1]
				t.Def = t.Def[:len(t.Def)-1]
				for _, r := range e.call(t, d.In, &d.In.Call, d.Fn, d.Args, fn, ctx, true) {
					next = append(next, r.S)
				}
			}
			if len(next) > 24 {
				next = e.mergeList(next)
			}
			states = next
			if done {
				break
			}
		}
		return states
	case *ssa.Go:
		var args []*AV
		for _, a := range in.Call.Args {
			args = append(args, e.val(s, a))
		}
		e.inGo++
		var out []*State
		for _, r := range e.call(s, in, &in.Call, e.val(s, in.Call.Value), args, fn, ctx, false) {
			out = append(out, r.S)
		}
		e.inGo--
		return out
	case *ssa.Call:
		var args []*AV
		for _, a := range in.Call.Args {
			args = append(args, e.val(s, a))
		}
		var out []*State
		for _, r := range e.call(s, in, &in.Call, e.val(s, in.Call.Value), args, fn, ctx, false) {
			ret := r.Ret
			if ret == nil {
				ret = e.Unknown(in.Type())
			}
			r.S.bind(in, ret)
			out = append(out, r.S)
		}
		return out
	}
	if v, ok := in.(ssa.Value); ok {
		s.bind(v, e.Unknown(v.Type()))
	}
	return one()
}

func (e *Engine) fieldLab(t types.Type, i int) Set {
	if t == nil {
		return nil
	}
	st, ok := under(t).(*types.Struct)
	n := typeName(t)
	if !ok || n == "" {
		return nil
	}
	return NewSet("f:" + n + "." + st.Field(i).Name())
}

func (e *Engine) unop(in *ssa.UnOp, ctx *Ctx, s *State) []*State {
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			if isError(g.Type().(*types.Pointer).Elem()) {
				s.bind(in, FailErr(g.Pkg.Pkg.Path()+"."+g.Name()))
				return []*State{s}
			}
			if m := e.constMap(s, g); m != nil {
				s.bind(in, m)
				return []*State{s}
			}
		}
		p := e.ptrTo(s, in.X, ctx)
		if p.MustNil() {
			return nil
		}
		v := e.load(s, p, in.Type())
		if p.Sent == "byte" {
			v = IntRange(p.Lo, p.Hi).withLab(p.Lab)
		}
		s.bind(in, v)
		if len(p.Refs) == 1 && !p.Unk && !hasAny(p.Refs[0].P) {
			if o := s.Heap[p.Refs[0].O]; o == nil || !o.Weak {
				s.From[in] = p.Refs[0]
			}
		}
		return []*State{s}
	case token.NOT:
		x := e.val(s, in.X)
		if x.K == Bool {
			b := x.B
			nb := uint8(0)
			if b&MayTrue != 0 {
				nb |= MayFalse
			}
			if b&MayFalse != 0 {
				nb |= MayTrue
			}
			s.bind(in, &AV{K: Bool, B: nb, Lab: x.Lab})
			return []*State{s}
		}
	case token.SUB:
		x := e.val(s, in.X)
		if x.K == Int {
			s.bind(in, IntRange(negSat(x.Hi), negSat(x.Lo)))
			return []*State{s}
		}
	case token.ARROW:
		v, ok := e.receive(s, e.val(s, in.X), in.X.Type())
		if in.CommaOk {
			v = TupleV(v, ok)
		}
		s.bind(in, v)
		return []*State{s}
	}
	s.bind(in, e.Unknown(in.Type()))
	return []*State{s}
}

func (e *Engine) binop(op token.Token, x, y *AV, t types.Type) *AV {
	lab := x.Lab.Union(y.Lab)
	switch op {
	case token.ADD:
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return ConcatStr(x, y)
		}
		if x.K == Int && y.K == Int {
			return &AV{K: Int, Lo: addSat(x.Lo, y.Lo), Hi: addSat(x.Hi, y.Hi), Lab: lab}
		}
	case token.SUB:
		if x.K == Int && y.K == Int {
			return &AV{K: Int, Lo: addSat(x.Lo, negSat(y.Hi)), Hi: addSat(x.Hi, negSat(y.Lo)), Lab: lab}
		}
	case token.MUL:
		if a, ok := x.IntConst(); ok {
			if b, ok := y.IntConst(); ok {
				return IntV(a * b)
			}
		}
		if x.K == Int && y.K == Int && x.Lo >= 0 && y.Lo >= 0 {
			return &AV{K: Int, Lo: 0, Hi: MaxInt, Lab: lab}
		}
	case token.QUO:
		if a, ok := x.IntConst(); ok {
			if b, ok := y.IntConst(); ok && b != 0 {
				if f, ok := under(t).(*types.Basic); ok && f.Info()&types.IsFloat != 0 {
					return IntRange(int64(math.Floor(float64(a)/float64(b))), int64(math.Ceil(float64(a)/float64(b)))).withLab(lab)
				}
				return IntV(a / b).withLab(lab)
			}
		}
		if x.K == Int && y.K == Int && x.Lo >= 0 && y.Lo > 0 {
			return &AV{K: Int, Lo: 0, Hi: x.Hi, Lab: lab}
		}
	case token.REM:
		if a, ok := x.IntConst(); ok {
			if b, ok := y.IntConst(); ok && b != 0 {
				return IntV(a % b).withLab(lab)
			}
		}
		if x.K == Int && y.K == Int && x.Lo >= 0 && y.Lo > 0 {
			return &AV{K: Int, Lo: 0, Hi: addSat(y.Hi, -1), Lab: lab}
		}
	case token.OR, token.AND, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if a, ok := x.IntConst(); ok {
			if b, ok := y.IntConst(); ok {
				switch op {
				case token.OR:
					return IntV(a | b)
				case token.AND:
					return IntV(a & b)
				case token.XOR:
					return IntV(a ^ b)
				case token.AND_NOT:
					return IntV(a &^ b)
				}
			}
		}
		if x.K == Int && x.Lo >= 0 && y.K == Int && y.Lo >= 0 {
			if op == token.AND {
				return &AV{K: Int, Lo: 0, Hi: min(x.Hi, y.Hi), Lab: lab}
			}
			return &AV{K: Int, Lo: 0, Hi: MaxInt, Lab: lab}
		}
	case token.EQL, token.NEQ:
		r := eqResult(x, y)
		if op == token.NEQ {
			switch r {
			case MayTrue:
				r = MayFalse
			case MayFalse:
				r = MayTrue
			}
		}
		return &AV{K: Bool, B: r, Lab: lab}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		r := uint8(3)
		if x.K == Int && y.K == Int {
			r = cmpResult(op, x, y)
		}
		if a, ok := x.One(); ok && x.K == Str {
			if b, ok := y.One(); ok && y.K == Str {
				c := int64(strings.Compare(a, b))
				r = cmpResult(op, IntV(c), IntV(0))
			}
		}
		return &AV{K: Bool, B: r, Lab: lab}
	}
	return e.Unknown(t).withLab(lab)
}

func cmpResult(op token.Token, x, y *AV) uint8 {
	switch op {
	case token.GTR:
		return cmpResult(token.LSS, y, x)
	case token.GEQ:
		return cmpResult(token.LEQ, y, x)
	case token.LSS:
		if x.Hi != MaxInt && y.Lo != MinInt && x.Hi < y.Lo {
			return MayTrue
		}
		if x.Lo != MinInt && y.Hi != MaxInt && x.Lo >= y.Hi {
			return MayFalse
		}
	case token.LEQ:
		if x.Hi != MaxInt && y.Lo != MinInt && x.Hi <= y.Lo {
			return MayTrue
		}
		if x.Lo != MinInt && y.Hi != MaxInt && x.Lo > y.Hi {
			return MayFalse
		}
	}
	return 3
}

func eqResult(x, y *AV) uint8 {
	if x.K == Iface && len(x.Dyn) == 1 && y.K == Iface && len(y.Dyn) == 1 && !x.Unk && !y.Unk && x.Nil == MayNonNil && y.Nil == MayNonNil {
		return eqResult(x.Dyn[0].V, y.Dyn[0].V)
	}
	switch {
	case x.K == Bool && y.K == Bool:
		if x.B != 3 && y.B != 3 {
			if x.B == y.B {
				return MayTrue
			}
			return MayFalse
		}
		return 3
	case x.K == Int && y.K == Int:
		if x.Hi < y.Lo || y.Hi < x.Lo {
			return MayFalse
		}
		if x.Lo == x.Hi && y.Lo == y.Hi && x.Lo == y.Lo {
			return MayTrue
		}
		return 3
	case x.K == Str && y.K == Str:
		if x.Consts != nil && y.Consts != nil {
			if len(x.Consts) == 1 && len(y.Consts) == 1 {
				if x.Consts[0] == y.Consts[0] {
					return MayTrue
				}
				return MayFalse
			}
			for _, c := range x.Consts {
				for _, d := range y.Consts {
					if c == d {
						return 3
					}
				}
			}
			return MayFalse
		}
		if x.Consts != nil {
			x, y = y, x
		}
		if y.Consts != nil {
			for _, c := range y.Consts {
				if matchStr(x, c) {
					return 3
				}
			}
			return MayFalse
		}
		return 3
	case (x.K == Arr || x.K == Struct) && x.K == y.K && len(x.Elems) == len(y.Elems) && len(x.Elems) > 0 && len(x.Sum)+len(y.Sum) == 0:
		r := uint8(MayTrue)
		for i := range x.Elems {
			switch eqResult(x.Elems[i], y.Elems[i]) {
			case MayFalse:
				return MayFalse
			case 3:
				r = 3
			}
		}
		return r
	}
	if isRefKind(x) && isRefKind(y) {
		a, b := x.NilBits(), y.NilBits()
		if a == MayNil && b == MayNil {
			return MayTrue
		}
		if a&b == 0 {
			return MayFalse
		}
		if a == MayNonNil && b == MayNonNil && x.Sent != "" && y.Sent != "" {
			if x.Sent == y.Sent {
				return MayTrue
			}
			return MayFalse
		}
		if x.Sent != "" && y.Sent != "" && x.Sent != y.Sent && (a == MayNonNil || b == MayNonNil) {
			return MayFalse
		}
	}
	if x.K == Unk && y.K == Iface || x.K == Iface && y.K == Unk {
		a, b := x.NilBits(), y.NilBits()
		if a&b == 0 {
			return MayFalse
		}
	}
	return 3
}

// byteAt is the byte of a known text at a known index.
func byteAt(x, idx *AV) (*AV, bool) {
	if x.K != Str && x.K != Slice || len(x.Consts) != 1 {
		return nil, false
	}
	n, ok := idx.IntConst()
	if !ok || n < 0 || n >= int64(len(x.Consts[0])) {
		return nil, false
	}
	return IntV(int64(x.Consts[0][n])).withLab(x.Lab), true
}

func (e *Engine) indexAddr(in *ssa.IndexAddr, ctx *Ctx, s *State) []*State {
	x := e.val(s, in.X)
	idx := e.val(s, in.Index)
	et := elemType(in.Type())
	_, isStruct := under(et).(*types.Struct)
	isSlice := false
	if _, ok := under(in.X.Type()).(*types.Slice); ok {
		isSlice = true
	}
	if isSlice && (x.MustNil() || x.K == Slice && x.Hi == 0) {
		return nil // index out of range: path ends
	}
	if len(x.Refs) == 0 {
		if isStruct {
			id := e.Obj(in, ctx, "elem", et, in.Pos())
			v := e.Unknown(et)
			if l := x.Lab.Filter(isCohort); len(l) > 0 {
				v = v.withLab(l)
			}
			e.alloc(s, id, v, in)
			s.bind(in, &AV{K: Ptr, Nil: MayNonNil, Refs: []Ref{{O: id}}, Lab: x.Lab})
			return []*State{s}
		}
		p := &AV{K: Ptr, Nil: MayNonNil, Unk: true, Lab: x.Lab}
		if b, ok := byteAt(x, idx); ok {
			p.Sent, p.Lo, p.Hi = "byte", b.Lo, b.Hi
		}
		s.bind(in, p)
		return []*State{s}
	}
	if len(x.Refs) == 1 {
		r := x.Refs[0]
		n, ok := idx.IntConst()
		if x.K == Slice && x.Hi == 1 {
			n, ok = 0, true // the only index there is
		}
		off, offOK := x.off()
		if n += off; ok && n >= 0 && offOK {
			if o := s.Heap[r.O]; o != nil && !o.Weak {
				c := e.loadRef(s, r)
				if c.K == Arr && n < int64(len(c.Elems)) {
					s.bind(in, &AV{K: Ptr, Nil: MayNonNil, Refs: []Ref{{r.O, pathStep(r.P, int(n))}}, Lab: x.Lab})
					return []*State{s}
				}
			}
		}
		if isStruct && !x.Unk {
			c := e.loadRef(s, r)
			if c.K == Arr {
				vars := c.Sum
				if len(c.Elems) > 0 {
					vars = nil
					for _, v := range c.Elems {
						vars = addVariant(vars, v)
					}
				}
				if len(vars) == 0 {
					return nil
				}
				id := e.Obj(in, ctx, "elem", et, in.Pos())
				var out []*State
				for i, v := range vars {
					t := s
					if i < len(vars)-1 {
						t = s.Clone()
					}
					e.alloc(t, id, v, in)
					o := *t.Heap[id]
					o.Foc = &Ref{r.O, pathAny(r.P)}
					t.Heap[id] = &o
					t.bind(in, &AV{K: Ptr, Nil: MayNonNil, Refs: []Ref{{O: id}}, Lab: x.Lab})
					out = append(out, t)
				}
				return out
			}
		}
	}
	p := &AV{K: Ptr, Nil: MayNonNil, Unk: x.Unk, Lab: x.Lab}
	for _, r := range x.Refs {
		p.Refs = append(p.Refs, Ref{r.O, pathAny(r.P)})
	}
	s.bind(in, p)
	return []*State{s}
}

func (e *Engine) lookup(in *ssa.Lookup, s *State) []*State {
	m := e.val(s, in.X)
	k := e.val(s, in.Index)
	if _, ok := under(in.X.Type()).(*types.Map); !ok {
		if b, ok := byteAt(m, k); ok {
			s.bind(in, b)
			return []*State{s}
		}
		s.bind(in, e.Unknown(in.Type()).withLab(m.Lab))
		return []*State{s}
	}
	vt := elemType(in.X.Type())
	var vals []*AV
	for _, r := range m.Refs {
		if o := s.Heap[r.O]; o != nil && o.V.K == Arr {
			may := true
			if o.V.Keys != nil && k != nil && eqResult(o.V.Keys, k) == MayFalse {
				may = false
			}
			if may {
				vals = joinSum(vals, o.V.Sum)
			}
		} else {
			vals = addVariant(vals, e.Unknown(vt))
		}
	}
	if m.Unk || len(m.Refs) == 0 && !m.MustNil() {
		vals = addVariant(vals, e.Unknown(vt).withLab(m.Lab))
	}
	zero := e.Zero(vt)
	if key, ok := e.constKey(s, k); ok && len(m.Refs) == 1 && !m.Unk {
		if o := s.Heap[m.Refs[0].O]; o != nil && !o.Weak && o.V.K == Arr && o.V.Consts != nil {
			v, found := zero, falseV
			if i, ok := slices.BinarySearch(o.V.Consts, key); ok {
				v, found = o.V.Elems[i], trueV
			}
			if in.CommaOk {
				v = TupleV(v, found)
			}
			s.bind(in, v)
			return []*State{s}
		}
	}
	if !in.CommaOk {
		v := zero
		for _, x := range vals {
			v = Join(v, x)
		}
		s.bind(in, v)
		return []*State{s}
	}
	var out []*State
	var keys *AV
	if !m.Unk && len(m.Refs) == 1 {
		if o := s.Heap[m.Refs[0].O]; o != nil && o.V.K == Arr {
			keys = o.V.Keys
		}
	}
	for _, x := range vals {
		t := s.Clone()
		if keys != nil && keys.K == Str && keys.Consts != nil && !e.refineSide(t, in.Index, token.EQL, keys) {
			continue
		}
		t.bind(in, TupleV(x, trueV))
		out = append(out, t)
	}
	s.bind(in, TupleV(zero, falseV))
	return append(out, s)
}

// constKey is the canonical form of a constant map key: a string, or an array
// or struct of them.
func (e *Engine) constKey(s *State, k *AV) (string, bool) {
	switch {
	case k == nil:
	case k.K == Str:
		return k.One()
	case k.K == Int && k.Lo == k.Hi:
		return strconv.FormatInt(k.Lo, 10), true
	case k.K == Ptr && k.Nil == MayNonNil && len(k.Refs) == 1 && !k.Unk:
		r := k.Refs[0]
		if o := s.Heap[r.O]; o != nil && !o.Weak && !strings.ContainsRune(r.P, anyElem) {
			return fmt.Sprintf("%d/%s", r.O, r.P), true
		}
	case (k.K == Arr || k.K == Struct) && len(k.Sum) == 0 && len(k.Elems) > 0:
		var parts []string
		for _, x := range k.Elems {
			p, ok := e.constKey(s, x)
			if !ok {
				return "", false
			}
			parts = append(parts, p)
		}
		return strings.Join(parts, "\x00"), true
	}
	return "", false
}

// soleEntry gives the entry of a map known to have just one.
func (e *Engine) soleEntry(s *State, m *AV) (k, v *AV) {
	if m.K != Map || m.Unk || m.Nil != MayNonNil || len(m.Refs) != 1 {
		return nil, nil
	}
	o := s.Heap[m.Refs[0].O]
	if o == nil || o.Weak || o.V.K != Arr || len(o.V.Consts) != 1 || o.V.Keys == nil {
		return nil, nil
	}
	if key, ok := e.constKey(s, o.V.Keys); !ok || key != o.V.Consts[0] {
		return nil, nil
	}
	return o.V.Keys, o.V.Elems[0]
}

// maxEntries bounds maps followed entry by entry.
const maxEntries = 64

// putEntry adds an entry to a map whose entries are all known by constant keys
// (Consts sorted, Elems their values); nil if they no longer are.
func (e *Engine) putEntry(s *State, m, k, v *AV) ([]string, []*AV) {
	key, ok := e.constKey(s, k)
	if !ok || m.Consts == nil || len(m.Consts) >= maxEntries {
		return nil, nil
	}
	i := sort.SearchStrings(m.Consts, key)
	keys := append([]string{}, m.Consts...)
	vals := append([]*AV{}, m.Elems...)
	if i < len(keys) && keys[i] == key {
		vals[i] = v
		return keys, vals
	}
	return slices.Insert(keys, i, key), slices.Insert(vals, i, v)
}

func (e *Engine) next(in *ssa.Next, s *State) []*State {
	it := e.val(s, in.Iter)
	tt := in.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	done := s.Clone()
	zeroOr := func(t types.Type) *AV {
		if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Invalid {
			return botV
		}
		return e.Zero(t)
	}
	done.bind(in, TupleV(falseV, zeroOr(kt), zeroOr(vt)))
	out := []*State{done}
	if in.IsString {
		if it.K == Tuple {
			t, _ := it.Elems[0].One()
			p := it.Elems[1]
			if p.Lo != p.Hi || p.Lo < 0 {
				s.bind(in, TupleV(trueV, IntRange(0, int64(len(t))), IntRange(0, 1<<31-1)))
				return append(out, s)
			}
			if p.Lo >= int64(len(t)) {
				return out
			}
			r, n := utf8.DecodeRuneInString(t[p.Lo:])
			s.bind(in, TupleV(trueV, p, IntV(int64(r)).withLab(it.Elems[0].Lab)))
			e.setReg(s, in.Iter, TupleV(it.Elems[0], IntV(p.Lo+int64(n))))
			return []*State{s}
		}
		if it.K == Str && it.Hi == 0 {
			return out
		}
		s.bind(in, TupleV(trueV, IntRange(0, MaxInt), IntRange(0, 1<<31-1)))
		return append(out, s)
	}
	if it.K == Tuple {
		p := it.Elems[1]
		it = it.Elems[0]
		if k, v := e.soleEntry(s, it); k != nil && p.Lo == p.Hi {
			if p.Lo > 0 {
				return out
			}
			s.bind(in, TupleV(trueV, k, v))
			e.setReg(s, in.Iter, TupleV(it, IntV(1)))
			return []*State{s}
		}
	}
	if it.MustNil() {
		return out
	}
	unk := func(t types.Type) *AV {
		if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Invalid {
			return botV
		}
		return e.Unknown(t)
	}
	if len(it.Refs) == 1 && !it.Unk {
		if o := s.Heap[it.Refs[0].O]; o != nil && o.V.K == Arr && o.V.Consts != nil && len(o.V.Consts) == 0 {
			return out
		}
	}
	var vals []*AV
	var keys *AV = botV
	for _, r := range it.Refs {
		if o := s.Heap[r.O]; o != nil && o.V.K == Arr {
			vals = joinSum(vals, o.V.Sum)
			if o.V.Keys != nil {
				keys = Join(keys, o.V.Keys)
			}
		}
	}
	if it.Unk || len(it.Refs) == 0 {
		vals = addVariant(vals, unk(vt).withLab(it.Lab))
		if len(vals) == 0 {
			vals = []*AV{botV}
		}
		keys = Join(keys, unk(kt).withLab(it.Lab))
	}
	for _, v := range vals {
		t := s.Clone()
		t.bind(in, TupleV(trueV, keys, v))
		out = append(out, t)
	}
	return out
}

func (e *Engine) typeAssert(in *ssa.TypeAssert, s *State) []*State {
	x := e.val(s, in.X)
	_, toIface := under(in.AssertedType).(*types.Interface)
	var okV *AV = botV
	mayFail := false
	if toIface && x.K == Iface && len(x.Refs) > 0 && len(x.Dyn) == 0 && x.Nil == MayNonNil {
		// objects known through an interface that has the wanted methods
		all := true
		for _, r := range x.Refs {
			t := e.objs[r.O].T
			if _, ok := under(t).(*types.Interface); !ok || !types.Implements(t, under(in.AssertedType).(*types.Interface)) {
				all = false
			}
		}
		if all {
			if in.CommaOk {
				s.bind(in, TupleV(x, trueV))
			} else {
				s.bind(in, x)
			}
			return []*State{s}
		}
	}
	if !toIface && in.CommaOk && len(x.Refs) > 0 && len(x.Dyn) == 0 {
		// objects known through an interface the wanted type does not have, or
		// made by a package that does not use it
		none := true
		for _, r := range x.Refs {
			i, ok := under(e.objs[r.O].T).(*types.Interface)
			k := ""
			if a := s.Attr(r.O, "kind"); a != nil {
				k, _ = a.One()
			}
			if !(ok && !types.Implements(in.AssertedType, i)) && k != "zipentry" {
				none = false
			}
		}
		if none {
			s.bind(in, TupleV(e.Zero(in.AssertedType), falseV))
			return []*State{s}
		}
	}
	if x.K == Iface {
		for _, d := range x.Dyn {
			if toIface {
				if types.Implements(d.T, under(in.AssertedType).(*types.Interface)) {
					okV = Join(okV, &AV{K: Iface, Nil: MayNonNil, Dyn: []Dyn{d}, Lab: x.Lab})
				} else {
					mayFail = true
				}
			} else if types.Identical(d.T, in.AssertedType) {
				okV = Join(okV, d.V)
			} else {
				mayFail = true
			}
		}
		if x.Nil&MayNil != 0 {
			mayFail = true
		}
	}
	if x.K != Iface || x.Unk {
		mayFail = true
		u := e.Unknown(in.AssertedType).withLab(x.Lab)
		if isRefKind(u) {
			n := *u
			n.Nil = MayNonNil
			if _, ok := under(in.AssertedType).(*types.Pointer); ok && x.NilBits() == MayNonNil {
				n.Nil = MayNonNil
			}
			n.Sent = x.Sent
			if len(x.Refs) > 0 {
				n.K, n.Unk, n.Refs = Iface, true, x.Refs
			}
			u = &n
		}
		if x.NilBits()&MayNonNil != 0 {
			okV = Join(okV, u)
		}
	}
	var out []*State
	if okV.K != Bot {
		t := s.Clone()
		if in.CommaOk {
			t.bind(in, TupleV(okV, trueV))
		} else {
			t.bind(in, okV)
		}
		out = append(out, t)
	}
	if mayFail && in.CommaOk {
		s.bind(in, TupleV(e.Zero(in.AssertedType), falseV))
		out = append(out, s)
	}
	return out
}

// runesText is the text of a []rune all elements of which are known.
func (e *Engine) runesText(s *State, x *AV, from, to types.Type) (*AV, bool) {
	sl, ok := under(from).(*types.Slice)
	tb, _ := under(to).(*types.Basic)
	if !ok || tb == nil || tb.Info()&types.IsString == 0 {
		return nil, false
	}
	if eb, ok := under(sl.Elem()).(*types.Basic); !ok || eb.Kind() != types.Int32 {
		return nil, false
	}
	elems, exact := e.SliceElems(s, x)
	if !exact {
		return nil, false
	}
	var b strings.Builder
	for _, v := range elems {
		n, ok := v.IntConst()
		if !ok {
			return nil, false
		}
		b.WriteRune(rune(n))
	}
	v := StrV(b.String())
	v.Lab = x.Lab
	return v, true
}

func (e *Engine) convert(x *AV, from, to types.Type) *AV {
	fb, _ := under(from).(*types.Basic)
	tb, _ := under(to).(*types.Basic)
	switch {
	case tb != nil && tb.Info()&types.IsString != 0:
		if fb != nil && fb.Info()&types.IsString != 0 {
			return x
		}
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			if n, ok := x.IntConst(); ok {
				return StrV(string(rune(n)))
			}
			return &AV{K: Str, Lo: 1, Hi: 4, Lab: x.Lab}
		}
		// []byte / []rune -> string
		r := &AV{K: Str, Lo: 0, Hi: MaxInt, Lab: x.Lab, Consts: x.Consts, Pre: x.Pre, Suf: x.Suf, Frags: x.Frags}
		if x.K == Slice {
			r.Lo, r.Hi = x.Lo, x.Hi
		}
		if strings.HasPrefix(x.Sent, "off") {
			r.Consts, r.Pre, r.Suf = nil, nil, ""
		}
		return r
	case fb != nil && fb.Info()&types.IsString != 0:
		if _, ok := under(to).(*types.Slice); ok {
			return &AV{K: Slice, Nil: MayNonNil, Unk: true, Lo: x.Lo, Hi: x.Hi, Lab: x.Lab, Consts: x.Consts, Pre: x.Pre, Suf: x.Suf, Frags: x.Frags}
		}
	case tb != nil && tb.Info()&types.IsInteger != 0 && x.K == Int:
		u := e.Unknown(to)
		if u.Lo <= x.Lo && x.Hi <= u.Hi {
			return x
		}
		return u.withLab(x.Lab)
	case tb != nil && tb.Info()&types.IsFloat != 0 && x.K == Int && x.Lo > -1<<50 && x.Hi < 1<<50:
		return x // bounds of the number
	}
	return e.Unknown(to).withLab(x.Lab)
}

// Text views a string or []byte value as text.
func Text(x *AV) *AV {
	if x.K == Str {
		return x
	}
	r := &AV{K: Str, Lo: 0, Hi: MaxInt, Lab: x.Lab, Frags: x.Frags}
	if x.K == Slice {
		r.Consts, r.Pre, r.Suf = x.Consts, x.Pre, x.Suf
		r.Lo, r.Hi = x.Lo, x.Hi
	}
	return r
}

func (e *Engine) slice(in *ssa.Slice, ctx *Ctx, s *State) {
	x := e.val(s, in.X)
	var lo, hi *AV
	if in.Low != nil {
		lo = e.val(s, in.Low)
	}
	if in.High != nil {
		hi = e.val(s, in.High)
	}
	lowZero := lo == nil
	if lo != nil {
		if n, ok := lo.IntConst(); ok && n == 0 {
			lowZero = true
		}
	}
	switch under(in.X.Type()).(type) {
	case *types.Basic: // string
		r := &AV{K: Str, Lo: 0, Hi: x.Hi, Lab: x.Lab, Frags: x.fragSet()}
		if x.K != Str {
			r.Hi = MaxInt
			r.Frags = x.Frags
		}
		if lowZero && hi == nil {
			s.bind(in, x)
			return
		}
		if c, ok := x.One(); ok {
			a, b := 0, len(c)
			known := true
			if lo != nil {
				if n, ok := lo.IntConst(); ok && n >= 0 && n <= int64(len(c)) {
					a = int(n)
				} else {
					known = false
				}
			}
			if hi != nil {
				if n, ok := hi.IntConst(); ok && n >= 0 && n <= int64(len(c)) {
					b = int(n)
				} else {
					known = false
				}
			}
			if known && a <= b {
				v := StrV(c[a:b])
				v.Lab = x.Lab
				s.bind(in, v)
				return
			}
		}
		if hi == nil {
			if x.K == Str && x.Consts == nil {
				r.Suf = "" // may have cut into the suffix
			}
		}
		s.bind(in, r)
		return
	case *types.Pointer: // *array
		p := e.ptrTo(s, in.X, ctx)
		r := &AV{K: Slice, Nil: MayNonNil, Refs: p.Refs, Unk: p.Unk || len(p.Refs) == 0, Lab: p.Lab}
		if a, ok := under(elemType(in.X.Type())).(*types.Array); ok && lowZero && hi == nil {
			r.Lo, r.Hi = a.Len(), a.Len()
		} else {
			r.Hi = MaxInt
		}
		if !lowZero {
			r.setOff(&AV{}, lo)
		}
		s.bind(in, r)
		return
	}
	r := *x
	if x.K != Slice {
		r = AV{K: Slice, Nil: x.NilBits(), Unk: true, Hi: MaxInt, Lab: x.Lab}
	}
	if !lowZero {
		r.setOff(x, lo)
	}
	if !(lowZero && hi == nil) {
		r.Consts, r.Pre, r.Suf = nil, nil, ""
		r.Frags = x.Frags.Union(x.fragSet())
		l, h := int64(0), x.Hi
		if x.K != Slice {
			h = MaxInt
		}
		if hi != nil && hi.K == Int {
			h = max(hi.Hi, 0)
			l = max(hi.Lo, 0)
			if x.K == Slice && x.Lo == x.Hi {
				h = min(h, x.Hi)
			}
		} else if hi == nil {
			l = r.Lo
		} else {
			h = MaxInt
		}
		if lo != nil && lo.K == Int {
			l = max(addSat(l, negSat(lo.Hi)), 0)
			h = max(addSat(h, negSat(max(lo.Lo, 0))), 0)
		} else if lo != nil {
			l = 0
		}
		r.Lo, r.Hi = l, h
	}
	if in.Max != nil {
		if n, ok := e.val(s, in.Max).IntConst(); ok && n == 0 {
			r.Refs = nil
			r.Unk = false
			r.Lo, r.Hi = 0, 0
		}
	}
	s.bind(in, &r)
}

// call interprets a call and returns the resulting states with the returned value.
func (e *Engine) call(s *State, site ssa.Instruction, cc *ssa.CallCommon, fv *AV, args []*AV, in *ssa.Function, ctx *Ctx, deferred bool) []Result {
	c := &Call{Site: site, Common: cc, In: in, Ctx: ctx, Deferred: deferred, ResT: cc.Signature().Results()}
	if _, ok := site.(*ssa.Go); ok {
		c.Go = true
	}
	if cc.IsInvoke() {
		recv := fv
		if recv.MustNil() {
			return nil
		}
		if recv.K != Iface || len(recv.Dyn) == 0 || recv.Unk {
			var res []Result
			t := s
			if recv.K == Iface && len(recv.Dyn) > 0 {
				t = s.Clone()
			}
			c2 := *c
			c2.Name = cc.Method.FullName()
			c2.Args = append([]*AV{recv}, args...)
			res = append(res, e.external(&c2, t)...)
			if recv.K != Iface || len(recv.Dyn) == 0 {
				return res
			}
			return append(res, e.invokeDyn(s, c, cc, recv, args)...)
		}
		return e.invokeDyn(s, c, cc, recv, args)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(s, b.Name(), c, args)
	}
	if f := cc.StaticCallee(); f != nil {
		var binds []*AV
		for _, fn := range fv.Fns {
			if fn.Fn == f {
				binds = fn.Bind
			}
		}
		return e.callFn(s, c, f, binds, args)
	}
	if fv.MustNil() {
		return nil
	}
	var res []Result
	for i, fn := range fv.Fns {
		t := s
		if i < len(fv.Fns)-1 || fv.Unk {
			t = s.Clone()
		}
		c2 := *c
		res = append(res, e.callFn(t, &c2, fn.Fn, fn.Bind, args)...)
	}
	if fv.K == Unk || fv.Unk || len(fv.Fns) == 0 {
		c.Name = "dynamic"
		for _, l := range fv.Lab.Names() {
			if strings.HasPrefix(l, "f:") {
				c.Name = "dynamic:" + l[2:]
			}
		}
		c.Args = args
		res = append(res, e.external(c, s)...)
	}
	return res
}

func (e *Engine) invokeDyn(s *State, c *Call, cc *ssa.CallCommon, recv *AV, args []*AV) []Result {
	var res []Result
	for i, d := range recv.Dyn {
		t := s
		if i < len(recv.Dyn)-1 {
			t = s.Clone()
		}
		c2 := *c
		m := e.Prog.LookupMethod(d.T, cc.Method.Pkg(), cc.Method.Name())
		if m == nil {
			c2.Name = cc.Method.FullName()
			c2.Args = append([]*AV{d.V}, args...)
			res = append(res, e.external(&c2, t)...)
			continue
		}
		res = append(res, e.callFn(t, &c2, m, nil, append([]*AV{d.V}, args...))...)
	}
	return res
}

// MaxDepth bounds the call string (recursion is cut separately).
const MaxDepth = 40

func (e *Engine) callFn(s *State, c *Call, f *ssa.Function, binds, args []*AV) []Result {
	c.Name = fnName(f)
	c.Args = args
	if e.Models[c.Name] == nil && e.InModule(f) && !e.Opaque[c.Name] {
		return e.inlineCall(s, c, f, binds, args)
	}
	return e.external(c, s)
}

// fnName is the resolved name; bound methods and thunks lose their suffix.
func fnName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.String()
}

func (e *Engine) inlineCall(s *State, c *Call, f *ssa.Function, binds, args []*AV) []Result {
	if c.Ctx.Count(f) >= max(e.Recur, 2) || c.Ctx.Depth > MaxDepth {
		e.cutRec[f.String()]++
		if e.Recur > 0 {
			return e.summarise(s, c, f, binds, args)
		}
		return []Result{{s, e.resultOf(f.Signature.Results(), e.Unknown)}}
	}
	if !e.Mon.Enter(e, c, f, s) {
		return nil
	}
	if e.Skip != nil && e.Skip(f) {
		e.Skipped[f] = true
		var res []Result
		for _, r := range e.summarise(s, c, f, binds, args) {
			res = append(res, e.Mon.Leave(e, c, f, r.S, r.Ret)...)
		}
		return res
	}
	ctx := c.Ctx.child(c.Site, f, e.iterKey(s))
	outs, in := e.callIn(s, f, binds, args, ctx)
	before := s.Heap
	var self ssa.Value
	if v, ok := c.Site.(ssa.Value); ok {
		self = v
	}
	var res []Result
	for i, o := range outs {
		t := s
		if i < len(outs)-1 {
			t = s.Clone()
		}
		// keep what the caller can still reach of what the callee left behind
		tmp := &State{Heap: o.Heap}
		mark := map[ObjID]bool{}
		tmp.reach(mark, o.Ret)
		var roots []*AV
		for k := range o.Heap {
			if in[k] || isGlobalObj(e.objs[k]) {
				roots = append(roots, PtrV(Ref{O: k}))
			}
		}
		tmp.reach(mark, roots...)
		heap := make(map[ObjID]*Obj, len(before)+len(mark))
		for k, v := range before {
			heap[k] = v
		}
		for k := range mark {
			v := o.Heap[k]
			if v == nil {
				continue
			}
			if old := before[k]; old != nil && !in[k] && !isGlobalObj(e.objs[k]) && e.referenced(s, k, self) {
				// an earlier object of the same site is still in use
				j := joinObj(old, v, false)
				if !j.Weak {
					w := *j
					w.Weak = true
					j = &w
				}
				v = j
			}
			heap[k] = v
		}
		nt := &State{Q: o.Q, Env: t.Env, From: t.From, Def: t.Def, Heap: heap, iter: t.iter}
		for r, ref := range nt.From {
			if before[ref.O] != heap[ref.O] {
				if before[ref.O] == nil || heap[ref.O] == nil || e.getPath(before[ref.O].V, e.objs[ref.O].T, stepsOf(ref.P)) != e.getPath(heap[ref.O].V, e.objs[ref.O].T, stepsOf(ref.P)) {
					delete(nt.From, r)
				}
			}
		}
		res = append(res, e.Mon.Leave(e, c, f, nt, o.Ret)...)
	}
	return res
}

func isGlobalObj(o *ObjInfo) bool {
	_, ok := o.Site.(*ssa.Global)
	return ok
}

func (e *Engine) resultOf(t *types.Tuple, mk func(types.Type) *AV) *AV {
	switch t.Len() {
	case 0:
		return TupleV()
	case 1:
		return mk(t.At(0).Type())
	}
	r := &AV{K: Tuple}
	for i := 0; i < t.Len(); i++ {
		r.Elems = append(r.Elems, mk(t.At(i).Type()))
	}
	return r
}

// external runs the model of a call and the monitor around it.
func (e *Engine) external(c *Call, s *State) []Result {
	e.CallSite[c.Site] = true
	m := e.Sites[c.Name]
	if m == nil {
		m = map[ssa.Instruction]bool{}
		e.Sites[c.Name] = m
	}
	m[c.Site] = true
	if !e.Mon.Before(e, c, s) {
		return nil
	}
	if r, ok := e.hof(c, s); ok {
		return r
	}
	outs := e.model(c, s)
	var res []Result
	for i := range outs {
		o := &outs[i]
		t := s
		if i < len(outs)-1 {
			t = s.Clone()
		}
		if o.Apply != nil {
			o.Apply(t)
		}
		if f, ok := e.Mon.(Forker); ok && !o.Stop {
			res = append(res, f.Fork(e, c, t, o)...)
			continue
		}
		for _, u := range e.Mon.After(e, c, t, o) {
			if o.Stop {
				continue
			}
			res = append(res, Result{u, o.Ret})
		}
	}
	return res
}

func (e *Engine) builtin(s *State, name string, c *Call, args []*AV) []Result {
	one := func(v *AV) []Result { return []Result{{s, v}} }
	switch name {
	case "len":
		x := args[0]
		switch x.K {
		case Slice, Map, Str:
			return one(&AV{K: Int, Lo: x.Lo, Hi: x.Hi})
		case Arr:
			if len(x.Elems) > 0 {
				return one(IntV(int64(len(x.Elems))))
			}
		}
		if x.MustNil() {
			return one(IntV(0))
		}
		return one(IntRange(0, MaxInt))
	case "cap":
		return one(IntRange(0, MaxInt))
	case "append":
		return one(e.appendTo(s, c, args))
	case "copy":
		xs, exact := e.SliceElems(s, args[1])
		if t, ok := Text(args[1]).One(); ok && !exact && len(args[1].Lab) == 0 {
			exact = true
			for i := range len(t) {
				xs = append(xs, IntV(int64(t[i])))
			}
		}
		if exact && e.copyExact(s, args[0], xs) {
			return one(IntV(min(args[0].Lo, int64(len(xs)))))
		}
		var src []*AV
		for _, r := range args[1].Refs {
			a := e.loadRef(s, r)
			if a.K == Arr {
				src = joinSum(src, a.Sum)
				for _, x := range a.Elems {
					src = addVariant(src, x)
				}
			}
		}
		if args[1].Unk || len(args[1].Refs) == 0 && !args[1].MustNil() {
			if et := elemType(c.Common.Args[1].Type()); et != nil {
				src = addVariant(src, e.Unknown(et).withLab(args[1].Lab))
			}
		}
		for _, r := range args[0].Refs {
			for _, v := range src {
				e.storeRef(s, Ref{r.O, pathAny(r.P)}, v, true)
			}
		}
		return one(IntRange(0, MaxInt))
	case "delete", "clear":
		for _, r := range args[0].Refs {
			if o := s.Heap[r.O]; o != nil && o.V.K == Arr && o.V.Consts != nil {
				n := *o.V
				n.Consts, n.Elems = nil, nil
				s.setObj(r.O, &Obj{V: &n, At: o.At, Weak: o.Weak, Foc: o.Foc})
			}
		}
		return one(TupleV())
	case "close":
		if o, r := s.channel(args[0]); o != nil {
			s.setObj(r, &Obj{V: &AV{K: Struct, Elems: []*AV{o.V.Elems[0], trueV, o.V.Elems[2]}}, At: o.At, Weak: o.Weak})
		}
		return one(TupleV())
	case "print", "println":
		return one(TupleV())
	case "panic":
		return nil
	case "recover":
		return one(nilErr)
	case "min", "max":
		if len(args) == 2 && args[0].K == Int && args[1].K == Int {
			if name == "min" {
				return one(IntRange(min(args[0].Lo, args[1].Lo), min(args[0].Hi, args[1].Hi)))
			}
			return one(IntRange(max(args[0].Lo, args[1].Lo), max(args[0].Hi, args[1].Hi)))
		}
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	return one(e.resultOf(c.Common.Signature().Results(), e.Unknown))
}

func (e *Engine) appendTo(s *State, c *Call, args []*AV) *AV {
	x, y := args[0], args[1]
	et := elemType(c.Common.Args[0].Type())
	if b, ok := under(et).(*types.Basic); ok && b.Kind() == types.Uint8 {
		// byte slices carry text
		t := ConcatStr(Text(x), Text(y))
		return &AV{K: Slice, Nil: MayNonNil, Unk: true, Lo: t.Lo, Hi: t.Hi, Consts: t.Consts, Pre: t.Pre, Suf: t.Suf, Frags: t.Frags, Lab: t.Lab}
	}
	var add []*AV
	for _, r := range y.Refs {
		a := e.loadRef(s, r)
		if a.K == Arr {
			add = joinSum(add, a.Sum)
			for _, v := range a.Elems {
				add = addVariant(add, v)
			}
		} else {
			add = addVariant(add, e.Unknown(et).withLab(a.Lab))
		}
	}
	if y.Unk || len(y.Refs) == 0 && !y.MustNil() && !(y.K == Slice && y.Hi == 0) {
		add = addVariant(add, e.Unknown(et).withLab(y.Lab))
	}
	r := &AV{K: Slice, Nil: MayNonNil, Lab: x.Lab}
	xl, xh := x.Lo, x.Hi
	if x.K != Slice {
		xl, xh = 0, MaxInt
	}
	yl, yh := y.Lo, y.Hi
	if y.K != Slice {
		yl, yh = 0, MaxInt
	}
	r.Lo, r.Hi = addSat(xl, yl), addSat(xh, yh)
	if y.K == Slice && y.Hi == 0 && x.K == Slice {
		return x
	}
	if all, ok := e.appendExact(s, x, y); ok && r.Lo == r.Hi && int(r.Lo) == len(all) {
		if len(x.Refs) == 1 {
			ref := x.Refs[0]
			o := s.Heap[ref.O]
			if _, isArr := under(typeAt(e.objs[ref.O].T, stepsOf(ref.P))).(*types.Array); !isArr && o != nil && !o.Weak {
				s.setObj(ref.O, &Obj{V: e.setPath(o.V, e.objs[ref.O].T, stepsOf(ref.P), &AV{K: Arr, Elems: all}, false), At: o.At, Foc: o.Foc})
				r.Refs = x.Refs
				return r
			}
		}
		// nothing to append to, or an array that is full: a fresh backing
		if id := e.Obj(c.Site, c.Ctx, "append"+e.iterKey(s), types.NewSlice(et), c.Site.Pos()); (len(x.Refs) == 0 || x.Refs[0].O != id && e.fullArray(s, x)) && (s.Heap[id] == nil || !e.referenced(s, id, nil)) {
			s.setObj(id, &Obj{V: &AV{K: Arr, Elems: all}})
			r.Refs = []Ref{{O: id}}
			return r
		}
	}
	if e.appendWithin(s, x, y) {
		r.Refs, r.Sent = x.Refs, x.Sent
		return r
	}
	if r.Hi == 0 {
		r.Nil = x.NilBits()
	} else if r.Lo == 0 {
		r.Nil = x.NilBits() | MayNonNil
	}
	if len(x.Refs) > 0 {
		r.Refs = x.Refs
		r.Unk = x.Unk
		r.Sent = x.Sent
		for _, ref := range x.Refs {
			o := s.Heap[ref.O]
			if o == nil {
				continue
			}
			arr := e.loadRef(s, ref)
			if arr.K != Arr {
				continue
			}
			n := &AV{K: Arr, Sum: arr.Sum, Lab: arr.Lab}
			for _, v := range arr.Elems {
				n.Sum = addVariant(n.Sum, v)
			}
			if _, isArr := under(typeAt(e.objs[ref.O].T, stepsOf(ref.P))).(*types.Array); isArr && len(arr.Elems) > 0 {
				// appending to a slice of an array: move to a fresh backing
				id := e.Obj(c.Site, c.Ctx, "append"+e.iterKey(s), types.NewSlice(et), c.Site.Pos())
				for _, v := range add {
					n.Sum = addVariant(n.Sum, v)
				}
				if old := s.Heap[id]; old != nil {
					n.Sum = joinSum(old.V.Sum, n.Sum)
				}
				s.setObj(id, &Obj{V: n})
				r.Refs = unionRefs(removeRef(r.Refs, ref), []Ref{{O: id}})
				continue
			}
			for _, v := range add {
				n.Sum = addVariant(n.Sum, v)
			}
			if !Eq(n, arr) {
				no := &Obj{V: e.setPath(o.V, e.objs[ref.O].T, stepsOf(ref.P), n, false), At: o.At, Weak: o.Weak, Foc: o.Foc}
				s.setObj(ref.O, no)
			}
		}
		return r
	}
	id := e.Obj(c.Site, c.Ctx, "append"+e.iterKey(s), types.NewSlice(et), c.Site.Pos())
	arr := &AV{K: Arr}
	if x.Unk || x.K != Slice && !x.MustNil() {
		arr.Sum = addVariant(arr.Sum, e.Unknown(et).withLab(x.Lab))
	}
	for _, v := range add {
		arr.Sum = addVariant(arr.Sum, v)
	}
	if len(arr.Sum) == 0 {
		return r
	}
	if old := s.Heap[id]; old != nil && e.referenced(s, id, nil) {
		arr.Sum = joinSum(old.V.Sum, arr.Sum)
		s.setObj(id, &Obj{V: arr, Weak: true})
	} else {
		s.setObj(id, &Obj{V: arr})
	}
	r.Refs = []Ref{{O: id}}
	return r
}

// fullArray reports whether x is a slice of an array up to its end.
func (e *Engine) fullArray(s *State, x *AV) bool {
	ref := x.Refs[0]
	a, ok := under(typeAt(e.objs[ref.O].T, stepsOf(ref.P))).(*types.Array)
	off, known := x.off()
	return ok && known && off+x.Lo == a.Len() && s.Heap[ref.O] != nil && !s.Heap[ref.O].Weak
}

func (e *Engine) few() int64 {
	if e.Few > 0 {
		return e.Few
	}
	return 3
}

// appendExact gives the elements after an append when both sides are known
// element by element and x ends where its backing does.
func (e *Engine) appendExact(s *State, x, y *AV) ([]*AV, bool) {
	var xs []*AV
	if len(x.Refs) > 0 {
		off, ok := x.off()
		if len(x.Refs) > 1 || x.Unk || !ok || x.Lo != x.Hi {
			return nil, false
		}
		a := e.loadRef(s, x.Refs[0])
		if a.K != Arr || len(a.Sum) > 0 || len(a.Elems) != int(off+x.Lo) || len(a.Lab) > 0 {
			return nil, false
		}
		xs = a.Elems[off:]
	} else if !x.MustNil() {
		return nil, false
	}
	ys, exact := e.SliceElems(s, y)
	if !exact || len(ys) == 0 || len(xs)+len(ys) > int(e.few()) {
		return nil, false
	}
	return append(append([]*AV(nil), xs...), ys...), true
}

// appendWithin appends to a slice that ends before its backing does, when what
// is there is overwritten for certain.
func (e *Engine) appendWithin(s *State, x, y *AV) bool {
	off, ok := x.off()
	if !ok || x.K != Slice || len(x.Refs) != 1 || x.Unk || x.Lo != x.Hi {
		return false
	}
	ref := x.Refs[0]
	o := s.Heap[ref.O]
	a := e.loadRef(s, ref)
	ys, exact := e.SliceElems(s, y)
	at := int(off + x.Lo)
	if o == nil || o.Weak || a.K != Arr || len(a.Sum) > 0 || len(a.Lab) > 0 || !exact || len(ys) == 0 || at+len(ys) > len(a.Elems) {
		return false
	}
	all := append([]*AV(nil), a.Elems...)
	copy(all[at:], ys)
	s.setObj(ref.O, &Obj{V: e.setPath(o.V, e.objs[ref.O].T, stepsOf(ref.P), &AV{K: Arr, Elems: all}, false), At: o.At, Foc: o.Foc})
	return true
}

// SetElems overwrites the first elements of a slice, if they are known apart.
func (e *Engine) SetElems(s *State, x *AV, ys []*AV) bool { return e.copyExact(s, x, ys) }

// copyExact overwrites the elements of x if they are known one by one.
func (e *Engine) copyExact(s *State, x *AV, ys []*AV) bool {
	off, ok := x.off()
	if !ok || x.K != Slice || len(x.Refs) != 1 || x.Unk || x.Lo != x.Hi {
		return false
	}
	r := x.Refs[0]
	a := e.loadRef(s, r)
	if o := s.Heap[r.O]; o == nil || o.Weak || a.K != Arr || len(a.Sum) > 0 || int(off+x.Lo) > len(a.Elems) {
		return false
	}
	for i, y := range ys {
		if i < int(x.Lo) {
			e.storeRef(s, Ref{r.O, pathStep(r.P, int(off)+i)}, y, false)
		}
	}
	return true
}

func removeRef(l []Ref, r Ref) []Ref {
	var out []Ref
	for _, x := range l {
		if x != r {
			out = append(out, x)
		}
	}
	return out
}
