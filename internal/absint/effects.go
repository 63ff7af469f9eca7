package absint

import (
	"go/types"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Effects is a flow-insensitive summary of the module: which external
// operations each function may reach and through which parameters it writes.
type Effects struct {
	e     *Engine
	ext   map[*ssa.Function]map[string]bool
	calls map[*ssa.Function][]*ssa.Function
	reach map[*ssa.Function]map[string]bool
	mod   map[*ssa.Function][]bool
	wr    map[*ssa.Function]*writes  // own and callees'
	impls map[string][]*ssa.Function // method name -> module methods
	mu    sync.Mutex
	into  map[*ssa.Function]map[*ssa.Function]bool
}

// NewEffects analyses every function of the module.
func NewEffects(e *Engine, all map[*ssa.Function]bool) *Effects {
	f := &Effects{e: e, ext: map[*ssa.Function]map[string]bool{}, calls: map[*ssa.Function][]*ssa.Function{}, reach: map[*ssa.Function]map[string]bool{}, mod: map[*ssa.Function][]bool{}, wr: map[*ssa.Function]*writes{}, impls: map[string][]*ssa.Function{}, into: map[*ssa.Function]map[*ssa.Function]bool{}}
	var fns []*ssa.Function
	for fn := range all {
		if e.InModule(fn) {
			fns = append(fns, fn)
			if fn.Signature.Recv() != nil {
				f.impls[fn.Name()] = append(f.impls[fn.Name()], fn)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		f.scan(fn)
	}
	// transitive closure
	for _, fn := range fns {
		seen := map[*ssa.Function]bool{}
		out := map[string]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			if seen[g] {
				return
			}
			seen[g] = true
			for n := range f.ext[g] {
				out[n] = true
			}
			for _, h := range f.calls[g] {
				walk(h)
			}
		}
		walk(fn)
		f.reach[fn] = out
		w := newWrites()
		for g := range seen {
			w.scan(f, g)
		}
		f.wr[fn] = w
	}
	// parameters written through: least fixpoint
	for _, fn := range fns {
		f.mod[fn] = make([]bool, len(fn.Params)+len(fn.FreeVars))
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range fns {
			if f.modStep(fn) {
				ch = true
			}
		}
	}
	return f
}

func (f *Effects) scan(fn *ssa.Function) {
	ext := map[string]bool{}
	f.ext[fn] = ext
	addFn := func(g *ssa.Function) {
		if f.e.InModule(g) {
			f.calls[fn] = append(f.calls[fn], g)
		} else {
			ext[fnName(g)] = true
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var ops [16]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok {
					addFn(g)
				}
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if cc.IsInvoke() {
				ext[cc.Method.FullName()] = true
				it, _ := under(cc.Value.Type()).(*types.Interface)
				for _, m := range f.impls[cc.Method.Name()] {
					if it != nil && types.Implements(m.Signature.Recv().Type(), it) {
						f.calls[fn] = append(f.calls[fn], m)
					}
				}
				continue
			}
			if cc.StaticCallee() == nil {
				if _, ok := cc.Value.(*ssa.Builtin); !ok {
					ext["dynamic"] = true
				}
			}
		}
	}
}

// CallsInto reports whether fn is, or may call, the function target.
func (f *Effects) CallsInto(fn, target *ssa.Function) bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	m := f.into[fn]
	if m == nil {
		m = map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			if m[g] {
				return
			}
			m[g] = true
			for _, h := range f.calls[g] {
				walk(h)
			}
			if f.ext[g]["dynamic"] {
				m[nil] = true
			}
		}
		walk(fn)
		f.into[fn] = m
	}
	return m[target]
}

// Dynamic reports whether fn may call a function value it was not given statically.
func (f *Effects) Dynamic(fn *ssa.Function) bool { return f.CallsInto(fn, nil) }

// Reaches reports whether fn may perform an external operation satisfying p.
func (f *Effects) Reaches(fn *ssa.Function, p func(string) bool) bool {
	r, ok := f.reach[fn]
	if !ok {
		return true
	}
	for n := range r {
		if p(n) {
			return true
		}
	}
	return false
}

func (f *Effects) modStep(fn *ssa.Function) bool {
	m := f.mod[fn]
	// derived[v] = set of params v's memory may belong to
	derived := map[ssa.Value]map[int]bool{}
	for i, p := range fn.Params {
		derived[p] = map[int]bool{i: true}
	}
	for i, p := range fn.FreeVars {
		derived[p] = map[int]bool{len(fn.Params) + i: true}
	}
	add := func(v ssa.Value, from ssa.Value) bool {
		ch := false
		for i := range derived[from] {
			if derived[v] == nil {
				derived[v] = map[int]bool{}
			}
			if !derived[v][i] {
				derived[v][i] = true
				ch = true
			}
		}
		return ch
	}
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					if st, ok := in.(*ssa.Store); ok {
						// storing a derived pointer into local memory keeps it derived
						if al, ok := st.Addr.(*ssa.Alloc); ok {
							if add(al, st.Val) {
								ch = true
							}
						}
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
							if add(fa.X, st.Val) {
								ch = true
							}
						}
					}
					continue
				}
				if !mayPoint(v.Type()) {
					continue
				}
				switch in := in.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.Phi, *ssa.Slice, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Convert, *ssa.MakeClosure, *ssa.Next, *ssa.Range:
					var ops [16]*ssa.Value
					for _, op := range in.Operands(ops[:0]) {
						if *op != nil && add(v, *op) {
							ch = true
						}
					}
				case *ssa.Call:
					// results may alias arguments
					for _, a := range in.Call.Args {
						if mayPoint(a.Type()) && add(v, a) {
							ch = true
						}
					}
				}
			}
		}
	}
	changed := false
	mark := func(v ssa.Value) {
		for i := range derived[v] {
			if !m[i] {
				m[i] = true
				changed = true
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.Alloc); !ok {
					mark(in.Addr)
				}
			case *ssa.MapUpdate:
				mark(in.Map)
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if cc.IsInvoke() {
				if !isPure(cc.Method.FullName()) {
					mark(cc.Value)
					for _, a := range cc.Args {
						mark(a)
					}
				}
				continue
			}
			if g := cc.StaticCallee(); g != nil {
				if gm, ok := f.mod[g]; ok {
					for i, a := range cc.Args {
						if i < len(gm) && gm[i] {
							mark(a)
						}
					}
					if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
						for i, bnd := range mc.Bindings {
							if k := len(g.Params) + i; k < len(gm) && gm[k] {
								mark(bnd)
							}
						}
					}
					continue
				}
				if !isPure(fnName(g)) && !readOnlyMethod[fnName(g)] {
					for _, a := range cc.Args {
						mark(a)
					}
				}
				continue
			}
			if bi, ok := cc.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "copy", "delete", "clear", "append":
					if len(cc.Args) > 0 {
						mark(cc.Args[0])
					}
				}
				continue
			}
			mark(cc.Value)
			for _, a := range cc.Args {
				mark(a)
			}
		}
	}
	return changed
}

var readOnlyMethod = map[string]bool{
	"(*bytes.Buffer).Len": true, "(*bytes.Buffer).String": true, "(*bytes.Buffer).Bytes": true, "(*strings.Builder).Len": true, "(*strings.Builder).String": true,
}

func mayPoint(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mayPoint(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return mayPoint(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if mayPoint(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// writes is what a function may write, by type.
type writes struct {
	all    bool                // calls something unknown
	fields map[*types.Var]bool // fields stored to
	cells  map[string]bool     // captured variables of a type
	ptrs   map[string]bool     // memory of a type, wherever it is
	elems  map[string]bool     // elements of slices, arrays and maps of a type
	opaque map[string]bool     // everything reachable from a value of a type
}

func newWrites() *writes {
	return &writes{fields: map[*types.Var]bool{}, cells: map[string]bool{}, ptrs: map[string]bool{}, elems: map[string]bool{}, opaque: map[string]bool{}}
}

func wkey(t types.Type) string { return types.TypeString(t, nil) }

func pointee(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (w *writes) out(v ssa.Value) {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			w.opaque[wkey(x.Type())] = true
			v = x.X
			continue
		}
		break
	}
	if mayPoint(v.Type()) {
		w.opaque[wkey(v.Type())] = true
	}
}

func (w *writes) scan(f *Effects, fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				switch a := in.Addr.(type) {
				case *ssa.Alloc, *ssa.Global:
				case *ssa.FieldAddr:
					if st, ok := under(pointee(a.X.Type())).(*types.Struct); ok {
						w.fields[st.Field(a.Field)] = true
					}
				case *ssa.IndexAddr:
					w.elems[wkey(in.Val.Type())] = true
				case *ssa.FreeVar:
					w.cells[wkey(pointee(a.Type()))] = true
				default:
					w.ptrs[wkey(pointee(in.Addr.Type()))] = true
				}
			case *ssa.MapUpdate:
				w.elems[wkey(under(in.Map.Type()).(*types.Map).Elem())] = true
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if cc.IsInvoke() {
				if !isPure(cc.Method.FullName()) {
					w.out(cc.Value)
					for _, a := range cc.Args {
						w.out(a)
					}
				}
				continue
			}
			if g := cc.StaticCallee(); g != nil {
				if !f.e.InModule(g) && !isPure(fnName(g)) && !readOnlyMethod[fnName(g)] {
					for _, a := range cc.Args {
						w.out(a)
					}
				}
				continue
			}
			if bi, ok := cc.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "copy", "delete", "clear", "append":
					if len(cc.Args) > 0 {
						switch u := under(cc.Args[0].Type()).(type) {
						case *types.Slice:
							w.elems[wkey(u.Elem())] = true
						case *types.Map:
							w.elems[wkey(u.Elem())] = true
						}
					}
				}
				continue
			}
			w.all = true
		}
	}
}

// touches tells whether memory of type t may be written as a whole.
func (w *writes) touches(t types.Type) bool {
	return w.ptrs[wkey(t)] || w.opaque[wkey(types.NewPointer(t))]
}

// forget makes the parts of a value unknown that may be written.
func (w *writes) forget(e *Engine, v *AV, t types.Type, escape func(*AV)) *AV {
	if v == nil {
		return v
	}
	if w.opaque[wkey(t)] {
		escape(v)
	}
	if w.touches(t) {
		escape(v)
		return e.Unknown(t)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		if v.K != Struct {
			return v
		}
		n := v
		for i := 0; i < u.NumFields(); i++ {
			old := e.getPath(v, t, []rune{rune(i + 1)})
			var nv *AV
			if w.fields[u.Field(i)] {
				nv = e.Unknown(u.Field(i).Type())
			} else {
				nv = w.forget(e, old, u.Field(i).Type(), escape)
			}
			if nv != old {
				n = e.setPath(n, t, []rune{rune(i + 1)}, nv, false)
			}
		}
		return n
	case *types.Array:
		return w.forgetElems(e, v, t, u.Elem(), escape)
	case *types.Slice, *types.Map:
	}
	return v
}

// forgetElems is forget for the contents of a container.
func (w *writes) forgetElems(e *Engine, v *AV, t, et types.Type, escape func(*AV)) *AV {
	if v.K != Arr {
		return v
	}
	if w.elems[wkey(et)] || w.touches(et) {
		n := &AV{K: Arr, Sum: []*AV{e.Unknown(et)}}
		if k, ok := under(t).(*types.Map); ok {
			n.Keys = e.Unknown(k.Key())
		}
		return n
	}
	n := *v
	n.Elems, n.Sum = nil, nil
	for _, x := range v.Elems {
		n.Elems = append(n.Elems, w.forget(e, x, et, escape))
	}
	for _, x := range v.Sum {
		n.Sum = append(n.Sum, w.forget(e, x, et, escape))
	}
	return &n
}

// summarise replaces the interpretation of a function without interesting
// effects: results are unknown, what it may write becomes unknown.
func (e *Engine) summarise(s *State, c *Call, fn *ssa.Function, binds, args []*AV) []Result {
	m := e.Eff.mod[fn]
	mark := map[ObjID]bool{}
	lab := labelsOf(args)
	for i, a := range args {
		if i < len(m) && m[i] {
			s.reach(mark, a)
		}
	}
	for i, a := range binds {
		if k := len(fn.Params) + i; k < len(m) && m[k] {
			s.reach(mark, a)
		}
	}
	// what is reached from a value handed to something unknown is lost
	full := map[ObjID]bool{}
	w := e.Eff.wr[fn]
	if w == nil || w.all {
		full = mark
	} else {
		for i, a := range args {
			if i < len(fn.Params) && w.opaque[wkey(fn.Params[i].Type())] {
				s.reach(full, a)
			}
		}
		escape := func(v *AV) { s.reach(full, v) }
		for id := range mark {
			o := s.Heap[id]
			if o == nil {
				continue
			}
			t := e.objs[id].T
			if w.touches(t) || w.opaque[wkey(t)] {
				full[id] = true
				continue
			}
			v := o.V
			switch u := under(t).(type) {
			case *types.Slice:
				v = w.forgetElems(e, v, t, u.Elem(), escape)
			case *types.Map:
				v = w.forgetElems(e, v, t, u.Elem(), escape)
			default:
				if w.cells[wkey(t)] {
					v = e.Unknown(t)
				} else {
					v = w.forget(e, v, t, escape)
				}
			}
			if v != o.V {
				s.setObj(id, &Obj{V: v, At: o.At, Weak: o.Weak, Foc: o.Foc})
			}
		}
	}
	for id := range full {
		o := s.Heap[id]
		if o == nil {
			continue
		}
		n := &Obj{V: o.V, At: o.At, Weak: o.Weak, Foc: o.Foc}
		if o.At["kind"] == nil {
			n.V = e.Unknown(e.objs[id].T)
			if k, ok := under(e.objs[id].T).(*types.Slice); ok {
				n.V = &AV{K: Arr, Sum: []*AV{e.Unknown(k.Elem())}}
			} else if k, ok := under(e.objs[id].T).(*types.Map); ok {
				n.V = &AV{K: Arr, Sum: []*AV{e.Unknown(k.Elem())}, Keys: e.Unknown(k.Key())}
			}
		}
		at := map[string]*AV{}
		for k, v := range o.At {
			if len(k) >= 5 && k[:5] == "text@" {
				x := AnyStr()
				x.Frags = v.fragSet()
				v = x.withLab(v.Lab.Union(lab))
			}
			at[k] = v
		}
		if len(at) > 0 {
			n.At = at
		}
		s.setObj(id, n)
	}
	// variadic slices carry labels in their elements
	for _, a := range args {
		if a.K == Slice {
			lab = lab.Union(e.deepSliceLab(s, a))
		}
	}
	rt := fn.Signature.Results()
	mk := func(t types.Type) *AV { return e.Unknown(t).withLab(lab) }
	n := rt.Len()
	if n > 0 && isError(rt.At(n-1).Type()) {
		ok := e.resultOf(rt, mk)
		bad := e.resultOf(rt, mk)
		if n == 1 {
			ok, bad = nilErr, FailErr("")
		} else {
			ok.Elems[n-1] = nilErr
			bad.Elems[n-1] = FailErr("")
		}
		t := s.Clone()
		return []Result{{t, ok}, {s, bad}}
	}
	return []Result{{s, e.resultOf(rt, mk)}}
}
