package absint

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// constTable is a package-level map that is filled where it is declared and
// never changed.
type constTable struct {
	keys []string
	vals []*ssa.Const // nil if not constant
}

var tables struct {
	sync.Mutex
	of map[*ssa.Program]map[*ssa.Global]*constTable
}

// constTables finds the constant maps of the module.
func (e *Engine) constTables() map[*ssa.Global]*constTable {
	tables.Lock()
	defer tables.Unlock()
	if t, ok := tables.of[e.Prog]; ok {
		return t
	}
	found := map[*ssa.Global]*constTable{}
	spoilt := map[*ssa.Global]bool{}
	for _, p := range e.Prog.AllPackages() {
		if p.Pkg.Path() != e.Module && !strings.HasPrefix(p.Pkg.Path(), e.Module+"/") {
			continue
		}
		var fns []*ssa.Function
		var add func(fn *ssa.Function)
		add = func(fn *ssa.Function) {
			fns = append(fns, fn)
			for _, a := range fn.AnonFuncs {
				add(a)
			}
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := e.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if fn := e.Prog.MethodValue(ms.At(i)); fn != nil && fn.Synthetic == "" {
							add(fn)
						}
					}
				}
			}
		}
		for _, fn := range fns {
			init := fn.Name() == "init" && fn.Synthetic != ""
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						g, isGlobal := st.Addr.(*ssa.Global)
						mk, isMap := st.Val.(*ssa.MakeMap)
						if isGlobal && isMap && init && found[g] == nil {
							if t := tableOf(mk, st); t != nil {
								found[g] = t
								continue
							}
						}
						if isGlobal {
							spoilt[g] = true
						}
						if v, ok := st.Val.(*ssa.Global); ok {
							spoilt[v] = true
						}
						continue
					}
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						if ld, ok := in.(*ssa.UnOp); !ok || !onlyRead(ld) {
							spoilt[g] = true
						}
					}
				}
			}
		}
	}
	for g := range spoilt {
		delete(found, g)
	}
	if tables.of == nil {
		tables.of = map[*ssa.Program]map[*ssa.Global]*constTable{}
	}
	tables.of[e.Prog] = found
	return found
}

// onlyRead: the map loaded isn't changed or handed on.
func onlyRead(ld *ssa.UnOp) bool {
	for _, r := range *ld.Referrers() {
		switch r := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func tableOf(mk *ssa.MakeMap, st *ssa.Store) *constTable {
	t := &constTable{}
	vals := map[string]*ssa.Const{}
	for _, r := range *mk.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r != st {
				return nil
			}
		case *ssa.MapUpdate:
			k, ok := r.Key.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String || r.Map != mk {
				return nil
			}
			vals[constant.StringVal(k.Value)], _ = r.Value.(*ssa.Const)
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	for k := range vals {
		t.keys = append(t.keys, k)
	}
	sort.Strings(t.keys)
	for _, k := range t.keys {
		t.vals = append(t.vals, vals[k])
	}
	return t
}

// constMap is the value of a constant package-level map.
func (e *Engine) constMap(s *State, g *ssa.Global) *AV {
	t := e.constTables()[g]
	if t == nil {
		return nil
	}
	mt := g.Type().(*types.Pointer).Elem()
	id := e.Obj(g, nil, "table", mt, g.Pos())
	if s.Heap[id] == nil {
		et := under(mt).(*types.Map).Elem()
		v := &AV{K: Arr, Consts: t.keys, Keys: AnyStr()}
		for _, c := range t.vals {
			x := e.Unknown(et)
			if c != nil {
				x = e.constVal(c)
			}
			v.Elems = append(v.Elems, x)
			v.Sum = addVariant(v.Sum, x)
		}
		s.setObj(id, &Obj{V: v})
	}
	n := int64(len(t.keys))
	return &AV{K: Map, Nil: MayNonNil, Refs: []Ref{{O: id}}, Lo: n, Hi: n}
}
