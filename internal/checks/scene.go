package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"sqverif/internal/absint"
)

// rec describes a struct: fields not mentioned are zero, or unknown if "*" is
// present. list describes a slice, dict a map.
type (
	rec  map[string]any
	list []any
	dict map[string]string
)

// build makes an abstract value of type t. Strings, bools and AVs are leaves.
func (env *Env) build(e *absint.Engine, st *absint.State, t types.Type, spec any, name string) *AV {
	switch x := spec.(type) {
	case *AV:
		return x
	case string:
		return absint.StrV(x)
	case int:
		return absint.IntV(int64(x))
	case bool:
		if x {
			return absint.True()
		}
		return absint.False()
	case rec:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			id := e.Obj("scene:"+name, nil, "", p.Elem(), 0)
			st.Heap[id] = &absint.Obj{V: env.build(e, st, p.Elem(), x, name)}
			return absint.PtrV(absint.Ref{O: id})
		}
		str := t.Underlying().(*types.Struct)
		v := &AV{K: absint.Struct}
		_, unknown := x["*"]
		for i := 0; i < str.NumFields(); i++ {
			f := str.Field(i)
			switch y, ok := x[f.Name()]; {
			case ok:
				v.Elems = append(v.Elems, env.build(e, st, f.Type(), y, name+"."+f.Name()))
			case unknown:
				v.Elems = append(v.Elems, e.Unknown(f.Type()))
			default:
				v.Elems = append(v.Elems, e.Zero(f.Type()))
			}
		}
		return v
	case dict:
		id := e.Obj("scene:"+name, nil, "", t, 0)
		m := &AV{K: absint.Arr, Consts: []string{}}
		for k := range x {
			m.Consts = append(m.Consts, k)
		}
		sort.Strings(m.Consts)
		for _, k := range m.Consts {
			m.Elems = append(m.Elems, absint.StrV(x[k]))
			m.Sum = append(m.Sum, absint.StrV(x[k]))
			if m.Keys = absint.StrV(k); len(m.Consts) > 1 {
				m.Keys = absint.AnyStr()
			}
		}
		st.Heap[id] = &absint.Obj{V: m}
		return &AV{K: absint.Map, Nil: absint.MayNonNil, Refs: []absint.Ref{{O: id}}}
	case list:
		et := t.Underlying().(*types.Slice).Elem()
		var vs []*AV
		for i, y := range x {
			vs = append(vs, env.build(e, st, et, y, fmt.Sprintf("%s[%d]", name, i)))
		}
		if len(vs) == 0 {
			return e.Zero(t)
		}
		return valSlice(e, st, "scene:"+name, t, vs)
	}
	panic(fmt.Sprintf("scene: %T", spec))
}

// catalogModel makes introspection yield the described catalog, or fail.
func (env *Env) catalogModel(scene rec) map[string]absint.Model {
	return map[string]absint.Model{
		"(*" + env.P.Module + "/ddl.DatabaseIntrospector).WriteCatalog": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			named := env.P.Type(ddlPkg, "Catalog")
			return []absint.Outcome{
				{Ret: absint.NilErr(), Apply: func(t *absint.State) {
					e.Store(t, c.Args[1], env.build(e, t, named, scene, "catalog"))
				}},
				{Ret: absint.FailErr("fail"), Fail: true},
			}
		},
	}
}

// introspectModels makes the introspector's getters yield what the described
// catalog holds and the filter lets through, or fail.
func (env *Env) introspectModels(scene rec) map[string]absint.Model {
	out := map[string]absint.Model{}
	current, _ := scene["CurrentSchema"].(string)
	name := func(m string) string { return "(*" + env.P.Module + "/ddl.DatabaseIntrospector)." + m }
	out[name("GetCurrentSchema")] = func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
		return []absint.Outcome{{Ret: absint.TupleV(absint.StrV(current), absint.NilErr())}, {Ret: absint.TupleV(absint.StrV(""), absint.FailErr("fail")), Fail: true}}
	}
	recs := func(v any) []rec {
		l, _ := v.(list)
		var out []rec
		for _, x := range l {
			if r, ok := x.(rec); ok {
				out = append(out, r)
			}
		}
		return out
	}
	// filter: what the filter field holds (known: whether that is known).
	filter := func(e *absint.Engine, c *absint.Call, s *absint.State, f string) (vals map[string]bool, known bool) {
		v := e.Field(s, c.Args[0], f)
		elems, ok := e.SliceElems(s, v)
		if !ok {
			return nil, false
		}
		vals = map[string]bool{}
		for _, x := range elems {
			t, one := absint.Text(x).One()
			if !one {
				return nil, false
			}
			vals[t] = true
		}
		if len(vals) == 0 {
			return nil, true
		}
		return vals, true
	}
	getter := func(m, field, schemaField, nameField, only, except string, all func() []rec) {
		fn := env.P.Method(ddlPkg, "DatabaseIntrospector", m)
		if fn == nil {
			return
		}
		t := fn.Signature.Results().At(0).Type()
		out[name(m)] = func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			fail := absint.Outcome{Ret: absint.TupleV(e.Zero(t), absint.FailErr("fail")), Fail: true}
			var got list
			exact := true
			pass := func(f, val string, want bool) bool {
				vals, known := filter(e, c, s, f)
				exact = exact && known
				return vals == nil || vals[val] == want
			}
			for _, r := range all() {
				sn, _ := r[schemaField].(string)
				nn, _ := r[nameField].(string)
				if !pass("Schemas", sn, true) || !pass("ExcludeSchemas", sn, false) || only != "" && !pass(only, nn, true) || except != "" && !pass(except, nn, false) {
					continue
				}
				if ct, ok := r["ConstraintType"].(string); ok && !pass("ConstraintTypes", ct, true) {
					continue
				}
				if field == "" {
					got = append(got, nn)
				} else {
					got = append(got, r)
				}
			}
			if !exact {
				return []absint.Outcome{{Ret: absint.TupleV(e.Unknown(t), absint.NilErr())}, fail}
			}
			v := env.build(e, s, t, got, m)
			return []absint.Outcome{{Ret: absint.TupleV(v, absint.NilErr())}, fail}
		}
	}
	of := func(kind string) func() []rec {
		return func() []rec {
			var out []rec
			for _, sc := range recs(scene["Schemas"]) {
				out = append(out, recs(sc[kind])...)
			}
			return out
		}
	}
	inTables := func(kind string) func() []rec {
		return func() []rec {
			var out []rec
			for _, sc := range recs(scene["Schemas"]) {
				for _, t := range recs(sc["Tables"]) {
					for _, r := range recs(t[kind]) {
						out = append(out, also(rec{"TableSchema": "", "TableName": t["TableName"]}, r))
						if ts, ok := t["TableSchema"]; ok {
							out[len(out)-1]["TableSchema"] = ts
						}
					}
				}
			}
			return out
		}
	}
	getter("GetTables", "Tables", "TableSchema", "TableName", "Tables", "ExcludeTables", of("Tables"))
	getter("GetViews", "Views", "ViewSchema", "ViewName", "Views", "ExcludeViews", of("Views"))
	getter("GetRoutines", "Routines", "RoutineSchema", "RoutineName", "Routines", "ExcludeRoutines", of("Routines"))
	getter("GetEnums", "Enums", "EnumSchema", "EnumName", "Enums", "ExcludeEnums", of("Enums"))
	getter("GetDomains", "Domains", "DomainSchema", "DomainName", "Domains", "ExcludeDomains", of("Domains"))
	getter("GetConstraints", "Constraints", "TableSchema", "TableName", "Tables", "ExcludeTables", inTables("Constraints"))
	getter("GetIndexes", "Indexes", "TableSchema", "TableName", "Tables", "ExcludeTables", inTables("Indexes"))
	getter("GetColumns", "Columns", "TableSchema", "TableName", "Tables", "ExcludeTables", inTables("Columns"))
	getter("GetTriggers", "Triggers", "TableSchema", "TableName", "Tables", "ExcludeTables", inTables("Triggers"))
	getter("GetExtensions", "", "", "name", "Extensions", "ExcludeExtensions", func() []rec {
		var out []rec
		l, _ := scene["Extensions"].(list)
		for _, x := range l {
			out = append(out, rec{"name": x})
		}
		return out
	})
	return out
}

func merged(ms ...map[string]absint.Model) map[string]absint.Model {
	out := map[string]absint.Model{}
	for _, m := range ms {
		for k, v := range m {
			out[k] = v
		}
	}
	return out
}

// known gives the texts a string is known to contain: whole values, the known
// beginning and end and the constant pieces.
func known(v *AV) string {
	var parts []string
	parts = append(parts, v.Consts...)
	parts = append(parts, v.Pre...)
	parts = append(parts, v.Suf)
	parts = append(parts, v.Frags.Names()...)
	sort.Strings(parts)
	return strings.Join(parts, "\x00")
}

// zeroHidden gives unexported fields the value they have in a command built by
// a caller of the library.
func (env *Env) zeroHidden(e *absint.Engine, cmd string, set map[string]*AV) {
	str := env.P.Type(ddlPkg, cmd).Underlying().(*types.Struct)
	for i := 0; i < str.NumFields(); i++ {
		if f := str.Field(i); !f.Exported() && set[f.Name()] == nil {
			set[f.Name()] = e.Zero(f.Type())
		}
	}
}
