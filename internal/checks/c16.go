package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C16", Technique: "abstract interpretation of the copy over catalogs with every field filled in; comparison of the reachable abstract objects", Run: runC16,
		Explain: "(*Catalog).WriteCatalog is analysed for catalogs described by walking the declared types, so that every field of every object kind holds a value of its own: into an empty catalog and into one that has the same objects with other attributes; flags set and unset; ignored objects; unnamed constraints; equal names in two schemas; overloaded routines; objects declared again after being ignored. " +
			"Rules kept: every-field-transferred (each field of the destination holds what the source's does), nothing-invented (no further objects), source-untouched, nothing-shared (no slice, map or pointer reachable from the destination is reachable from the source). Values the analysis can't determine are listed as undetermined. " +
			"Not covered: catalogs with more than two objects of a kind; slices grown in place of a destination that had spare capacity."})
}

// filler describes catalogs by their types.
type filler struct {
	dialect string
	flag    bool // value of the bools
	ignore  bool // value of Ignore
	n       int  // elements of lists
	suffix  string
	special func(path string, typ string, r rec)
}

func (f filler) fill(t types.Type, path string, up map[string]string) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return path + f.suffix
		case u.Info()&types.IsBoolean != 0:
			return f.flag
		case u.Info()&types.IsInteger != 0:
			return len(path)
		}
	case *types.Slice:
		var l list
		for i := 0; i < f.n; i++ {
			if x := f.fill(u.Elem(), fmt.Sprintf("%s[%d]", path, i), up); x != nil {
				l = append(l, x)
			}
		}
		return l
	case *types.Map:
		return dict{"key of " + path: path + f.suffix}
	case *types.Struct:
		r := rec{}
		typ := types.TypeString(t, func(*types.Package) string { return "" })
		own := map[string]string{}
		for k, v := range up {
			own[k] = v
		}
		name := typ + "Name"
		switch typ {
		case "Schema":
			own["Schema"] = path + "." + name
		case "Table", "View":
			own["Table"] = path + "." + name
		}
		for i := 0; i < u.NumFields(); i++ {
			fl := u.Field(i)
			fp := path + "." + fl.Name()
			switch {
			case fl.Name() == "Ignore":
				r[fl.Name()] = f.ignore
			case fl.Name() == name:
				r[fl.Name()] = fp // names identify: no suffix
			case fl.Name() == "TableName":
				r[fl.Name()] = own["Table"]
			case fl.Name() == "TableSchema" || fl.Name() == typ+"Schema":
				r[fl.Name()] = own["Schema"]
			case fl.Name() == "Dialect":
				r[fl.Name()] = f.dialect
			case fl.Name() == "IdentityArguments":
				if r[fl.Name()] = fp; f.dialect != "postgres" {
					r[fl.Name()] = ""
				}
			case fl.Name() == "ConstraintType":
				r[fl.Name()] = []string{"PRIMARY KEY", "FOREIGN KEY"}[strings.Count(path, "[1]")&1]
			default:
				if x := f.fill(fl.Type(), fp, own); x != nil {
					r[fl.Name()] = x
				}
			}
		}
		if f.special != nil {
			f.special(path, typ, r)
		}
		return r
	}
	return nil
}

// copyScene is a pair of catalogs to copy one into the other.
type copyScene struct {
	name      string
	src, dest func(env *Env, d string) rec
}

func (env *Env) filled(f filler) rec {
	return f.fill(env.P.Type(ddlPkg, "Catalog"), "c", map[string]string{}).(rec)
}

func onlyFor(typ string, g func(r rec)) func(path, t string, r rec) {
	return func(_, t string, r rec) {
		if t == typ {
			g(r)
		}
	}
}

var copyScenes = []copyScene{
	{"everything set", func(env *Env, d string) rec { return env.filled(filler{dialect: d, flag: true, n: 2}) }, nil},
	{"no flags", func(env *Env, d string) rec { return env.filled(filler{dialect: d, n: 2}) }, nil},
	{"everything ignored", func(env *Env, d string) rec { return env.filled(filler{dialect: d, flag: true, ignore: true, n: 2}) }, nil},
	{"one of each", func(env *Env, d string) rec { return env.filled(filler{dialect: d, flag: true, n: 1}) }, nil},
	{"nothing in it", func(env *Env, d string) rec { return rec{"Dialect": d} }, nil},
	{"unnamed constraints", func(env *Env, d string) rec {
		return env.filled(filler{dialect: d, n: 2, special: onlyFor("Constraint", func(r rec) { r["ConstraintName"] = "" })})
	}, nil},
	{"overloaded routines", func(env *Env, d string) rec {
		if d != "postgres" {
			return nil
		}
		return env.filled(filler{dialect: d, n: 2, special: onlyFor("Routine", func(r rec) { r["RoutineName"] = "f" })})
	}, nil},
	{"same names in two schemas", func(env *Env, d string) rec {
		c := env.filled(filler{dialect: d, flag: true, n: 2})
		return mapTexts(c, func(s string) string {
			if s == "c.Schemas[1].SchemaName" {
				return s
			}
			return strings.ReplaceAll(s, "Schemas[1].", "Schemas[0].")
		}).(rec)
	}, nil},
	{"declared again after being ignored", func(env *Env, d string) rec {
		return env.filled(filler{dialect: d, n: 2, special: func(_, typ string, r rec) {
			for _, k := range sortedKeys(r) {
				l, ok := r[k].(list)
				if !ok || len(l) != 2 {
					continue
				}
				first, ok := l[0].(rec)
				if !ok || k == "Schemas" {
					continue
				}
				second := rec{}
				for k, v := range first {
					second[k] = v
				}
				second["Comment"] = "the live one"
				first["Ignore"] = true
				r[k] = list{leaf(first), leaf(second)}
			}
		}})
	}, nil},
	{"into one with the same objects", func(env *Env, d string) rec {
		return env.filled(filler{dialect: d, flag: true, n: 2, special: viewParts})
	}, func(env *Env, d string) rec {
		return env.filled(filler{dialect: d, flag: true, n: 2, suffix: " before", special: viewParts})
	}},
	{"into one with the same objects, flags unset", func(env *Env, d string) rec {
		return env.filled(filler{dialect: d, n: 2, special: viewParts})
	}, func(env *Env, d string) rec {
		return env.filled(filler{dialect: d, n: 2, flag: true, suffix: " before", special: viewParts})
	}},
	{"into one with the first of the objects", func(env *Env, d string) rec {
		return env.filled(filler{dialect: d, flag: true, n: 2, special: viewParts})
	}, func(env *Env, d string) rec {
		return env.filled(filler{dialect: d, flag: true, n: 1, suffix: " before", special: viewParts})
	}},
}

// viewParts leaves materialized views their indexes and others their triggers.
func viewParts(path, typ string, r rec) {
	if typ != "View" {
		return
	}
	r["IsMaterialized"] = strings.HasSuffix(path, "[0]")
	if r["IsMaterialized"] == true {
		delete(r, "Triggers")
	} else {
		delete(r, "Indexes")
	}
}

// leaf leaves out the parts of an object: those of an ignored and a live table
// with one name aren't told apart.
func leaf(r rec) rec {
	n := rec{}
	for k, v := range r {
		if l, ok := v.(list); ok && len(l) > 0 {
			if _, ok := l[0].(rec); ok {
				continue
			}
		}
		n[k] = v
	}
	return n
}

func sortedKeys(r rec) []string {
	var ks []string
	for k := range r {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// mapTexts changes the texts of a description.
func mapTexts(x any, g func(string) string) any {
	switch y := x.(type) {
	case string:
		return g(y)
	case rec:
		n := rec{}
		for k, v := range y {
			n[k] = mapTexts(v, g)
		}
		return n
	case list:
		var n list
		for _, v := range y {
			n = append(n, mapTexts(v, g))
		}
		return n
	case dict:
		n := dict{}
		for k, v := range y {
			n[g(k)] = g(v)
		}
		return n
	}
	return x
}

func runC16(env *Env) *Result {
	var jobs []job
	for _, d := range dialects {
		for _, s := range copyScenes {
			if s.src(env, d) == nil {
				continue
			}
			name := d + ": " + s.name
			jobs = append(jobs, job{name, func(res *Result) { env.judgeCopy(res, name, d, s) }})
		}
	}
	res := env.runJobs(jobs)
	res.need("fields_compared", 1)
	return res
}

func (env *Env) judgeCopy(res *Result, name, d string, sc copyScene) {
	e := env.newEngine()
	e.Few, e.PerIter = 64, true
	fn := env.P.Method(ddlPkg, "Catalog", "WriteCatalog")
	if fn == nil {
		res.Err = fmt.Errorf("no Catalog.WriteCatalog")
		return
	}
	st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
	cat := env.P.Type(ddlPkg, "Catalog")
	ptr := types.NewPointer(cat)
	spec := sc.src(env, d)
	src := env.build(e, st, ptr, spec, "src")
	dspec := rec{}
	if sc.dest != nil {
		dspec = sc.dest(env, d)
	}
	dest := env.build(e, st, ptr, dspec, "dest")
	outs := e.RunFn(fn, []*AV{src, dest}, nil, "", st.Heap, e.RootCtx.Child(nil, fn))
	res.noteEngine(e)
	res.note("roots", "Catalog.WriteCatalog/"+name)
	done := false
	for _, o := range outs {
		if !o.Ret.MayBeNil() {
			continue
		}
		done = true
		s := &absint.State{Heap: o.Heap}
		cmp := &comparer{env: env, e: e, s: s, res: res, name: name}
		cmp.compare("", cat, e.Load(s, dest, cat), spec)
		for _, m := range cmp.diffs {
			res.violate(e, "every-field-transferred", fn, name+": "+m)
		}
		cmp.diffs = nil
		cmp.compare("", cat, e.Load(s, src, cat), spec)
		for _, m := range cmp.diffs {
			res.violate(e, "source-untouched", fn, name+": afterwards in the source "+m)
		}
		theirs := map[absint.ObjID]string{}
		cmp.reach("", cat, e.Load(s, src, cat), func(p string, o absint.ObjID) {
			if theirs[o] == "" {
				theirs[o] = p
			}
		})
		seen := map[string]bool{}
		cmp.reach("", cat, e.Load(s, dest, cat), func(p string, o absint.ObjID) {
			if q, ok := theirs[o]; ok && !seen[p] {
				seen[p] = true
				res.violate(e, "nothing-shared", fn, fmt.Sprintf("%s: the memory of %s is that of the source's %s", name, p, q))
			}
		})
		res.add("objects_of_the_source", len(theirs))
	}
	if !done && res.Err == nil {
		res.note("undetermined", name+": no result")
	}
}

// comparer compares abstract values with descriptions.
type comparer struct {
	env   *Env
	e     *absint.Engine
	s     *absint.State
	res   *Result
	name  string
	diffs []string
}

func (c *comparer) differ(path, format string, args ...any) {
	c.diffs = append(c.diffs, strings.TrimPrefix(path, ".")+" "+fmt.Sprintf(format, args...))
}

func (c *comparer) unknown(path string) {
	c.res.note("undetermined", c.name+": "+path)
	debugf("UNDETERMINED %s: %s\n", c.name, path)
}

func (c *comparer) compare(path string, t types.Type, v *AV, spec any) {
	c.res.note("fields_compared", path)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			want, _ := spec.(string)
			if got, ok := v.One(); !ok {
				c.unknown(path)
			} else if got != want {
				c.differ(path, "is %q instead of %q", got, want)
			}
		case u.Info()&types.IsBoolean != 0:
			want, _ := spec.(bool)
			if v.K != absint.Bool || v.B == absint.MayTrue|absint.MayFalse {
				c.unknown(path)
			} else if (v.B == absint.MayTrue) != want {
				c.differ(path, "is %v instead of %v", !want, want)
			}
		case u.Info()&types.IsInteger != 0:
			want, _ := spec.(int)
			if v.K != absint.Int || v.Lo != v.Hi {
				c.unknown(path)
			} else if v.Lo != int64(want) {
				c.differ(path, "is %d instead of %d", v.Lo, want)
			}
		}
	case *types.Slice:
		want, _ := spec.(list)
		got, exact := c.e.SliceElems(c.s, v)
		if !exact {
			c.unknown(path)
			return
		}
		if len(got) != len(want) {
			c.differ(path, "has %d elements instead of %d", len(got), len(want))
			return
		}
		for i := range got {
			c.compare(fmt.Sprintf("%s[%d]", path, i), u.Elem(), got[i], want[i])
		}
	case *types.Map:
		want, _ := spec.(dict)
		keys, vals, exact := c.e.MapEntries(c.s, v)
		if !exact {
			c.unknown(path)
			return
		}
		got := dict{}
		for i, k := range keys {
			t, ok := vals[i].One()
			if !ok {
				c.unknown(path)
				return
			}
			got[k] = t
		}
		if len(got) != len(want) {
			c.differ(path, "has %d entries instead of %d", len(got), len(want))
			return
		}
		for k, w := range want {
			if got[k] != w {
				c.differ(path, "has %q for %q instead of %q", got[k], k, w)
			}
		}
	case *types.Struct:
		want, _ := spec.(rec)
		if v.K != absint.Struct {
			c.unknown(path)
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			c.compare(path+"."+f.Name(), f.Type(), v.Elems[i], want[f.Name()])
		}
	}
}

// reach visits the objects a value certainly refers to.
func (c *comparer) reach(path string, t types.Type, v *AV, visit func(string, absint.ObjID)) {
	one := len(v.Refs) == 1 && !v.Unk
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if !one || v.Hi == 0 {
			return
		}
		visit(path, v.Refs[0].O)
		xs, _ := c.e.SliceElems(c.s, v)
		for i, x := range xs {
			c.reach(fmt.Sprintf("%s[%d]", path, i), u.Elem(), x, visit)
		}
	case *types.Map:
		if one {
			visit(path, v.Refs[0].O)
		}
	case *types.Pointer:
		if one && c.s.Heap[v.Refs[0].O] != nil {
			visit(path, v.Refs[0].O)
			c.reach(path, u.Elem(), c.e.Load(c.s, v, u.Elem()), visit)
		}
	case *types.Struct:
		if v.K == absint.Struct {
			for i := 0; i < u.NumFields(); i++ {
				c.reach(path+"."+u.Field(i).Name(), u.Field(i).Type(), v.Elems[i], visit)
			}
		}
	}
}
