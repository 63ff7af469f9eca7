package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C23", Technique: "interval and nil analysis of index, slice and dereference instructions on the paths malformed texts and descriptions take", Run: runC23,
		Explain: "The functions that take texts from outside (struct tag modifiers, column types and defaults, argument lists, parametrised queries, subset queries, names, DSNs) are analysed for representatives of every kind of malformed text (empty, separators only, opening without closing, closing without or before opening, cut off at each special character, non-ASCII), and introspection, the subsetter and the migration generator for catalogs whose parts don't fit together (keys of columns that don't exist, keys and indexes without columns, references to tables or columns that don't exist). " +
			"On paths on which every branch taken is determined, no index may be negative or beyond the length of what is indexed, no slice may have bounds out of order or out of range, and no nil pointer may be dereferenced. " +
			"Not covered: texts of other shapes, paths behind a branch on something unknown (rows read from a database), CSV parsing, struct parsing from Go files, conversions and type assertions, panics raised on purpose."})
}

// panicMon: Q is "?" once a branch on something unknown was taken.
type panicMon struct {
	absint.Base
	what string
	rule string // C23 if empty
	hits map[string]bool
	res  *Result
}

func (m *panicMon) report(e *absint.Engine, in ssa.Instruction, fn *ssa.Function, ctx *absint.Ctx, s *absint.State, msg string) {
	if s.Q == "" {
		rule := "C23"
		if m.rule != "" {
			rule = m.rule
		}
		e.Report(rule, in, ctx, msg+" "+m.what)
		s.Q = "?"
	}
}

func (m *panicMon) Instr(e *absint.Engine, in ssa.Instruction, fn *ssa.Function, ctx *absint.Ctx, s *absint.State) {
	switch in := in.(type) {
	case *ssa.If:
		if v := e.Val(s, in.Cond); v.K != absint.Bool || v.B == absint.MayTrue|absint.MayFalse || v.B == 0 {
			if b, ok := in.Cond.(*ssa.BinOp); ok && isErr(b.X.Type()) && b.Y.String() == "nil:error" {
				return // a call may fail or not
			}
			if s.Q == "" {
				m.res.note("undecided_branches", e.Pos(absint.InstrPos(in.Cond.(ssa.Instruction)))+" "+in.Cond.String())
			}
			s.Q = "?"
		}
	case *ssa.Index:
		m.index(e, in, fn, ctx, s, in.X, in.Index)
	case *ssa.IndexAddr:
		m.index(e, in, fn, ctx, s, in.X, in.Index)
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			m.index(e, in, fn, ctx, s, in.X, in.Index)
		}
	case *ssa.Slice:
		n, exact := lengthOf(e.Val(s, in.X))
		isStr := false
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			isStr = true
		}
		lo, hi := int64(0), int64(-1)
		okLo, okHi := true, false
		if in.Low != nil {
			lo, okLo = e.Val(s, in.Low).IntConst()
		}
		if in.High != nil {
			hi, okHi = e.Val(s, in.High).IntConst()
		} else if exact {
			hi, okHi = n, true
		}
		m.res.note("slices", e.Pos(in.Pos()))
		switch {
		case okLo && lo < 0:
			m.report(e, in, fn, ctx, s, fmt.Sprintf("slice from %d", lo))
		case in.High != nil && okHi && hi < 0:
			m.report(e, in, fn, ctx, s, fmt.Sprintf("slice up to %d", hi))
		case okLo && okHi && lo > hi:
			m.report(e, in, fn, ctx, s, fmt.Sprintf("slice from %d up to %d", lo, hi))
		case isStr && exact && okHi && hi > n:
			m.report(e, in, fn, ctx, s, fmt.Sprintf("slice up to %d of a text of length %d", hi, n))
		}
	case *ssa.FieldAddr:
		m.deref(e, in, fn, ctx, s, in.X)
	case *ssa.UnOp:
		if in.Op.String() == "*" {
			m.deref(e, in, fn, ctx, s, in.X)
		}
	case *ssa.Store:
		m.deref(e, in, fn, ctx, s, in.Addr)
	case *ssa.MapUpdate:
		if e.Val(s, in.Map).MustNil() {
			m.report(e, in, fn, ctx, s, "assignment to an entry of a nil map")
		}
	}
}

func (m *panicMon) deref(e *absint.Engine, in ssa.Instruction, fn *ssa.Function, ctx *absint.Ctx, s *absint.State, x ssa.Value) {
	m.res.note("dereferences", e.Pos(in.Pos()))
	if e.Val(s, x).MustNil() {
		m.report(e, in, fn, ctx, s, "dereference of a nil pointer")
	}
}

func (m *panicMon) index(e *absint.Engine, in ssa.Instruction, fn *ssa.Function, ctx *absint.Ctx, s *absint.State, x, i ssa.Value) {
	m.res.note("indexings", e.Pos(in.Pos()))
	k := e.Val(s, i)
	if k.K != absint.Int {
		return
	}
	if k.Hi < 0 {
		m.report(e, in, fn, ctx, s, fmt.Sprintf("index %d", k.Hi))
		return
	}
	if _, ok := x.Type().Underlying().(*types.Pointer); ok {
		return // an array
	}
	if n, ok := lengthOf(e.Val(s, x)); ok && k.Lo >= n {
		m.report(e, in, fn, ctx, s, fmt.Sprintf("index %d of something of length %d", k.Lo, n))
	}
}

func isErr(t types.Type) bool { return types.TypeString(t, nil) == "error" }

// lengthOf is the length of a string or slice, if known.
func lengthOf(v *AV) (int64, bool) {
	switch v.K {
	case absint.Str:
		if t, ok := v.One(); ok {
			return int64(len(t)), true
		}
	case absint.Slice:
		if v.MustNil() {
			return 0, true
		}
		if len(v.Consts) == 1 {
			return int64(len(v.Consts[0])), true
		}
	default:
		return 0, false
	}
	return v.Lo, v.Lo == v.Hi
}

var (
	modTexts = []string{"", " ", "=", "a", "a=", "a= ", "a= b", ":", "a:", "a:b", ",:a", "=b", "{", "}", "{}", "a={", "a=}", "a={}", "a={ }", "a={b", "a={b}c", "a={{b}", "a={b} c={", "a=b=c", "a={b c={d e}}", "a={b} ", "é={é}", "a={é", "a=} b", "a}={"}
	typTexts = []string{"", " ", "(", ")", "()", ")(", "a(", "a)", "a)(", "a(1", "a(1,", "a(,)", "a(1,2)", "a((", "a))", "(1)", "[]", "[", "]", "a[]", "a(1)[]", "a unsigned", "unsigned", " unsigned", "timestamp(", "timestamp(3) with time zone", "é", "é(é)", ")é("}
	defTexts = []string{"", " ", "'", "''", "(", ")", "()", "::", "'::", "'a'::text", "a::", "(a", "a)", "((a))", "é", "1", "-", "+"}
	argTexts = []string{"", ",", ",,", "'", "''", "'''", "'a", "[", "]", "(", ")", "a,b", "(a,b", "a,b)", "'a,''b',c", "é,é", "[a,", "a,"}
	parTexts = []string{"", "?", "??", "? ?", "? ? ", "?1", "?0", "?2", "?99999999999999999999", "?a", "$", "$ ", "$1", "$0", "$2", "$a", ":", ":a", "@", "@p", "@p ", "@p1", "@p0", "@p2", "@a", "'", "'?", "'?' ?", "''", "\"", "[", "[?", "]", "`", "`?", "?é", "é?", "$é"}
	subTexts = []string{"", "{", "}", "{}", "{*", "{*}", "{t}", "{t}{*}", "{*}{*}", "{t}{t}", "{{", "{{}", "}{", "a{", "SELECT 1", "SELECT {*} FROM {t}", "SELECT {*} FROM {x}", "SELECT {*} FROM {s.t}", "SELECT {*} FROM {.}", "SELECT {*} FROM {t.}", "SELECT {*} FROM {}", "SELECT {*} FROM {t} {", "SELECT {*} FROM t", "SELECT * FROM {t}", "FROM {t} SELECT {*}", "SELECT {*} FROM {t} WHERE {{a}", "SELECT {*} FROM {nokey}", "SELECT {*} FROM {gone}", "é{"}
	dsnTexts = []string{"", ":", "?", "://", "file:", "file:?", "file://", "file:x", "sqlite:", "sqlite3:", "sqlite://", "postgres://", "mysql:", "mysql://", "sqlserver://", "@tcp(", "@unix(", ".db", ".sqlite?", "é"}
	nameText = []string{"", "t", " ", "é", strings.Repeat("a", 63), strings.Repeat("a", 100), strings.Repeat("é", 40), "\"", "]", "a b"}
)

// textCalls are the functions and the arguments they are analysed with.
type textCall struct {
	recv, fn string
	args     func(env *Env, e *absint.Engine, st *absint.State, fn *ssa.Function, d, t string) []*AV
	texts    []string
	perD     bool
}

func textArg(env *Env, e *absint.Engine, st *absint.State, fn *ssa.Function, d, t string) []*AV {
	return []*AV{absint.StrV(t)}
}

func dialectTextArg(env *Env, e *absint.Engine, st *absint.State, fn *ssa.Function, d, t string) []*AV {
	return []*AV{absint.StrV(d), absint.StrV(t)}
}

func textCalls() []textCall {
	byParams := func(vs func(env *Env, e *absint.Engine, st *absint.State, d, t string) []any) func(env *Env, e *absint.Engine, st *absint.State, fn *ssa.Function, d, t string) []*AV {
		return func(env *Env, e *absint.Engine, st *absint.State, fn *ssa.Function, d, t string) []*AV {
			var out []*AV
			for i, v := range vs(env, e, st, d, t) {
				if i < len(fn.Params) {
					out = append(out, env.build(e, st, fn.Params[i].Type(), v, fmt.Sprintf("arg%d", i)))
				}
			}
			return out
		}
	}
	one := func(n int) list {
		l := list{}
		for i := 0; i < n; i++ {
			v := absint.StrV("v")
			l = append(l, &AV{K: absint.Iface, Nil: absint.MayNonNil, Dyn: []absint.Dyn{{T: types.Typ[types.String], V: v}}})
		}
		return l
	}
	cs := []textCall{
		{"", "NewModifiers", textArg, modTexts, false},
		{"Modifier", "ParseRawValue", byParams(func(env *Env, e *absint.Engine, st *absint.State, d, t string) []any {
			return []any{rec{"Name": "a", "RawValue": t}}
		}), modTexts, false},
		{"", "normalizeColumnType", dialectTextArg, typTexts, true},
		{"", "normalizeColumnDefault", dialectTextArg, defTexts, true},
		{"", "isLiteral", textArg, defTexts, false},
		{"", "wrapBrackets", textArg, defTexts, false},
		{"", "unwrapBrackets", textArg, defTexts, false},
		{"", "wrappedInBrackets", textArg, defTexts, false},
		{"", "splitArgs", textArg, argTexts, false},
		{"", "needsQuoting", textArg, nameText, false},
		{"", "QuoteIdentifier", dialectTextArg, nameText, true},
		{"", "EscapeQuote", byParams(func(env *Env, e *absint.Engine, st *absint.State, d, t string) []any {
			return []any{t, int('\'')}
		}), append(argTexts, nameText...), false},
		{"", "NormalizeDSN", textArg, dsnTexts, false},
	}
	for n := 0; n < 3; n++ {
		cs = append(cs, textCall{"", "Sprintf", byParams(func(env *Env, e *absint.Engine, st *absint.State, d, t string) []any {
			return []any{d, t, one(n)}
		}), parTexts, true})
	}
	for _, k := range []string{"", "PRIMARY KEY", "FOREIGN KEY", "UNIQUE", "INDEX", "CHECK"} {
		for _, cols := range []list{{}, {""}, {strings.Repeat("b", 80)}, {"é", "b"}} {
			cs = append(cs, textCall{"", "GenerateName", byParams(func(env *Env, e *absint.Engine, st *absint.State, d, t string) []any {
				return []any{k, t, cols}
			}), nameText, false})
		}
	}
	return cs
}

func runC23(env *Env) *Result {
	var jobs []job
	for i, c := range textCalls() {
		fn := env.P.Func(ddlPkg, c.fn)
		if c.recv != "" {
			fn = env.P.Method(ddlPkg, c.recv, c.fn)
		}
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		jobs = append(jobs, job{fmt.Sprintf("%s/%d", c.fn, i), func(res *Result) {
			ds := []string{""}
			if c.perD {
				ds = dialects
			}
			for _, d := range ds {
				for _, t := range c.texts {
					env.callText(res, fn, c, d, t)
				}
			}
		}})
	}
	for _, d := range dialects {
		jobs = append(jobs, job{"subset/" + d, func(res *Result) {
			for _, t := range subTexts {
				env.subsetText(res, d, t)
			}
		}})
		for name, sc := range oddScenes() {
			jobs = append(jobs, job{"catalog/" + d + "/" + name, func(res *Result) { env.oddCatalog(res, d, name, sc) }})
		}
	}
	r := env.runJobs(jobs)
	r.need("determined", 10)
	r.need("indexings", 1)
	return r
}

func (env *Env) panicEngine(res *Result, what string) (*absint.Engine, *absint.State) {
	e := env.newEngine()
	e.Few, e.PerIter, e.EveryLoop = 128, true, true
	e.Mon = &panicMon{what: what, res: res}
	return e, &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
}

func (env *Env) callText(res *Result, fn *ssa.Function, c textCall, d, t string) {
	e, st := env.panicEngine(res, fmt.Sprintf("for the text %q", t))
	args := c.args(env, e, st, fn, d, t)
	if len(args) != len(fn.Params) {
		res.note("undetermined", fn.Name())
		return
	}
	outs := e.RunFn(fn, args, nil, "", st.Heap, e.RootCtx.Child(nil, fn))
	env.tally(res, e, fn, fmt.Sprintf("%s %s %q", fn.Name(), d, t), outs)
}

func (env *Env) tally(res *Result, e *absint.Engine, fn *ssa.Function, name string, outs []*absint.Out) {
	res.noteEngine(e)
	res.note("functions", fn.Name())
	ok := len(outs) > 0
	for _, o := range outs {
		if o.Q != "" {
			ok = false
		}
	}
	if ok {
		res.note("determined", name)
	} else {
		res.note("partly_determined", name)
		debugf("partly: %s\n", name)
	}
}

// subsetText: the subsetter with a catalog that has a table with a key, one
// without and one whose key has a column that doesn't exist.
func (env *Env) subsetText(res *Result, d, t string) {
	fn := env.P.Method(ddlPkg, "Subsetter", "Subset")
	mk := env.P.Func(ddlPkg, "NewCatalogCache")
	named := env.P.Type(ddlPkg, "Subsetter")
	if fn == nil || mk == nil || named == nil {
		return
	}
	e, st := env.panicEngine(res, fmt.Sprintf("for the subset query %q", t))
	col := func(n string) rec { return rec{"TableName": "t", "ColumnName": n, "ColumnType": "INT"} }
	key := func(tab string, cols ...any) rec {
		return rec{"TableName": tab, "ConstraintName": tab + "_pkey", "ConstraintType": "PRIMARY KEY", "Columns": list(cols)}
	}
	cat := env.build(e, st, types.NewPointer(env.P.Type(ddlPkg, "Catalog")), rec{"Dialect": d, "Schemas": list{rec{"Tables": list{
		rec{"TableName": "t", "Columns": list{col("a"), col("b")}, "Constraints": list{key("t", "a")}},
		rec{"TableName": "nokey", "Columns": list{col("a")}},
		rec{"TableName": "gone", "Columns": list{col("a")}, "Constraints": list{key("gone", "z")}},
	}}}}, "catalog")
	for _, o := range e.RunFn(mk, []*AV{cat}, nil, "", st.Heap, e.RootCtx.Child(nil, mk)) {
		s := &absint.State{Heap: o.Heap}
		id := e.Obj("root:ss", nil, "", named, named.Obj().Pos())
		s.Heap[id] = &absint.Obj{V: env.cmdValue(e, s, "Subsetter", named, map[string]*AV{"dialect": absint.StrV(d), "catalog": cat, "cache": o.Ret})}
		outs := e.RunFn(fn, []*AV{absint.PtrV(absint.Ref{O: id}), absint.StrV(t)}, nil, "", s.Heap, e.RootCtx.Child(nil, fn))
		env.tally(res, e, fn, fmt.Sprintf("Subset %s %q", d, t), outs)
	}
}

// oddScenes are catalogs whose parts don't fit together.
func oddScenes() map[string]rec {
	tab := func(cons list, idx list) rec {
		return rec{"Schemas": list{rec{"Tables": list{
			rec{"TableName": "t", "Columns": list{rec{"TableName": "t", "ColumnName": "a", "ColumnType": "INT"}}, "Constraints": cons, "Indexes": idx},
		}}}}
	}
	con := func(typ string, cols list, more rec) list {
		r := rec{"TableName": "t", "ConstraintName": "c", "ConstraintType": typ, "Columns": cols}
		for k, v := range more {
			r[k] = v
		}
		return list{r}
	}
	out := map[string]rec{
		"empty":          {},
		"no tables":      {"Schemas": list{rec{}}},
		"no columns":     {"Schemas": list{rec{"Tables": list{rec{"TableName": "t"}}}}},
		"nameless":       {"Schemas": list{rec{"Tables": list{rec{"TableName": "", "Columns": list{rec{"ColumnName": ""}}}}}}},
		"odd type":       {"Schemas": list{rec{"Tables": list{rec{"TableName": "t", "Columns": list{rec{"TableName": "t", "ColumnName": "a", "ColumnType": "x)("}}}}}}},
		"index, none":    tab(nil, list{rec{"TableName": "t", "IndexName": "i"}}),
		"index, unknown": tab(nil, list{rec{"TableName": "t", "IndexName": "i", "Columns": list{"z"}}}),
	}
	for _, k := range []string{"PRIMARY KEY", "UNIQUE", "FOREIGN KEY", "CHECK", "EXCLUDE"} {
		out[k+", no columns"] = tab(con(k, list{}, nil), nil)
		out[k+", unknown column"] = tab(con(k, list{"z"}, rec{"ReferencesTable": "t", "ReferencesColumns": list{"a"}}), nil)
	}
	out["reference to nothing"] = tab(con("FOREIGN KEY", list{"a"}, rec{}), nil)
	out["reference to unknown table"] = tab(con("FOREIGN KEY", list{"a"}, rec{"ReferencesTable": "u", "ReferencesColumns": list{"a"}}), nil)
	return out
}

func (env *Env) oddCatalog(res *Result, d, name string, sc rec) {
	what := "for a catalog with " + name
	cat := types.NewPointer(env.P.Type(ddlPkg, "Catalog"))
	if fn := env.P.Method(ddlPkg, "GenerateCmd", "Results"); fn != nil {
		for _, p := range [][2]rec{{rec{}, sc}, {sc, rec{}}, {sc, sc}} {
			e, st := env.panicEngine(res, what)
			e.Models = merged(env.quotesFor(d))
			set := map[string]*AV{
				"Dialect": absint.StrV(d), "Prefix": absint.StrV("gen"), "DropObjects": absint.True(), "HistoryTable": absint.StrV("history"),
				"SrcCatalog":  env.build(e, st, cat, withDialect(p[0], d), "src"),
				"DestCatalog": env.build(e, st, cat, withDialect(p[1], d), "dest"),
			}
			env.zeroHidden(e, "GenerateCmd", set)
			named := env.P.Type(ddlPkg, "GenerateCmd")
			id := e.Obj("root:GenerateCmd", nil, "", named, named.Obj().Pos())
			st.Heap[id] = &absint.Obj{V: env.cmdValue(e, st, "GenerateCmd", named, set)}
			outs := e.RunFn(fn, []*AV{absint.PtrV(absint.Ref{O: id})}, nil, "", st.Heap, e.RootCtx.Child(nil, fn))
			env.tally(res, e, fn, "generate "+d+" "+name, outs)
		}
	}
	if fn := env.P.Method(ddlPkg, "DatabaseIntrospector", "WriteCatalog"); fn != nil {
		e, st := env.panicEngine(res, what)
		e.Models = merged(env.quotesFor(d), env.introspectModels(sc), env.versionModel("15.2"))
		named := env.P.Type(ddlPkg, "DatabaseIntrospector")
		id := e.Obj("root:dbi", nil, "", named, named.Obj().Pos())
		st.Heap[id] = &absint.Obj{V: env.cmdValue(e, st, "DatabaseIntrospector", named, map[string]*AV{"Dialect": absint.StrV(d), "Filter": env.build(e, st, env.P.Type(ddlPkg, "Filter"), rec{}, "filter")})}
		outs := e.RunFn(fn, []*AV{absint.PtrV(absint.Ref{O: id}), env.build(e, st, cat, rec{"Dialect": d}, "catalog")}, nil, "", st.Heap, e.RootCtx.Child(nil, fn))
		env.tally(res, e, fn, "WriteCatalog "+d+" "+name, outs)
	}
}
