package checks

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C18", Technique: "abstract evaluation of the embedded query templates for every filter combination, against the rows a filter admits and the columns the readers expect", Run: runC18,
		Explain: "Every method of the introspector is analysed per dialect to find out which embedded query it sends and which fields it reads the rows into. The query template is then evaluated for every combination of filters (included, excluded or no schemas, objects, other objects; constraint types; system catalogs; version conditions both ways), the resulting query is parsed and its conditions are evaluated in three values for rows of a schema and object that are, or aren't, what the filter asks for. " +
			"Rules: well-formed-for-every-filter (a filter must not make the query malformed or refer to unknown tables), no-excluded-rows, no-lost-rows, system-objects-only-on-request, constraint-types, columns-match-reader (same number in every part of a union; no column read into a field that another column is named after), nulls (a column of an optionally joined table, or of a function that may yield NULL, isn't read into a field that can't hold NULL), ordinary-names (names that merely resemble the system's aren't left out), versions (the usual version texts of each server are understood), list-rendering (the function rendering lists of names quotes each of them). " +
			"Not covered: whether the system tables referred to have the named columns, objects lost by inner joins, names that look like the system's in other ways. Templates with constructs other than conditions, lists and the functions in use are counted as undetermined."})
}

// reader is a query, by the name of its file, and the fields its rows are read into.
type reader struct {
	fn, d, file string
	fields      []scanField
}

type scanField struct {
	typ, name string
	strict    bool // can't hold NULL
}

// readerMon: Q is the file of the query that was sent.
type readerMon struct {
	absint.Base
	env  *Env
	dir  string
	seen map[string][]scanField
}

func (m *readerMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	for _, a := range c.Args {
		if t, ok := absint.Text(a).One(); ok && strings.HasSuffix(t, ".sql") && !strings.ContainsAny(t, "\n ") {
			if _, err := os.Stat(filepath.Join(m.dir, t)); err == nil {
				s.Q = t
			}
		}
	}
	if c.Name == "(*database/sql.Rows).Scan" && len(c.Args) > 1 {
		elems, exact := e.SliceElems(s, c.Args[1])
		if !exact || s.Q == "" {
			return true
		}
		var fs []scanField
		for _, x := range elems {
			fs = append(fs, scanTarget(e, x))
		}
		m.seen[s.Q] = fs
	}
	return true
}

// scanTarget is the struct field, or the variable, a pointer points to.
func scanTarget(e *absint.Engine, v *AV) scanField {
	var refs []absint.Ref
	refs = append(refs, v.Refs...)
	for _, d := range v.Dyn {
		refs = append(refs, d.V.Refs...)
	}
	if len(refs) != 1 {
		return scanField{}
	}
	info := e.Info(refs[0].O)
	f := scanField{}
	if al, ok := info.Site.(*ssa.Alloc); ok {
		f.name = al.Comment
	}
	t := info.T
	for _, r := range refs[0].P {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		i := int(r) - 1
		if !ok || i < 0 || i >= st.NumFields() {
			return scanField{}
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			f.typ = n.Obj().Name()
		} else {
			f.typ = ""
		}
		f.name = st.Field(i).Name()
		t = st.Field(i).Type()
	}
	_, f.strict = t.Underlying().(*types.Basic)
	return f
}

func (env *Env) readersOf(res *Result, fn *ssa.Function, d string) []reader {
	e := env.newEngine()
	m := &readerMon{env: env, dir: filepath.Join(env.P.Dir, ddlPkg), seen: map[string][]scanField{}}
	e.Mon = m
	named := env.P.Type(ddlPkg, "DatabaseIntrospector")
	st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
	args := env.apiArgs(e, st, fn)
	id := e.Obj("root:dbi", nil, "", named, named.Obj().Pos())
	st.Heap[id] = &absint.Obj{V: env.cmdValue(e, st, "DatabaseIntrospector", named, map[string]*AV{"Dialect": absint.StrV(d)})}
	args[0] = absint.PtrV(absint.Ref{O: id})
	e.RunFn(fn, args, nil, "", st.Heap, e.RootCtx.Child(nil, fn))
	res.noteEngine(e)
	var out []reader
	for f, fs := range m.seen {
		out = append(out, reader{fn.Name(), d, f, fs})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].file < out[j].file })
	return out
}

func runC18(env *Env) *Result {
	var jobs []job
	for _, d := range dialects {
		for _, fn := range env.introspectorMethods() {
			if fn.Signature.Results().Len() < 2 {
				continue // calls the others
			}
			jobs = append(jobs, job{fn.Name() + "/" + d, func(res *Result) {
				for _, r := range env.readersOf(res, fn, d) {
					env.judgeReader(res, r)
				}
			}})
		}
	}
	for _, d := range dialects {
		jobs = append(jobs, job{"versions/" + d, func(res *Result) { env.judgeVersions(res, d) }})
	}
	jobs = append(jobs, job{"lists", func(res *Result) { env.judgeLists(res) }})
	r := env.runJobs(jobs)
	r.need("queries", 1)
	r.need("combinations", 1)
	return r
}

// filters by the type a row is read into
var kindFilter = map[string][3]string{ // field of the schema, of the name, filter
	"Table": {"TableSchema", "TableName", "Tables"}, "Column": {"TableSchema", "TableName", "Tables"}, "Constraint": {"TableSchema", "TableName", "Tables"},
	"Index": {"TableSchema", "TableName", "Tables"}, "Trigger": {"TableSchema", "TableName", "Tables"}, "View": {"ViewSchema", "ViewName", "Views"},
	"Routine": {"RoutineSchema", "RoutineName", "Routines"}, "Enum": {"EnumSchema", "EnumName", "Enums"}, "Domain": {"DomainSchema", "DomainName", "Domains"},
}

var systemNames = map[string][]string{ // by dialect and what the name is of
	"postgres/schema": {"information_schema", "pg_catalog", "pg_toast"},
	"mysql/schema":    {"mysql", "information_schema", "performance_schema", "sys"},
	"sqlite/name":     {"sqlite_sequence", "sqlite_stat1"},
	"sqlserver/name":  {"spt_values", "MSreplication_options"},
}

// names that only look like those of the system
var ordinaryNames = map[string][]string{
	"postgres/schema":        {"pgadmin", "information_schema2"},
	"mysql/schema":           {"mysql2", "system"},
	"sqlite/name":            {"sqliterate"},
	"sqlserver/name":         {"sptable"},
	"sqlserver/name/Routine": {"spawn"},
}

var filterLists = []string{"Schemas", "Tables", "Views", "Routines", "Enums", "Domains", "Extensions"}

func (env *Env) judgeReader(res *Result, r reader) {
	path := filepath.Join(ddlPkg, r.file)
	b, err := os.ReadFile(filepath.Join(env.P.Dir, path))
	if err != nil {
		res.Err = err
		return
	}
	res.note("queries", r.file)
	bad := map[string]bool{}
	violate := func(rule, msg string) {
		if !bad[rule] {
			bad[rule] = true
			res.Violations = append(res.Violations, absint.Violation{Rule: "C18", Pos: path + ":1", Func: r.fn, Msg: rule + ": " + msg})
		}
	}
	tree := parse.New(r.file)
	tree.Mode = parse.SkipFuncCheck
	trees := map[string]*parse.Tree{}
	tree, err = tree.Parse(string(b), "", "", trees)
	if err != nil {
		violate("well-formed", err.Error())
		return
	}
	filter := env.P.Type(ddlPkg, "Filter")
	t := &tmplEval{env: env, filter: filter}
	// what the template depends on
	used := t.uses(tree.Root)
	for _, u := range setKeys(used.fields) {
		if obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(filter), true, filter.Obj().Pkg(), u); obj == nil {
			violate("well-formed", "the filter has no "+u)
			return
		}
	}
	if used.unknown != "" {
		res.note("undetermined", r.file+": "+used.unknown)
		return
	}
	// roles of the columns
	schema, name, kind, typ := -1, -1, "", ""
	view, ctype := -1, -1
	for i, f := range r.fields {
		k := kindFilter[f.typ]
		switch {
		case f.name == k[0]:
			schema = i
		case f.name == k[1]:
			name, kind, typ = i, k[2], f.typ
		case strings.HasPrefix(f.name, "IsView") && (f.typ == "Index" || f.typ == "Trigger"):
			view = i
		case f.typ == "Constraint" && f.name == "ConstraintType":
			ctype = i
		}
	}
	if kind == "" && len(r.fields) == 1 {
		for _, l := range filterLists[1:] {
			if used.fields[l] {
				name, kind = 0, l
			}
		}
	}
	var lists []string
	for _, l := range filterLists {
		if used.fields[l] || used.fields["Exclude"+l] || l == kind || l == "Schemas" && schema >= 0 {
			lists = append(lists, l)
		}
	}
	types_ := []string{""}
	if used.calls["IncludeConstraintType"] || ctype >= 0 {
		types_ = append(types_, "PRIMARY KEY", "UNIQUE", "FOREIGN KEY", "CHECK", "EXCLUDE")
	}
	n := 1
	for range lists {
		n *= 3
	}
	baseline := ""
	wellFormed := false
	for c := 0; c < n; c++ {
		set := map[string][]string{}
		state := map[string]byte{}
		for i, l, x := 0, lists, c; i < len(l); i, x = i+1, x/3 {
			v := map[bool]string{true: "s1", false: "n1"}[l[i] == "Schemas"]
			if l[i] != "Schemas" && kind != "" && l[i] != kind && !(l[i] == "Views" && view >= 0) {
				v = "other1"
			}
			switch x % 3 {
			case 1:
				set[l[i]] = []string{v, v + "x"}
				state[l[i]] = '+'
			case 2:
				set["Exclude"+l[i]] = []string{v, v + "x"}
				state[l[i]] = '-'
			}
		}
		for _, ct := range types_ {
			for sys := 0; sys < 2; sys++ {
				for free := 0; free < 1<<len(used.free); free++ {
					t.lists, t.sys, t.ctype = set, sys == 1, ct
					t.free = map[string]bool{}
					for i, f := range used.free {
						t.free[f] = free>>i&1 == 1
					}
					var out strings.Builder
					t.render(&out, tree.Root)
					if t.failed != "" {
						res.note("undetermined", r.file+": "+t.failed)
						return
					}
					res.note("combinations", fmt.Sprintf("%s %v %s %v %v", r.file, set, ct, sys, free))
					sel, err := parseQuery(out.String())
					what := describe(state)
					if err != nil {
						debugf("%s: %v\n", r.file, err)
						if wellFormed {
							violate("well-formed", "the query is malformed "+what+": "+err.Error())
						} else {
							res.note("undetermined", r.file+": "+err.Error())
						}
						if baseline == "" {
							return
						}
						continue
					}
					wellFormed, baseline = true, out.String()
					sel.unresolved(nil, func(n string) {
						violate("well-formed", "the query refers to "+n+", which isn't part of it, "+what)
					})
					for _, b := range sel.branches {
						if !sel.star() && len(b.items) != len(r.fields) {
							violate("columns", fmt.Sprintf("the query yields %d columns, its reader expects %d", len(b.items), len(r.fields)))
						}
					}
					if len(sel.branches[0].items) == len(r.fields) {
						swapped(sel, r.fields, violate)
						for i, f := range r.fields {
							if f.strict && sel.nullable(i) {
								violate("nulls", fmt.Sprintf("column %s can be NULL, which %s can't hold", sel.branches[0].items[i].name, f.name))
							}
						}
					}
					env.judgeRows(res, r, sel, rowRoles{schema, name, view, ctype, kind, typ, "0"}, state, ct, sys == 1, what, violate)
					if view >= 0 && used.fields["Views"] {
						env.judgeRows(res, r, sel, rowRoles{schema, name, view, ctype, "Views", typ, "1"}, state, ct, sys == 1, what, violate)
					}
				}
			}
		}
	}
}

func describe(state map[string]byte) string {
	var parts []string
	for _, l := range filterLists {
		switch state[l] {
		case '+':
			parts = append(parts, l)
		case '-':
			parts = append(parts, "Exclude"+l)
		}
	}
	if len(parts) == 0 {
		return "without filters"
	}
	return "with " + strings.Join(parts, " and ")
}

type rowRoles struct {
	schema, name, view, ctype int
	kind, typ, isView         string
}

func (env *Env) judgeRows(res *Result, r reader, sel *qSel, ro rowRoles, state map[string]byte, ct string, sys bool, what string, violate func(rule, msg string)) {
	bind := func(s, n, typ string) map[int]string {
		b := map[int]string{}
		if ro.schema >= 0 {
			b[ro.schema] = s
		}
		if ro.name >= 0 {
			b[ro.name] = n
		}
		if ro.view >= 0 {
			b[ro.view] = ro.isView
		}
		if ro.ctype >= 0 && typ != "" {
			b[ro.ctype] = typ
		}
		return b
	}
	if ro.name < 0 && ro.schema < 0 {
		return
	}
	allowed := func(l, v, listed string) bool {
		switch state[l] {
		case '+':
			return v == listed
		case '-':
			return v != listed
		}
		return true
	}
	for _, s := range []string{"s1", "s2"} {
		for _, n := range []string{"n1", "n2"} {
			want := (ro.schema < 0 || allowed("Schemas", s, "s1")) && (ro.kind == "" || allowed(ro.kind, n, "n1"))
			can := sel.feasible(bind(s, n, ct))
			res.note("rows_judged", r.file)
			switch {
			case can && !want:
				violate("excluded-rows", "rows the filter doesn't admit are not left out "+what)
			case !can && want && !(ct == "EXCLUDE" && r.d != "postgres") && !(ct == "CHECK" && (r.d == "sqlite" || r.d == "mysql")):
				violate("lost-rows", "rows the filter admits are left out "+what)
			}
		}
	}
	if ro.ctype >= 0 && ct != "" {
		for _, other := range []string{"PRIMARY KEY", "UNIQUE", "FOREIGN KEY", "CHECK", "EXCLUDE"} {
			if other != ct && len(state) == 0 && sel.feasible(bind("s1", "n1", other)) {
				violate("constraint-types", other+" constraints are included although only "+ct+" constraints are asked for")
			}
		}
	}
	if len(state) > 0 {
		return
	}
	for _, k := range []string{"schema", "name"} {
		for _, n := range append(ordinaryNames[r.d+"/"+k], ordinaryNames[r.d+"/"+k+"/"+ro.typ]...) {
			s := "s1"
			if k == "schema" {
				if ro.schema < 0 {
					continue
				}
				s, n = n, "n1"
			}
			if ct == "" && !sel.feasible(bind(s, n, "")) {
				violate("ordinary-names", "objects like "+strings.TrimPrefix(s+"."+n, "s1.")+" are left out as if they were the system's")
			}
		}
		for _, n := range systemNames[r.d+"/"+k] {
			if r.d == "sqlserver" && ro.typ == "Routine" {
				n = "sp_helptext"
			}
			s := "s1"
			if k == "schema" {
				if ro.schema < 0 {
					continue
				}
				s, n = n, "n1"
			}
			can := sel.feasible(bind(s, n, ct))
			switch {
			case can && !sys:
				violate("system-objects", "objects of the system ("+strings.TrimPrefix(s+"."+n, "s1.")+") are included without having been asked for")
			case !can && sys && ct == "":
				violate("system-objects-lost", "objects of the system are left out although they were asked for")
			}
		}
	}
}

// swapped: a column is read into a field another column is named after.
func swapped(sel *qSel, fields []scanField, violate func(rule, msg string)) {
	norm := func(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }
	items := sel.branches[0].items
	for i, f := range fields {
		if f.name == "" || norm(items[i].name) == norm(f.name) {
			continue
		}
		for j := range items {
			if j != i && norm(items[j].name) == norm(f.name) {
				violate("columns", fmt.Sprintf("%s is read into %s, while there is a column %s", items[i].name, f.name, items[j].name))
			}
		}
	}
}

func setKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// tmplEval evaluates a query template for given filters.
type tmplEval struct {
	env    *Env
	filter *types.Named
	lists  map[string][]string
	sys    bool
	ctype  string
	free   map[string]bool // conditions on anything else
	failed string
	used   *tmplUses
	funcs  map[string]bool
}

type tmplUses struct {
	fields, calls map[string]bool
	free          []string
	unknown       string
}

func (t *tmplEval) uses(n parse.Node) *tmplUses {
	t.used = &tmplUses{fields: map[string]bool{}, calls: map[string]bool{}}
	var walk func(n parse.Node)
	var cond func(n parse.Node)
	walk = func(n parse.Node) {
		switch n := n.(type) {
		case nil:
		case *parse.ListNode:
			if n != nil {
				for _, x := range n.Nodes {
					walk(x)
				}
			}
		case *parse.TextNode, *parse.CommentNode:
		case *parse.ActionNode:
			if listOf(n.Pipe) == "" {
				t.used.unknown = n.String()
			} else {
				t.used.fields[listOf(n.Pipe)] = true
			}
		case *parse.IfNode:
			cond(n.Pipe)
			walk(n.List)
			walk(n.ElseList)
		default:
			t.used.unknown = n.String()
		}
	}
	cond = func(n parse.Node) {
		switch n := n.(type) {
		case *parse.PipeNode:
			if len(n.Cmds) == 1 && len(n.Decl) == 0 {
				cond(n.Cmds[0])
				return
			}
			t.used.unknown = n.String()
		case *parse.CommandNode:
			switch head := n.Args[0].(type) {
			case *parse.IdentifierNode:
				switch head.Ident {
				case "not", "and", "or":
					for _, a := range n.Args[1:] {
						cond(a)
					}
				default:
					t.addFree(n.String())
				}
			case *parse.FieldNode:
				if len(n.Args) == 1 {
					cond(head)
				} else if len(head.Ident) == 1 {
					t.used.calls[head.Ident[0]] = true
					t.used.fields[head.Ident[0]] = true
				} else {
					t.used.fields[head.Ident[0]] = true
					t.addFree(n.String())
				}
			case *parse.PipeNode:
				cond(head)
			default:
				t.used.unknown = n.String()
			}
		case *parse.FieldNode:
			t.used.fields[n.Ident[0]] = true
			if len(n.Ident) > 1 {
				t.addFree(n.String())
			}
		default:
			t.used.unknown = n.String()
		}
	}
	walk(n)
	if len(t.used.free) > 4 {
		t.used.unknown = "too many conditions"
	}
	return t.used
}

func (t *tmplEval) addFree(s string) {
	for _, f := range t.used.free {
		if f == s {
			return
		}
	}
	t.used.free = append(t.used.free, s)
}

// listOf is the list a pipeline like {{ f .List }} or {{ .List | f }} renders.
func listOf(p *parse.PipeNode) string {
	var args []parse.Node
	for _, c := range p.Cmds {
		args = append(args, c.Args...)
	}
	if len(args) != 2 || len(p.Decl) > 0 {
		return ""
	}
	for i, a := range args {
		f, ok := a.(*parse.FieldNode)
		_, fn := args[1-i].(*parse.IdentifierNode)
		if ok && fn && len(f.Ident) == 1 {
			return f.Ident[0]
		}
	}
	return ""
}

func (t *tmplEval) render(b *strings.Builder, n parse.Node) {
	switch n := n.(type) {
	case *parse.ListNode:
		if n != nil {
			for _, x := range n.Nodes {
				t.render(b, x)
			}
		}
	case *parse.TextNode:
		b.Write(n.Text)
	case *parse.ActionNode:
		var q []string
		for _, x := range t.lists[listOf(n.Pipe)] {
			q = append(q, "'"+x+"'")
		}
		b.WriteString(strings.Join(q, ", "))
	case *parse.IfNode:
		if t.cond(n.Pipe) {
			t.render(b, n.List)
		} else if n.ElseList != nil {
			t.render(b, n.ElseList)
		}
	}
}

func (t *tmplEval) cond(n parse.Node) bool {
	switch n := n.(type) {
	case *parse.PipeNode:
		return t.cond(n.Cmds[0])
	case *parse.FieldNode:
		if len(n.Ident) > 1 {
			return t.free[n.String()]
		}
		if n.Ident[0] == "IncludeSystemCatalogs" {
			return t.sys
		}
		return len(t.lists[n.Ident[0]]) > 0
	case *parse.CommandNode:
		switch head := n.Args[0].(type) {
		case *parse.PipeNode:
			return t.cond(head)
		case *parse.FieldNode:
			if len(n.Args) == 1 {
				return t.cond(head)
			}
			if a, ok := n.Args[1].(*parse.StringNode); ok && len(head.Ident) == 1 && len(n.Args) == 2 {
				return t.method(head.Ident[0], a.Text)
			}
			return t.free[n.String()]
		case *parse.IdentifierNode:
			switch head.Ident {
			case "not":
				return !t.cond(n.Args[1])
			case "and":
				for _, a := range n.Args[1:] {
					if !t.cond(a) {
						return false
					}
				}
				return true
			case "or":
				for _, a := range n.Args[1:] {
					if t.cond(a) {
						return true
					}
				}
				return false
			}
			return t.free[n.String()]
		}
	}
	return false
}

// method is what a method of the filter says about a constraint type.
func (t *tmplEval) method(name, arg string) bool {
	key := name + "|" + t.ctype + "|" + arg
	if v, ok := t.funcs[key]; ok {
		return v
	}
	if t.funcs == nil {
		t.funcs = map[string]bool{}
	}
	fn := t.env.P.Method(ddlPkg, "Filter", name)
	if fn == nil || len(fn.Params) != 2 {
		t.failed = "method " + name
		return false
	}
	e := t.env.newEngine()
	e.Few, e.PerIter = 64, true
	st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
	spec := rec{}
	if t.ctype != "" {
		spec["ConstraintTypes"] = list{t.ctype}
	}
	arg0 := t.env.build(e, st, types.NewPointer(t.filter), spec, "filter")
	if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); !ok {
		arg0 = t.env.build(e, st, t.filter, spec, "filter")
	}
	r, n := false, 0
	for _, o := range e.RunFn(fn, []*AV{arg0, absint.StrV(arg)}, nil, "", st.Heap, e.RootCtx.Child(nil, fn)) {
		switch {
		case o.Ret.B == absint.MayTrue && (n == 0 || r):
			r = true
		case o.Ret.B == absint.MayFalse && (n == 0 || !r):
			r = false
		default:
			t.failed = "method " + name
		}
		n++
	}
	if n == 0 {
		t.failed = "method " + name
	}
	t.funcs[key] = r
	return r
}

// serverVersions are what servers call their versions, and their first numbers.
var serverVersions = map[string]map[string][]int64{
	"sqlite":    {"3.39.4": {3, 39}, "3.45.0": {3, 45}},
	"postgres":  {"15.2 (Debian 15.2-1.pgdg110+1)": {15, 2}, "9.6.24": {9, 6}, "16.1": {16, 1}},
	"mysql":     {"8.0.32": {8, 0}, "8.0.32-0ubuntu0.22.04.2": {8, 0}, "5.7.44-log": {5, 7}, "10.11.2-MariaDB-1:10.11.2+maria~ubu2204": {10, 11}, "11.4.2-MariaDB": {11, 4}},
	"sqlserver": {"15.0.4312.2": {15, 0}, "16.0.1000.6": {16, 0}},
}

// versionModel makes the introspector find a version.
func (env *Env) versionModel(v string) map[string]absint.Model {
	return map[string]absint.Model{
		"(*" + env.P.Module + "/ddl.DatabaseIntrospector).GetVersion": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			return []absint.Outcome{{Ret: absint.TupleV(absint.StrV(v), absint.NilErr())}}
		},
	}
}

// judgeVersions: the version numbers the queries depend on are those of the
// server.
func (env *Env) judgeVersions(res *Result, d string) {
	fn := env.P.Method(ddlPkg, "DatabaseIntrospector", "GetVersionNums")
	named := env.P.Type(ddlPkg, "DatabaseIntrospector")
	if fn == nil {
		return
	}
	for v, want := range serverVersions[d] {
		e := env.newEngine()
		e.Few, e.PerIter, e.EveryLoop = 64, true, true
		e.Models = env.versionModel(v)
		st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
		id := e.Obj("root:dbi", nil, "", named, named.Obj().Pos())
		st.Heap[id] = &absint.Obj{V: env.cmdValue(e, st, "DatabaseIntrospector", named, map[string]*AV{"Dialect": absint.StrV(d)})}
		outs := e.RunFn(fn, []*AV{absint.PtrV(absint.Ref{O: id})}, nil, "", st.Heap, e.RootCtx.Child(nil, fn))
		res.noteEngine(e)
		ok, sure := false, len(outs) > 0
		for _, o := range outs {
			if o.Ret.K != absint.Tuple || len(o.Ret.Elems) != 2 {
				sure = false
				continue
			}
			if !o.Ret.Elems[1].MayBeNil() {
				continue
			}
			nums, exact := e.SliceElems(&absint.State{Heap: o.Heap}, o.Ret.Elems[0])
			same := exact && len(nums) >= len(want)
			for i := range want {
				if !same {
					break
				}
				n, known := nums[i].IntConst()
				if !known {
					exact = false
				}
				same = known && n == want[i]
			}
			sure = sure && exact
			ok = ok || same
		}
		switch {
		case !sure && !ok:
			res.note("undetermined", "version "+v)
		case !ok:
			res.violate(e, "C18", fn, fmt.Sprintf("versions: the version %q of a %s server isn't understood", v, d))
		default:
			res.note("versions", v)
		}
	}
}

// judgeLists: the functions templates call on lists of names render them as
// lists of literals.
func (env *Env) judgeLists(res *Result) {
	names := []string{"a", "it's", "b"}
	for _, pkg := range env.P.Prog.AllPackages() {
		if pkg.Pkg == nil || pkg != env.P.Pkg(ddlPkg) {
			continue
		}
		for _, fn := range listRenderers(pkg) {
			e := env.newEngine()
			e.Few, e.PerIter = 64, true
			st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
			var vals []*AV
			for _, n := range names {
				vals = append(vals, absint.StrV(n))
			}
			arg := valSlice(e, st, "list", types.NewSlice(types.Typ[types.String]), vals)
			for _, o := range e.RunFn(fn, []*AV{arg}, nil, "", st.Heap, e.RootCtx.Child(nil, fn)) {
				text, ok := absint.Text(o.Ret).One()
				if !ok {
					res.note("undetermined", fn.Name())
					continue
				}
				res.note("list_renderings", fn.Name())
				var got []string
				good := true
				for i, x := range lexSQL(text) {
					if i%2 == 0 && x.k == 's' {
						got = append(got, x.s)
					} else if !(i%2 == 1 && x.k == 'p' && x.s == ",") {
						good = false
					}
				}
				if !good || strings.Join(got, "|") != strings.Join(names, "|") {
					res.violate(e, "C18", fn, "list-rendering: the names "+fmt.Sprintf("%q", names)+" are rendered as "+text)
				}
			}
			res.noteEngine(e)
		}
	}
}

// listRenderers are the functions of the package put into a map of template
// functions that make a text of a list.
func listRenderers(pkg *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, m := range pkg.Members {
		fn, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !strings.HasSuffix(types.TypeString(mu.Map.Type(), nil), "text/template.FuncMap") {
					continue
				}
				mi, ok := mu.Value.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				f, ok := mi.X.(*ssa.Function)
				if ok && len(f.Blocks) > 0 && len(f.Params) == 1 && types.TypeString(f.Params[0].Type(), nil) == "[]string" {
					out = append(out, f)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}
