package checks

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{
		ID:        "C31",
		Technique: "abstract interpretation of dump over described catalogs; the SQL files it writes, followed exactly, are applied to a model of an empty database that is then compared with the catalog",
		Run:       runC31,
		Explain:   "For every described catalog, dialect and output format (directory, zip, tar) dump is followed from Run with introspection yielding that catalog and the schema part selected. The texts written to schema.sql, indexes.sql and constraints.sql are read as SQL and applied, in the order load takes them, to an empty database under the rules of the dialect: a statement that the database must refuse (a table or key referred to that isn't there yet, an object that exists) is a violation, and so is any difference between the database reached and the catalog: tables, columns with type, default, NOT NULL, collation, identity and generation, keys, foreign keys, checks, indexes, and for Postgres extensions, enums and domains with their labels and checks.",
	})
}

// dumpMon: Q holds the texts of the files, each after its name.
type dumpMon struct{ absint.Base }

const (
	fileMark = "\x01"
	textMark = "\x02"
)

func (dumpMon) After(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []*absint.State {
	if o.Fail {
		return []*absint.State{s}
	}
	if n, ok := createdName(e, c, s); ok {
		name := "?"
		if t := endsIn(n); len(t) == 1 {
			name = t[0][strings.LastIndexAny(t[0], "/\\")+1:]
		}
		s.Q += fileMark + name + textMark
	}
	return []*absint.State{s}
}

func (dumpMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	t := written(e, c, s)
	if t == nil || len(c.Args) > 0 && c.Args[0].Lab.Has("stderr") {
		return true
	}
	if x, ok := t.One(); ok {
		s.Q += x
	} else {
		s.Q += "?unknown?"
	}
	return true
}

// dumpScenes are catalogs with what only dump writes.
var dumpScenes = []genScene{
	{"extensions, enums and domains", "postgres", nil, func(string) rec {
		x := func(n string) rec {
			s := schemaOf(n, tableOf(n, "t1", colOf("a", "INT"), colOf("e", "e1"), colOf("d", "d1")))
			s["Enums"] = list{rec{"EnumSchema": n, "EnumName": "e1", "EnumLabels": list{"x", "y'z", "w"}}, rec{"EnumSchema": n, "EnumName": "e2", "EnumLabels": list{"only"}}}
			s["Domains"] = list{rec{"DomainSchema": n, "DomainName": "d1", "UnderlyingType": "INT"},
				rec{"DomainSchema": n, "DomainName": "d2", "UnderlyingType": "TEXT", "IsNotNull": true, "CollationName": "C", "ColumnDefault": "'q'", "CheckNames": list{"k1", "k2"}, "CheckExprs": list{"VALUE <> 'a'", "VALUE <> 'b'"}},
				rec{"DomainSchema": n, "DomainName": "d3", "UnderlyingType": "TEXT", "CheckExprs": list{"VALUE <> 'a'"}}}
			return s
		}
		r := sceneOf("s1", x("s1"), x("s2"))
		r["Extensions"] = list{"hstore", "uuid-ossp"}
		return r
	}},
	{"checks on several tables and schemas", "postgres sqlserver mysql", nil, func(string) rec {
		x := func(n, o string) rec {
			return schemaOf(n, tableOf(n, "t1", colOf("a", "INT").notNull(), colOf("b", "INT"), pkOf("t1_pk", "a"), uniqOf("t1_u", "b"), fkOf("t1_fk", "b", o, "t2", "a").with("DeleteRule", "CASCADE"), rec{"ConstraintName": "t1_c", "ConstraintType": "CHECK", "CheckExpr": "b > 5"}, idxOf("t1_i", "b", "a")),
				tableOf(n, "t2", colOf("a", "INT").notNull(), colOf("b", "INT"), pkOf("t2_pk", "a"), fkOf("t2_fk", "b", o, "t1", "b"), idxOf("t2_i", "b").with("IsUnique", true)))
		}
		return sceneOf("s1", x("s1", "s2"), x("s2", "s1"))
	}},
}

func runC31(env *Env) *Result {
	var jobs []job
	add := func(d, what string, scene rec) {
		for _, out := range []string{"dir", "Zip", "Tgz"} {
			name := d + "/" + out + ": " + what
			jobs = append(jobs, job{name, func(res *Result) { env.judgeDump(res, name, d, out, scene) }})
		}
	}
	for _, d := range dialects {
		for _, s := range append(slices.Clone(genScenes), dumpScenes...) {
			if !s.for_(d) {
				continue
			}
			if s.src != nil {
				add(d, s.name+" (before)", adapted(d, s.src(d)).(rec))
			}
			add(d, s.name, adapted(d, s.dest(d)).(rec))
		}
	}
	res := env.runJobs(jobs)
	res.need("dumps_judged", 1)
	return res
}

// dumped are the files written by a successful dump of the schema, one map per
// way to get there.
func (env *Env) dumped(res *Result, d, out string, scene rec) ([]map[string]string, *absint.Engine) {
	e := env.newEngine()
	e.Few, e.PerIter = 64, true
	e.Models = merged(env.quotesFor(d), env.catalogModel(withDialect(scene, d)))
	e.Mon = dumpMon{}
	no := &AV{K: absint.Slice, Nil: absint.MayNil}
	set := map[string]*AV{"Dialect": absint.StrV(d), "SchemaOnly": absint.True(), "DataOnly": absint.False(), "Zip": absint.StrV(""), "Tgz": absint.StrV(""),
		"SubsetQueries": no, "ExtendedSubsetQueries": no, "Stderr": {K: absint.Iface, Nil: absint.MayNonNil, Unk: true, Lab: absint.NewSet("stderr")}}
	env.zeroHidden(e, "DumpCmd", set)
	if out != "dir" {
		set[out] = absint.StrV("x")
	}
	var all []map[string]string
	for _, o := range env.runCmd(e, res, "DumpCmd", set) {
		if !o.Ret.MayBeNil() {
			continue
		}
		files := map[string]string{}
		for _, f := range strings.Split(o.Q, fileMark) {
			n, t, _ := strings.Cut(f, textMark)
			files[n] += t
		}
		all = append(all, files)
	}
	res.noteEngine(e)
	return all, e
}

func (env *Env) judgeDump(res *Result, name, d, out string, scene rec) {
	res.note("roots", name)
	all, e := env.dumped(res, d, out, scene)
	for _, files := range all {
		if !env.judgeDumped(res, e, name, d, scene, files) {
			res.note("undetermined", name)
		}
	}
}

// typeObjects are the extensions, enums and domains of a catalog, as created.
func typeObjects(scene rec) map[string]string {
	out := map[string]string{}
	cur := scene.str("CurrentSchema")
	q := func(s, n string) string {
		if s == "" {
			s = cur
		}
		return s + "." + n
	}
	if l, ok := scene["Extensions"].(list); ok {
		for _, x := range l {
			out["extension "+x.(string)] = ""
		}
	}
	for _, s := range recs(scene["Schemas"]) {
		for _, x := range recs(s["Enums"]) {
			var ls []string
			for _, l := range x.strs("EnumLabels") {
				ls = append(ls, "'"+strings.ReplaceAll(l, "'", "''")+"'")
			}
			out["type "+q(x.str("EnumSchema"), x.str("EnumName"))] = "AS ENUM ( " + strings.Join(ls, " , ") + " )"
		}
		for _, x := range recs(s["Domains"]) {
			parts := []string{"type " + canonExpr(x.str("UnderlyingType"))}
			if x.yes("IsNotNull") {
				parts = append(parts, "not null")
			}
			if c := x.str("CollationName"); c != "" {
				parts = append(parts, "collate "+c)
			}
			if c := x.str("ColumnDefault"); c != "" {
				parts = append(parts, "default "+canonExpr(c))
			}
			names := x.strs("CheckNames")
			for i, c := range x.strs("CheckExprs") {
				n := ""
				if i < len(names) {
					n = names[i]
				}
				parts = append(parts, "check "+n+" "+canonExpr(c))
			}
			sort.Strings(parts)
			out["domain "+q(x.str("DomainSchema"), x.str("DomainName"))] = strings.Join(parts, "; ")
		}
	}
	return out
}

// typeStatement reads a statement that creates an extension, enum or domain.
func typeStatement(cur string, ts []tok) (name, def string, ok bool) {
	i := 0
	word := func(ws ...string) bool {
		for j, w := range ws {
			if i+j >= len(ts) || ts[i+j].k != 'w' || !strings.EqualFold(ts[i+j].s, w) {
				return false
			}
		}
		i += len(ws)
		return true
	}
	if !word("CREATE") {
		return
	}
	kind := ""
	for _, k := range []string{"EXTENSION", "TYPE", "DOMAIN"} {
		if word(k) {
			kind = strings.ToLower(k)
		}
	}
	if kind == "" {
		return
	}
	word("IF", "NOT", "EXISTS")
	ident := func() string {
		if i < len(ts) && (ts[i].k == 'w' || ts[i].k == 'q') {
			i++
			return ts[i-1].s
		}
		return ""
	}
	n := ident()
	if kind != "extension" {
		if i < len(ts) && ts[i] == (tok{'p', "."}) {
			i++
			n += "." + ident()
		} else {
			n = cur + "." + n
		}
	}
	name = kind + " " + n
	if kind != "domain" {
		return name, tokText(ts[i:]), true
	}
	word("AS")
	stop := func(j int) bool {
		for _, k := range []string{"NOT", "NULL", "COLLATE", "DEFAULT", "CONSTRAINT", "CHECK"} {
			if j >= len(ts) || ts[j].k == 'w' && strings.EqualFold(ts[j].s, k) {
				return true
			}
		}
		return false
	}
	upto := func() string {
		j, depth := i, 0
		for j < len(ts) && (depth > 0 || !stop(j)) {
			if ts[j] == (tok{'p', "("}) {
				depth++
			}
			if ts[j] == (tok{'p', ")"}) {
				depth--
			}
			j++
		}
		t := tokText(ts[i:j])
		i = j
		return t
	}
	parts := []string{"type " + canonExpr(upto())}
	con := ""
	for i < len(ts) {
		switch {
		case word("NOT", "NULL"):
			parts = append(parts, "not null")
		case word("NULL"):
		case word("COLLATE"):
			parts = append(parts, "collate "+ident())
		case word("DEFAULT"):
			parts = append(parts, "default "+canonExpr(upto()))
		case word("CONSTRAINT"):
			con = ident()
		case word("CHECK"):
			parts = append(parts, "check "+con+" "+canonExpr(upto()))
			con = ""
		default:
			return name, "", false
		}
	}
	sort.Strings(parts)
	return name, strings.Join(parts, "; "), true
}

func (env *Env) judgeDumped(res *Result, e *absint.Engine, name, d string, scene rec, files map[string]string) bool {
	empty := sceneOf(scene.str("CurrentSchema"))
	db := simOf(d, empty)
	run := env.P.Method(ddlPkg, "DumpCmd", "Run")
	types := map[string]string{}
	wantTypes := typeObjects(scene)
	for _, f := range []string{"schema.sql", "indexes.sql", "constraints.sql"} {
		text := files[f]
		if strings.Contains(text, "?unknown?") {
			debugf("UNDETERMINED %s: %s isn't known\n", name, f)
			return false
		}
		for _, ts := range statementsOf(text) {
			stmt := tokText(ts)
			res.note("statements_applied", name+": "+stmt)
			if n, def, ok := typeStatement(db.cur, ts); ok {
				if _, there := types[n]; there {
					res.violateAt(env, e, "dump-recreates", stmt, fmt.Sprintf("%s: %s: `%s` fails: it exists", name, f, stmt))
					return true
				}
				if s, _, has := strings.Cut(strings.TrimPrefix(strings.TrimPrefix(n, "type "), "domain "), "."); has && !db.schemas[s] {
					res.violateAt(env, e, "dump-recreates", stmt, fmt.Sprintf("%s: %s: `%s` fails: there is no schema %s", name, f, stmt, s))
					return true
				}
				types[n] = def
				continue
			}
			x := db.exec(f, ts)
			if x == nil {
				continue
			}
			if x.unknown {
				debugf("UNDETERMINED %s: %s: %s\n", name, x.stmt, x.why)
				res.note("not_understood", name+": "+x.stmt)
				return false
			}
			res.violateAt(env, e, "dump-recreates", x.stmt, fmt.Sprintf("%s: %s: `%s` fails: %s", name, f, x.stmt, x.why))
			return true
		}
		if f == "schema.sql" {
			for n := range wantTypes {
				if _, ok := types[n]; !ok {
					res.violate(e, "dump-recreates", run, fmt.Sprintf("%s: schema.sql doesn't create %s", name, n))
				}
			}
		}
	}
	res.note("dumps_judged", name)
	want := simOf(d, scene)
	for _, t := range want.tables {
		for n, c := range t.cols {
			c.origin = ""
			t.cols[n] = c
		}
	}
	for _, diff := range compareDB(want, db) {
		res.violate(e, "dump-recreates", run, name+": once loaded, "+diff)
	}
	for n, def := range types {
		switch want, ok := wantTypes[n]; {
		case !ok:
			res.violate(e, "dump-recreates", run, fmt.Sprintf("%s: schema.sql creates %s, which isn't in the database", name, n))
		case want != def:
			res.violate(e, "dump-recreates", run, fmt.Sprintf("%s: schema.sql creates %s as %s instead of %s", name, n, def, want))
		}
	}
	return true
}
