package checks

import (
	"fmt"
	"sort"
	"strings"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{
		ID:        "C30",
		Technique: "abstract interpretation of wipe over described databases; the statements it sends, followed exactly, are applied to a model of the database's rules for dropping objects",
		Run:       runC30,
		Explain:   "For every described database and dialect, wipe is followed from Run with the introspector's getters yielding the described objects, as far as the filter set at that point lets them through. The statements sent (or printed, in a dry run) are read and applied in order to the described objects: no statement may be one the database refuses (a table that another one refers to, a name shared by several functions, the wrong kind of view, an object that does not exist), and when they are through no view, table, routine, enum, domain or extension is left. Names without a schema denote objects of the current schema.",
	})
}

type wipeScene struct {
	name string
	is   func(d string) rec
}

func viewOf(schema, name string, mat bool) rec {
	return rec{"ViewSchema": schema, "ViewName": name, "IsMaterialized": mat, "SQL": "SELECT 1"}
}

func routineOf(schema, name, kind, args string) rec {
	return rec{"RoutineSchema": schema, "RoutineName": name, "RoutineType": kind, "IdentityArguments": args, "SQL": "x"}
}

// wiped is a database with every kind of object the dialect has.
func wiped(d, current string, schemas ...string) rec {
	var ss list
	for _, n := range schemas {
		s := schemaOf(n,
			tableOf(n, "t1", colOf("a", "INT"), colOf("b", "INT"), pkOf("t1_pk", "a"), uniqOf("t1_u", "b"), fkOf("t1_fk", "b", n, "t2", "a")),
			tableOf(n, "t2", colOf("a", "INT"), colOf("b", "INT"), pkOf("t2_pk", "a"), fkOf("t2_fk", "b", n, "t1", "a"), fkOf("t2_self", "b", n, "t2", "a")),
			tableOf(n, "t3", colOf("a", "INT"), fkOf("t3_fk", "a", schemas[0], "t1", "a")))
		s["Views"] = list{viewOf(n, "v1", false), viewOf(n, "v2", false)}
		if d != "sqlite" {
			s["Routines"] = list{routineOf(n, "f1", "FUNCTION", ""), routineOf(n, "p1", "PROCEDURE", "")}
		}
		if d == "postgres" {
			s["Views"] = append(s["Views"].(list), viewOf(n, "v3", true))
			s["Routines"] = list{routineOf(n, "f1", "FUNCTION", "integer"), routineOf(n, "f1", "FUNCTION", "text"), routineOf(n, "f2", "FUNCTION", ""), routineOf(n, "p1", "PROCEDURE", "IN a integer")}
			s["Enums"] = list{rec{"EnumSchema": n, "EnumName": "e1", "EnumLabels": list{"x"}}, rec{"EnumSchema": n, "EnumName": "e2", "EnumLabels": list{"x"}}}
			s["Domains"] = list{rec{"DomainSchema": n, "DomainName": "d1", "UnderlyingType": "INT"}, rec{"DomainSchema": n, "DomainName": "d2", "UnderlyingType": "INT"}}
		}
		ss = append(ss, s)
	}
	r := sceneOf(current, ss...)
	if d == "postgres" {
		r["Extensions"] = list{"plpgsql", "hstore", "uuid-ossp"}
	}
	return r
}

var wipeScenes = []wipeScene{
	{"two schemas", func(d string) rec {
		if d == "sqlite" {
			return wiped(d, "", "")
		}
		return wiped(d, "s1", "s1", "s2")
	}},
	{"only another schema than the current one", func(d string) rec {
		if d == "sqlite" {
			return wiped(d, "", "")
		}
		return wiped(d, "s1", "s2", "s3")
	}},
	{"only views", func(d string) rec {
		n := map[string]string{"sqlite": ""}
		if d != "sqlite" {
			n[d] = "s1"
		}
		return sceneOf(n[d], rec{"SchemaName": n[d], "Views": list{viewOf(n[d], "v1", false)}})
	}},
	{"only a table", func(d string) rec {
		if d == "sqlite" {
			return sceneOf("", schemaOf("", tableOf("", "t1", colOf("a", "INT"))))
		}
		return sceneOf("s1", schemaOf("s1", tableOf("s1", "t1", colOf("a", "INT"))))
	}},
	{"nothing", func(string) rec { return sceneOf("s1") }},
}

// wipeDB holds what exists: kind + schema + name (+ arguments).
type wipeDB struct {
	d, current string
	objs       map[string]bool   // "table s.n"
	fks        map[string]string // "s.t.name" → the table referred to
}

func newWipeDB(d string, scene rec) *wipeDB {
	db := &wipeDB{d: d, current: scene.str("CurrentSchema"), objs: map[string]bool{}, fks: map[string]string{}}
	recs := func(v any) list { l, _ := v.(list); return l }
	for _, x := range recs(scene["Schemas"]) {
		s := x.(rec)
		for _, y := range recs(s["Tables"]) {
			t := y.(rec)
			tn := t.str("TableSchema") + "." + t.str("TableName")
			db.objs["table "+tn] = true
			for _, z := range recs(t["Constraints"]) {
				if k := z.(rec); k.str("ConstraintType") == "FOREIGN KEY" {
					db.fks[tn+"."+k.str("ConstraintName")] = k.str("ReferencesSchema") + "." + k.str("ReferencesTable")
				}
			}
		}
		for _, y := range recs(s["Views"]) {
			v := y.(rec)
			kind := "view "
			if v["IsMaterialized"] == true {
				kind = "materialized view "
			}
			db.objs[kind+v.str("ViewSchema")+"."+v.str("ViewName")] = true
		}
		for _, y := range recs(s["Routines"]) {
			r := y.(rec)
			n := strings.ToLower(r.str("RoutineType")) + " " + r.str("RoutineSchema") + "." + r.str("RoutineName")
			if d == "postgres" {
				n += "(" + squeezed(r.str("IdentityArguments")) + ")"
			}
			db.objs[n] = true
		}
		for _, y := range recs(s["Enums"]) {
			db.objs["type "+y.(rec).str("EnumSchema")+"."+y.(rec).str("EnumName")] = true
		}
		for _, y := range recs(s["Domains"]) {
			db.objs["domain "+y.(rec).str("DomainSchema")+"."+y.(rec).str("DomainName")] = true
		}
	}
	for _, x := range recs(scene["Extensions"]) {
		if x != "plpgsql" { // part of every database
			db.objs["extension "+x.(string)] = true
		}
	}
	return db
}

func squeezed(s string) string {
	s = strings.ToLower(strings.Join(strings.Fields(s), " "))
	for _, m := range []string{"(", ")", ","} {
		s = strings.ReplaceAll(strings.ReplaceAll(s, " "+m, m), m+" ", m)
	}
	return s
}

func (db *wipeDB) left() []string {
	var out []string
	for n := range db.objs {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// apply gives why the statement is refused, and whether it was understood.
func (db *wipeDB) apply(ts []tok) (refused string, ok bool) {
	cascade := len(ts) > 0 && ts[len(ts)-1].k == 'w' && strings.EqualFold(ts[len(ts)-1].s, "CASCADE")
	i := 0
	word := func(ws ...string) bool {
		for j, w := range ws {
			if i+j >= len(ts) || ts[i+j].k != 'w' || !strings.EqualFold(ts[i+j].s, w) {
				return false
			}
		}
		i += len(ws)
		return true
	}
	punct := func(p string) bool {
		if i < len(ts) && ts[i].k != 'q' && ts[i].k != 's' && ts[i].s == p {
			i++
			return true
		}
		return false
	}
	ident := func() (string, bool) {
		if i < len(ts) && (ts[i].k == 'w' || ts[i].k == 'q') {
			i++
			return ts[i-1].s, true
		}
		return "", false
	}
	name := func() (string, bool) {
		a, ok := ident()
		if !ok {
			return "", false
		}
		if punct(".") {
			b, ok := ident()
			return a + "." + b, ok
		}
		return db.current + "." + a, true
	}
	switch {
	case word("PRAGMA"), word("SET"):
		return "", true
	case word("ALTER", "TABLE"):
		word("IF", "EXISTS")
		t, ok := name()
		if !ok {
			return "", false
		}
		if !db.objs["table "+t] {
			return "there is no table " + t, true
		}
		if !word("DROP", "CONSTRAINT") && !word("DROP", "FOREIGN", "KEY") {
			return "", false
		}
		exists := word("IF", "EXISTS")
		n, ok := ident()
		if !ok {
			return "", false
		}
		if _, there := db.fks[t+"."+n]; !there && !exists {
			return "the table " + t + " has no constraint " + n, true
		}
		delete(db.fks, t+"."+n)
		return "", true
	case word("DROP"):
		kind := ""
		for _, k := range []string{"MATERIALIZED VIEW", "VIEW", "TABLE", "FUNCTION", "PROCEDURE", "ROUTINE", "TYPE", "DOMAIN", "EXTENSION"} {
			if word(strings.Fields(k)...) {
				kind = strings.ToLower(k)
				break
			}
		}
		if kind == "" {
			return "", false
		}
		exists := word("IF", "EXISTS")
		for {
			var n string
			var ok bool
			if kind == "extension" {
				n, ok = ident()
			} else {
				n, ok = name()
			}
			if !ok {
				return "", false
			}
			args, given := "", false
			if punct("(") {
				given = true
				var b []string
				depth := 0
				for i < len(ts) && !(depth == 0 && ts[i].s == ")") {
					if ts[i].s == "(" {
						depth++
					}
					if ts[i].s == ")" {
						depth--
					}
					b = append(b, ts[i].s)
					i++
				}
				if !punct(")") {
					return "", false
				}
				args = squeezed(strings.Join(b, " "))
			}
			if why := db.drop(kind, n, args, given, exists, cascade); why != "" {
				return why, true
			}
			if !punct(",") {
				return "", true
			}
		}
	}
	return "", false
}

func (db *wipeDB) drop(kind, n, args string, given, exists, cascade bool) string {
	kinds := []string{kind}
	if kind == "routine" {
		kinds = []string{"function", "procedure"}
	}
	if db.d == "postgres" && (kind == "function" || kind == "procedure" || kind == "routine") {
		var found []string
		for o := range db.objs {
			for _, k := range kinds {
				if given && o == k+" "+n+"("+args+")" || !given && strings.HasPrefix(o, k+" "+n+"(") {
					found = append(found, o)
				}
			}
		}
		switch {
		case len(found) == 0 && !exists:
			return "there is no " + kind + " " + n
		case len(found) > 1:
			return "several of the kind " + kind + " are called " + n
		case len(found) == 1:
			delete(db.objs, found[0])
		}
		return ""
	}
	found := ""
	for _, k := range kinds {
		if db.objs[k+" "+n] {
			found = k + " " + n
		}
	}
	if found == "" {
		for _, k := range []string{"view", "materialized view", "table"} {
			if k != kind && db.objs[k+" "+n] && db.d == "postgres" {
				return n + " is a " + k
			}
		}
		if !exists {
			return "there is no " + kind + " " + n
		}
		return ""
	}
	if kind == "table" {
		for f, to := range db.fks {
			switch {
			case strings.HasPrefix(f, n+"."):
			case to != n:
			case db.d == "postgres" && cascade:
				delete(db.fks, f)
			case db.d == "sqlite":
			default:
				return "the table " + n + " is referred to by " + f
			}
		}
		for f := range db.fks {
			if strings.HasPrefix(f, n+".") {
				delete(db.fks, f)
			}
		}
	}
	delete(db.objs, found)
	return ""
}

type wipeMon struct {
	absint.Base
	res *Result
}

// The state is what was sent so far.
func (m *wipeMon) After(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []*absint.State {
	op, ok := stmtOf(e, c, s, true)
	if !ok || o.Fail {
		return []*absint.State{s}
	}
	if t, one := op.text.One(); one {
		s.Q += t + ";\n"
	} else {
		s.Q += "?;\n"
	}
	return []*absint.State{s}
}

func runC30(env *Env) *Result {
	var jobs []job
	for _, d := range dialects {
		for _, w := range wipeScenes {
			jobs = append(jobs, job{d + ": " + w.name, func(res *Result) { env.judgeWipe(res, d, w) }})
		}
	}
	res := env.runJobs(jobs)
	res.need("databases_wiped", 1)
	return res
}

func (env *Env) judgeWipe(res *Result, d string, w wipeScene) {
	scene := w.is(d)
	e := env.newEngine()
	e.Few, e.PerIter = 64, true
	e.Mon = &wipeMon{res: res}
	e.Models = merged(env.quotesFor(d), env.introspectModels(scene))
	st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
	set := map[string]*AV{"Dialect": absint.StrV(d), "DryRun": absint.False()}
	env.zeroHidden(e, "WipeCmd", set)
	name := d + ": " + w.name
	res.note("roots", name)
	done := false
	for _, o := range env.runCmdWith(e, res, "WipeCmd", st, set) {
		if !o.Ret.MustNil() {
			continue
		}
		sent := o.Q
		if strings.Contains(sent, "?;") {
			res.note("undetermined", name+": a statement isn't known")
			continue
		}
		done = true
		db := newWipeDB(d, scene)
		for _, ts := range statementsOf(sent) {
			stmt := tokText(ts)
			why, ok := db.apply(ts)
			if !ok {
				res.note("undetermined", name+": "+stmt)
				debugf("UNDETERMINED %s: %s\n", name, stmt)
				done = false
				break
			}
			res.note("statements_applied", name+": "+stmt)
			if why != "" {
				res.violateAt(env, e, "wipe-complete", stmt, fmt.Sprintf("%s: the database refuses %q: %s", name, stmt, why))
				return
			}
		}
		if l := db.left(); done && len(l) > 0 {
			res.violateAt(env, e, "wipe-complete", "DROP", fmt.Sprintf("%s: wipe succeeds and leaves %s", name, strings.Join(l, ", ")))
			return
		}
	}
	if done {
		res.note("databases_wiped", name)
	}
	res.noteEngine(e)
}
