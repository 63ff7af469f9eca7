package checks

import (
	"fmt"
	"slices"
	"strings"
)

func init() {
	register(&Check{ID: "C25", Technique: "abstract interpretation of the generators over described catalogs, comparing the scripts for marked objects with the scripts for absent ones",
		Run: runC25,
		Explain: "GenerateCmd.Results is analysed for pairs of described catalogs in which one object (schema, table, column with what is built on it, constraint or index) is marked as ignored in the source, the destination or both, and again for the same pair without that object; strings and containers are followed exactly, so the scripts for both are known to the analysis. " +
			"Rule kept: both give the same files with the same statements, i.e. a marked object is treated as one that doesn't exist and is neither created, altered nor dropped. AutomigrateCmd.Run is analysed for the marks in the destination. " +
			"A pair whose scripts aren't known either way is listed as undetermined. Not covered: objects and schema pairs other than the described ones; ignored views, routines, triggers, enums and domains."})
}

// ignorable is an object of a scene.
type ignorable struct{ kind, schema, table, name string }

func (i ignorable) String() string {
	switch i.kind {
	case "schema":
		return fmt.Sprintf("schema %q", i.name)
	case "table":
		return fmt.Sprintf("table %s", simKey{i.schema, i.table})
	}
	return fmt.Sprintf("%s %s of %s", i.kind, i.name, simKey{i.schema, i.table})
}

func ignorables(scene rec) []ignorable {
	var out []ignorable
	for _, s := range recs(scene["Schemas"]) {
		if s.str("SchemaName") != "" {
			out = append(out, ignorable{"schema", s.str("SchemaName"), "", s.str("SchemaName")})
		}
		for _, t := range recs(s["Tables"]) {
			at := ignorable{"table", s.str("SchemaName"), t.str("TableName"), t.str("TableName")}
			out = append(out, at)
			for _, p := range []struct{ kind, list, name string }{{"column", "Columns", "ColumnName"}, {"constraint", "Constraints", "ConstraintName"}, {"index", "Indexes", "IndexName"}} {
				for _, x := range recs(t[p.list]) {
					at.kind, at.name = p.kind, x.str(p.name)
					out = append(out, at)
				}
			}
		}
	}
	return out
}

// without is the scene with the object, and what is built on it, marked as
// ignored or left out.
func without(scene rec, o ignorable, mark bool) rec {
	keep := func(out list, x rec, gone bool) list {
		switch {
		case gone && mark:
			return append(out, x.with("Ignore", true))
		case gone:
			return out
		}
		return append(out, x)
	}
	var schemas list
	for _, s := range recs(scene["Schemas"]) {
		sgone := o.kind == "schema" && s.str("SchemaName") == o.name
		var tables list
		for _, t := range recs(s["Tables"]) {
			if sgone {
				tables = append(tables, t)
				continue
			}
			here := s.str("SchemaName") == o.schema && t.str("TableName") == o.table
			if here && o.kind == "table" {
				tables = keep(tables, t, true)
				continue
			}
			var cons, idx, cols list
			dead := map[string]bool{}
			for _, c := range recs(t["Constraints"]) {
				refers := c.str("ReferencesTable") != "" && c.str("ReferencesSchema") == o.schema &&
					(o.kind == "schema" || c.str("ReferencesTable") == o.table && (o.kind == "table" || o.kind == "column" && slices.Contains(c.strs("ReferencesColumns"), o.name)))
				gone := refers || here && o.kind == "constraint" && c.str("ConstraintName") == o.name || here && o.kind == "column" && slices.Contains(c.strs("Columns"), o.name)
				if gone && len(c.strs("Columns")) == 1 {
					dead[c.str("ConstraintType")+" "+c.strs("Columns")[0]] = true
				}
				cons = keep(cons, c, gone)
			}
			for _, c := range recs(t["Columns"]) {
				n := also(c, nil)
				for kind, flags := range map[string][]string{"PRIMARY KEY": {"IsPrimaryKey"}, "UNIQUE": {"IsUnique"}, "FOREIGN KEY": {"ReferencesSchema", "ReferencesTable", "ReferencesColumn", "UpdateRule", "DeleteRule"}} {
					if dead[kind+" "+c.str("ColumnName")] {
						for _, f := range flags {
							delete(n, f)
						}
					}
				}
				cols = keep(cols, n, here && o.kind == "column" && c.str("ColumnName") == o.name)
			}
			for _, x := range recs(t["Indexes"]) {
				gone := here && o.kind == "index" && x.str("IndexName") == o.name
				if here && o.kind == "column" {
					for _, c := range append(x.strs("Columns"), x.strs("IncludeColumns")...) {
						gone = gone || c == o.name || strings.HasPrefix(c, "(") && strings.Contains(c, o.name)
					}
				}
				idx = keep(idx, x, gone)
			}
			tables = keep(tables, also(t, rec{"Columns": cols, "Constraints": cons, "Indexes": idx}), false)
		}
		schemas = keep(schemas, also(s, rec{"Tables": tables}), sgone)
	}
	return also(scene, rec{"Schemas": schemas})
}

func runC25(env *Env) *Result {
	var jobs []job
	for _, d := range dialects {
		for _, s := range genScenes {
			if !s.for_(d) {
				continue
			}
			src, dest := adapted(d, s.src(d)).(rec), adapted(d, s.dest(d)).(rec)
			objs := ignorables(src)
			for _, o := range ignorables(dest) {
				if !slices.Contains(objs, o) {
					objs = append(objs, o)
				}
			}
			for _, drop := range []bool{false, true} {
				name := sceneName(d, s, drop)
				jobs = append(jobs, job{name, func(res *Result) {
					for _, o := range objs {
						inSrc, inDest := slices.Contains(ignorables(src), o), slices.Contains(ignorables(dest), o)
						if inSrc && !inDest { // ignoring what is there and wanting it makes no sense
							env.judgeIgnored(res, name, "the source", d, o, src, dest, true, false, drop)
						}
						if inDest {
							env.judgeIgnored(res, name, "the destination", d, o, src, dest, false, true, drop)
						}
						if inSrc && inDest {
							env.judgeIgnored(res, name, "both catalogs", d, o, src, dest, true, true, drop)
						}
					}
				}})
			}
		}
	}
	res := env.runJobs(jobs)
	res.need("marks_judged", 1)
	return res
}

func (env *Env) judgeIgnored(res *Result, name, where, d string, o ignorable, src, dest rec, inSrc, inDest, drop bool) {
	pick := func(mark bool) (rec, rec) {
		a, b := src, dest
		if inSrc {
			a = without(src, o, mark)
		}
		if inDest {
			b = without(dest, o, mark)
		}
		return a, b
	}
	for _, c := range generators {
		if c.name == "automigrate" && inSrc {
			continue // introspection marks nothing
		}
		a, b := pick(true)
		marked, e := c.make(env, res, name, d, a, b, drop)
		a, b = pick(false)
		absent, _ := c.make(env, res, name, d, a, b, drop)
		id := fmt.Sprintf("%s: %s: %s ignored in %s", c.name, name, o, where)
		var got, want []string
		unsure := len(marked) == 0 || len(absent) == 0
		for _, g := range marked {
			unsure = unsure || g.inexact != ""
			got = append(got, lines(g)...)
		}
		for _, g := range absent {
			unsure = unsure || g.inexact != ""
			want = append(want, lines(g)...)
		}
		if unsure {
			res.note("undetermined", id)
			continue
		}
		res.note("marks_judged", id)
		for _, x := range got {
			if !slices.Contains(want, x) {
				stmt := x[strings.Index(x, ": ")+2:]
				res.violateAt(env, e, "ignored-left-alone", stmt, fmt.Sprintf("%s: it is not treated as absent: `%s` is generated", id, stmt))
			}
		}
		for _, x := range want {
			if !slices.Contains(got, x) {
				stmt := x[strings.Index(x, ": ")+2:]
				res.violateAt(env, e, "ignored-left-alone", stmt, fmt.Sprintf("%s: it is not treated as absent: `%s` is missing", id, stmt))
			}
		}
	}
}

// lines are the statements of a migration with the files they are in.
func lines(g genOut) []string {
	var out []string
	for _, f := range g.files {
		for _, ts := range statementsOf(f.text) {
			out = append(out, f.name+": "+tokText(ts))
		}
	}
	return out
}
