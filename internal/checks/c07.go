package checks

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C07", Technique: "abstract interpretation of the generators over described catalogs; the resulting scripts are judged by their effect on a model of the database",
		Run: runC07,
		Explain: "GenerateCmd.Results and AutomigrateCmd.Run are analysed for pairs of described source and destination catalogs with dropping switched off; strings and containers are followed exactly, so every script the generator can write for the pair is known to the analysis. " +
			"Rule kept: applied statement by statement to a model of the source database (statements the database would refuse have no effect), the scripts leave every schema and table in place, every column with the data it had, every index, and every constraint other than a primary key that is replaced by another one; and they contain no TRUNCATE, no DELETE and no DROP of another kind of object. " +
			"Objects dropped and created again by the same migration are not lost. Scripts the analysis cannot determine, and statements the model doesn't understand, are listed as undetermined. " +
			"Not covered: schema pairs other than the described ones."})
}

func runC07(env *Env) *Result {
	var jobs []job
	for _, d := range dialects {
		for _, s := range genScenes {
			if !s.for_(d) {
				continue
			}
			for _, c := range generators {
				// the other way round too: what the destination lacks stays
				for _, back := range []bool{false, true} {
					src, dest := s.src, s.dest
					name := fmt.Sprintf("%s: %s: %s", c.name, d, s.name)
					if back {
						src, dest = s.dest, s.src
						name += ", reversed"
					}
					jobs = append(jobs, job{name, func(res *Result) {
						env.judgeLoss(res, c, name, d, adapted(d, src(d)).(rec), adapted(d, dest(d)).(rec))
					}})
				}
			}
		}
	}
	res := env.runJobs(jobs)
	res.need("scripts_judged", 1)
	return res
}

var removes = regexp.MustCompile(`^(TRUNCATE|DELETE FROM|DROP (MATERIALIZED VIEW|VIEW|FUNCTION|PROCEDURE|ROUTINE|TRIGGER|EXTENSION|TYPE|DOMAIN|SEQUENCE|SCHEMA|TABLE|DATABASE)) `)

func (env *Env) judgeLoss(res *Result, c generator, name, d string, src, dest rec) {
	outs, e := c.make(env, res, name, d, src, dest, false)
	for _, g := range outs {
		if g.inexact != "" {
			res.note("undetermined", name+": "+g.inexact)
			continue
		}
		before := simOf(d, src)
		db := before.clone()
		did := []string{}
		unsure := false
		for _, f := range g.files {
			if strings.HasSuffix(f.name, ".undo.sql") {
				continue
			}
			res.note("scripts_judged", name+": "+f.name)
			for _, ts := range statementsOf(f.text) {
				t := tokText(ts)
				x := db.exec(f.name, ts)
				if x != nil && x.unknown {
					if removes.MatchString(strings.ToUpper(t) + " ") {
						res.violateAt(env, e, "nothing-dropped", t, fmt.Sprintf("%s: %s: `%s` although dropping was not requested", name, f.name, t))
						continue
					}
					unsure = true
					res.note("undetermined", name+": "+t+": "+x.why)
				}
				if x == nil {
					did = append(did, t)
				}
			}
		}
		if unsure {
			continue
		}
		for _, l := range lost(before, db) {
			stmt := culprit(did, l.names)
			res.violateAt(env, e, "nothing-dropped", stmt, fmt.Sprintf("%s: %s although dropping was not requested (`%s`)", name, l.what, stmt))
		}
	}
}

type loss struct {
	what  string
	names []string
}

// lost lists what of the database before is no longer there.
func lost(before, after *simDB) []loss {
	var out []loss
	add := func(names []string, f string, a ...any) { out = append(out, loss{fmt.Sprintf(f, a...), names}) }
	for s := range before.schemas {
		if !after.schemas[s] {
			add([]string{s}, "schema %q is dropped", s)
		}
	}
	for k, t := range before.tables {
		u := after.tables[k]
		if u == nil {
			add([]string{k.table}, "table %s is dropped", k)
			continue
		}
		for n, x := range t.cols {
			if y, ok := u.cols[n]; !ok {
				add([]string{n, k.table}, "column %s.%s is dropped", k, n)
			} else if y.origin != x.origin {
				add([]string{n, k.table}, "the data of column %s.%s is lost", k, n)
			}
		}
		pk := false
		for _, y := range u.cons {
			pk = pk || y.kind == "PRIMARY KEY"
		}
		for n, x := range t.cons {
			if !has(u.cons, n) && !(x.kind == "PRIMARY KEY" && pk) {
				add([]string{n, k.table}, "constraint %s of %s is dropped", n, k)
			}
		}
		for n := range t.idx {
			if !has(u.idx, n) {
				add([]string{n, k.table}, "index %s of %s is dropped", n, k)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].what < out[j].what })
	return out
}

// culprit is the last removing statement that mentions most of the names.
func culprit(stmts []string, names []string) string {
	best, score := "", 0
	for _, s := range stmts {
		if !strings.Contains(strings.ToUpper(s), "DROP") {
			continue
		}
		n := 1
		for i, x := range names {
			if strings.Contains(s, x) {
				n += 2 << (len(names) - i)
			}
		}
		if n >= score {
			best, score = s, n
		}
	}
	return best
}
