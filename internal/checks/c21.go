package checks

import (
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C21", Technique: "abstract interpretation of the Postgres generator over described catalogs; files, their order and their statements are judged with a model of the database",
		Run: runC21,
		Explain: "GenerateCmd.Results and AutomigrateCmd.Run are analysed for described Postgres catalogs, with and without dropping; strings and containers are followed exactly, so the generated files are known to the analysis. Rules kept: " +
			"every file has a name of its own (all dialects). A statement that can't run in a transaction is alone in a file whose name ends in .txoff.sql, and the undo file of that name takes the database model from the state after the statement back to the state before it, and does nothing harmful if the statement had no effect. " +
			"Indexes on tables of the source, and the indexes of primary and unique keys added to them, are built concurrently. A foreign key added to a table of the source is added unvalidated and validated in a later file. A column of the source becomes NOT NULL only once a check for it was added unvalidated in an earlier file and validated. " +
			"Not covered: schema pairs other than the described ones; Postgres versions before 12."})
}

func runC21(env *Env) *Result {
	var jobs []job
	for _, d := range dialects {
		for _, s := range genScenes {
			if !s.for_(d) {
				continue
			}
			for _, drop := range []bool{false, true} {
				for _, c := range generators {
					name := c.name + ": " + sceneName(d, s, drop)
					jobs = append(jobs, job{name, func(res *Result) {
						env.judgeFiles(res, c, name, d, adapted(d, s.src(d)).(rec), adapted(d, s.dest(d)).(rec), drop)
					}})
				}
			}
		}
	}
	res := env.runJobs(jobs)
	res.need("files_judged", 1)
	return res
}

var noTx = regexp.MustCompile(`(?i)^((CREATE (UNIQUE )?INDEX|DROP INDEX|REINDEX \w+|REFRESH MATERIALIZED VIEW) CONCURRENTLY|VACUUM|(CREATE|DROP) DATABASE) `)

func (env *Env) judgeFiles(res *Result, c generator, name, d string, src, dest rec, drop bool) {
	outs, e := c.make(env, res, name, d, src, dest, drop)
	for _, g := range outs {
		if g.inexact != "" {
			res.note("undetermined", name+": "+g.inexact)
			continue
		}
		files := append([]genFile{}, g.files...)
		sort.SliceStable(files, func(i, j int) bool { return files[i].name < files[j].name })
		for i, f := range files {
			res.note("files_judged", name+": "+f.name)
			if i > 0 && files[i-1].name == f.name {
				res.violateAt(env, e, "one-name-per-script", f.text, fmt.Sprintf("%s: two scripts are called %s", name, f.name))
			}
		}
		if d != "postgres" {
			continue
		}
		before := simOf(d, src)
		db := before.clone()
		added := map[string]string{} // constraint -> file that adds it
	files:
		for _, f := range files {
			if strings.HasSuffix(f.name, ".undo.sql") {
				continue
			}
			stmts := statementsOf(f.text)
			for _, ts := range stmts {
				t := tokText(ts)
				was := db.clone()
				if x := db.exec(f.name, ts); x != nil {
					res.note("undetermined", name+": "+t+": "+x.why)
					break files
				}
				res.note("statements_judged", name+": "+t)
				say := func(rule, format string, a ...any) {
					res.violateAt(env, e, rule, t, fmt.Sprintf("%s: %s: `%s` %s", name, f.name, t, fmt.Sprintf(format, a...)))
				}
				if noTx.MatchString(t + " ") {
					if !strings.HasSuffix(f.name, ".txoff.sql") {
						say("non-transactional-apart", "can't run in a transaction but is in a file that runs in one")
						continue
					}
					if len(stmts) > 1 {
						say("non-transactional-apart", "can't run in a transaction but isn't alone in its file")
					}
					undo := slices.IndexFunc(files, func(u genFile) bool { return u.name == strings.TrimSuffix(f.name, ".txoff.sql")+".undo.sql" })
					if undo < 0 {
						say("undo-file", "has no undo file")
						continue
					}
					back, not := db.clone(), was.clone()
					if x := back.apply(files[undo].name, files[undo].text); x != nil {
						if x.unknown {
							res.note("undetermined", name+": "+x.stmt+": "+x.why)
						} else {
							say("undo-file", "has an undo file with a statement that fails: %s", x.why)
						}
						continue
					}
					if diff := compareDB(was, back); len(diff) > 0 {
						say("undo-file", "isn't undone by its undo file: afterwards %s", diff[0])
					}
					if x := not.apply(files[undo].name, files[undo].text); x == nil {
						if diff := compareDB(was, not); len(diff) > 0 {
							say("undo-file", "has an undo file that does harm when it had no effect: afterwards %s", diff[0])
						}
					}
				}
				for k, u := range db.tables {
					o, w := before.tables[k], was.tables[k]
					if o == nil || w == nil {
						continue
					}
					for n := range u.idx {
						if !has(w.idx, n) && !noTx.MatchString(t+" ") {
							say("indexes-concurrent", "builds an index on the existing table %s and blocks it meanwhile", k)
						}
					}
					for n, x := range u.cons {
						y, ok := w.cons[n]
						switch {
						case !ok && x.kind == "FOREIGN KEY":
							if !x.unvalidated {
								say("keys-validated-later", "adds a foreign key to the existing table %s and validates it at once", k)
							}
							added[k.String()+" "+n] = f.name
						case !ok && x.kind == "CHECK":
							added[k.String()+" "+n] = f.name
						case !ok && !has(w.idx, n):
							say("indexes-concurrent", "builds the index of a key on the existing table %s and blocks it meanwhile", k)
						case ok && y.unvalidated && !x.unvalidated && added[k.String()+" "+n] == f.name:
							say("keys-validated-later", "validates constraint %s in the file that adds it", n)
						}
					}
					for n, x := range u.cols {
						y, ok := w.cols[n]
						if !ok || !has(o.cols, n) || y.notNull || !x.notNull {
							continue
						}
						sure := false
						for m, z := range w.cons {
							sure = sure || z.kind == "CHECK" && (z.expr == `"`+n+`" IS NOT NULL` || z.expr == strings.ToUpper(n)+" IS NOT NULL") && !z.unvalidated && added[k.String()+" "+m] != f.name
						}
						if !sure {
							say("not-null-checked-first", "makes column %s.%s NOT NULL without a validated check, blocking the table while it is scanned", k, n)
						}
					}
				}
			}
		}
	}
}
