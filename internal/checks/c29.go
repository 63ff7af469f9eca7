package checks

import (
	"fmt"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C29", Technique: "abstract interpretation of the generators over described catalogs; the resulting scripts are judged by their effect on a model of the database", Run: runC29,
		Explain: "GenerateCmd.Results and AutomigrateCmd.Run (up to what it hands to migrate) are analysed for pairs of described catalogs, with and without dropping; strings and containers are followed exactly, so every script the generator can write for the pair is known to the analysis. The statements are parsed and applied, in the order migrate takes the files, to a model of the source database that knows the objects, their dependencies and what the dialect allows. " +
			"Rules kept: no-refused-statement (nothing missing, existing already, still in use, or not possible that way) and ends-with-destination (the resulting model equals the one described by the destination, plus what is kept if dropping wasn't requested; the data of kept columns is still there). Scripts that can't be determined and statements the model doesn't understand are listed as undetermined and not judged. " +
			"Not covered: schema pairs other than the described ones; names that need quoting; changes of autoincrement, identity (except Postgres), generated expressions and check constraints of existing tables, which the generators don't support; changes of non-literal defaults; whether rows violate a new constraint; SQLite changes that need a table copy when dropping isn't requested."})
}

func runC29(env *Env) *Result {
	var jobs []job
	for _, d := range dialects {
		for _, s := range genScenes {
			if !s.for_(d) {
				continue
			}
			for _, drop := range []bool{false, true} {
				name := sceneName(d, s, drop)
				for _, c := range generators {
					jobs = append(jobs, job{c.name + ": " + name, func(res *Result) {
						env.judgeMigration(res, c, name, d, adapted(d, s.src(d)).(rec), adapted(d, s.dest(d)).(rec), drop)
					}})
				}
			}
		}
	}
	res := env.runJobs(jobs)
	res.need("migrations_judged", 1)
	return res
}

// generator is a command that writes migrations.
type generator struct {
	name string
	make func(env *Env, res *Result, name, d string, src, dest rec, drop bool) ([]genOut, *absint.Engine)
}

var generators = []generator{{"generate", (*Env).generate}, {"automigrate", (*Env).automigrate}}

func (env *Env) judgeMigration(res *Result, c generator, name, d string, src, dest rec, drop bool) {
	outs, e := c.make(env, res, name, d, src, dest, drop)
	name = c.name + ": " + name
	if len(outs) == 0 && res.Err == nil {
		res.note("undetermined", name+": no result")
	}
	for _, g := range outs {
		if g.inexact != "" {
			res.note("undetermined", name+": "+g.inexact)
			continue
		}
		db := simOf(d, src)
		if f := g.applyAll(db); f != nil {
			if f.unknown {
				res.note("undetermined", name+": "+f.stmt+": "+f.why)
				debugf("UNDETERMINED %s: %s: %s\n", name, f.stmt, f.why)
				continue
			}
			res.violateAt(env, e, "no-refused-statement", f.stmt, fmt.Sprintf("%s: %s: `%s` fails: %s", name, f.file, f.stmt, f.why))
			continue
		}
		res.note("migrations_judged", name)
		want := expectedDB(d, src, dest, drop)
		for _, diff := range compareDB(want, db) {
			res.violateAt(env, e, "ends-with-destination", "", name+": afterwards "+diff)
		}
	}
}
