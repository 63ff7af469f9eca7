package checks

import (
	"strings"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C22", Technique: "interprocedural tracking of the context each statement is started with", Run: runC22,
		Explain: "migrate, load, dump, wipe and automigrate are analysed per dialect with a given context. Every statement, prepared statement, connection and transaction they start is started with that context or one derived from it: no variant without a context and no fresh context. Work done in an error group whose context was derived uses the group's context. Exempt: statements that set or restore session settings (SET, PRAGMA), which must also happen after a cancellation, and closing, committing and rolling back."})
}

// ctxMon checks the context of every operation that starts database work.
type ctxMon struct {
	absint.Base
	res   *Result
	group bool
}

var startsWork = map[string]bool{"Exec": true, "Query": true, "QueryRow": true, "Prepare": true, "Begin": true, "BeginTx": true, "Conn": true}

func (m *ctxMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	recv, method := e.SQLOp(c.Name)
	base := strings.TrimSuffix(method, "Context")
	if recv == "" || !startsWork[base] {
		return true
	}
	if op, ok := stmtOf(e, c, s, true); ok && onlyVerbs(op, "SET", "PRAGMA") {
		return true
	}
	m.res.note("operations_judged", siteName(e, c))
	if method == base && base != "BeginTx" && base != "Conn" {
		e.Report("C22", c.Site, c.Ctx, "database work is started without a context ("+shortName(c.Name)+")")
		return true
	}
	ctx := c.Args[1]
	switch {
	case ctx.Lab.Has("ctx:background") || !ctx.Lab.Has("ctx:cmd"):
		e.Report("C22", c.Site, c.Ctx, "database work is started under a context other than the command's ("+shortName(c.Name)+")")
	case e.InGoroutine() && !ctx.Lab.Has("ctx:group"):
		e.Report("C22", c.Site, c.Ctx, "a parallel worker starts database work under a context that is not cancelled when another worker fails ("+shortName(c.Name)+")")
	}
	return true
}

// onlyVerbs: the statement certainly starts with one of these words.
func onlyVerbs(op stmtOp, vs ...string) bool {
	for _, v := range verbs(op.text) {
		ok := false
		for _, w := range vs {
			ok = ok || v == w
		}
		if !ok {
			return false
		}
	}
	return true
}

func runC22(env *Env) *Result {
	var jobs []job
	for _, cmd := range []string{"MigrateCmd", "LoadCmd", "DumpCmd", "WipeCmd", "AutomigrateCmd"} {
		for _, d := range dialects {
			jobs = append(jobs, job{cmd + "/" + d, func(res *Result) {
				e := env.newEngine()
				env.skipUnless(e, func(n string) bool {
					recv, m := e.SQLOp(n)
					return recv != "" && startsWork[strings.TrimSuffix(m, "Context")] || strings.Contains(n, "errgroup")
				})
				e.Skip = env.keepFilters(keepSmall(keepClosures(e.Skip)))
				e.Mon = &ctxMon{res: res}
				set := map[string]*AV{"Dialect": absint.StrV(d)}
				env.zeroHidden(e, cmd, set)
				env.runCmd(e, res, cmd, set)
				res.note("roots", cmd+"/"+d)
			}})
		}
	}
	r := env.runJobs(jobs)
	r.need("roots", 1)
	r.need("operations_judged", 1)
	return r
}
