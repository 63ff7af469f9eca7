package checks

import (
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C14", Technique: "interprocedural analysis of the statements the bookkeeping commands send", Run: runC14,
		Explain: "ls, touch, rm and mv are analysed per dialect with a known history table name. No statement they send is built from the contents of a file. ls sends nothing but reads. rm, mv and touch send, besides reads, only INSERT, UPDATE, DELETE or MERGE statements whose target is the history table, and only touch sends CREATE TABLE, again only for that table. None of them changes a file. Not covered: which rows of the history table are changed."})
}

const theHistory = "migration_history"

// target matches the table a modifying statement is about.
var target = regexp.MustCompile("(?is)^\\s*(?:IF NOT EXISTS\\b.*?\\b)?(INSERT(?:\\s+OR\\s+\\w+|\\s+IGNORE)?(?:\\s+INTO)?|REPLACE\\s+INTO|UPDATE|DELETE\\s+FROM|MERGE(?:\\s+INTO)?|CREATE\\s+TABLE(?:\\s+IF\\s+NOT\\s+EXISTS)?)\\s+([^\\s(]+)")

// modified gives the verb and table a known beginning of a statement modifies.
func modified(text string) (verb, table string, ok bool) {
	m := target.FindStringSubmatch(text)
	if m == nil || strings.EqualFold(m[2], "INTO") {
		return "", "", false
	}
	table = strings.NewReplacer("\"", "", "`", "", "[", "", "]", "").Replace(m[2])
	if i := strings.LastIndexByte(table, '.'); i >= 0 {
		table = table[i+1:]
	}
	return strings.ToUpper(strings.Fields(m[1])[0]), table, true
}

type bookMon struct {
	absint.Base
	res   *Result
	allow string
}

func (m *bookMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	if fileEffect(c) {
		e.Report("C14", c.Site, c.Ctx, "a bookkeeping command changes a file")
		return true
	}
	op, ok := stmtOf(e, c, s, true)
	if !ok {
		return true
	}
	m.res.note("statements_judged", siteName(e, c))
	if op.isScript() || op.text.Lab.Has("file") {
		e.Report("C14", c.Site, c.Ctx, "a bookkeeping command sends the contents of a file to the database")
		return true
	}
	if !op.mayModify() {
		return true
	}
	texts := op.text.Consts
	if texts == nil {
		texts = op.text.Pre
	}
	for _, t := range texts {
		verb, table, ok := modified(t)
		switch {
		case m.allow == "":
			e.Report("C14", c.Site, c.Ctx, "a listing command sends a modifying statement")
		case ok && !strings.Contains(m.allow, verb):
			e.Report("C14", c.Site, c.Ctx, "a bookkeeping command sends "+verb)
		case ok && table != theHistory && !strings.HasPrefix(theHistory, table):
			e.Report("C14", c.Site, c.Ctx, "a bookkeeping command modifies "+table+" instead of the history table")
		case !ok:
			// only the first word is known
			for _, v := range verbs(&AV{K: absint.Str, Consts: []string{t}}) {
				if v != "" && !strings.Contains(m.allow, v) {
					e.Report("C14", c.Site, c.Ctx, "a bookkeeping command sends "+v)
				}
			}
			if !op.text.Lab.Has("history") {
				e.Report("C14", c.Site, c.Ctx, "a bookkeeping command modifies something else than the history table")
			}
		}
	}
	if len(texts) == 0 && (m.allow == "" || !op.text.Lab.Has("history")) {
		e.Report("C14", c.Site, c.Ctx, "a bookkeeping command modifies something else than the history table")
	}
	return true
}

// quoteModels: a quoted known name is known.
func (env *Env) quoteModels() map[string]absint.Model {
	return map[string]absint.Model{
		env.P.Module + "/ddl.QuoteIdentifier": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			x := absint.Text(c.Args[1])
			r := absint.AnyStr()
			if len(x.Consts) > 0 {
				var ts []string
				for _, t := range x.Consts {
					ts = append(ts, "\""+t+"\"")
				}
				r = absint.StrV(ts...)
			}
			return []absint.Outcome{{Ret: absint.Labelled(r, x.Lab.Names()...)}}
		},
	}
}

func runC14(env *Env) *Result {
	rows := "INSERT UPDATE DELETE MERGE REPLACE"
	allow := map[string]string{"LsCmd": "", "RmCmd": rows, "MvCmd": rows, "TouchCmd": rows + " CREATE"}
	var jobs []job
	for cmd, a := range allow {
		for _, d := range dialects {
			jobs = append(jobs, job{cmd + "/" + d, func(res *Result) {
				e := env.newEngine()
				env.skipUnless(e, effectOp)
				skip := keepClosures(keepSmall(e.Skip))
				e.Skip = func(fn *ssa.Function) bool { return skip(fn) && !takesStrings(fn) }
				e.Models = env.quoteModels()
				e.Mon = &bookMon{res: res, allow: a}
				env.runCmd(e, res, cmd, map[string]*AV{"Dialect": absint.StrV(d), "HistoryTable": absint.Labelled(absint.StrV(theHistory), "history")})
				res.note("roots", cmd+"/"+d)
			}})
		}
	}
	r := env.runJobs(jobs)
	r.need("statements_judged", 4)
	return r
}
