package checks

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C28", Technique: "interprocedural analysis of ls and migrate under the same assumed directory and history, comparing the printed status with the scripts reachable", Run: runC28,
		Explain: "For every dialect, every kind of script in the migration directory (regular, with a transaction marker, repeatable) and every kind of history (no record, or a record whose success flag is true, false or NULL, with or without a start time, with the checksum of the present contents, another one or none), ls and migrate are both analysed with the history query yielding exactly that. The script is attributed a status by the text ls writes, and is executed if every way for migrate to succeed executes its contents. Applied and not executed have to coincide; a record of a failed run has to be reported as failed, no record as pending. Files that migrate never considers must not be reported. Directories of two scripts where only one has a record are included. Scenarios where either outcome can't be determined are counted (undetermined) and not judged. Not covered: the history query being restricted to the wrong rows by the database."})
}

type histRow struct {
	success  string // "", "true", "false"; "" is NULL
	started  bool
	checksum string // "same", "other", ""
}

func (r *histRow) String() string {
	if r == nil {
		return "no record"
	}
	s := "success " + r.success
	if r.success == "" {
		s = "success NULL"
	}
	if !r.started {
		s += ", no start time"
	}
	switch r.checksum {
	case "other":
		s += ", another checksum"
	case "":
		s += ", no checksum"
	}
	return s
}

func runC28(env *Env) *Result {
	rows := []*histRow{nil}
	for _, success := range []string{"true", "false", ""} {
		for _, started := range []bool{true, false} {
			for _, sum := range []string{"same", "other", ""} {
				rows = append(rows, &histRow{success, started, sum})
			}
		}
	}
	dirs := [][]string{{"01_a.sql"}, {"01_a.tx.sql"}, {"01_a.txoff.sql"}, {"repeatable/a.sql"}, {"repeatable/a.txoff.sql"},
		{"01_a.undo.sql"}, {"schema.sql"}, {"other/a.sql"}, {"01_a.txt"}, {"01_a.sql", "02_b.sql"}, {"01_a.sql", "repeatable/b.sql"}}
	var jobs []job
	for _, d := range dialects {
		for _, dir := range dirs {
			name := d + "/" + strings.Join(dir, "+")
			jobs = append(jobs, job{name, func(res *Result) {
				for _, r := range rows {
					env.agreeJob(res, name, d, dir, r)
				}
			}})
		}
	}
	r := env.runJobs(jobs)
	r.need("scenarios_compared", 1)
	return r
}

// agreeMon collects in Q the scripts executed and the text printed. A leading
// "+" says that the recorded row was read.
type agreeMon struct {
	absint.Base
	res   *Result
	files []string
	row   *histRow
	ls    bool
}

func (m *agreeMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	if m.ls {
		t := written(e, c, s)
		if t == nil || len(s.Q) > 400 {
			return true
		}
		switch {
		case len(t.Consts) == 1:
			s.Q += t.Consts[0]
		case len(t.Consts) == 0 && len(t.Pre) == 1:
			s.Q += t.Pre[0] + "…"
		default:
			s.Q += "…"
		}
		m.res.note("statuses_printed", siteName(e, c))
		return true
	}
	op, ok := stmtOf(e, c, s, false)
	if !ok || !op.isScript() || undoScript(op) {
		return true
	}
	m.res.note("script_executions", siteName(e, c))
	for _, f := range m.files {
		if op.text.Lab.Has("file(n:"+f+")") && !strings.Contains(s.Q, "<"+f+">") {
			s.Q += "<" + f + ">"
		}
	}
	return true
}

func (m *agreeMon) After(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []*absint.State {
	if o.Tag == "row" {
		s.Q = "+" + s.Q
	}
	if o.Tag == "absent" || o.Fail && !m.ls {
		// what the commands do if something fails is another matter
		if _, meth := e.SQLOp(c.Name); meth != "" || o.Tag == "absent" {
			return nil
		}
	}
	if o.Tag == "norows" && m.row != nil && historyQuery(s, c) {
		return nil
	}
	return []*absint.State{s}
}

var reStatus = regexp.MustCompile(`\[(applied|pending|failed|missing)\]\s*([\w./]+)`)

func (env *Env) agreeJob(res *Result, name, d string, files []string, row *histRow) {
	run := func(cmd string) ([]*absint.Out, *absint.Engine) {
		e := env.newEngine()
		m := &agreeMon{res: res, files: files, row: row, ls: cmd == "LsCmd"}
		e.Mon = m
		e.Scan = func(e *absint.Engine, c *absint.Call, s *absint.State, i int, t types.Type) *AV {
			if !historyQuery(s, c) {
				if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					return absint.True() // the history table exists
				}
				return nil
			}
			var v *AV
			switch scannedColumn(s, c, i) {
			case "filename":
				v = absint.Labelled(absint.StrV(files[0]), "n:"+files[0])
			case "checksum":
				switch row.checksum {
				case "same":
					v = absint.StrV(scriptSum)
				case "other":
					v = absint.StrV(theChecksum)
				}
			case "success":
				switch row.success {
				case "true":
					v = absint.True()
				case "false":
					v = absint.False()
				}
			case "started_at":
				if row.started {
					v = absint.Top()
				}
			default:
				return nil
			}
			if v == nil {
				return e.Zero(t)
			}
			return scanned(e, t, v)
		}
		e.Models = merged(env.quoteModels(), checksumModels(), sumModels(), map[string]absint.Model{
			"(*database/sql.Rows).Next": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
				if !historyQuery(s, c) {
					return []absint.Outcome{{Ret: absint.True()}, {Ret: absint.False(), Tag: "exhausted"}}
				}
				for _, o := range absint.ObjsOf(c.Args[0]) {
					if n := s.Attr(o, "read"); n != nil || row == nil || noneMissing(s.Attr(o, "query")) {
						return []absint.Outcome{{Ret: absint.False(), Tag: "exhausted"}}
					}
				}
				return []absint.Outcome{{Ret: absint.True(), Tag: "row", Apply: func(t *absint.State) {
					for _, o := range absint.ObjsOf(c.Args[0]) {
						t.SetAttr(o, "read", absint.True())
					}
				}}}
			},
		})
		e.Content = func(p *AV) *AV { return absint.Labelled(absint.StrV(scriptText), "content") }
		st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
		for _, f := range files {
			e.Walk = append(e.Walk, absint.Labelled(absint.StrV(f), "n:"+f))
		}
		set := map[string]*AV{
			"Dialect":      absint.StrV(d),
			"HistoryTable": absint.Labelled(absint.StrV("migration_history"), "history"),
			"DirFS":        {K: absint.Iface, Nil: absint.MayNonNil, Unk: true},
		}
		if cmd == "LsCmd" {
			for _, f := range []string{"IncludeAll", "IncludePending", "IncludeApplied", "IncludeFailed", "IncludeMissing"} {
				set[f] = absint.True()
			}
		} else {
			set["SkipHistoryTable"] = absint.False()
			set["Filenames"] = &AV{K: absint.Slice, Nil: absint.MayNil}
		}
		env.zeroHidden(e, cmd, set)
		if cmd == "MigrateCmd" {
			env.skipUnless(e, txOp)
			skip := keepClosures(e.Skip)
			e.Skip = func(fn *ssa.Function) bool { return skip(fn) && !takesStrings(fn) }
		}
		return env.runCmdWith(e, res, cmd, st, set), e
	}
	// outcome per file: what every successful run does, "?" if they differ
	outcome := func(outs []*absint.Out, of func(q, f string) string) map[string]string {
		r := map[string]string{}
		for _, o := range outs {
			if !o.Ret.MayBeNil() {
				continue
			}
			debugf("%s %v: %q\n", name, row, o.Q)
			for _, f := range files {
				v := of(o.Q, f)
				if p, ok := r[f]; ok && p != v {
					v = "?"
				}
				r[f] = v
			}
		}
		return r
	}
	louts, le := run("LsCmd")
	printed := outcome(louts, func(q, f string) string {
		st := ""
		for _, x := range reStatus.FindAllStringSubmatch(q, -1) {
			if x[2] != f {
				continue
			}
			if st != "" && st != x[1] {
				return "?"
			}
			st = x[1]
		}
		if st == "" && strings.Contains(q, "…") {
			return "?"
		}
		return st
	})
	mouts, _ := run("MigrateCmd")
	executed := outcome(mouts, func(q, f string) string {
		if strings.Contains(q, "<"+f+">") {
			return "yes"
		}
		return "no"
	})
	for i, f := range files {
		r := row
		if i > 0 {
			r = nil
		}
		sc := fmt.Sprintf("%s %s, %v", name, f, r)
		p, x := printed[f], executed[f]
		debugf("=> %s: ls %q migrate %q\n", sc, p, x)
		if p == "?" || x == "?" || x == "" {
			res.note("undetermined", sc)
			continue
		}
		res.note("scenarios_compared", sc)
		run := env.P.Method(ddlPkg, "LsCmd", "Run")
		bad := func(f string, a ...any) { res.violate(le, "C28", run, fmt.Sprintf(f, a...)) }
		shown := p
		if shown == "" {
			shown = "nothing"
		}
		switch {
		case p == "" && x == "no":
		case p == "" || p == "missing":
			bad("a script that migrate executes isn't reported by ls (%s; reported: %s)", kindAnd(f, r), shown)
		case p == "applied" && x == "yes":
			bad("ls reports as applied a script that migrate executes (%s)", kindAnd(f, r))
		case p != "applied" && x == "no":
			bad("ls reports as %s a script that migrate doesn't execute (%s)", p, kindAnd(f, r))
		case r == nil && p != "pending":
			bad("ls reports as %s a script without a record (%s)", p, kindAnd(f, r))
		case r != nil && r.success == "false" && r.started && p != "failed":
			bad("ls reports as %s a script whose recorded run failed (%s)", p, kindAnd(f, r))
		case r != nil && r.success == "true" && p == "failed":
			bad("ls reports as failed a script whose recorded run succeeded (%s)", kindAnd(f, r))
		}
	}
	res.note("roots", "LsCmd/"+name)
	res.note("roots", "MigrateCmd/"+name)
}

// The contents of every script, with the line ends of another system than the
// one the recorded checksum was computed on.
const scriptText = "UPDATE t SET x = 1;\r\nUPDATE t SET y = 2;\r\n"

var scriptSum = fmt.Sprintf("%x", sha256.Sum256([]byte(strings.ReplaceAll(scriptText, "\r\n", "\n"))))

// sumModels compute checksums of known texts; those of texts that aren't known
// are taken to be right.
func sumModels() map[string]absint.Model {
	return map[string]absint.Model{
		"crypto/sha256.Sum256": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			sum := scriptSum
			if t, ok := absint.Text(c.Args[0]).One(); ok {
				sum = fmt.Sprintf("%x", sha256.Sum256([]byte(t)))
			}
			return []absint.Outcome{{Ret: absint.Labelled(&AV{K: absint.Unk, Nil: absint.MayNonNil}, "sha:"+sum)}}
		},
		"encoding/hex.EncodeToString": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			sums := map[string]bool{}
			for _, l := range s.DeepLab(c.Args[0]).Names() {
				if strings.HasPrefix(l, "sha:") {
					sums[l[4:]] = true
				}
			}
			if len(sums) == 0 {
				sums[scriptSum] = true
			}
			v := (*AV)(nil)
			for x := range sums {
				if v == nil {
					v = absint.StrV(x)
				} else {
					v = absint.Join(v, absint.StrV(x))
				}
			}
			return []absint.Outcome{{Ret: v}}
		},
	}
}

func kindAnd(f string, r *histRow) string { return f + ", " + r.String() }

// noneMissing: the query is for records of files that aren't in the directory.
func noneMissing(q *AV) bool {
	if q == nil {
		return false
	}
	t := absint.Text(q)
	for _, x := range append(append([]string(nil), t.Consts...), t.Pre...) {
		if strings.Contains(strings.ToUpper(x), "NOT IN") {
			return true
		}
	}
	return false
}
