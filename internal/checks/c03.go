package checks

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C03", Technique: "interprocedural analysis of migration attempts with an automaton over failures, lock-timeout verdicts, retries and undos", Run: runC03,
		Explain: "For migrate and every dialect, with the maximum number of attempts set to 1, 2 and 3: every failing script, record or commit is followed on all paths; the driver's lock-timeout test answers both ways. A script is executed again only after the verdict was lock timeout, fewer than the maximum attempts were made, and the failed attempt was rolled back with its transaction or was a single statement that itself failed. An undo script is executed only after a failure outside a transaction, at most once, and nothing is retried after it. On every path after a failed script the returned error carries that failure. Not covered: what the undo script does, and whether the driver's verdict is right."})
}

// retryMon:
//
//	""        nothing executed, or the last unit finished
//	"s"       a script outside a transaction succeeded
//	"f<k><m>" attempt k failed, in mode m (t: transaction, c: none)
//	"l<k><m>" … and that was a lock timeout
//	"n<m>"    … and that was something else
//	"x"       recording a script that ran outside a transaction failed
//	"u…"      an undo script was executed
//	"e"       something failed before a script was executed
type retryMon struct {
	absint.Base
	res   *Result
	max   int
	multi bool // the scripts hold several statements
}

func undoScript(op stmtOp) bool { return op.text.Lab.Has("undo") }

func modeOf(s *absint.State, op stmtOp) string {
	m := ""
	for _, o := range op.on {
		if kindOf(s, o) == "tx" {
			m += "t"
		} else {
			m += "c"
		}
	}
	if strings.Contains(m, "c") || m == "" {
		return "c"
	}
	return "t"
}

func (m *retryMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	op, ok := stmtOf(e, c, s, false)
	if !ok || !op.isScript() || !op.mayModify() {
		return true
	}
	q := s.Q
	if undoScript(op) {
		m.res.note("undo_executions", siteName(e, c))
		switch {
		case strings.HasPrefix(q, "u"):
			e.Report("C03", c.Site, c.Ctx, "an undo script may be executed a second time")
		case strings.HasSuffix(q, "t"):
			e.Report("C03", c.Site, c.Ctx, "an undo script is executed although the transaction was rolled back")
		case q == "" || q == "s":
			e.Report("C03", c.Site, c.Ctx, "an undo script is executed although nothing failed")
		}
		return true
	}
	m.res.note("script_executions", siteName(e, c))
	switch {
	case strings.HasPrefix(q, "u"):
		e.Report("C03", c.Site, c.Ctx, "a script is executed after an undo script was")
	case strings.HasPrefix(q, "f"), strings.HasPrefix(q, "n"):
		e.Report("C03", c.Site, c.Ctx, "a script is executed after a failure that was not found to be a lock timeout")
	case strings.HasPrefix(q, "x"):
		e.Report("C03", c.Site, c.Ctx, "a script that was applied outside a transaction is executed again because recording it failed")
	case strings.HasPrefix(q, "l"):
		k := int(q[1] - '0')
		m.res.note("retries", siteName(e, c))
		if k >= m.max {
			e.Report("C03", c.Site, c.Ctx, "a failed unit is attempted more often than the maximum number of attempts")
		}
		if q[2:] == "c" && m.multi {
			e.Report("C03", c.Site, c.Ctx, "a script of several statements is executed again outside a transaction, where the first attempt was not rolled back")
		}
	}
	return true
}

// Instr: if what happens depends on the contents of the script in a way that is
// not determined, the script may just as well be a single statement.
func (m *retryMon) Instr(e *absint.Engine, in ssa.Instruction, fn *ssa.Function, ctx *absint.Ctx, s *absint.State) {
	if br, ok := in.(*ssa.If); ok && m.multi && e.CondLabels(s, br.Cond).Has("content") {
		m.multi = false
		m.res.note("contents_undetermined", e.Pos(in.Pos()))
	}
}

func (m *retryMon) Fork(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []absint.Result {
	keep := []absint.Result{{S: s, Ret: o.Ret}}
	fails := func(q string) int {
		if len(q) > 1 && (q[0] == 'l' || q[0] == 'f') {
			return int(q[1] - '0')
		}
		return 0
	}
	if c.Name == "dynamic:Driver.IsLockTimeout" {
		m.res.note("verdicts", siteName(e, c))
		if strings.HasPrefix(s.Q, "f") {
			if o.Tag == "lock" {
				s.Q = "l" + s.Q[1:]
			} else {
				s.Q = "n" + s.Q[2:]
			}
		}
		return keep
	}
	_, method := e.SQLOp(c.Name)
	if method == "Commit" {
		if o.Fail {
			s.Q = fmt.Sprintf("f%dt", min(fails(s.Q)+1, 9))
			return errLabelled(s, o)
		}
		s.Q = ""
		return keep
	}
	op, ok := stmtOf(e, c, s, true)
	if !ok {
		if (o.Fail || strings.HasSuffix(c.Name, ".Open") && o.Tag != "") && (s.Q == "" || s.Q == "s") && !inDefer(c) {
			if strings.HasSuffix(c.Name, ".RowsAffected") && s.Q == "s" {
				s.Q = "x"
			} else {
				s.Q = "e"
			}
		}
		return keep
	}
	switch {
	case op.isScript() && undoScript(op) && op.mayModify():
		if o.Fail {
			s.Q = "uf"
		} else {
			s.Q = "uo"
		}
	case op.isScript() && op.mayModify():
		mode := modeOf(s, op)
		switch {
		case o.Fail:
			s.Q = fmt.Sprintf("f%d%s", min(fails(s.Q)+1, 9), mode)
			return errLabelled(s, o)
		case mode == "c":
			s.Q = "s"
		}
	case op.text.Lab.Has("history") && o.Fail:
		switch {
		case s.Q == "s":
			s.Q = "x"
			return errLabelled(s, o)
		case s.Q == "" || s.Q[0] == 'l' && modeOf(s, op) == "t":
			s.Q = fmt.Sprintf("f%dt", min(fails(s.Q)+1, 9))
			return errLabelled(s, o)
		}
	}
	return keep
}

// errLabelled marks the error of the operation as the original failure.
func errLabelled(s *absint.State, o *absint.Outcome) []absint.Result {
	ret := o.Ret
	if ret.K == absint.Tuple {
		n := *ret
		n.Elems = append([]*AV(nil), ret.Elems...)
		n.Elems[len(n.Elems)-1] = absint.Labelled(n.Elems[len(n.Elems)-1], "err:unit")
		ret = &n
	} else {
		ret = absint.Labelled(ret, "err:unit")
	}
	return []absint.Result{{S: s, Ret: ret}}
}

// scriptKinds: the file names that are told apart, as lists given to migrate.
var scriptKinds = [][]string{
	{"01_a.sql"}, {"01_a.tx.sql"}, {"01_a.txoff.sql"}, {"repeatable/a.sql"}, {"repeatable/a.txoff.sql"},
	{"01_a.sql", "02_b.sql"},
}

const severalStatements = "CREATE TABLE a (id INT);\nINSERT INTO a (id) VALUES (1);\n"

func runC03(env *Env) *Result {
	var jobs []job
	for _, d := range dialects {
		for _, files := range scriptKinds {
			if len(files) > 1 && d == "mysql" {
				continue // runs them one by one
			}
			for max := 1; max <= 3; max++ {
				if len(files) > 1 && max != 2 {
					continue
				}
				for _, multi := range []bool{true, false} {
					if multi && (max != 2 || !strings.Contains(files[0], "txoff") && d != "mysql") {
						continue // a property of what runs outside transactions
					}
					name := fmt.Sprintf("MigrateCmd/%s/%s/MaxAttempts=%d", d, strings.Join(files, "+"), max)
					jobs = append(jobs, job{name, func(res *Result) { env.retryJob(res, name, d, files, max, multi) }})
				}
			}
		}
	}
	r := env.runJobs(jobs)
	r.need("script_executions", 1)
	return r
}

// strSlice is a slice of the given strings.
func strSlice(e *absint.Engine, st *absint.State, name string, t types.Type, ss []string, labs ...string) *AV {
	var vs []*AV
	for _, x := range ss {
		vs = append(vs, absint.Labelled(absint.StrV(x), labs...))
	}
	return valSlice(e, st, name, t, vs)
}

func valSlice(e *absint.Engine, st *absint.State, name string, t types.Type, vs []*AV) *AV {
	id := e.Obj("root:"+name, nil, "", t, 0)
	st.Heap[id] = &absint.Obj{V: &AV{K: absint.Arr, Elems: vs}}
	n := int64(len(vs))
	return &AV{K: absint.Slice, Nil: absint.MayNonNil, Refs: []absint.Ref{{O: id}}, Lo: n, Hi: n}
}

func (env *Env) retryJob(res *Result, name, d string, files []string, max int, multi bool) {
	e := env.newEngine()
	env.skipUnless(e, func(n string) bool { return txOp(n) || strings.HasPrefix(n, "dynamic:") })
	skip := keepClosures(e.Skip)
	e.Skip = func(fn *ssa.Function) bool { return skip(fn) && !takesStrings(fn) }
	e.Models = map[string]absint.Model{
		"dynamic:Driver.IsLockTimeout": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			return []absint.Outcome{{Ret: absint.True(), Tag: "lock"}, {Ret: absint.False(), Tag: "other"}}
		},
		"dynamic:Driver.AnnotateError": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			return []absint.Outcome{{Ret: &AV{K: absint.Unk, Nil: absint.MayNonNil, Lab: c.Args[0].Lab}}}
		},
	}
	m := &retryMon{res: res, max: max, multi: multi}
	e.Mon = m
	if multi {
		e.Content = func(p *AV) *AV { return absint.Labelled(absint.StrV(severalStatements), "content") }
	}
	e.Scan = func(e *absint.Engine, c *absint.Call, s *absint.State, i int, t types.Type) *AV {
		if scannedColumn(s, c, i) == "filename" { // the query asks for the given ones
			v := absint.StrV(files[0])
			for _, f := range files[1:] {
				v = absint.Join(v, absint.StrV(f))
			}
			return scanned(e, t, v)
		}
		return nil
	}
	st0 := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
	fs := strSlice(e, st0, "Filenames", types.NewSlice(types.Typ[types.String]), files)
	fn, args, st, err := env.cmdRoot(e, "MigrateCmd", map[string]*AV{
		"Dialect":      absint.StrV(d),
		"MaxAttempts":  absint.IntV(int64(max)),
		"HistoryTable": absint.Labelled(absint.StrV("migration_history"), "history"),
		"Filenames":    fs,
	})
	if err != nil {
		res.Err = err
		return
	}
	for k, v := range st0.Heap {
		st.Heap[k] = v
	}
	outs := e.RunFn(fn, args, nil, "", st.Heap, e.RootCtx.Child(nil, fn))
	for _, o := range outs {
		if o.Q == "" || o.Q == "s" || o.Q == "e" {
			continue
		}
		st := &absint.State{Heap: o.Heap}
		if !st.DeepLab(o.Ret).Has("err:unit") {
			v := absint.Violation{Rule: "C03", Func: "MigrateCmd.Run", Msg: "after a failed migration the returned error may be something other than the original failure"}
			e.Violations[v.Key()] = v
		}
		res.note("failing_ends", o.Q)
	}
	res.noteEngine(e)
	res.note("roots", name)
}

// scannedColumn is the name of the i-th column of the query whose row is
// scanned ("" if it can't be told).
func scannedColumn(s *absint.State, c *absint.Call, i int) string {
	name := ""
	for _, o := range absint.ObjsOf(c.Args[0]) {
		q := s.Attr(o, "query")
		if q == nil {
			return ""
		}
		for _, text := range append(append([]string(nil), absint.Text(q).Consts...), absint.Text(q).Pre...) {
			m := reColumns.FindStringSubmatch(text)
			if m == nil {
				return ""
			}
			cols := strings.Split(m[1], ",")
			if i >= len(cols) || strings.ContainsAny(m[1], "()'") {
				return ""
			}
			n := strings.ToLower(strings.Trim(strings.TrimSpace(cols[i]), "\"`[]"))
			if name != "" && name != n {
				return ""
			}
			name = n
		}
	}
	return name
}

var reColumns = regexp.MustCompile(`(?is)^\s*SELECT\s+(.*?)\s+FROM\b`)

// scanned is a scan destination of type t holding v (or NULL, where t can).
func scanned(e *absint.Engine, t types.Type, v *AV) *AV {
	u := e.Unknown(t)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return v
	}
	if u.K != absint.Struct || len(u.Elems) != st.NumFields() {
		return nil
	}
	n := *u
	n.Elems = append([]*AV(nil), u.Elems...)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Valid" {
			n.Elems[i] = absint.True()
		} else {
			n.Elems[i] = v
		}
	}
	return &n
}

// takesStrings: a function over lists of file names, worth interpreting.
func takesStrings(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if types.TypeString(p.Type(), nil) == "[]string" {
			return true
		}
	}
	return false
}
