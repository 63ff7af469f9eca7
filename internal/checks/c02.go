package checks

import (
	"fmt"
	"strings"

	"sqverif/internal/absint"
)

// txOp: operations the transaction checks look at.
func txOp(n string) bool {
	return resourceOp(n) || strings.HasPrefix(n, "(*encoding/csv") || strings.HasPrefix(n, "encoding/csv") || strings.HasPrefix(n, "(*bytes.Buffer).ReadFrom")
}

// inputFailure: reading an input failed (closing it does not matter).
func inputFailure(c *absint.Call, o *absint.Outcome) bool {
	if !o.Fail || inDefer(c) {
		return false
	}
	n := c.Name
	return strings.HasSuffix(n, ".Open") || strings.HasSuffix(n, ".ReadFrom") || strings.HasSuffix(n, ".Read") || strings.HasSuffix(n, ".ReadAll") || strings.HasSuffix(n, "ReadFile") || strings.HasSuffix(n, ".Copy")
}

// newTxMon follows one transaction:
//
//	open      begun, everything done under it succeeded
//	failed    something done under it failed
//	ended     committed or rolled back
//
// strict: nothing may be sent through the transaction once it failed.
func newTxMon(env *Env, rule string, strict bool, res *Result) *tracker {
	m := newTracker(env)
	m.open = func(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) (int, bool) {
		i, k := openedKind(s, o)
		if k != "tx" || !isSource(c) {
			return 0, false
		}
		res.note("transactions", siteName(e, c))
		return i, true
	}
	m.before = func(e *absint.Engine, c *absint.Call, s *absint.State, t track) {
		if t.args[0] != 0 || !t.sure {
			return
		}
		_, method := e.SQLOp(c.Name)
		if t.st == "failed" {
			if method == "Commit" {
				e.Report(rule, c.Site, c.Ctx, fmt.Sprintf("the transaction begun at %s may be committed after an operation under it failed", t.site.name))
			} else if op, ok := stmtOf(e, c, s, true); ok && strict && op.mayModify() {
				e.Report(rule, c.Site, c.Ctx, fmt.Sprintf("something is written through the transaction begun at %s after an operation under it failed", t.site.name))
			}
		}
	}
	m.after = func(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome, t track) []string {
		if t.args[0] != 0 || t.st == "ended" {
			return nil
		}
		_, method := e.SQLOp(c.Name)
		switch method {
		case "Commit", "Rollback":
			res.note("ends", siteName(e, c))
			return []string{"ended"}
		}
		if o.Fail && method != "" && t.st == "open" {
			res.note("operations_in_transaction", siteName(e, c))
			return []string{"failed"}
		}
		return nil
	}
	m.other = func(e *absint.Engine, c *absint.Call, s *absint.State, t track) {
		if t.st == "ended" {
			return
		}
		op, ok := stmtOf(e, c, s, false)
		if !ok || op.through(t.id) || !op.mayModify() {
			return
		}
		for _, o := range op.on {
			if p := s.Attr(o, "kind"); p != nil {
				if k, _ := p.One(); k == "tx" {
					return // another transaction
				}
			}
		}
		e.Report(rule, c.Site, c.Ctx, fmt.Sprintf("%s writes outside the transaction begun at %s while that is in progress", shortName(c.Name), t.site.name))
	}
	m.otherAfter = func(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome, t track) []string {
		if t.st != "open" {
			return nil
		}
		if inputFailure(c, o) {
			return []string{"failed"}
		}
		if o.Fail {
			if op, ok := stmtOf(e, c, s, true); ok && op.through(t.id) {
				return []string{"failed"}
			}
		}
		return nil
	}
	m.done = func(st string) bool { return st == "ended" }
	return m
}

func init() {
	register(&Check{ID: "C02", Technique: "interprocedural typestate analysis of migration transactions and of the script/record order", Run: runC02,
		Explain: "For migrate and automigrate and every dialect: every transaction begun is followed through all paths with every operation both succeeding and failing; after a failed statement or file read under it, it must not be committed nor written through, and while it is in progress no write may go through another handle. Separately every executed script is followed to its history record: a record that may say success is only written after the script succeeded and through the same handle, and no commit or normal return happens between a successful script and its record. Not covered: what the driver does with a commit whose outcome is unknown."})
	register(&Check{ID: "C26", Technique: "interprocedural typestate analysis of load, touch and wipe transactions", Run: runC26,
		Explain: "For load, touch and wipe and every dialect: each transaction is followed through all paths with every operation both succeeding and failing; it is not committed after a statement, CSV read or file read under it failed, no write bypasses it while it is open; rows are inserted only through a transaction; no transaction ends between two reads of the same CSV file; touch and wipe (except on MySQL, whose DDL is not transactional) write only through a transaction and begin only one."})
}

// recordMon follows the latest script to its history record.
//
//	""           no script executed
//	"S<h>"       a script succeeded through handle h, its record is missing
//	"R<h>"       its record was written
//	"F"          a script failed
type recordMon struct {
	absint.Base
	res *Result
}

func handleKey(op stmtOp) string { return fmt.Sprint(op.on) }

func (m *recordMon) isRecord(op stmtOp) bool {
	return !op.isScript() && op.mayModify() && op.text.Lab.Has("history") && !op.hasVerb("CREATE")
}

func (m *recordMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	if _, method := e.SQLOp(c.Name); method == "Commit" && strings.HasPrefix(s.Q, "S") {
		e.Report("C02", c.Site, c.Ctx, "a transaction is committed after a script succeeded but before its history record was written")
		return true
	}
	op, ok := stmtOf(e, c, s, false)
	if !ok || !m.isRecord(op) {
		return true
	}
	success := false
	for _, v := range boundValues(e, s, op) {
		if v.K == absint.Bool && v.B&absint.MayTrue != 0 {
			success = true
		}
	}
	m.res.note("record_writes", siteName(e, c))
	if !success {
		return true
	}
	switch {
	case !strings.HasPrefix(s.Q, "S") && !strings.HasPrefix(s.Q, "R"):
		e.Report("C02", c.Site, c.Ctx, "a history record that may say success is written although no script just succeeded")
	case s.Q[1:] != handleKey(op):
		e.Report("C02", c.Site, c.Ctx, "the success record of a script is not written through the handle that executed the script")
	}
	return true
}

func (m *recordMon) After(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []*absint.State {
	op, ok := stmtOf(e, c, s, false)
	if !ok {
		return []*absint.State{s}
	}
	if op.isScript() && op.mayModify() {
		m.res.note("script_executions", siteName(e, c))
		if o.Fail {
			s.Q = "F"
		} else {
			s.Q = "S" + handleKey(op)
		}
		return []*absint.State{s}
	}
	if m.isRecord(op) {
		if o.Fail {
			s.Q = "F"
		} else if strings.HasPrefix(s.Q, "S") {
			s.Q = "R" + s.Q[1:]
		}
	}
	return []*absint.State{s}
}

func runC02(env *Env) *Result {
	var jobs []job
	for _, cmd := range []string{"MigrateCmd", "AutomigrateCmd"} {
		for _, d := range dialects {
			jobs = append(jobs, job{cmd + "/" + d + "/tx", func(res *Result) {
				e := env.newEngine()
				env.skipUnless(e, txOp)
				e.Mon = newTxMon(env, "C02", true, res)
				env.runCmd(e, res, cmd, map[string]*AV{"Dialect": absint.StrV(d)})
				res.note("roots", cmd+"/"+d)
			}})
		}
	}
	for _, d := range dialects {
		jobs = append(jobs, job{"MigrateCmd/" + d + "/record", func(res *Result) {
			e := env.newEngine()
			env.skipUnless(e, txOp)
			e.Skip = keepClosures(e.Skip)
			e.Mon = &recordMon{res: res}
			outs := env.runCmd(e, res, "MigrateCmd", map[string]*AV{
				"Dialect":          absint.StrV(d),
				"SkipHistoryTable": absint.False(),
				"HistoryTable":     absint.Labelled(absint.StrV("migration_history"), "history"),
			})
			for _, o := range outs {
				if strings.HasPrefix(o.Q, "S") && o.Ret.MayBeNil() {
					v := absint.Violation{Rule: "C02", Func: "MigrateCmd.Run", Msg: "migrate may report success without having recorded a script it executed"}
					e.Violations[v.Key()] = v
				}
			}
			res.Violations = append(res.Violations, sortedViolations(e.Violations)...)
		}})
	}
	r := env.runJobs(jobs)
	r.need("transactions", 1)
	r.need("script_executions", 1)
	r.need("record_writes", 1)
	return r
}

// runCmd interprets a command and records what was interpreted.
func (env *Env) runCmd(e *absint.Engine, res *Result, cmd string, set map[string]*AV) []*absint.Out {
	return env.runCmdWith(e, res, cmd, &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}, set)
}

// runCmdWith starts from a state holding what the fields refer to.
func (env *Env) runCmdWith(e *absint.Engine, res *Result, cmd string, from *absint.State, set map[string]*AV) []*absint.Out {
	fn, args, st, err := env.cmdRoot(e, cmd, set)
	for id, o := range from.Heap {
		st.Heap[id] = o
	}
	if err != nil {
		res.Err = err
		return nil
	}
	outs := e.RunFn(fn, args, nil, "", st.Heap, e.RootCtx.Child(nil, fn))
	if len(outs) == 0 {
		res.Err = fmt.Errorf("%s: no way to return found", cmd)
	}
	res.noteEngine(e)
	return outs
}

// onceMon: writes only inside a transaction, and only one transaction.
//
//	""  nothing begun    "b" in a transaction    "c" committed
type onceMon struct {
	absint.Base
	res  *Result
	cmd  string
	mods func(op stmtOp) bool
	once bool
}

func (m *onceMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	_, method := e.SQLOp(c.Name)
	if (method == "Begin" || method == "BeginTx") && s.Q == "c" && m.once {
		e.Report("C26", c.Site, c.Ctx, m.cmd+" may spread its work over more than one transaction")
	}
	op, ok := stmtOf(e, c, s, false)
	if !ok || !m.mods(op) {
		return true
	}
	m.res.note("writes", siteName(e, c))
	for _, o := range op.on {
		k := s.Attr(o, "kind")
		if k == nil {
			continue
		}
		if kind, _ := k.One(); kind == "db" || kind == "conn" {
			e.Report("C26", c.Site, c.Ctx, fmt.Sprintf("%s writes through a %s instead of a transaction", m.cmd, kindName(kind)))
		}
	}
	return true
}

func (m *onceMon) After(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []*absint.State {
	_, method := e.SQLOp(c.Name)
	if !o.Fail && method == "Commit" {
		s.Q = "c"
	}
	return []*absint.State{s}
}

// newReaderMon: no transaction is committed between two reads of one CSV file.
func newReaderMon(env *Env, res *Result) *tracker {
	m := newTracker(env)
	m.open = func(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) (int, bool) {
		if c.Name != "encoding/csv.NewReader" {
			return 0, false
		}
		res.note("csv_readers", siteName(e, c))
		return 0, true
	}
	m.after = func(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome, t track) []string {
		if t.args[0] == 0 && strings.Contains(c.Name, "csv.Reader).Read") {
			if !o.Fail && o.Tag == "" && t.st == "committed" && t.sure {
				e.Report("C26", c.Site, c.Ctx, "more of a CSV file is read after a transaction holding some of its rows was committed")
			}
			if t.st == "open" && o.Tag == "" && !o.Fail {
				return []string{"read"}
			}
		}
		return nil
	}
	m.otherAfter = func(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome, t track) []string {
		if _, method := e.SQLOp(c.Name); method == "Commit" && t.st == "read" && !o.Fail {
			return []string{"committed"}
		}
		return nil
	}
	return m
}

func runC26(env *Env) *Result {
	var jobs []job
	for _, cmd := range []string{"LoadCmd", "TouchCmd", "WipeCmd"} {
		for _, d := range dialects {
			if cmd == "WipeCmd" && d == "mysql" {
				continue
			}
			jobs = append(jobs, job{cmd + "/" + d + "/tx", func(res *Result) {
				e := env.newEngine()
				env.skipUnless(e, txOp)
				e.Mon = newTxMon(env, "C26", false, res)
				env.runCmd(e, res, cmd, map[string]*AV{"Dialect": absint.StrV(d)})
				res.note("roots", cmd+"/"+d)
			}})
			jobs = append(jobs, job{cmd + "/" + d + "/writes", func(res *Result) {
				e := env.newEngine()
				env.skipUnless(e, txOp)
				m := &onceMon{res: res, cmd: cmd, once: cmd != "LoadCmd"}
				switch cmd {
				case "LoadCmd":
					// the contents of SQL files are not meant
					m.mods = func(op stmtOp) bool { return !op.isScript() && op.mayModify() }
				case "TouchCmd":
					m.mods = func(op stmtOp) bool { return op.mayModify() && !op.hasVerb("CREATE") }
				default:
					m.mods = func(op stmtOp) bool { return op.mayModify() }
				}
				e.Mon = m
				env.runCmd(e, res, cmd, map[string]*AV{"Dialect": absint.StrV(d)})
			}})
			if cmd == "LoadCmd" {
				jobs = append(jobs, job{cmd + "/" + d + "/reader", func(res *Result) {
					e := env.newEngine()
					env.skipUnless(e, txOp)
					e.Mon = newReaderMon(env, res)
					env.runCmd(e, res, cmd, map[string]*AV{"Dialect": absint.StrV(d)})
				}})
			}
		}
	}
	r := env.runJobs(jobs)
	r.need("transactions", 3)
	r.need("writes", 3)
	r.need("csv_readers", 1)
	return r
}
