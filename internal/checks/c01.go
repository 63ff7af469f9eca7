package checks

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C01", Technique: "interprocedural analysis of migrate under assumed history records, following them to the statements executed", Run: runC01,
		Explain: "For migrate, every dialect and every kind of script (regular, with a transaction marker, repeatable), with the files named by the caller and found by walking the directory: the history query is assumed to yield a successful record for the script (for repeatable scripts with the checksum the present contents have), or a record of only the first of two scripts; the recorded time taken is unknown, zero (as touch records it) or positive. After that record was read, no statement that is the contents of that script is reachable. After any failure while reading the history (query, iteration, scan) no script execution is reachable at all. Not covered: the history query being restricted to the wrong rows by the database."})
}

// historyMon: "" nothing read, "r" the assumed record was read, "o" it was
// read and then compared in a way that isn't followed, "x" reading the history
// failed.
type historyMon struct {
	absint.Base
	res     *Result
	applied string // label of the script that has a record
}

func (m *historyMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	op, ok := stmtOf(e, c, s, false)
	if !ok || !op.isScript() {
		return true
	}
	m.res.note("script_executions", siteName(e, c))
	switch {
	case s.Q == "x":
		e.Report("C01", c.Site, c.Ctx, "a script is executed although reading the history failed")
	case s.Q == "r" && (m.applied == "" || op.text.Lab.Has("file("+m.applied+")")) && !undoScript(op):
		e.Report("C01", c.Site, c.Ctx, "a script that the history records as applied is executed again")
	}
	return true
}

func (m *historyMon) Instr(e *absint.Engine, in ssa.Instruction, fn *ssa.Function, ctx *absint.Ctx, s *absint.State) {
	br, ok := in.(*ssa.If)
	if !ok || s.Q != "r" {
		return
	}
	// the contents of the file with the recorded name aren't the record
	if l := e.CondLabels(s, br.Cond); l.Has("recorded") || l.Has("recordedname") && !l.Has("file") {
		s.Q = "o"
		m.res.note("records_undetermined", e.Pos(absint.InstrPos(in)))
	}
}

func (m *historyMon) After(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []*absint.State {
	if s.Q == "x" {
		if o.Tag == "noerr" && historyQuery(s, c) {
			return nil // the rows do report that they were cut short
		}
		return []*absint.State{s}
	}
	if _, meth := e.SQLOp(c.Name); o.Fail && (meth == "Query" || meth == "QueryContext" || meth == "QueryRow" || meth == "QueryRowContext") {
		if op, ok := stmtOf(e, c, s, false); ok && op.text.Lab.Has("history") {
			m.res.note("history_failures", siteName(e, c))
			s.Q = "x"
		}
	}
	name := strings.TrimPrefix(c.Name, "(*database/sql.")
	if name == "Rows).Scan" || name == "Rows).Next" || name == "Row).Scan" || name == "Rows).Err" {
		if historyQuery(s, c) {
			switch {
			case o.Fail:
				m.res.note("history_failures", siteName(e, c))
				s.Q = "x"
			case strings.HasSuffix(name, "Scan"):
				m.res.note("history_reads", siteName(e, c))
				s.Q = "r"
			}
		}
	}
	return []*absint.State{s}
}

// historyQuery: the rows are those of a query for recorded scripts.
func historyQuery(s *absint.State, c *absint.Call) bool {
	for _, o := range absint.ObjsOf(c.Args[0]) {
		if q := s.Attr(o, "query"); q != nil && q.Lab.Has("history") {
			return true
		}
	}
	return false
}

const theChecksum = "0123456789abcdef"

func runC01(env *Env) *Result {
	kinds := [][]string{{"01_a.sql"}, {"01_a.tx.sql"}, {"01_a.txoff.sql"}, {"repeatable/a.sql"}, {"repeatable/a.txoff.sql"}, {"01_a.sql", "02_b.sql"}}
	var jobs []job
	for _, d := range dialects {
		for _, files := range kinds {
			for _, walk := range []bool{false, true} {
				for _, time := range []string{"", "0", "5"} {
					name := fmt.Sprintf("MigrateCmd/%s/%s", d, strings.Join(files, "+"))
					if walk {
						name += "/walk"
					}
					if time != "" {
						name += "/time taken " + time
					}
					jobs = append(jobs, job{name, func(res *Result) { env.historyJob(res, name, d, files, walk, time) }})
				}
			}
		}
	}
	r := env.runJobs(jobs)
	r.need("script_executions", 1)
	r.need("history_reads", 1)
	return r
}

func (env *Env) historyJob(res *Result, name, d string, files []string, walk bool, time string) {
	e := env.newEngine()
	env.skipUnless(e, txOp)
	skip := keepClosures(e.Skip)
	e.Skip = func(fn *ssa.Function) bool { return skip(fn) && !takesStrings(fn) }
	m := &historyMon{res: res}
	if len(files) > 1 {
		m.applied = "n:" + files[0]
	}
	e.Mon = m
	e.Scan = func(e *absint.Engine, c *absint.Call, s *absint.State, i int, t types.Type) *AV {
		switch scannedColumn(s, c, i) {
		case "filename":
			return scanned(e, t, absint.Labelled(absint.StrV(files[0]), "recordedname", "n:"+files[0]))
		case "checksum":
			return scanned(e, t, absint.Labelled(absint.StrV(theChecksum), "recorded"))
		case "success":
			return scanned(e, t, absint.Labelled(absint.True(), "recorded"))
		case "time_taken_ns":
			if n, err := strconv.ParseInt(time, 10, 64); err == nil {
				return scanned(e, t, absint.IntV(n))
			}
		}
		return nil
	}
	e.Models = checksumModels()
	st0 := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
	set := map[string]*AV{
		"Dialect":          absint.StrV(d),
		"SkipHistoryTable": absint.False(),
		"HistoryTable":     absint.Labelled(absint.StrV("migration_history"), "history"),
	}
	var list []*AV
	for _, f := range files {
		list = append(list, absint.Labelled(absint.StrV(f), "n:"+f))
	}
	if walk {
		e.Walk = list
		set["Filenames"] = &AV{K: absint.Slice, Nil: absint.MayNil}
	} else {
		set["Filenames"] = valSlice(e, st0, "Filenames", types.NewSlice(types.Typ[types.String]), list)
	}
	fn, args, st, err := env.cmdRoot(e, "MigrateCmd", set)
	if err != nil {
		res.Err = err
		return
	}
	for k, v := range st0.Heap {
		st.Heap[k] = v
	}
	e.RunFn(fn, args, nil, "", st.Heap, e.RootCtx.Child(nil, fn))
	res.noteEngine(e)
	res.note("roots", name)
}

// checksumModels: the checksum of a file's present contents.
func checksumModels() map[string]absint.Model {
	sum := func(arg int) absint.Model {
		return func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			if arg < len(c.Args) {
				if l := s.DeepLab(c.Args[arg]); l.Has("sum(file)") || l.Has("file") {
					return []absint.Outcome{{Ret: absint.Labelled(absint.StrV(theChecksum), l.Names()...)}}
				}
			}
			return []absint.Outcome{{Ret: absint.AnyStr()}}
		}
	}
	return map[string]absint.Model{
		"encoding/hex.EncodeToString": sum(0),
		// what is walked are files
		"(io/fs.DirEntry).IsDir": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			return []absint.Outcome{{Ret: absint.False()}}
		},
	}
}
