package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C05", Technique: "interprocedural reachability of effects with dry-run set", Run: runC05,
		Explain: "wipe, automigrate and generate are analysed with DryRun set and every other option unknown, per dialect: no execution of a statement that can change data or schema (anything but SELECT, SHOW, PRAGMA, SET, WITH, EXPLAIN, IF; unknown texts count unless sent as a query), and no operation that creates, opens for writing, renames or removes a file is reachable. The migration generators are replaced by their result types (any file names, any texts, any warnings)."})
	register(&Check{ID: "C06", Technique: "interprocedural analysis of the paths after a generator returned warnings", Run: runC06,
		Explain: "generate and automigrate are analysed per dialect with the migration generator (recognised by its result types) returning at least one warning and any files. With neither AcceptWarnings nor DryRun: no modifying statement and no file-changing operation is reachable, and every return carries an error. With either of them: every return without error happens after the warnings were written out."})
	register(&Check{ID: "C24", Technique: "interprocedural reachability of effects with an unknown dialect", Run: runC24,
		Explain: "Every command with a dialect is analysed with a dialect none of the implementations covers: no modifying statement and no file-changing operation is reachable and every return carries an error. Exempt: load, and migrate when told to skip the history table (they send the statements they are given, which needs no dialect implementation), and calls without file names. Every introspector method that sends a query for each supported dialect also fails for an unknown one. In generate and automigrate no generator serves two dialects while another one is never used."})
}

// fileEffects are the operations that change the file system.
var fileEffects = map[string]bool{
	"os.Create": true, "os.WriteFile": true, "os.Mkdir": true, "os.MkdirAll": true, "os.MkdirTemp": true, "os.CreateTemp": true,
	"os.Remove": true, "os.RemoveAll": true, "os.Rename": true, "os.Truncate": true, "os.Symlink": true, "os.Link": true,
	"os.Chmod": true, "os.OpenFile": true, "(*os.File).Truncate": true,
	"io/ioutil.WriteFile": true, "io/ioutil.TempFile": true, "io/ioutil.TempDir": true,
}

// fileEffect: the call changes the file system.
func fileEffect(c *absint.Call) bool {
	if !fileEffects[c.Name] {
		return false
	}
	if c.Name == "os.OpenFile" && len(c.Args) > 1 {
		if n, ok := c.Args[1].IntConst(); ok && n&absint.WriteFlags == 0 {
			return false
		}
	}
	return true
}

// effectOp are the operations that can be effects.
func effectOp(n string) bool {
	return fileEffects[n] || txOp(n)
}

// effect describes the lasting effect of a call.
func effect(e *absint.Engine, c *absint.Call, s *absint.State) (string, bool) {
	if fileEffect(c) {
		return "a file operation (" + shortName(c.Name) + ")", true
	}
	if op, ok := stmtOf(e, c, s, false); ok && op.mayModify() {
		return "a modifying statement", true
	}
	return "", false
}

// effectMon reports every effect while active.
type effectMon struct {
	absint.Base
	res    *Result
	rule   string
	what   string
	active func(s *absint.State) bool
	after  func(e *absint.Engine, c *absint.Call, s *absint.State)
}

func (m *effectMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	if fileEffects[c.Name] {
		m.res.note("operations_judged", siteName(e, c))
	} else if _, ok := stmtOf(e, c, s, false); ok {
		m.res.note("operations_judged", siteName(e, c))
	}
	if m.active == nil || m.active(s) {
		if x, ok := effect(e, c, s); ok {
			e.Report(m.rule, c.Site, c.Ctx, x+" "+m.what)
		}
	}
	return true
}

func (m *effectMon) After(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []*absint.State {
	if m.after != nil {
		m.after(e, c, s)
	}
	return []*absint.State{s}
}

// generators are the functions that compute a migration: they return texts in
// buffers, their names and the warnings. The value is the index of the warnings.
func (env *Env) generators() map[string]int {
	env.genOnce.Do(func() {
		env.gens = map[string]int{}
		var all []*ssa.Function
		var dispatch []string
		for fn := range ssautil.AllFunctions(env.P.Prog) {
			if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), env.P.Module) || fn.Parent() != nil || fn.Synthetic != "" {
				continue
			}
			r := fn.Signature.Results()
			bufs, warn := false, -1
			n := 0
			for i := 0; i < r.Len(); i++ {
				switch types.TypeString(r.At(i).Type(), nil) {
				case "[]*bytes.Buffer", "[]bytes.Buffer":
					bufs = true
				case "[]string":
					warn, n = i, n+1
				}
			}
			if bufs && n > 1 {
				env.gens[fn.String()] = warn
				all = append(all, fn)
			}
		}
		// functions that dispatch to generators are followed
		env.newEngine()
		for _, fn := range all {
			if env.eff.Reaches(fn, func(n string) bool { _, ok := env.gens[n]; return ok && n != fn.String() }) {
				dispatch = append(dispatch, fn.String())
			}
		}
		for _, n := range dispatch {
			delete(env.gens, n)
		}
	})
	return env.gens
}

// genModels replaces the generators by their result types.
func (env *Env) genModels(warned bool) map[string]absint.Model {
	ms := map[string]absint.Model{}
	for name, w := range env.generators() {
		ms[name] = func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			rt := c.ResT.(*types.Tuple)
			var vs []*AV
			for i := 0; i < rt.Len(); i++ {
				v := e.Unknown(rt.At(i).Type())
				if warned && i == w {
					v = absint.Labelled(&AV{K: absint.Slice, Nil: absint.MayNonNil, Unk: true, Lo: 1, Hi: absint.MaxInt}, "warning")
				}
				vs = append(vs, v)
			}
			return []absint.Outcome{{Ret: absint.TupleV(vs...)}}
		}
	}
	return ms
}

func runC05(env *Env) *Result {
	var jobs []job
	for _, cmd := range []string{"WipeCmd", "AutomigrateCmd", "GenerateCmd"} {
		for _, d := range dialects {
			jobs = append(jobs, job{cmd + "/" + d, func(res *Result) {
				e := env.newEngine()
				env.skipUnless(e, effectOp)
				e.Models = env.genModels(false)
				e.Mon = &effectMon{res: res, rule: "C05", what: "is reachable in a dry run"}
				env.runCmd(e, res, cmd, map[string]*AV{"Dialect": absint.StrV(d), "DryRun": absint.True()})
				res.note("roots", cmd+"/"+d)
			}})
		}
	}
	r := env.runJobs(jobs)
	r.need("functions_interpreted", 20)
	return r
}

func runC06(env *Env) *Result {
	var jobs []job
	for _, cmd := range []string{"AutomigrateCmd", "GenerateCmd"} {
		for _, d := range dialects {
			for _, mode := range []string{"", "AcceptWarnings", "DryRun"} {
				name := cmd + "/" + d + "/" + mode
				jobs = append(jobs, job{name, func(res *Result) {
					e := env.newEngine()
					env.skipUnless(e, func(n string) bool { return effectOp(n) || isPrint(n) })
					skip := e.Skip
					e.Skip = func(fn *ssa.Function) bool { return skip(fn) && !env.reachesGenerator(fn) }
					e.Models = env.genModels(true)
					gens := env.generators()
					m := &effectMon{res: res, rule: "C06", what: "is reachable although there are warnings nobody accepted"}
					m.active = func(s *absint.State) bool { return mode == "" && s.Q != "" }
					m.after = func(e *absint.Engine, c *absint.Call, s *absint.State) {
						if _, ok := gens[c.Name]; ok {
							res.note("generator_calls", siteName(e, c))
							s.Q = "w"
						}
						if s.Q == "w" && isPrint(c.Name) {
							for _, a := range c.Args {
								if s.DeepLab(a).Has("warning") {
									s.Q = "printed"
									res.note("warnings_printed", siteName(e, c))
								}
							}
						}
					}
					e.Mon = m
					set := map[string]*AV{"Dialect": absint.StrV(d), "AcceptWarnings": absint.False(), "DryRun": absint.False()}
					if mode != "" {
						set[mode] = absint.True()
					}
					for _, o := range env.runCmd(e, res, cmd, set) {
						err := o.Ret
						msg := ""
						switch {
						case o.Q == "" || !err.MayBeNil():
							continue
						case mode == "":
							msg = "succeeds although there are warnings nobody accepted"
						case o.Q == "w":
							msg = "succeeds without having printed the warnings (" + mode + ")"
						default:
							continue
						}
						res.violate(e, "C06", env.P.Method(ddlPkg, cmd, "Run"), cmd+" "+msg)
					}
					res.note("roots", name)
				}})
			}
		}
	}
	return env.runJobs(jobs)
}

func isPrint(n string) bool {
	switch n {
	case "fmt.Fprintln", "fmt.Fprint", "fmt.Fprintf", "io.WriteString", "(io.Writer).Write", "(io.StringWriter).WriteString", "fmt.Println", "fmt.Printf", "fmt.Print", "(*bytes.Buffer).WriteTo", "(io.WriterTo).WriteTo", "io.Copy":
		return true
	}
	return strings.HasPrefix(n, "(*bufio.Writer).Write") || strings.HasPrefix(n, "(*os.File).Write")
}

func (env *Env) reachesGenerator(fn *ssa.Function) bool {
	gens := env.generators()
	return env.eff.Reaches(fn, func(n string) bool { _, ok := gens[n]; return ok })
}

func runC24(env *Env) *Result {
	var jobs []job
	for _, cmd := range env.P.Commands(ddlPkg) {
		named := env.P.Type(ddlPkg, cmd)
		if named == nil || fieldIndex(named, "Dialect") < 0 || cmd == "LoadCmd" {
			continue
		}
		set := map[string]*AV{"Dialect": absint.StrV("oracle"), "SkipHistoryTable": absint.False()}
		if i := fieldIndex(named, "Filenames"); i >= 0 {
			set["Filenames"] = &AV{K: absint.Slice, Nil: absint.MayNonNil, Unk: true, Lo: 1, Hi: absint.MaxInt}
		}
		jobs = append(jobs, job{cmd, func(res *Result) {
			e := env.newEngine()
			env.skipUnless(e, effectOp)
			e.Skip = keepSmall(e.Skip)
			e.Models = env.genModels(false)
			e.Mon = &effectMon{res: res, rule: "C24", what: "is reachable with an unsupported dialect"}
			for _, o := range env.runCmd(e, res, cmd, set) {
				if o.Ret.MayBeNil() {
					res.violate(e, "C24", env.P.Method(ddlPkg, cmd, "Run"), cmd+" can succeed with an unsupported dialect")
				}
			}
			res.note("roots", cmd)
		}})
		if cmd == "AutomigrateCmd" || cmd == "GenerateCmd" {
			jobs = append(jobs, job{cmd + "/generators", func(res *Result) { env.ownGenerator(res, cmd) }})
		}
	}
	for _, fn := range env.introspectorMethods() {
		jobs = append(jobs, job{fn.Name(), func(res *Result) { env.refusesDialect(res, fn) }})
	}
	r := env.runJobs(jobs)
	r.need("roots", 1)
	return r
}

// ownGenerator: if a generator is left unused because its dialect is handed to
// another one, that other one serves two dialects.
func (env *Env) ownGenerator(res *Result, cmd string) {
	gens := env.generators()
	by := map[string][]string{}
	var e *absint.Engine
	for _, d := range dialects {
		e = env.newEngine()
		env.skipUnless(e, effectOp)
		skip := keepSmall(e.Skip)
		e.Skip = func(fn *ssa.Function) bool { return skip(fn) && !env.reachesGenerator(fn) }
		e.Models = env.genModels(false)
		used := map[string]bool{}
		m := &effectMon{res: res}
		m.active = func(*absint.State) bool { return false }
		m.after = func(e *absint.Engine, c *absint.Call, s *absint.State) {
			if _, ok := gens[c.Name]; ok && !used[c.Name] {
				used[c.Name] = true
				by[c.Name] = append(by[c.Name], d)
				res.note("generator_calls", siteName(e, c))
			}
		}
		e.Mon = m
		env.runCmd(e, res, cmd, map[string]*AV{"Dialect": absint.StrV(d)})
	}
	res.note("roots", cmd+"/generators")
	if len(by) == len(gens) {
		return
	}
	for g, ds := range by {
		if len(ds) > 1 {
			res.violate(e, "C24", env.P.Method(ddlPkg, cmd, "Run"), "the dialects "+strings.Join(ds, " and ")+" are both handled by "+g+" while another generator is never used")
		}
	}
}

// introspectorMethods are the exported methods of the introspector that can fail.
func (env *Env) introspectorMethods() []*ssa.Function {
	var out []*ssa.Function
	named := env.P.Type(ddlPkg, "DatabaseIntrospector")
	if named == nil {
		return nil
	}
	for i := 0; i < named.NumMethods(); i++ {
		m := named.Method(i)
		if !m.Exported() {
			continue
		}
		fn := env.P.Prog.FuncValue(m)
		if r := fn.Signature.Results(); r.Len() == 0 || !isErrorType(r.At(r.Len()-1).Type()) {
			continue
		}
		out = append(out, fn)
	}
	return out
}

// queryMon: "q" after a query was sent.
type queryMon struct{ absint.Base }

func (m *queryMon) After(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []*absint.State {
	if _, ok := stmtOf(e, c, s, true); ok {
		s.Q = "q"
	}
	return []*absint.State{s}
}

// refusesDialect: a method that sends a query for every supported dialect
// fails for others.
func (env *Env) refusesDialect(res *Result, fn *ssa.Function) {
	idle := func(d string) (*absint.Engine, bool) {
		e := env.newEngine()
		env.skipUnless(e, txOp)
		e.Mon = &queryMon{}
		named := env.P.Type(ddlPkg, "DatabaseIntrospector")
		st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
		args := env.apiArgs(e, st, fn)
		id := e.Obj("root:dbi", nil, "", named, named.Obj().Pos())
		st.Heap[id] = &absint.Obj{V: env.cmdValue(e, st, "DatabaseIntrospector", named, map[string]*AV{"Dialect": absint.StrV(d)})}
		args[0] = absint.PtrV(absint.Ref{O: id})
		quiet := false
		for _, o := range e.RunFn(fn, args, nil, "", st.Heap, e.RootCtx.Child(nil, fn)) {
			err := o.Ret
			if err.K == absint.Tuple {
				err = err.Elems[len(err.Elems)-1]
			}
			if o.Q == "" && err.MayBeNil() {
				quiet = true
			}
		}
		res.noteEngine(e)
		return e, quiet
	}
	for _, d := range dialects {
		if _, quiet := idle(d); quiet {
			return
		}
	}
	res.note("roots", fn.Name())
	if e, quiet := idle("oracle"); quiet {
		res.violate(e, "C24", fn, fn.Name()+" can succeed with an unsupported dialect without asking the database")
	}
}
