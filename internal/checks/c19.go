package checks

import (
	"fmt"
	"go/types"
	"strings"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C19", Technique: "interprocedural analysis of main with known argument lists", Run: runC19,
		Explain: "main is analysed with an argument list naming each subcommand (one per command type of the library) and one naming none of them, with a global flag and an argument after the name. Parsing, building and running a command may each succeed, fail or report that help was requested. Checked: the command built and run is the named one, once, with the global flags and the remaining arguments in order; after a failure, and for an unknown name, the process ends through os.Exit with a non-zero constant after something was printed to standard error; after success and help it does not exit non-zero; main does not return without having run the command."})
}

// mainMon: Q is a list of events.
type mainMon struct {
	absint.Base
	res  *Result
	want string // command type expected to run, "" for an unknown name
}

func (m *mainMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	n := shortName(c.Name)
	switch {
	case c.Name == "os.Exit":
		code, known := c.Args[0].IntConst()
		m.res.note("exits", siteName(e, c))
		bad := strings.Contains(s.Q, "fail ") || m.want == "" && !strings.Contains(s.Q, "help ")
		switch {
		case !known:
		case bad && code == 0:
			e.Report("C19", c.Site, c.Ctx, "the process exits with status 0 "+m.after(s.Q))
		case bad && !strings.Contains(s.Q, "print "):
			e.Report("C19", c.Site, c.Ctx, "the process exits without printing the error "+m.after(s.Q))
		case !bad && code != 0:
			e.Report("C19", c.Site, c.Ctx, "the process exits with a non-zero status although nothing failed")
		}
		return true
	case strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "(*os.File).Write") || strings.HasPrefix(n, "io.WriteString") || strings.HasPrefix(n, "log.Print") || strings.HasPrefix(n, "(*log.Logger)"):
		s.Q = with(s.Q, "print ")
	}
	return true
}

func (m *mainMon) after(q string) string {
	if !strings.Contains(q, "fail ") {
		return "although the subcommand does not exist"
	}
	if strings.Contains(q, "run ") {
		return "although running the command failed"
	}
	return "although building the command failed"
}

func with(q, ev string) string {
	if strings.Contains(q, ev) {
		return q
	}
	return q + ev
}

func runC19(env *Env) *Result {
	fn := env.P.Func("", "main")
	if fn == nil {
		return &Result{Err: fmt.Errorf("no main")}
	}
	cmds := env.P.Commands(ddlPkg)
	var jobs []job
	for _, cmd := range append([]string{""}, cmds...) {
		sub := strings.ToLower(strings.TrimSuffix(cmd, "Cmd"))
		if cmd == "" {
			sub = "no_such_command"
		}
		jobs = append(jobs, job{sub, func(res *Result) {
			e := env.newEngine()
			st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
			osArgs := env.P.Prog.ImportedPackage("os").Var("Args")
			id := e.Obj(osArgs, nil, "", osArgs.Object().Type(), osArgs.Pos())
			st.Heap[id] = &absint.Obj{V: strSlice(e, st, "os.Args", osArgs.Object().Type(), []string{"sqddl", "-db=x", sub, "file"})}
			rest := strSlice(e, st, "flag.Args", osArgs.Object().Type(), []string{sub, "file"})
			mon := &mainMon{res: res, want: cmd}
			e.Mon = mon
			e.Models = env.mainModels(mon, cmds, rest)
			// package-level variables of main, e.g. tables of commands
			if init := env.P.Pkg("").Func("init"); init != nil {
				if g := env.P.Pkg("").Var("init$guard"); g != nil {
					gid := e.Obj(g, nil, "", g.Type().(*types.Pointer).Elem(), g.Pos())
					st.Heap[gid] = &absint.Obj{V: absint.False()}
				}
				if outs := e.RunFn(init, nil, nil, "", st.Heap, e.RootCtx.Child(nil, init)); len(outs) > 0 {
					st.Heap = outs[0].Heap
				}
			}
			for _, o := range e.RunFn(fn, nil, nil, "", st.Heap, e.RootCtx.Child(nil, fn)) {
				debugf("%s: returns with %q\n", sub, o.Q)
				switch {
				case strings.Contains(o.Q, "fail "):
					res.violate(e, "C19", fn, "main returns normally "+mon.after(o.Q))
				case cmd == "" && !strings.Contains(o.Q, "help "):
					res.violate(e, "C19", fn, "main returns normally although the subcommand does not exist")
				case cmd != "" && !strings.Contains(o.Q, "run ") && !strings.Contains(o.Q, "help "):
					res.violate(e, "C19", fn, "main returns without running "+sub)
				}
			}
			res.noteEngine(e)
			res.note("roots", sub)
		}})
	}
	r := env.runJobs(jobs)
	r.need("roots", 1)
	r.need("exits", 1)
	return r
}

// mainModels replaces the flag package and the commands.
func (env *Env) mainModels(mon *mainMon, cmds []string, rest *AV) map[string]absint.Model {
	ev := func(name string) func(*absint.State) {
		return func(t *absint.State) { t.Q = with(t.Q, name) }
	}
	help := func() *AV { return absint.FailErr("flag.ErrHelp") }
	ms := map[string]absint.Model{
		"(*flag.FlagSet).Parse": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			return []absint.Outcome{
				{Ret: absint.NilErr()},
				{Ret: absint.FailErr("parse"), Fail: true, Apply: ev("fail ")},
				{Ret: help(), Fail: true, Apply: ev("help ")},
			}
		},
		"(*flag.FlagSet).Args": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			return []absint.Outcome{{Ret: rest}}
		},
		"(*flag.FlagSet).NArg": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			return []absint.Outcome{{Ret: absint.IntV(2)}}
		},
		"(*flag.FlagSet).NFlag": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			return []absint.Outcome{{Ret: absint.IntV(1)}}
		},
	}
	for _, p := range env.P.Prog.AllPackages() {
		if p.Pkg.Path() != env.P.Module {
			ms[p.Pkg.Path()+".init"] = func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
				return []absint.Outcome{{Ret: absint.TupleV()}}
			}
		}
	}
	for _, cmd := range cmds {
		named := env.P.Type(ddlPkg, cmd)
		build := env.P.Func(ddlPkg, strings.TrimSuffix(cmd, "Cmd")+"Command")
		run := env.P.Method(ddlPkg, cmd, "Run")
		if build == nil {
			continue
		}
		ms[build.String()] = func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			if cmd != mon.want {
				e.Report("C19", c.Site, c.Ctx, fmt.Sprintf("%s is built for another subcommand", cmd))
			}
			if strings.Contains(s.Q, "build ") {
				e.Report("C19", c.Site, c.Ctx, fmt.Sprintf("%s is built twice", cmd))
			}
			mon.res.note("builds", siteName(e, c))
			if elems, exact := e.SliceElems(s, c.Args[0]); exact {
				var got []string
				for _, x := range elems {
					k, ok := x.One()
					if !ok {
						exact = false
					}
					got = append(got, k)
				}
				if exact && strings.Join(got, " ") != "-db=x file" {
					e.Report("C19", c.Site, c.Ctx, fmt.Sprintf("the arguments forwarded for [-db=x %s file] are %q", "COMMAND", got))
				}
				mon.res.note("argument_lists_judged", siteName(e, c))
			}
			s.Q = with(s.Q, "build ")
			obj := e.Obj("cmd:"+cmd, nil, "", named, 0)
			return []absint.Outcome{
				{Ret: absint.TupleV(absint.PtrV(absint.Ref{O: obj}), absint.NilErr()), Apply: func(t *absint.State) { t.Heap[obj] = &absint.Obj{V: e.Unknown(named)} }},
				{Ret: absint.TupleV(e.Zero(build.Signature.Results().At(0).Type()), absint.FailErr("build")), Fail: true, Apply: ev("fail ")},
				{Ret: absint.TupleV(e.Zero(build.Signature.Results().At(0).Type()), help()), Fail: true, Apply: ev("help ")},
			}
		}
		ms[run.String()] = func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			if cmd != mon.want {
				e.Report("C19", c.Site, c.Ctx, fmt.Sprintf("%s is run for another subcommand", cmd))
			}
			switch {
			case strings.Contains(s.Q, "run "):
				e.Report("C19", c.Site, c.Ctx, fmt.Sprintf("%s is run twice", cmd))
			case strings.Contains(s.Q, "fail ") || strings.Contains(s.Q, "help "):
				e.Report("C19", c.Site, c.Ctx, fmt.Sprintf("%s is run although it could not be built", cmd))
			}
			mon.res.note("runs", siteName(e, c))
			s.Q = with(s.Q, "run ")
			return []absint.Outcome{
				{Ret: absint.NilErr()},
				{Ret: absint.FailErr("run"), Fail: true, Apply: ev("fail ")},
			}
		}
	}
	return ms
}
