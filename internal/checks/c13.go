package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C13", Technique: "interprocedural value analysis of the introspection filter", Run: runC13,
		Explain: "dump, tables, automigrate and generate (also its constructor, which introspects) are analysed with a history table name that is given or left empty and with user exclusions that are absent or given, every other option unknown. Wherever an introspection query is rendered, the filter handed to it must exclude the effective history table name and every table excluded by the user. Whether the query templates honour the filter is C18."})
}

// excludeMon checks the filter at every rendering of an introspection query.
type excludeMon struct {
	absint.Base
	res  *Result
	want []string
	init bool
}

func (m *excludeMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	if c.Name != "(*text/template.Template).Execute" && c.Name != "(*text/template.Template).ExecuteTemplate" {
		return true
	}
	f := e.Field(s, c.Args[len(c.Args)-1], "ExcludeTables")
	debugf("filter %v %v\n", f, c.Args[len(c.Args)-1])
	elems, exact := e.SliceElems(s, f)
	if f.K == absint.Unk && len(elems) == 0 {
		m.res.note("unknown_filters", siteName(e, c))
		return true
	}
	m.res.note("filters_judged", siteName(e, c))
	for _, w := range m.want {
		found := false
		for _, x := range elems {
			if x.Consts == nil && !exact && x.Lab == nil {
				found = true // a value the analysis lost track of
			}
			for _, k := range x.Consts {
				found = found || k == w
			}
		}
		if !found && !(len(elems) == 0 && !exact) {
			e.Report("C13", c.Site, c.Ctx, fmt.Sprintf("the database is introspected without excluding %s", w))
		}
	}
	return true
}

func runC13(env *Env) *Result {
	var jobs []job
	render := func(n string) bool { return strings.HasPrefix(n, "(*text/template.Template).Execute") }
	for _, cmd := range []string{"DumpCmd", "TablesCmd", "AutomigrateCmd", "GenerateCmd"} {
		named := env.P.Type(ddlPkg, cmd)
		if named == nil {
			return &Result{Err: fmt.Errorf("no %s", cmd)}
		}
		for _, h := range []string{"", theHistory} {
			for _, user := range []bool{false, true} {
				if user && fieldIndex(named, "ExcludeTables") < 0 {
					continue
				}
				name := fmt.Sprintf("%s/%q/%v", cmd, h, user)
				jobs = append(jobs, job{name, func(res *Result) {
					e := env.newEngine()
					env.skipUnless(e, render)
					e.Skip = env.keepFilters(keepSmall(keepClosures(e.Skip)))
					want := []string{h}
					if h == "" {
						want[0] = "sqddl_history"
					}
					st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
					set := map[string]*AV{"HistoryTable": absint.StrV(h)}
					if i := fieldIndex(named, "ExcludeTables"); i >= 0 {
						t := named.Underlying().(*types.Struct).Field(i).Type()
						set["ExcludeTables"] = e.Zero(t)
						if user {
							set["ExcludeTables"] = strSlice(e, st, "exclude", t, []string{"user_excluded"})
							want = append(want, "user_excluded")
						}
					}
					env.zeroHidden(e, cmd, set)
					e.Mon = &excludeMon{res: res, want: want}
					env.runCmdWith(e, res, cmd, st, set)
					res.note("roots", name)
				}})
			}
		}
		// a constructor may introspect, too
		fn := env.P.Func(ddlPkg, strings.TrimSuffix(cmd, "Cmd")+"Command")
		if fn == nil || !env.reaches(fn, render) {
			continue
		}
		for _, h := range []string{"", theHistory} {
			name := fmt.Sprintf("%s/%q", fn.Name(), h)
			jobs = append(jobs, job{name, func(res *Result) {
				e := env.newEngine()
				env.skipUnless(e, render)
				e.Skip = env.keepFilters(keepSmall(keepClosures(e.Skip)))
				want := h
				if h == "" {
					want = "sqddl_history"
				}
				e.Models = map[string]absint.Model{"(*flag.FlagSet).StringVar": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
					v := absint.AnyStr()
					if n, ok := c.Args[2].One(); ok && n == "history-table" {
						v = c.Args[3]
						if h != "" {
							v = absint.StrV(h)
						}
					}
					e.Store(s, c.Args[1], v)
					return []absint.Outcome{{Ret: absint.TupleV()}}
				}}
				e.Mon = &excludeMon{res: res, want: []string{want}}
				st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
				e.RunFn(fn, env.apiArgs(e, st, fn), nil, "", st.Heap, e.RootCtx.Child(nil, fn))
				res.noteEngine(e)
				res.note("roots", name)
			}})
		}
	}
	r := env.runJobs(jobs)
	r.need("roots", 1)
	r.need("filters_judged", 1)
	return r
}

// reaches: fn can perform an operation satisfying p.
func (env *Env) reaches(fn *ssa.Function, p func(string) bool) bool {
	env.newEngine()
	return env.eff.Reaches(fn, p)
}

// keepFilters interprets functions that take something holding a filter, so
// that its contents are not lost.
func (env *Env) keepFilters(skip func(*ssa.Function) bool) func(*ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		for _, p := range fn.Params {
			t := p.Type()
			if ptr, ok := t.Underlying().(*types.Pointer); ok {
				t = ptr.Elem()
			}
			str, ok := t.Underlying().(*types.Struct)
			for i := 0; ok && i < str.NumFields(); i++ {
				if n := str.Field(i).Name(); n == "Filter" || n == "ExcludeTables" {
					return false
				}
			}
		}
		return skip(fn)
	}
}
