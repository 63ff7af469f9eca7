package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"sqverif/internal/absint"
)

// releaseOp: the call releases a resource of this kind when applied to it.
func releaseOp(c *absint.Call, kind string, o *absint.Outcome) bool {
	n := c.Name[strings.LastIndex(c.Name, ".")+1:]
	switch kind {
	case "tx":
		return n == "Commit" || n == "Rollback"
	case "row":
		return n == "Scan"
	case "rows":
		// reaching the end releases the result set
		return n == "Close" || n == "Next" && o != nil && o.Ret.MustFalse()
	}
	return n == "Close"
}

// useAfter: the call is an error on a released resource of this kind.
func useAfter(c *absint.Call, kind string) bool {
	n := c.Name[strings.LastIndex(c.Name, ".")+1:]
	switch kind {
	case "rows":
		return n == "Scan"
	case "row":
		return false
	}
	switch n {
	case "Close", "Commit", "Rollback", "Err", "Stat", "Name", "NextResultSet":
		return false
	}
	return true
}

// openedKind: the kind of resource the outcome of a call hands to the caller.
func openedKind(s *absint.State, o *absint.Outcome) (int, string) {
	v := o.Ret
	if v.K == absint.Tuple {
		if len(v.Elems) == 0 {
			return 0, ""
		}
		v = v.Elems[0]
	}
	if v == nil || len(v.Refs) != 1 {
		return 0, ""
	}
	k := s.Attr(v.Refs[0].O, "kind")
	if k == nil {
		return 0, ""
	}
	kind, _ := k.One()
	switch kind {
	case "rows", "row", "stmt", "tx", "conn", "db", "file", "wfile":
		return 0, kind
	}
	return 0, ""
}

// isSource: the call creates the resource rather than passing it on.
func isSource(c *absint.Call) bool {
	n := c.Name[strings.LastIndex(c.Name, ".")+1:]
	switch n {
	case "Query", "QueryContext", "QueryRow", "QueryRowContext", "Prepare", "PrepareContext", "Begin", "BeginTx", "Conn", "Open", "OpenFile", "Create", "CreateTemp", "OpenDB", "OpenReader":
		return true
	}
	return false
}

func newReleaseMon(env *Env, e *absint.Engine, rule string, kinds string, res *Result) *tracker {
	m := newTracker(env)
	m.open = func(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) (int, bool) {
		if !isSource(c) {
			return 0, false
		}
		i, k := openedKind(s, o)
		if k == "" || !strings.Contains(" "+kinds+" ", " "+k+" ") {
			return 0, false
		}
		res.note("opening_sites", siteName(e, c))
		return i, true
	}
	m.after = func(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome, t track) []string {
		if t.args[0] == 0 && releaseOp(c, t.site.kind, o) {
			res.note("releasing_sites", siteName(e, c))
			return []string{"closed"}
		}
		return nil
	}
	m.before = func(e *absint.Engine, c *absint.Call, s *absint.State, t track) {
		if t.st == "closed" && t.sure && useAfter(c, t.site.kind) {
			e.Report(rule, c.Site, c.Ctx, fmt.Sprintf("%s opened at %s is used by %s after it was released", kindName(t.site.kind), t.site.name, shortName(c.Name)))
		}
	}
	m.done = func(st string) bool { return st == "closed" }
	return m
}

func kindName(k string) string {
	switch k {
	case "rows", "row":
		return "result set"
	case "stmt":
		return "prepared statement"
	case "tx":
		return "transaction"
	case "conn":
		return "connection"
	case "db":
		return "database handle"
	case "file", "wfile":
		return "file"
	}
	return k
}

// resourceOp: operations that open or release something.
func resourceOp(n string) bool {
	if strings.HasPrefix(n, "(*database/sql.Null") {
		return false
	}
	for _, p := range []string{"database/sql.", "(*database/sql.", "os.Open", "os.Create", "(*os.File)", "(io/fs.", "(io.", "(*archive/zip.File)", "(github.com/bokwoon95/sqddl/ddl.DB).", "io.", "(*golang.org/x/sync/errgroup"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// constructor finds the function building a command from arguments.
func (env *Env) constructor(cmd string) *ssa.Function {
	named := env.P.Type(ddlPkg, cmd)
	pkg := env.P.Pkg(ddlPkg)
	for _, mem := range pkg.Members {
		fn, ok := mem.(*ssa.Function)
		if !ok || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		sig := fn.Signature
		if sig.Results().Len() != 2 || !isErrorType(sig.Results().At(1).Type()) || sig.Params().Len() != 1 {
			continue
		}
		if p, ok := sig.Results().At(0).Type().(*types.Pointer); ok && types.Identical(p.Elem(), named) {
			return fn
		}
	}
	return nil
}

func init() {
	register(&Check{ID: "C10", Technique: "interprocedural typestate analysis of every opened resource, one nondeterministically chosen at a time", Run: runC10,
		Explain: "Every result set, prepared statement, connection, transaction, file and database handle opened by a command or its constructor is followed as a distinct abstract object through all paths, loops, closures, goroutine groups and deferred calls, with every fallible operation both succeeding and failing; it must have been released when the command returns, and not be used after that. Exhausting a result set counts as releasing it. Not covered: gzip/zip/tar wrappers (they hold no resource of their own), releases that panic, memory."})
	register(&Check{ID: "C11", Technique: "interprocedural typestate analysis of the database handle, supplied or opened from a URL", Run: runC11,
		Explain: "For every command: with a caller-supplied handle (unexported fields zero, as any caller outside the package must leave them) no reachable Close may be applied to that handle; with a command built by its constructor, the handle opened there must be closed on every exit of Run, under every failure. Not covered: handles reached through caller-supplied interfaces."})
}

func runC10(env *Env) *Result {
	var jobs []job
	for _, cmd := range env.P.Commands(ddlPkg) {
		if !debugCmd(cmd) {
			continue
		}
		for _, d := range dialects {
			jobs = append(jobs, job{cmd + "/" + d, func(res *Result) {
				e := env.newEngine()
				env.skipUnless(e, resourceOp)
				m := newReleaseMon(env, e, "C10", "rows row stmt tx conn db file wfile", res)
				e.Mon = m
				fn, args, st, err := env.cmdRoot(e, cmd, map[string]*AV{"Dialect": absint.StrV(d)})
				if err != nil {
					res.Err = err
					return
				}
				m.leaks(e, res, "C10", cmd+".Run", e.RunFn(fn, args, nil, "", st.Heap, e.RootCtx.Child(nil, fn)))
				res.note("roots", cmd+"/"+d)
				res.noteEngine(e)
			}})
		}
		ctor := env.constructor(cmd)
		if ctor == nil {
			continue
		}
		jobs = append(jobs, job{ctor.Name(), func(res *Result) {
			e := env.newEngine()
			env.skipUnless(e, resourceOp)
			m := newReleaseMon(env, e, "C10", "rows row stmt tx conn db file wfile", res)
			e.Mon = m
			outs := e.RunFn(ctor, []*AV{e.Unknown(ctor.Signature.Params().At(0).Type())}, nil, "", map[absint.ObjID]*absint.Obj{}, e.RootCtx.Child(nil, ctor))
			m.leaks(e, res, "C10", ctor.Name(), outs)
			res.note("roots", ctor.Name())
			res.noteEngine(e)
		}})
	}
	if debugCmd("api") {
		for _, fn := range env.apiRoots() {
			jobs = append(jobs, job{fn.String(), func(res *Result) {
				e := env.newEngine()
				env.skipUnless(e, resourceOp)
				if e.Skip(fn) {
					return
				}
				m := newReleaseMon(env, e, "C10", "rows row stmt tx conn db file wfile", res)
				e.Mon = m
				st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
				args := env.apiArgs(e, st, fn)
				m.leaks(e, res, "C10", fn.String(), e.RunFn(fn, args, nil, "", st.Heap, e.RootCtx.Child(nil, fn)))
				res.Err = nil
				res.note("roots", fn.String())
				res.noteEngine(e)
			}})
		}
	}
	r := env.runJobs(jobs)
	r.need("opening_sites", 20)
	return r
}

// leaks reports objects still open on return that are not handed to the caller.
func (m *tracker) leaks(e *absint.Engine, res *Result, rule, root string, outs []*absint.Out) {
	if len(outs) == 0 {
		res.Err = fmt.Errorf("%s: no way to return found", root)
	}
	for _, o := range outs {
		id, st, ok := parseTrack(o.Q)
		if !ok || st != "open" {
			continue
		}
		if o.Ret.K == absint.Tuple && o.Ret.Elems[len(o.Ret.Elems)-1].MayBeNil() {
			s := &absint.State{Heap: o.Heap}
			if s.Reaches(id, o.Ret) {
				continue
			}
		}
		t := m.sites[id]
		v := absint.Violation{Rule: rule, Pos: strings.SplitN(t.name, " ", 2)[0], Func: root, Msg: fmt.Sprintf("%s opened by %s may still be open when %s returns", kindName(t.kind), t.name, root)}
		e.Violations[v.Key()] = v
	}
}

func runC11(env *Env) *Result {
	var jobs []job
	for _, cmd := range env.P.Commands(ddlPkg) {
		if !debugCmd(cmd) {
			continue
		}
		// supplied handle
		jobs = append(jobs, job{cmd + "/supplied", func(res *Result) {
			e := env.newEngine()
			env.skipUnless(e, resourceOp)
			m := &suppliedMon{res: res}
			e.Mon = m
			set := map[string]*AV{}
			str := env.P.Type(ddlPkg, cmd).Underlying().(*types.Struct)
			for i := 0; i < str.NumFields(); i++ {
				if f := str.Field(i); !f.Exported() {
					set[f.Name()] = e.Zero(f.Type())
				}
			}
			fn, args, st, err := env.cmdRoot(e, cmd, set)
			if err != nil {
				res.Err = err
				return
			}
			if outs := e.RunFn(fn, args, nil, "", st.Heap, e.RootCtx.Child(nil, fn)); len(outs) == 0 {
				res.Err = fmt.Errorf("%s: no way to return found", cmd)
			}
			res.note("roots", cmd+"/supplied")
			res.noteEngine(e)
		}})
		ctor := env.constructor(cmd)
		if ctor == nil {
			continue
		}
		jobs = append(jobs, job{cmd + "/opened", func(res *Result) {
			e := env.newEngine()
			env.skipUnless(e, resourceOp)
			m := newReleaseMon(env, e, "C11", "db", res)
			e.Mon = m
			fn := env.P.Method(ddlPkg, cmd, "Run")
			outs := e.RunFn(ctor, []*AV{e.Unknown(ctor.Signature.Params().At(0).Type())}, nil, "", map[absint.ObjID]*absint.Obj{}, e.RootCtx.Child(nil, ctor))
			n := 0
			for _, o := range outs {
				ptr, errv := o.Ret.Elems[0], o.Ret.Elems[1]
				id, st, ok := parseTrack(o.Q)
				if !errv.MayBeNil() || !ok || st != "open" || !(&absint.State{Heap: o.Heap}).Reaches(id, ptr) {
					continue
				}
				n++
				m.leaks(e, res, "C11", cmd+".Run", e.RunFn(fn, []*AV{nonNilPtr(ptr)}, nil, o.Q, o.Heap, e.RootCtx.Child(nil, fn)))
			}
			if n > 0 {
				res.note("opened_handles", cmd)
			}
			res.note("roots", cmd+"/opened")
			res.noteEngine(e)
		}})
	}
	r := env.runJobs(jobs)
	r.need("roots", 8)
	r.need("opened_handles", 4)
	return r
}

func nonNilPtr(v *AV) *AV {
	n := *v
	n.Nil = absint.MayNonNil
	return &n
}

// suppliedMon reports closing of the caller's handle.
type suppliedMon struct {
	absint.Base
	res *Result
}

func (m *suppliedMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	if strings.HasSuffix(c.Name, ".Close") && len(c.Args) > 0 {
		for _, id := range absint.ObjsOf(c.Args[0]) {
			if x := s.Attr(id, "supplied"); x != nil {
				e.Report("C11", c.Site, c.Ctx, "the caller's database handle may be closed by "+shortName(c.Name))
			}
		}
		m.res.note("close_sites", siteName(e, c))
	}
	return true
}
