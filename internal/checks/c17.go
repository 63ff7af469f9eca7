package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C17", Technique: "interprocedural escape analysis of worker functions and lock-state analysis of shared variables", Run: runC17,
		Explain: "dump and load are analysed per dialect; a worker is a function started by a go statement or an error group. Everything a worker does, through all calls, is followed: a statement or transaction may only go through a connection, transaction or prepared statement made inside the worker (or the pool); memory that was not made inside the worker is not stored to, grown or used through a type that is not safe for concurrent use (buffers, csv, zip and tar readers and writers, maps) unless a lock is held; elements of a slice may be written. Variables shared with the spawning function are checked on its control flow: it does not assign to a variable a worker uses, between starting workers and waiting for them, nor use one a worker assigns. Package-level maps that are changed after initialisation (the driver registry) are only read or changed while a lock is held. Not covered: whether slice elements written by different workers are different ones, and writers supplied by the caller (Stderr)."})
}

// workerFrame is the frame of ctx that runs as a worker, if any.
func workerFrame(ctx *absint.Ctx) *absint.Ctx {
	for ; ctx != nil; ctx = ctx.Parent {
		if startsWorker(ctx.Site) {
			return ctx
		}
	}
	return nil
}

func startsWorker(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Go:
		return true
	case ssa.CallInstruction:
		f := in.Common().StaticCallee()
		return f != nil && (f.String() == "(*golang.org/x/sync/errgroup.Group).Go" || f.String() == "(*golang.org/x/sync/errgroup.Group).TryGo")
	}
	return false
}

// unsafeTypes are types of the standard library whose methods must not be
// called at the same time.
var unsafeTypes = []string{"(*bytes.Buffer).", "(*strings.Builder).", "(*archive/zip.Writer).", "(*archive/tar.Writer).", "(*archive/tar.Reader).", "(*encoding/csv.Writer).", "(*encoding/csv.Reader).", "(*bufio.Writer).", "(*bufio.Reader).", "(*compress/gzip.Writer).", "(*compress/gzip.Reader).", "(*math/rand.Rand)."}

// workerMon: Q is "L" while a lock is held.
type workerMon struct {
	absint.Base
	env     *Env
	res     *Result
	workers map[*ssa.Function]bool
}

func lockState(name, q string) string {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "W"
	case "(*sync.RWMutex).RLock":
		return "R"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return ""
	}
	return q
}

func (m *workerMon) Enter(e *absint.Engine, c *absint.Call, fn *ssa.Function, s *absint.State) bool {
	if startsWorker(c.Site) {
		m.workers[fn] = true
		m.res.note("workers", fn.String())
	}
	return true
}

// foreign lists the objects v may denote that were made outside the worker.
func (m *workerMon) foreign(e *absint.Engine, v *AV) []absint.ObjID {
	var out []absint.ObjID
	for _, o := range absint.ObjsOf(v) {
		if workerFrame(e.Info(o).Ctx) == nil {
			out = append(out, o)
		}
	}
	return out
}

func (m *workerMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	s.Q = lockState(c.Name, s.Q)
	if !e.InGoroutine() || workerFrame(c.Ctx) == nil {
		return true
	}
	recv, method := e.SQLOp(c.Name)
	if recv != "" && len(c.Args) > 0 {
		m.res.note("worker_database_calls", siteName(e, c))
		for _, o := range m.foreign(e, c.Args[0]) {
			kind := s.Attr(o, "kind")
			if kind == nil {
				continue
			}
			switch k, _ := kind.One(); k {
			case "conn", "tx", "stmt", "rows":
				if method != "Close" || k != "conn" {
					e.Report("C17", c.Site, c.Ctx, fmt.Sprintf("a worker uses a %s it shares with others (%s)", map[string]string{"conn": "session", "tx": "transaction", "stmt": "prepared statement", "rows": "result"}[k], shortName(c.Name)))
				}
			}
		}
	}
	if s.Q != "W" {
		for _, p := range unsafeTypes {
			if strings.HasPrefix(c.Name, p) && len(c.Args) > 0 && m.shared(e, s, c.Args[0]) {
				e.Report("C17", c.Site, c.Ctx, "a worker uses something it shares with others and that is not safe for concurrent use ("+shortName(c.Name)+")")
			}
		}
	}
	return true
}

// shared: v denotes something made outside the worker that others can reach.
func (m *workerMon) shared(e *absint.Engine, s *absint.State, v *AV) bool {
	for _, o := range m.foreign(e, v) {
		if !m.perWorker(e, o) {
			return true
		}
	}
	return false
}

// perWorker: a variable of the spawning function made anew for each worker.
func (m *workerMon) perWorker(e *absint.Engine, o absint.ObjID) bool {
	a, ok := e.Info(o).Site.(ssa.Instruction)
	if !ok || a.Block() == nil {
		return false
	}
	used := false
	for w := range m.workers {
		if w.Parent() != a.Parent() {
			continue
		}
		for _, mc := range closuresOf(w) {
			used = true
			if reaches(mc, a, func(in ssa.Instruction) bool { return in == mc }) {
				return false
			}
			if v, ok := a.(ssa.Value); ok && usedAfter(mc, a, v) {
				return false
			}
		}
	}
	return used
}

func (m *workerMon) Instr(e *absint.Engine, in ssa.Instruction, fn *ssa.Function, ctx *absint.Ctx, s *absint.State) {
	if !e.InGoroutine() || workerFrame(ctx) == nil {
		return
	}
	switch in := in.(type) {
	case *ssa.Store:
		m.res.note("worker_stores", e.Pos(absint.InstrPos(in)))
		if s.Q == "W" {
			return
		}
		if _, ok := in.Addr.(*ssa.IndexAddr); ok {
			return
		}
		if m.shared(e, s, e.Val(s, in.Addr)) {
			e.Report("C17", in, ctx, "a worker assigns to a variable it shares with others")
		}
	case *ssa.MapUpdate:
		if s.Q != "W" && m.shared(e, s, e.Val(s, in.Map)) {
			e.Report("C17", in, ctx, "a worker changes a map it shares with others")
		}
	}
}

// closuresOf lists where a function literal is made.
func closuresOf(fn *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				out = append(out, in)
			}
		}
	}
	return out
}

// reaches: after from, an instruction satisfying p can run before barrier runs
// again and before workers are waited for.
func reaches(from, barrier ssa.Instruction, p func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == barrier || isWait(in) {
				return false
			}
			if p(in) {
				return true
			}
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				if walk(n, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range from.Block().Instrs {
		if in == from {
			return walk(from.Block(), i+1)
		}
	}
	return false
}

func isWait(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if f := c.Common().StaticCallee(); f != nil {
		return f.Name() == "Wait"
	}
	return c.Common().IsInvoke() && c.Common().Method.Name() == "Wait"
}

// usedAfter: the spawning function reads or writes variable v after making the worker.
func usedAfter(mc, barrier ssa.Instruction, v ssa.Value) bool {
	return reaches(mc, barrier, func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Store:
			return in.Addr == v
		case *ssa.UnOp:
			return in.Op == token.MUL && in.X == v
		}
		return false
	})
}

// coordinator checks the variables workers capture on the control flow of the
// function that starts them.
func (m *workerMon) coordinator(e *absint.Engine) {
	var ws []*ssa.Function
	for w := range m.workers {
		ws = append(ws, w)
	}
	sort.Slice(ws, func(i, j int) bool { return ws[i].String() < ws[j].String() })
	for _, w := range ws {
		for _, mc := range closuresOf(w) {
			for i, v := range mc.(*ssa.MakeClosure).Bindings {
				a, ok := v.(*ssa.Alloc)
				if !ok || w.FreeVars[i].Referrers() == nil || len(*w.FreeVars[i].Referrers()) == 0 {
					continue
				}
				m.res.note("captured_variables", e.Pos(a.Pos())+" "+a.Comment)
				if reaches(mc, a, func(in ssa.Instruction) bool {
					st, ok := in.(*ssa.Store)
					return ok && st.Addr == a
				}) {
					m.res.violate(e, "C17", mc.Parent(), fmt.Sprintf("%s is assigned to while workers started at %s use it", a.Comment, e.Pos(w.Pos())))
				}
			}
		}
	}
}

func runC17(env *Env) *Result {
	var jobs []job
	for _, cmd := range []string{"DumpCmd", "LoadCmd"} {
		for _, d := range dialects {
			name := cmd + "/" + d
			jobs = append(jobs, job{name, func(res *Result) {
				e := env.newEngine()
				env.skipUnless(e, func(n string) bool { return strings.Contains(n, "errgroup") || strings.HasPrefix(n, "(*sync.") })
				skip := keepSmall(keepClosures(e.Skip))
				spawns := map[*ssa.Function]bool{}
				for _, fn := range env.spawners() {
					spawns[fn] = true
				}
				e.Skip = func(fn *ssa.Function) bool {
					if e.InGoroutine() {
						return false
					}
					return !spawns[fn] && skip(fn)
				}
				scene := rec{"Dialect": d, "Schemas": list{rec{"Tables": list{rec{"TableName": "t1", "Columns": list{rec{"TableName": "t1", "ColumnName": "c1", "*": true}}}}}}}
				e.Models = merged(env.quoteModels(), env.catalogModel(scene))
				mon := &workerMon{env: env, res: res, workers: map[*ssa.Function]bool{}}
				e.Mon = mon
				set := map[string]*AV{"Dialect": absint.StrV(d)}
				env.zeroHidden(e, cmd, set)
				env.runCmd(e, res, cmd, set)
				mon.coordinator(e)
				res.note("roots", name)
			}})
		}
	}
	jobs = append(jobs, job{"registry", env.registryJob})
	r := env.runJobs(jobs)
	r.need("roots", 1)
	return r
}

// spawners are the functions from which a worker can be started.
func (env *Env) spawners() []*ssa.Function {
	env.newEngine()
	var out []*ssa.Function
	direct := map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(env.P.Prog) {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), env.P.Module) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if startsWorker(in) {
					direct[fn] = true
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(env.P.Prog) {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), env.P.Module) {
			continue
		}
		for d := range direct {
			if fn == d || env.eff.CallsInto(fn, d) {
				out = append(out, fn)
				break
			}
		}
	}
	return out
}

// regMon judges accesses to package-level maps.
type regMon struct {
	absint.Base
	res  *Result
	vars map[*ssa.Global]bool
	bad  map[*ssa.Function]string
}

func (m *regMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	s.Q = lockState(c.Name, s.Q)
	return true
}

func (m *regMon) Instr(e *absint.Engine, in ssa.Instruction, fn *ssa.Function, ctx *absint.Ctx, s *absint.State) {
	g, write := m.access(in)
	if g == nil {
		return
	}
	m.res.note("registry_accesses", e.Pos(absint.InstrPos(in)))
	switch {
	case write && s.Q != "W":
		m.bad[fn] = e.Pos(absint.InstrPos(in)) + ": " + g.Name() + " is changed without holding a lock exclusively"
	case !write && s.Q == "":
		m.bad[fn] = e.Pos(absint.InstrPos(in)) + ": " + g.Name() + " is read without holding a lock"
	}
}

func (m *regMon) access(in ssa.Instruction) (*ssa.Global, bool) {
	from := func(v ssa.Value) *ssa.Global {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if g, ok := u.X.(*ssa.Global); ok && m.vars[g] {
				return g
			}
		}
		return nil
	}
	switch in := in.(type) {
	case *ssa.MapUpdate:
		return from(in.Map), true
	case *ssa.Lookup:
		return from(in.X), false
	case *ssa.Range:
		return from(in.X), false
	case *ssa.Store:
		if g, ok := in.Addr.(*ssa.Global); ok && m.vars[g] {
			return g, true
		}
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && len(in.Call.Args) > 0 {
			return from(in.Call.Args[0]), b.Name() == "delete" || b.Name() == "clear"
		}
	}
	return nil, false
}

// registryJob checks package-level maps that are changed after initialisation.
func (env *Env) registryJob(res *Result) {
	all := map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(env.P.Prog) {
		if fn.Pkg != nil && fn.Pkg == env.P.Pkg(ddlPkg) && len(fn.Blocks) > 0 && fn.Name() != "init" && !strings.HasPrefix(fn.Name(), "init#") {
			all[fn] = true
		}
	}
	m := &regMon{res: res, vars: map[*ssa.Global]bool{}, bad: map[*ssa.Function]string{}}
	for _, mem := range env.P.Pkg(ddlPkg).Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map); ok {
				m.vars[g] = true
			}
		}
	}
	changed := map[*ssa.Global]bool{}
	users := map[*ssa.Function]bool{}
	scan := func(f func(fn *ssa.Function, g *ssa.Global, write bool)) {
		for fn := range all {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if g, w := m.access(in); g != nil {
						f(fn, g, w)
					}
				}
			}
		}
	}
	scan(func(fn *ssa.Function, g *ssa.Global, w bool) { changed[g] = changed[g] || w })
	m.vars = changed
	for g := range changed {
		if !changed[g] {
			delete(changed, g)
		} else {
			res.note("registries", g.String())
		}
	}
	scan(func(fn *ssa.Function, g *ssa.Global, w bool) { users[fn] = true })
	// an access in a function that is always called with the lock held is judged from its callers
	ever := map[*ssa.Function]bool{}
	for level := 0; level < 4 && len(users) > 0; level++ {
		for fn := range users {
			ever[fn] = true
		}
		next := map[*ssa.Function]bool{}
		for fn := range users {
			if fn.Parent() != nil {
				next[fn.Parent()] = true
				continue
			}
			e := env.newEngine()
			e.Skip = func(f *ssa.Function) bool {
				return !ever[f] && f.Parent() == nil && !env.reaches(f, func(n string) bool { return strings.HasPrefix(n, "(*sync.") })
			}
			e.Mon = m
			m.bad = map[*ssa.Function]string{}
			st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
			e.RunFn(fn, env.apiArgs(e, st, fn), nil, "", st.Heap, e.RootCtx.Child(nil, fn))
			res.noteEngine(e)
			if len(m.bad) == 0 {
				continue
			}
			var callers []*ssa.Function
			for c := range all {
				if c != fn && env.callsDirectly(c, fn) {
					callers = append(callers, c)
				}
			}
			if (fn.Object() != nil && fn.Object().Exported()) || len(callers) == 0 || level == 3 {
				for _, msg := range m.bad {
					res.violate(e, "C17", fn, msg)
				}
				continue
			}
			for _, c := range callers {
				next[c] = true
			}
		}
		users = next
	}
}

// callsDirectly: c contains a call of fn.
func (env *Env) callsDirectly(c, fn *ssa.Function) bool {
	for _, b := range c.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}
