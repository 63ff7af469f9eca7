// Package checks decides the properties.
package checks

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"sqverif/internal/absint"
	"sqverif/internal/load"
)

type AV = absint.AV

// Env is shared by the checks of one run.
type Env struct {
	P    *load.Program
	Tier string
	Seed int64

	effOnce sync.Once
	genOnce sync.Once
	gens    map[string]int
	eff     *absint.Effects
}

// job is an independent part of a check.
type job struct {
	name string
	run  func(r *Result)
}

// runJobs runs the jobs on all cores and merges their results in order.
func (env *Env) runJobs(jobs []job) *Result {
	env.newEngine()
	if o := os.Getenv("SQV_JOB"); o != "" {
		var some []job
		for _, j := range jobs {
			if strings.Contains(j.name, o) {
				some = append(some, j)
			}
		}
		jobs = some
	}
	parts := make([]*Result, len(jobs))
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i, j := range jobs {
		parts[i] = newResult()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			defer func() {
				if x := recover(); x != nil {
					if b, ok := x.(absint.BudgetExceeded); ok {
						parts[i].Err = fmt.Errorf("%s: step budget exceeded (%d steps)", j.name, b.Steps)
						return
					}
					parts[i].Err = fmt.Errorf("%s: panic: %v\n%s", j.name, x, rdebug.Stack())
				}
			}()
			t0 := time.Now()
			j.run(parts[i])
			debugf("job %s: %.1fs\n", j.name, time.Since(t0).Seconds())
			for _, v := range parts[i].Violations {
				debugf("  !! %s: %s %s\n", j.name, v.Pos, v.Msg)
			}
		}()
	}
	wg.Wait()
	res := newResult()
	seen := map[string]bool{}
	failed := 0
	var first error
	for _, p := range parts {
		if p.Err != nil {
			failed++
			if first == nil {
				first = p.Err
			}
			msg, _, _ := strings.Cut(p.Err.Error(), "\n")
			res.note("not_analysed", msg)
		}
		for _, v := range p.Violations {
			if k := v.Key(); !seen[k] {
				seen[k] = true
				res.Violations = append(res.Violations, v)
			}
		}
		for k, v := range p.Coverage {
			if n, ok := v.(int); ok {
				res.add(k, n)
			}
		}
		for k, s := range p.sets {
			for x := range s {
				res.note(k, x)
			}
		}
	}
	// a part that can't be analysed is reported as such; the rest still counts
	if failed*2 > len(jobs) {
		res.Err = first
	}
	res.Assume = nil
	return res
}

// newEngine creates an engine over the loaded program.
func (env *Env) newEngine() *absint.Engine {
	e := absint.New(env.P.Prog, env.P.Module)
	env.effOnce.Do(func() { env.eff = absint.NewEffects(e, ssautil.AllFunctions(env.P.Prog)) })
	e.Eff = env.eff
	e.Root = env.P.Dir
	return e
}

// skipUnless summarises functions that cannot reach an operation satisfying p.
func (env *Env) skipUnless(e *absint.Engine, p func(string) bool) {
	cache := map[*ssa.Function]bool{}
	e.Skip = func(fn *ssa.Function) bool {
		v, ok := cache[fn]
		if !ok {
			v = !straight(fn) && !env.eff.Reaches(fn, p)
			cache[fn] = v
		}
		return v
	}
}

// straight tells whether a function is short and has no loops; interpreting
// it costs little.
func straight(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || len(fn.Blocks) > 60 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	return true
}

// keepClosures interprets function literals even if they reach no operation of
// interest: callbacks hand over values.
func keepClosures(skip func(*ssa.Function) bool) func(*ssa.Function) bool {
	return func(fn *ssa.Function) bool { return fn.Parent() == nil && skip(fn) }
}

// keepSmall interprets functions that only put values together.
func keepSmall(skip func(*ssa.Function) bool) func(*ssa.Function) bool {
	return func(fn *ssa.Function) bool { return len(fn.Blocks) > 2 && skip(fn) }
}

// Result is what a check found.
type Result struct {
	Violations []absint.Violation
	Coverage   map[string]any
	Assume     []string
	Err        error
	sets       map[string]map[string]bool // distinct things seen, reported as counts
}

func newResult() *Result {
	return &Result{Coverage: map[string]any{}, sets: map[string]map[string]bool{}}
}

// note records a distinct thing seen under a coverage key.
func (r *Result) note(key, x string) {
	if r.sets[key] == nil {
		r.sets[key] = map[string]bool{}
	}
	r.sets[key][x] = true
}

// count is the number of distinct things noted.
func (r *Result) count(key string) int { return len(r.sets[key]) }

// violate records a violation of a function as a whole.
func (r *Result) violate(e *absint.Engine, rule string, fn *ssa.Function, msg string) {
	r.Violations = append(r.Violations, absint.Violation{Rule: rule, Pos: e.Pos(fn.Pos()), Func: fn.String(), Msg: msg})
}

// noteEngine records what an engine interpreted.
func (r *Result) noteEngine(e *absint.Engine) {
	r.add("abstract_steps", e.Steps)
	r.add("reused_interpretations", e.MemoHits())
	for fn := range e.Funcs {
		r.note("functions_interpreted", fn.String())
	}
	for fn := range e.Skipped {
		r.note("functions_summarised", fn.String())
	}
	for in := range e.CallSite {
		r.note("external_call_sites", e.Pos(absint.InstrPos(in))+in.String())
	}
	r.Violations = append(r.Violations, sortedViolations(e.Violations)...)
	if debug {
		for _, l := range e.Profile(4) {
			debugf("   %s\n", l)
		}
		for n, k := range e.Unmod {
			debugf("   unmodelled %s %d\n", n, k)
		}
	}
}

// need fails the check if fewer than n things were seen: the analysis would be vacuous.
func (r *Result) need(key string, n int) {
	if r.count(key) < n && r.Err == nil {
		r.Err = fmt.Errorf("analysis is vacuous: %s = %d, expected at least %d", key, r.count(key), n)
	}
}

func (r *Result) add(key string, n int) {
	if v, ok := r.Coverage[key].(int); ok {
		r.Coverage[key] = v + n
	} else {
		r.Coverage[key] = n
	}
}

// Check is a registered property check.
type Check struct {
	ID        string
	Technique string
	Explain   string
	Assume    []string
	Lvl       string
	Run       func(env *Env) *Result
}

// Level of the evidence.
func (c *Check) Level() string {
	if c.Lvl == "" {
		return "other"
	}
	return c.Lvl
}

// Finish turns what was noted into counts.
func (r *Result) Finish() map[string]any {
	listed := map[string][]string{}
	for k, s := range r.sets {
		r.Coverage[k] = len(s)
		if k == "external_call_sites" || len(s) > 400 {
			continue
		}
		for x := range s {
			listed[k] = append(listed[k], shortName(x))
		}
		sort.Strings(listed[k])
	}
	r.Coverage["analysed"] = listed
	return r.Coverage
}

var Registry = map[string]*Check{}

func register(c *Check) { Registry[c.ID] = c }

const ddlPkg = "ddl"

var dialects = []string{"sqlite", "postgres", "mysql", "sqlserver"}

// field finds the index of a struct field (exported name).
func fieldIndex(t types.Type, name string) int {
	st, ok := types.Unalias(t).Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// fieldVal gives the initial value of a command field.
type fieldVal func(name string, t types.Type) *AV

// cmdRoot prepares the receiver of cmdType.Run.
func (env *Env) cmdRoot(e *absint.Engine, cmdType string, set map[string]*AV) (*ssa.Function, []*AV, *absint.State, error) {
	fn := env.P.Method(ddlPkg, cmdType, "Run")
	if fn == nil {
		return nil, nil, nil, fmt.Errorf("no %s.Run", cmdType)
	}
	named := env.P.Type(ddlPkg, cmdType)
	st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
	v := env.cmdValue(e, st, cmdType, named, set)
	id := e.Obj("root:"+cmdType, nil, "", named, named.Obj().Pos())
	st.Heap[id] = &absint.Obj{V: v}
	return fn, []*AV{absint.PtrV(absint.Ref{O: id})}, st, nil
}

func (env *Env) cmdValue(e *absint.Engine, st *absint.State, cmdType string, named *types.Named, set map[string]*AV) *AV {
	str := named.Underlying().(*types.Struct)
	v := &AV{K: absint.Struct}
	for i := 0; i < str.NumFields(); i++ {
		f := str.Field(i)
		var x *AV
		if s, ok := set[f.Name()]; ok {
			x = s
		} else {
			x = env.defaultField(e, st, cmdType, f)
		}
		v.Elems = append(v.Elems, x)
	}
	return v
}

func (env *Env) defaultField(e *absint.Engine, st *absint.State, cmdType string, f *types.Var) *AV {
	lab := "f:" + cmdType + "." + f.Name()
	switch types.TypeString(f.Type(), nil) {
	case "*database/sql.DB":
		t := f.Type().(*types.Pointer).Elem()
		id := e.Obj("supplied:"+f.Name(), nil, "", t, f.Pos())
		st.Heap[id] = &absint.Obj{V: absint.Top(), At: map[string]*AV{"kind": absint.StrV("db"), "supplied": absint.True(), "st": absint.StrV("open")}}
		return absint.PtrV(absint.Ref{O: id})
	case "context.Context":
		return absint.Labelled(absint.NonNil(), "ctx:cmd")
	case "io.Writer":
		return absint.Labelled(absint.NonNil(), lab)
	}
	if f.Name() == "Dialect" {
		return absint.Labelled(absint.StrV(dialects...), lab)
	}
	return absint.Labelled(e.Unknown(f.Type()), lab)
}

// sortedViolations lists the violations of an engine.
func sortedViolations(vs map[string]absint.Violation) []absint.Violation {
	var keys []string
	for k := range vs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []absint.Violation
	for _, k := range keys {
		out = append(out, vs[k])
	}
	return out
}

func siteName(e *absint.Engine, c *absint.Call) string {
	return e.Pos(absint.InstrPos(c.Site)) + " " + shortName(c.Name)
}

func shortName(n string) string {
	n = strings.ReplaceAll(n, "github.com/bokwoon95/sqddl/", "")
	n = strings.ReplaceAll(n, "golang.org/x/sync/", "")
	return n
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

// apiRoots lists the exported functions and methods of the library other than
// the commands themselves.
func (env *Env) apiRoots() []*ssa.Function {
	var out []*ssa.Function
	pkg := env.P.Pkg(ddlPkg)
	cmds := map[string]bool{}
	for _, c := range env.P.Commands(ddlPkg) {
		cmds[c] = true
	}
	add := func(fn *ssa.Function) {
		if fn != nil && len(fn.Blocks) > 0 && fn.Signature.TypeParams() == nil && fn.Synthetic == "" {
			out = append(out, fn)
		}
	}
	for _, mem := range pkg.Members {
		switch mem := mem.(type) {
		case *ssa.Function:
			if mem.Object() != nil && mem.Object().Exported() {
				add(mem)
			}
		case *ssa.Type:
			named, ok := mem.Type().(*types.Named)
			if !ok || !mem.Object().Exported() || named.TypeParams() != nil || types.IsInterface(named) {
				continue
			}
			for i := 0; i < named.NumMethods(); i++ {
				if f := named.Method(i); f.Exported() && !(cmds[named.Obj().Name()] && f.Name() == "Run") {
					add(env.P.Prog.FuncValue(f))
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// apiArgs are arbitrary arguments of a library function; pointer receivers and
// pointers to structs denote objects of unknown content.
func (env *Env) apiArgs(e *absint.Engine, st *absint.State, fn *ssa.Function) []*AV {
	var args []*AV
	for i, p := range fn.Params {
		v := e.Unknown(p.Type())
		if ptr, ok := p.Type().Underlying().(*types.Pointer); ok {
			if _, ok := ptr.Elem().Underlying().(*types.Struct); ok && !strings.HasPrefix(types.TypeString(ptr.Elem(), nil), "database/sql.") {
				id := e.Obj(fmt.Sprintf("arg:%s:%d", fn.String(), i), nil, "", ptr.Elem(), p.Pos())
				st.Heap[id] = &absint.Obj{V: e.Unknown(ptr.Elem())}
				v = absint.PtrV(absint.Ref{O: id})
			}
		}
		args = append(args, v)
	}
	return args
}
