package checks

import (
	"fmt"
	"strings"

	"sqverif/internal/absint"
)

// poolMon follows one buffer taken from a pool. States: stale (as it came out
// of the pool), clean (emptied), used, back (returned), back? (maybe returned).
type poolMon struct {
	*tracker
	res   *Result
	stale []absint.Violation // uses of a buffer that was not emptied
	dirty bool               // some buffer is returned with contents
}

func poolOp(n string) bool {
	return strings.HasPrefix(n, "(*sync.Pool)") || strings.HasPrefix(n, "(*bytes.Buffer)") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "io.") ||
		strings.HasPrefix(n, "(io.") || strings.HasPrefix(n, "(*encoding/") || strings.HasPrefix(n, "(*text/template") || strings.HasPrefix(n, "(io/fs.") || strings.HasPrefix(n, "(*golang.org/x/sync/errgroup")
}

func baseName(n string) string { return n[strings.LastIndex(n, ".")+1:] }

func newPoolMon(m *poolMon, env *Env, res *Result) *poolMon {
	*m = poolMon{tracker: newTracker(env), res: res}
	m.init = "stale"
	m.open = func(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) (int, bool) {
		if c.Name != "(*sync.Pool).Get" {
			return 0, false
		}
		res.note("buffers_taken", siteName(e, c))
		return 0, true
	}
	m.before = func(e *absint.Engine, c *absint.Call, s *absint.State, t track) {
		n := baseName(c.Name)
		switch {
		case t.st == "back" && t.sure && c.Name == "(*sync.Pool).Put":
			e.Report("C20", c.Site, c.Ctx, "buffer taken at "+t.site.name+" is returned to the pool a second time")
		case t.st == "back" && t.sure:
			e.Report("C20", c.Site, c.Ctx, fmt.Sprintf("buffer taken at %s is used by %s after it was returned to the pool", t.site.name, shortName(c.Name)))
		case t.st == "stale" && n != "Reset" && n != "Grow" && n != "Cap" && n != "Truncate" && c.Name != "(*sync.Pool).Put":
			m.stale = append(m.stale, absint.Violation{Rule: "C20", Pos: e.Pos(absint.InstrPos(c.Site)), Func: c.In.String(),
				Msg: fmt.Sprintf("buffer taken at %s is used by %s before it was emptied", t.site.name, shortName(c.Name))})
		}
		if c.Name == "(*sync.Pool).Put" && t.st == "used" {
			m.dirty = true
		}
	}
	m.after = func(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome, t track) []string {
		switch {
		case c.Name == "(*sync.Pool).Put":
			res.note("buffers_returned", siteName(e, c))
			if t.sure {
				return []string{"back"}
			}
			return []string{"back?"}
		case strings.HasPrefix(t.st, "back"):
			return nil
		case baseName(c.Name) == "Reset" && t.sure:
			return []string{"clean"}
		case baseName(c.Name) == "Truncate" && t.sure && len(c.Args) > 1:
			if n, ok := c.Args[1].IntConst(); ok && n == 0 {
				return []string{"clean"}
			}
		case strings.HasPrefix(c.Name, "(*bytes.Buffer)") && !strings.Contains(c.Name, "Write") && !strings.Contains(c.Name, "ReadFrom"):
			return nil
		}
		if t.st == "clean" {
			return []string{"used"}
		}
		return nil
	}
	m.done = func(st string) bool { return strings.HasPrefix(st, "back") }
	return m
}

func (m *poolMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	if id, st, ok := parseTrack(s.Q); ok && st == "back" {
		lab := fmt.Sprintf("alias!%d", id)
		for _, a := range c.Args {
			if a.K == absint.Iface {
				a = a.Inner()
			}
			if a.K == absint.Slice && a.Lab.Has(lab) {
				e.Report("C20", c.Site, c.Ctx, fmt.Sprintf("bytes of the buffer taken at %s are used by %s after it was returned to the pool", m.sites[id].name, shortName(c.Name)))
			}
		}
	}
	return m.tracker.Before(e, c, s)
}

func (m *poolMon) Fork(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []absint.Result {
	rs := m.tracker.Fork(e, c, s, o)
	if c.Name == "(*bytes.Buffer).Bytes" || c.Name == "(*bytes.Buffer).Next" {
		for i, r := range rs {
			if t, ok := m.on(c, r.S); ok && len(t.args) > 0 && t.sure {
				rs[i].Ret = absint.Labelled(r.Ret, fmt.Sprintf("alias!%d", t.id))
			}
		}
	}
	if c.Name == "bytes.Clone" || c.Name == "slices.Clone" {
		for i, r := range rs {
			n := *r.Ret
			n.Lab = n.Lab.Filter(func(x string) bool { return !strings.HasPrefix(x, "alias!") })
			rs[i].Ret = &n
		}
	}
	return rs
}

func init() {
	register(&Check{ID: "C20", Technique: "interprocedural typestate analysis of every pooled buffer, one nondeterministically chosen at a time", Run: runC20,
		Explain: "Every buffer taken from a sync.Pool on any path of any command is followed as a distinct abstract object through calls, containers, closures and deferred calls: after it has certainly been returned it must not be used (directly or through the slice returned by Bytes) or returned again, and it must be emptied before its first use unless every return to the pool empties it. Not covered: returning buffers from containers whose elements cannot be told apart (only single elements are judged), buffers that are never returned."})
}

func runC20(env *Env) *Result {
	var jobs []job
	var mons []*poolMon
	for _, cmd := range env.P.Commands(ddlPkg) {
		if !debugCmd(cmd) {
			continue
		}
		for _, d := range dialects {
			m := &poolMon{}
			mons = append(mons, m)
			jobs = append(jobs, job{cmd + "/" + d, func(res *Result) {
				e := env.newEngine()
				env.skipUnless(e, poolOp)
				newPoolMon(m, env, res)
				e.Mon = m
				fn, args, st, err := env.cmdRoot(e, cmd, map[string]*AV{"Dialect": absint.StrV(d)})
				if err != nil {
					res.Err = err
					return
				}
				if outs := e.RunFn(fn, args, nil, "", st.Heap, e.RootCtx.Child(nil, fn)); len(outs) == 0 {
					res.Err = fmt.Errorf("%s: no way to return found", cmd)
				}
				res.note("roots", cmd+"/"+d)
				res.noteEngine(e)
			}})
		}
	}
	if debugCmd("api") {
		for _, fn := range env.apiRoots() {
			m := &poolMon{}
			mons = append(mons, m)
			jobs = append(jobs, job{fn.String(), func(res *Result) {
				e := env.newEngine()
				env.skipUnless(e, poolOp)
				if e.Skip(fn) {
					return
				}
				newPoolMon(m, env, res)
				e.Mon = m
				st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
				args := env.apiArgs(e, st, fn)
				e.RunFn(fn, args, nil, "", st.Heap, e.RootCtx.Child(nil, fn))
				res.note("roots", fn.String())
				res.noteEngine(e)
			}})
		}
	}
	r := env.runJobs(jobs)
	dirty := false
	for _, m := range mons {
		dirty = dirty || m.dirty
	}
	if dirty {
		seen := map[string]bool{}
		for _, m := range mons {
			for _, v := range m.stale {
				if !seen[v.Key()] {
					seen[v.Key()] = true
					r.Violations = append(r.Violations, v)
				}
			}
		}
	}
	r.need("buffers_taken", 1)
	return r
}
