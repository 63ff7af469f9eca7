package checks

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	"sqverif/internal/absint"
)

// failSite is an operation whose failure is followed.
type failSite struct {
	name  string
	instr map[ssa.Instruction]bool // the operation and the call sites leading to it
	funcs map[*ssa.Function]bool   // functions those belong to
	probe map[absint.ObjID]bool    // file objects an open/stat was about
}

// failMon follows one failed operation at a time. The automaton state is
//
//	""            nothing failed yet
//	"F:<site>"    the operation at site failed
//	"R:<site>|k"  call site k, which led to the failure, is being executed again
type failMon struct {
	absint.Base
	env   *Env
	track func(c *absint.Call, o *absint.Outcome) bool
	sites map[string]*failSite
	calls map[ssa.Instruction]int
	read  map[absint.ObjID]bool // files whose contents are used
	nops  int
}

func newFailMon(env *Env, track func(c *absint.Call, o *absint.Outcome) bool) *failMon {
	return &failMon{env: env, track: track, sites: map[string]*failSite{}, calls: map[ssa.Instruction]int{}, read: map[absint.ObjID]bool{}}
}

func quietTag(tag string) bool { return tag == "itererr" || tag == "pending" }

func isProbeOp(n string) bool {
	return n == "os.Open" || n == "(io/fs.FS).Open" || strings.HasSuffix(n, ").Stat") || n == "os.Stat" || n == "io/fs.Stat" || n == "os.OpenFile" || n == "(*archive/zip.File).Open"
}

func (m *failMon) siteOf(e *absint.Engine, c *absint.Call, o *absint.Outcome) string {
	n := siteName(e, c)
	if quietTag(o.Tag) {
		n += " (" + o.Tag + ")"
	}
	if isProbeOp(c.Name) {
		n += fmt.Sprintf(" @%p", c.Ctx)
	}
	return n
}

func (m *failMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	switch {
	case strings.HasSuffix(c.Name, ".Stat"), strings.HasSuffix(c.Name, ".Close"), c.Name == "os.Stat":
	default:
		for _, a := range c.Args {
			for _, id := range absint.ObjsOf(a) {
				m.read[id] = true
			}
		}
	}
	return true
}

func (m *failMon) After(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []*absint.State {
	if o.Tag == "noerr" {
		return nil // the cut-short iteration is the one being asked about
	}
	if !o.Fail {
		// the same step succeeding later makes up for its earlier failure
		if strings.HasPrefix(s.Q, "F:") && s.Q == "F:"+m.siteOf(e, c, o) && !quietTag(o.Tag) {
			s.Q = ""
		}
		return []*absint.State{s}
	}
	if s.Q != "" || !m.track(c, o) {
		// not followed: assume silent failures away, loud ones are ordinary errors
		if quietTag(o.Tag) {
			return nil
		}
		return []*absint.State{s}
	}
	name := m.siteOf(e, c, o)
	fs := m.sites[name]
	if fs == nil {
		fs = &failSite{name: name, instr: map[ssa.Instruction]bool{}, funcs: map[*ssa.Function]bool{}, probe: map[absint.ObjID]bool{}}
		m.sites[name] = fs
	}
	fs.instr[c.Site] = true
	fs.funcs[c.Site.Parent()] = true
	for x := c.Ctx; x != nil && x.Site != nil; x = x.Parent {
		fs.instr[x.Site] = true
		fs.funcs[x.Site.Parent()] = true
	}
	if isProbeOp(c.Name) {
		if strings.HasSuffix(c.Name, ").Stat") {
			for _, id := range absint.ObjsOf(c.Args[0]) {
				fs.probe[id] = true
			}
		} else {
			for _, k := range []string{"file", "wfile"} {
				if id, ok := e.LookupObj(c.Site, c.Ctx, k); ok {
					fs.probe[id] = true
				}
			}
		}
	}
	s.Q = "F:" + name
	return []*absint.State{s}
}

func (m *failMon) Enter(e *absint.Engine, c *absint.Call, fn *ssa.Function, s *absint.State) bool {
	if strings.HasPrefix(s.Q, "F:") {
		if fs := m.sites[s.Q[2:]]; fs != nil && fs.instr[c.Site] {
			k, ok := m.calls[c.Site]
			if !ok {
				k = len(m.calls)
				m.calls[c.Site] = k
			}
			s.Q = fmt.Sprintf("R:%s|%d", fs.name, k)
		}
	}
	return true
}

func (m *failMon) Leave(e *absint.Engine, c *absint.Call, fn *ssa.Function, s *absint.State, ret *AV) []absint.Result {
	if strings.HasPrefix(s.Q, "R:") {
		i := strings.LastIndex(s.Q, "|")
		if k, ok := m.calls[c.Site]; ok && fmt.Sprint(k) == s.Q[i+1:] {
			site := s.Q[2:i]
			err := ret
			if ret.K == absint.Tuple && len(ret.Elems) > 0 {
				err = ret.Elems[len(ret.Elems)-1]
			}
			res := fn.Signature.Results()
			switch {
			case res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()):
				s.Q = "F:" + site // a call that reports nothing makes up for nothing
			case err.MustNil():
				s.Q = ""
			case err.MayBeNil():
				t := s.Clone()
				t.Q = ""
				s.Q = "F:" + site
				return []absint.Result{{S: t, Ret: ret}, {S: s, Ret: ret}}
			default:
				s.Q = "F:" + site
			}
		}
	}
	return []absint.Result{{S: s, Ret: ret}}
}

// CanonQ: a function that cannot repeat the failed step behaves the same for all of them.
func (m *failMon) CanonQ(e *absint.Engine, fn *ssa.Function, q string) string {
	if !strings.HasPrefix(q, "F:") {
		return q
	}
	fs := m.sites[q[2:]]
	if fs == nil || m.env.eff.Dynamic(fn) {
		return q
	}
	for f := range fs.funcs {
		if m.env.eff.CallsInto(fn, f) {
			return q
		}
	}
	return "F:*"
}

// isProbe: the failed open or stat was about files nobody ever reads.
func (m *failMon) isProbe(site string) bool {
	fs := m.sites[site]
	if fs == nil || len(fs.probe) == 0 {
		return false
	}
	for id := range fs.probe {
		if m.read[id] {
			return false
		}
	}
	return true
}

func inDefer(c *absint.Call) bool {
	if c.Deferred {
		return true
	}
	for x := c.Ctx; x != nil; x = x.Parent {
		if _, ok := x.Site.(*ssa.Defer); ok {
			return true
		}
	}
	return false
}

// trackedFailure says which failing operations oblige the command to fail.
func trackedFailure(e *absint.Engine, c *absint.Call, o *absint.Outcome) bool {
	switch o.Tag {
	case "parse", "absent", "unmodelled":
		return false
	}
	n := c.Name
	if strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "dynamic") {
		return false
	}
	if strings.HasSuffix(n, ".AddParseTree") {
		return false // keeps a parsed template for the next time
	}
	if inDefer(c) {
		// clean-up: only work that was put into a deferred function counts
		_, m := e.SQLOp(n)
		return o.Tag == "wclose" || o.Tag == "pending" || m == "Commit" || strings.Contains(n, "Write") || strings.Contains(n, "Encode")
	}
	return true
}

// ioOp: operations on the outside world or on streams.
func ioOp(n string) bool {
	for _, p := range []string{"database/sql.", "(*database/sql.", "(database/sql.Result)", "os.", "(*os.", "io.", "(io.", "io/fs.", "(io/fs.", "archive/", "(*archive/", "compress/", "(*compress/", "encoding/csv", "(*encoding/csv", "encoding/json", "(*encoding/json", "bufio", "(*bufio", "(*golang.org/x/sync/errgroup", "golang.org/x/sync/errgroup", "(github.com/bokwoon95/sqddl/ddl.DB).", "(*bytes.Buffer).ReadFrom", "(*bytes.Buffer).WriteTo", "encoding/hex.DecodeString", "(*text/template.Template).Execute"} {
		if strings.HasPrefix(n, p) && n != "os.TempDir" && !strings.HasPrefix(n, "(*database/sql.Null") && n != "(*bytes.Buffer).Read" {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{ID: "C08", Technique: "interprocedural abstract interpretation following each failing operation to the result of the command", Run: runC08,
		Explain: "For every command and dialect, every call to a fallible operation outside the module (database, transaction, file, archive, CSV, JSON, errgroup) is assumed to fail, one at a time, and that failure is followed through all paths, loops, closures and goroutine groups; the command must not return a nil error unless the failed step itself was repeated successfully. Exempt: clean-up in deferred calls, opening or stat-ing files whose contents are never read. Covers all single failures of modelled operations; not covered: panics, failures of output to the terminal, what the returned message says."})
	register(&Check{ID: "C09", Technique: "interprocedural abstract interpretation following each silently cut-short iteration or flush to the result of the command", Run: runC09,
		Explain: "For every command and dialect, every row iteration, stream read and buffered writer may silently end early (the failure is only visible through Err/Flush/Close); each such event is followed through all paths and the command must not return a nil error. Not covered: truncation that the underlying driver itself reports as a normal end."})
}

func runC08(env *Env) *Result {
	r := runFail(env, "C08", trackedFailure)
	r.need("failure_sites", 60)
	return r
}

func runC09(env *Env) *Result {
	r := runFail(env, "C09", func(e *absint.Engine, c *absint.Call, o *absint.Outcome) bool {
		return quietTag(o.Tag) || o.Tag == "wclose" || strings.HasSuffix(c.Name, ".Flush") || strings.HasSuffix(c.Name, "Reader).Read") || strings.HasSuffix(c.Name, "tar.Reader).Next")
	})
	r.need("failure_sites", 15)
	return r
}

func runFail(env *Env, id string, track func(e *absint.Engine, c *absint.Call, o *absint.Outcome) bool) *Result {
	var jobs []job
	for _, cmd := range env.P.Commands(ddlPkg) {
		if !debugCmd(cmd) {
			continue
		}
		for _, d := range dialects {
			jobs = append(jobs, job{cmd + "/" + d, func(res *Result) {
				e := env.newEngine()
				env.skipUnless(e, ioOp)
				m := newFailMon(env, nil)
				m.track = func(c *absint.Call, o *absint.Outcome) bool { return track(e, c, o) }
				e.Mon = m
				fn, args, st, err := env.cmdRoot(e, cmd, map[string]*AV{"Dialect": absint.StrV(d)})
				if err != nil {
					res.Err = err
					return
				}
				outs := e.RunFn(fn, args, nil, "", st.Heap, e.RootCtx.Child(nil, fn))
				if len(outs) == 0 {
					res.Err = fmt.Errorf("%s: no way to return found", cmd)
				}
				for _, o := range outs {
					if strings.HasPrefix(o.Q, "F:") && o.Ret.MayBeNil() && !m.isProbe(o.Q[2:]) {
						site := strings.SplitN(o.Q[2:], " @", 2)[0]
						v := absint.Violation{Rule: id, Pos: strings.SplitN(site, " ", 2)[0], Func: cmd + ".Run", Msg: "failure of " + site + " is not reported by " + cmd}
						e.Violations[v.Key()] = v
					}
				}
				for s := range m.sites {
					res.note("failure_sites", strings.SplitN(s, " @", 2)[0])
				}
				res.note("roots", cmd+"/"+d)
				res.noteEngine(e)
			}})
		}
	}
	return env.runJobs(jobs)
}
