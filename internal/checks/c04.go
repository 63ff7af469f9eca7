package checks

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C04", Technique: "interprocedural typestate analysis of every session setting that is changed", Run: runC04,
		Explain: "For migrate, automigrate and load and every dialect: each statement that changes a session setting (SET, PRAGMA name = …, set_config) is recognised by its text; on every path, with every operation both succeeding and failing, the setting must be set again on the same handle to the value read from it earlier before the connection is closed, the transaction ends or the command returns. Rolling back undoes it on Postgres only. The restoring statement must not run under a context that may have been cancelled. No setting is changed through the connection pool, and after a failed change nothing is executed on that session. Not covered: SET IDENTITY_INSERT and settings changed by the user's own scripts."})
}

var (
	reSetting = regexp.MustCompile(`(?is)^\s*(?:SET\s+(?:SESSION\s+|GLOBAL\s+)?(?:@@(?:session\.)?)?([a-z_]+)(?:\s*=|\s+TO\s|\s+)|PRAGMA\s+([a-z_]+)\s*(?:=|\()|SELECT\s+set_config\s*\(\s*'([a-z_]+)')`)
	reGetting = regexp.MustCompile(`(?is)^\s*(?:SHOW\s+([a-z_]+)|SELECT\s+@@(?:session\.)?([a-z_]+)|PRAGMA\s+([a-z_]+)\s*;?\s*$|SELECT\s+current_setting\s*\(\s*'([a-z_]+)')`)
)

// settingName finds the setting a statement changes or reads.
func settingName(re *regexp.Regexp, text *AV) string {
	from := text.Consts
	if from == nil {
		from = text.Pre
	}
	name := ""
	for i, t := range from {
		m := re.FindStringSubmatch(t)
		if m == nil {
			return ""
		}
		n := strings.ToLower(strings.Join(m[1:], ""))
		if i > 0 && n != name {
			return ""
		}
		name = n
	}
	switch name {
	case "identity_insert", "local", "transaction":
		return ""
	}
	return name
}

// settingMon keeps the set of changed settings: "name@handle" entries, and
// "!name@handle" for those whose change failed.
type settingMon struct {
	absint.Base
	res     *Result
	dialect string
}

func entries(q string) []string {
	if q == "" {
		return nil
	}
	return strings.Split(q, " ")
}

func setEntry(q, x string, on bool) string {
	var out []string
	for _, y := range entries(q) {
		if y != x {
			out = append(out, y)
		}
	}
	if on {
		out = append(out, x)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func kindOf(s *absint.State, o absint.ObjID) string {
	if k := s.Attr(o, "kind"); k != nil {
		v, _ := k.One()
		return v
	}
	return ""
}

// onHandle: the settings changed on a handle the call may be about.
func (m *settingMon) onHandle(c *absint.Call, s *absint.State) []string {
	if len(c.Args) == 0 {
		return nil
	}
	var out []string
	for _, o := range absint.ObjsOf(c.Args[0]) {
		for _, x := range entries(s.Q) {
			if strings.HasSuffix(x, fmt.Sprintf("@%d", o)) {
				out = append(out, x)
			}
		}
	}
	return out
}

func cancellable(v *AV) bool {
	return v.Lab.Has("ctx:cmd") || v.Lab.Has("ctx:group")
}

func (m *settingMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	_, method := e.SQLOp(c.Name)
	switch method {
	case "Close", "Commit":
		if recv, _ := e.SQLOp(c.Name); recv == "stmt" {
			break
		}
		for _, x := range m.onHandle(c, s) {
			if x[0] != '!' {
				e.Report("C04", c.Site, c.Ctx, fmt.Sprintf("the session is released while its setting %s may still be changed", x[:strings.IndexByte(x, '@')]))
			}
		}
	case "Rollback":
		for _, x := range m.onHandle(c, s) {
			if x[0] != '!' && m.dialect != "postgres" {
				e.Report("C04", c.Site, c.Ctx, fmt.Sprintf("the transaction ends while the session setting %s may still be changed", x[:strings.IndexByte(x, '@')]))
			}
		}
	}
	op, ok := stmtOf(e, c, s, false)
	if !ok {
		return true
	}
	name := settingName(reSetting, op.text)
	if name == "" {
		if op.mayModify() {
			for _, x := range m.onHandle(c, s) {
				if x[0] == '!' {
					e.Report("C04", c.Site, c.Ctx, fmt.Sprintf("something is executed on the session although setting %s failed", x[1:strings.IndexByte(x, '@')]))
				}
			}
		}
		return true
	}
	m.res.note("settings_changed", siteName(e, c)+" "+name)
	for _, o := range op.on {
		if kindOf(s, o) == "db" {
			e.Report("C04", c.Site, c.Ctx, fmt.Sprintf("the setting %s is changed on an arbitrary connection of the pool", name))
		}
	}
	if op.text.Lab.Has("was:" + name) {
		m.res.note("settings_restored", siteName(e, c)+" "+name)
		if strings.HasSuffix(c.Name, "Context") && len(c.Args) > 1 && cancellable(c.Args[1]) {
			e.Report("C04", c.Site, c.Ctx, fmt.Sprintf("the setting %s is not restored if the context is cancelled", name))
		}
		for _, o := range op.on {
			if kindOf(s, o) == "tx" && m.dialect != "postgres" {
				e.Report("C04", c.Site, c.Ctx, fmt.Sprintf("the setting %s is restored through a transaction, which is impossible once its context is cancelled", name))
			}
		}
	}
	return true
}

func (m *settingMon) After(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []*absint.State {
	_, method := e.SQLOp(c.Name)
	if method == "Rollback" || method == "Commit" || method == "Close" {
		for _, x := range m.onHandle(c, s) {
			s.Q = setEntry(s.Q, x, false)
		}
		return []*absint.State{s}
	}
	op, ok := stmtOf(e, c, s, false)
	if !ok {
		return []*absint.State{s}
	}
	name := settingName(reSetting, op.text)
	if name == "" {
		return []*absint.State{s}
	}
	for _, h := range op.on {
		x := fmt.Sprintf("%s@%d", name, h)
		switch {
		case op.text.Lab.Has("was:" + name):
			s.Q = setEntry(s.Q, x, false)
		case o.Fail:
			s.Q = setEntry(s.Q, "!"+x, true)
		default:
			s.Q = setEntry(s.Q, x, true)
		}
	}
	return []*absint.State{s}
}

// labelAll labels a value and its parts.
func labelAll(v *AV, labs ...string) *AV {
	n := *absint.Labelled(v, labs...)
	if len(n.Elems) > 0 {
		el := make([]*AV, len(n.Elems))
		for i, x := range n.Elems {
			el[i] = labelAll(x, labs...)
		}
		n.Elems = el
	}
	return &n
}

func runC04(env *Env) *Result {
	var jobs []job
	for _, cmd := range []string{"MigrateCmd", "LoadCmd", "AutomigrateCmd"} {
		for _, d := range dialects {
			jobs = append(jobs, job{cmd + "/" + d, func(res *Result) {
				e := env.newEngine()
				env.skipUnless(e, resourceOp)
				e.Mon = &settingMon{res: res, dialect: d}
				e.Scan = func(e *absint.Engine, c *absint.Call, s *absint.State, i int, t types.Type) *AV {
					for _, o := range absint.ObjsOf(c.Args[0]) {
						if q := s.Attr(o, "query"); q != nil {
							if n := settingName(reGetting, absint.Text(q)); n != "" {
								res.note("settings_read", siteName(e, c)+" "+n)
								return labelAll(e.Unknown(t), "was:"+n)
							}
						}
					}
					return nil
				}
				outs := env.runCmd(e, res, cmd, map[string]*AV{"Dialect": absint.StrV(d)})
				for _, o := range outs {
					for _, x := range entries(o.Q) {
						if x[0] != '!' {
							v := absint.Violation{Rule: "C04", Func: cmd + ".Run", Msg: "the command may return while the setting " + x[:strings.IndexByte(x, '@')] + " is still changed"}
							e.Violations[v.Key()] = v
						}
					}
				}
				res.Violations = append(res.Violations, sortedViolations(e.Violations)...)
				res.note("roots", cmd+"/"+d)
			}})
		}
	}
	r := env.runJobs(jobs)
	r.need("settings_changed", 3)
	r.need("settings_restored", 3)
	return r
}
