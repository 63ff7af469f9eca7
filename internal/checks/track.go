package checks

import (
	"fmt"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"sqverif/internal/absint"
)

// tracker follows one nondeterministically chosen object at a time. The object
// is given an identity of its own when it is created, so that what happens to
// it is known exactly while all others of its kind are left alone. The
// automaton state is "" (nothing chosen) or "T<object>|<state>".
type tracker struct {
	absint.Base
	env *Env
	// open says whether a successful outcome creates an object to follow and which result it is.
	open func(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) (res int, ok bool)
	// before sees an operation on the object; sure: it is certainly on the object.
	before func(e *absint.Engine, c *absint.Call, s *absint.State, t track)
	// after returns the states of the object after an operation on it (nil: unchanged).
	after func(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome, t track) []string
	// done: objects in this state need not be followed once nothing refers to them.
	done func(st string) bool
	// other sees operations while an object is followed that are not about it.
	other func(e *absint.Engine, c *absint.Call, s *absint.State, t track)

	// otherAfter returns the states of the object after an operation that is not about it (nil: unchanged).
	otherAfter func(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome, t track) []string

	sites map[absint.ObjID]trackSite
	init  string
}

type trackSite struct {
	name string
	kind string
	call *absint.Call
}

// track is an operation on the followed object.
type track struct {
	id   absint.ObjID
	st   string
	site trackSite
	sure bool  // the operation is certainly on the object
	args []int // argument positions denoting it
}

func newTracker(env *Env) *tracker {
	return &tracker{env: env, sites: map[absint.ObjID]trackSite{}, init: "open"}
}

func parseTrack(q string) (absint.ObjID, string, bool) {
	if !strings.HasPrefix(q, "T") {
		return 0, "", false
	}
	i := strings.IndexByte(q, '|')
	n, err := strconv.Atoi(q[1:i])
	if err != nil {
		return 0, "", false
	}
	return absint.ObjID(n), q[i+1:], true
}

func trackQ(id absint.ObjID, st string) string { return fmt.Sprintf("T%d|%s", id, st) }

// on tells which arguments of the call denote the followed object.
func (m *tracker) on(c *absint.Call, s *absint.State) (t track, ok bool) {
	t.id, t.st, ok = parseTrack(s.Q)
	if !ok {
		return
	}
	t.site = m.sites[t.id]
	t.sure = true
	for i, a := range c.Args {
		objs := absint.ObjsOf(a)
		for _, o := range objs {
			if o == t.id {
				t.args = append(t.args, i)
				if len(objs) > 1 || a.MayBeNil() {
					t.sure = false
				}
			}
		}
	}
	return t, true
}

func (m *tracker) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	t, ok := m.on(c, s)
	if !ok {
		return true
	}
	if len(t.args) > 0 {
		if m.before != nil {
			m.before(e, c, s, t)
		}
	} else if m.other != nil {
		m.other(e, c, s, t)
	}
	return true
}

func (m *tracker) Fork(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []absint.Result {
	if s.Q == "" {
		if !o.Fail {
			if i, ok := m.open(e, c, s, o); ok {
				t := s.Clone()
				ret := o.Ret
				v := ret
				if ret.K == absint.Tuple {
					v = ret.Elems[i]
				}
				w, id, ok := e.Twin(c, t, v)
				if ok {
					if ret.K == absint.Tuple {
						n := *ret
						n.Elems = append([]*AV(nil), ret.Elems...)
						n.Elems[i] = w
						ret = &n
					} else {
						ret = w
					}
					kind := ""
					if k := t.Attr(id, "kind"); k != nil {
						kind, _ = k.One()
					}
					cc := *c
					m.sites[id] = trackSite{name: siteName(e, c), kind: kind, call: &cc}
					t.Q = trackQ(id, m.init)
					return []absint.Result{{S: s, Ret: o.Ret}, {S: t, Ret: ret}}
				}
			}
		}
		return []absint.Result{{S: s, Ret: o.Ret}}
	}
	if t, ok := m.on(c, s); ok {
		var next []string
		if len(t.args) > 0 && m.after != nil {
			next = m.after(e, c, s, o, t)
		} else if len(t.args) == 0 && m.otherAfter != nil {
			next = m.otherAfter(e, c, s, o, t)
			t.sure = true
		}
		if next != nil {
			var out []absint.Result
			if !t.sure {
				out = append(out, absint.Result{S: s.Clone(), Ret: o.Ret})
			}
			for i, n := range next {
				u := s
				if i < len(next)-1 {
					u = s.Clone()
				}
				u.Q = trackQ(t.id, n)
				out = append(out, absint.Result{S: u, Ret: o.Ret})
			}
			return out
		}
	}
	return []absint.Result{{S: s, Ret: o.Ret}}
}

// Leave drops the paths on which the object is released and unreachable.
func (m *tracker) Leave(e *absint.Engine, c *absint.Call, fn *ssa.Function, s *absint.State, ret *AV) []absint.Result {
	if id, st, ok := parseTrack(s.Q); ok && m.done != nil && m.done(st) {
		if !s.Reaches(id, ret) && !e.Referenced(s, id) {
			return nil
		}
	}
	return []absint.Result{{S: s, Ret: ret}}
}

// HideQ: a function that cannot reach the object behaves the same for all of them.
func (m *tracker) HideQ(e *absint.Engine, q string, mark map[absint.ObjID]bool) string {
	if id, _, ok := parseTrack(q); ok && !mark[id] && m.other == nil && m.otherAfter == nil {
		return "T0|*"
	}
	return q
}
