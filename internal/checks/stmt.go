package checks

import (
	"strings"

	"sqverif/internal/absint"
)

// stmtOp is a statement sent to the database.
type stmtOp struct {
	recv   string // db, tx, conn, stmt or iface
	method string
	text   *AV
	on     []absint.ObjID // the handles it may go through (for prepared statements: what they were prepared on)
	args   *AV            // bound values, nil if none
}

// stmtOf recognises the execution of a statement; prepare: also its preparation.
func stmtOf(e *absint.Engine, c *absint.Call, s *absint.State, prepare bool) (stmtOp, bool) {
	recv, m := e.SQLOp(c.Name)
	if recv == "" {
		return stmtOp{}, false
	}
	base := strings.TrimSuffix(m, "Context")
	switch base {
	case "Exec", "Query", "QueryRow":
	case "Prepare":
		if !prepare {
			return stmtOp{}, false
		}
	default:
		return stmtOp{}, false
	}
	if debug {
		debugf("stmt %s %s\n", siteName(e, c), absint.Text(e.StmtText(c, s)))
	}
	op := stmtOp{recv: recv, method: base, text: absint.Text(e.StmtText(c, s))}
	if recv == "stmt" {
		for _, o := range absint.ObjsOf(c.Args[0]) {
			if p := s.Attr(o, "parent"); p != nil {
				op.on = append(op.on, absint.ObjsOf(p)...)
			}
		}
	} else {
		op.on = absint.ObjsOf(c.Args[0])
	}
	if base != "Prepare" && len(c.Args) > 0 {
		op.args = c.Args[len(c.Args)-1]
	}
	return op, true
}

// verbs are the possible first words of a statement; "" stands for unknown ones.
func verbs(text *AV) []string {
	var from []string
	exact := false
	switch {
	case text.Consts != nil:
		from, exact = text.Consts, true
	case text.Pre != nil:
		from = text.Pre
	default:
		return []string{""}
	}
	var out []string
	for _, t := range from {
		t = strings.TrimLeft(t, " \n\t;")
		i := strings.IndexFunc(t, func(r rune) bool { return !(r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z') })
		switch {
		case i > 0:
			out = append(out, strings.ToUpper(t[:i]))
		case exact:
			out = append(out, strings.ToUpper(t))
		default:
			out = append(out, "")
		}
	}
	return out
}

// mayModify: the statement may change data or schema. Statements sent by Query
// are taken to be reads unless their first word says otherwise.
func (op stmtOp) mayModify() bool {
	for _, v := range verbs(op.text) {
		switch v {
		case "SELECT", "SHOW", "PRAGMA", "SET", "WITH", "IF", "EXPLAIN":
		case "":
			if op.method != "Query" && op.method != "QueryRow" {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// hasVerb: the first word of the statement may be one of vs.
func (op stmtOp) hasVerb(vs ...string) bool {
	for _, v := range verbs(op.text) {
		for _, w := range vs {
			if v == w {
				return true
			}
		}
	}
	return false
}

// isScript: the statement is the contents of a file.
func (op stmtOp) isScript() bool {
	if op.text.Lab.Has("content") {
		return true
	}
	for _, v := range verbs(op.text) {
		if v != "" {
			return false
		}
	}
	return op.text.Lab.Has("file")
}

func (op stmtOp) through(id absint.ObjID) bool {
	for _, o := range op.on {
		if o == id {
			return true
		}
	}
	return false
}

// only: the statement certainly goes through the handle.
func (op stmtOp) only(id absint.ObjID) bool {
	return len(op.on) == 1 && op.on[0] == id
}

// boundValues are the values bound to a statement.
func boundValues(e *absint.Engine, s *absint.State, op stmtOp) []*AV {
	if op.args == nil {
		return nil
	}
	var out []*AV
	elems, _ := e.SliceElems(s, op.args)
	for _, v := range elems {
		if v.K == absint.Iface && len(v.Dyn) > 0 {
			for _, d := range v.Dyn {
				out = append(out, d.V)
			}
			continue
		}
		out = append(out, v)
	}
	return out
}
