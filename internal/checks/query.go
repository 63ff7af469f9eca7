package checks

import (
	"fmt"
	"regexp"
	"strings"
)

// A query as text is read into a qSel; which rows it can yield is then decided
// by a three-valued evaluation of its conditions.

type qSel struct{ branches []*qBlock }

type qBlock struct {
	items []qItem
	from  []*qFrom
	where *qEx
	refs  []*qEx // other column references (grouping)
	order []*qEx
}

type qItem struct {
	e    *qEx
	name string
}

type qFrom struct {
	alias string
	base  string
	sub   *qSel
	args  []*qEx
	left  bool // may be missing
	on    *qEx
	using []string
}

// qEx: op is str, num, bool, null, col, and, or, not, =, <, …, in, like, case,
// fn, exists, list or other.
type qEx struct {
	op, q, s string
	kids     []*qEx
	sub      *qSel
}

type qErr string

type qParser struct {
	ts []tok
	i  int
}

var reBlockComment = regexp.MustCompile(`(?s)/\*.*?\*/`)

// parseQuery reads one query; the error says what is malformed.
func parseQuery(text string) (sel *qSel, err error) {
	p := &qParser{ts: lexSQL(reBlockComment.ReplaceAllString(text, " "))}
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(qErr); ok {
				sel, err = nil, fmt.Errorf("%s", string(e))
				return
			}
			panic(x)
		}
	}()
	sel = p.sel()
	p.punct(";")
	if p.i < len(p.ts) {
		p.fail("unexpected")
	}
	return sel, nil
}

func (p *qParser) fail(what string) {
	lo, hi := max(0, p.i-6), min(len(p.ts), p.i+4)
	panic(qErr(fmt.Sprintf("%s: %s ⟂ %s", what, tokText(p.ts[lo:min(p.i, len(p.ts))]), tokText(p.ts[min(p.i, len(p.ts)):hi]))))
}

func (p *qParser) word(ws ...string) bool {
	for k, w := range ws {
		if p.i+k >= len(p.ts) || p.ts[p.i+k].k != 'w' || !strings.EqualFold(p.ts[p.i+k].s, w) {
			return false
		}
	}
	return true
}

func (p *qParser) take(ws ...string) bool {
	if p.word(ws...) {
		p.i += len(ws)
		return true
	}
	return false
}

func (p *qParser) isPunct(s string) bool {
	for k := range s {
		if p.i+k >= len(p.ts) || p.ts[p.i+k].k != 'p' || p.ts[p.i+k].s != s[k:k+1] {
			return false
		}
	}
	return true
}

func (p *qParser) punct(s string) bool {
	if p.isPunct(s) {
		p.i += len(s)
		return true
	}
	return false
}

func (p *qParser) want(s string) {
	if !p.punct(s) {
		p.fail("missing " + s)
	}
}

var qKeywords = map[string]bool{}

func init() {
	for _, w := range strings.Fields("SELECT FROM WHERE GROUP ORDER BY HAVING UNION ALL AS ON USING JOIN LEFT RIGHT INNER OUTER CROSS AND OR NOT IN IS LIKE BETWEEN EXISTS CASE WHEN THEN ELSE END WITH WITHIN LIMIT SEPARATOR ASC DESC") {
		qKeywords[w] = true
	}
}

func (p *qParser) isIdent() bool {
	if p.i >= len(p.ts) {
		return false
	}
	t := p.ts[p.i]
	return t.k == 'q' || t.k == 'w' && !qKeywords[strings.ToUpper(t.s)] && (t.s[0] < '0' || t.s[0] > '9')
}

func (p *qParser) ident() string {
	if !p.isIdent() {
		p.fail("name expected")
	}
	p.i++
	return strings.ToLower(p.ts[p.i-1].s)
}

func (p *qParser) sel() *qSel {
	s := &qSel{}
	for {
		s.branches = append(s.branches, p.block())
		if !p.take("UNION") {
			break
		}
		p.take("ALL")
	}
	if p.take("ORDER", "BY") {
		last := s.branches[len(s.branches)-1]
		last.order = p.orderList()
	}
	return s
}

func (p *qParser) orderList() []*qEx {
	var out []*qEx
	for {
		out = append(out, p.expr())
		if !p.take("ASC") {
			p.take("DESC")
		}
		if !p.punct(",") {
			return out
		}
	}
}

func (p *qParser) block() *qBlock {
	if !p.take("SELECT") {
		p.fail("SELECT expected")
	}
	p.take("DISTINCT")
	b := &qBlock{}
	for {
		it := qItem{e: p.expr()}
		switch {
		case p.take("AS"):
			it.name = p.ident()
		case p.isIdent():
			it.name = p.ident()
		case it.e.op == "col":
			it.name = it.e.s
		}
		b.items = append(b.items, it)
		if !p.punct(",") {
			break
		}
	}
	if p.take("FROM") {
		p.from(b)
	}
	if p.take("WHERE") {
		b.where = p.expr()
	}
	if p.take("GROUP", "BY") {
		b.refs = p.orderList()
	}
	if p.take("HAVING") {
		b.refs = append(b.refs, p.expr())
	}
	return b
}

func (p *qParser) from(b *qBlock) {
	b.from = append(b.from, p.source())
	for {
		left, cross := false, false
		switch {
		case p.punct(","), p.take("CROSS", "JOIN"):
			cross = true
		case p.take("LEFT", "OUTER", "JOIN"), p.take("LEFT", "JOIN"):
			left = true
		case p.take("INNER", "JOIN"), p.take("JOIN"):
		default:
			return
		}
		f := p.source()
		f.left = left
		switch {
		case p.take("ON"):
			f.on = p.expr()
		case p.take("USING"):
			p.want("(")
			for {
				f.using = append(f.using, p.ident())
				if !p.punct(",") {
					break
				}
			}
			p.want(")")
		case !cross:
			// a join without a condition is a cross join where allowed
		}
		b.from = append(b.from, f)
	}
}

func (p *qParser) source() *qFrom {
	f := &qFrom{}
	if p.punct("(") {
		f.sub = p.sel()
		p.want(")")
	} else {
		f.base = p.ident()
		for p.punct(".") {
			f.base = p.ident()
		}
		f.alias = f.base
		if p.punct("(") {
			for !p.isPunct(")") {
				f.args = append(f.args, p.expr())
				if !p.punct(",") {
					break
				}
			}
			p.want(")")
			p.take("WITH", "ORDINALITY")
		}
	}
	if p.take("AS") || p.isIdent() {
		f.alias = p.ident()
		if p.punct("(") {
			for !p.punct(")") {
				p.ident()
				p.punct(",")
			}
		}
	}
	return f
}

func bin(op string, kids ...*qEx) *qEx { return &qEx{op: op, kids: kids} }

func (p *qParser) expr() *qEx {
	e := p.conj()
	for p.take("OR") {
		e = bin("or", e, p.conj())
	}
	return e
}

func (p *qParser) conj() *qEx {
	e := p.neg()
	for p.take("AND") {
		e = bin("and", e, p.neg())
	}
	return e
}

func (p *qParser) neg() *qEx {
	if p.take("NOT") {
		return bin("not", p.neg())
	}
	return p.comparison()
}

func (p *qParser) comparison() *qEx {
	e := p.sum()
	for {
		not := p.word("NOT", "IN") || p.word("NOT", "LIKE") || p.word("NOT", "BETWEEN") || p.word("NOT", "ILIKE")
		if not {
			p.i++
		}
		var r *qEx
		switch {
		case p.take("IN"):
			p.want("(")
			r = bin("in", e)
			if p.word("SELECT") {
				r.sub = p.sel()
			} else {
				for {
					r.kids = append(r.kids, p.expr())
					if !p.punct(",") {
						break
					}
				}
			}
			p.want(")")
		case p.take("LIKE"), p.take("ILIKE"):
			r = bin("like", e, p.sum())
			if p.take("ESCAPE") {
				r.kids = append(r.kids, p.sum())
			}
		case p.take("BETWEEN"):
			r = bin("other", e, p.sum())
			if !p.take("AND") {
				p.fail("missing AND")
			}
			r.kids = append(r.kids, p.sum())
		case p.take("IS"):
			n := p.take("NOT")
			r = bin("is", e, p.sum())
			if n {
				r = bin("not", r)
			}
		default:
			op := ""
			for _, o := range []string{"<>", "!=", "<=", ">=", "=", "<", ">"} {
				if p.punct(o) {
					op = o
					break
				}
			}
			if op == "" {
				return e
			}
			if op == "!=" {
				op = "<>"
			}
			r = bin(op, e, p.sum())
			if op == "<>" {
				r.op = "="
				r = bin("not", r)
			}
		}
		if not {
			r = bin("not", r)
		}
		e = r
	}
}

func (p *qParser) sum() *qEx {
	e := p.primary()
	for {
		switch {
		case p.punct("||"), p.isPunct(">>") && p.punct(">>"), p.isPunct("<<") && p.punct("<<"),
			p.punct("+"), p.punct("-"), p.punct("*"), p.punct("/"), p.punct("%"), p.punct("&"), p.punct("|"):
			e = bin("other", e, p.primary())
		case p.punct("::"):
			p.ident()
			if p.punct("(") {
				for !p.punct(")") {
					p.i++
					if p.i >= len(p.ts) {
						p.fail("missing )")
					}
				}
			}
		case p.take("COLLATE"):
			p.ident()
		default:
			return e
		}
	}
}

func (p *qParser) primary() *qEx {
	if p.i >= len(p.ts) {
		p.fail("expression expected")
	}
	t := p.ts[p.i]
	switch {
	case t.k == 's':
		p.i++
		return &qEx{op: "str", s: t.s}
	case t.k == 'w' && t.s[0] >= '0' && t.s[0] <= '9':
		p.i++
		if p.punct(".") {
			p.i++
		}
		return &qEx{op: "num", s: t.s}
	case p.punct("-"), p.punct("+"):
		return bin("other", p.primary())
	case p.punct("*"):
		return &qEx{op: "star"}
	case p.punct("("):
		if p.word("SELECT") {
			e := &qEx{op: "other", sub: p.sel()}
			p.want(")")
			return e
		}
		e := p.expr()
		if p.punct(",") {
			e = bin("list", e)
			for {
				e.kids = append(e.kids, p.expr())
				if !p.punct(",") {
					break
				}
			}
		}
		p.want(")")
		return e
	case p.take("TRUE"):
		return &qEx{op: "bool", s: "1"}
	case p.take("FALSE"):
		return &qEx{op: "bool", s: "0"}
	case p.take("NULL"):
		return &qEx{op: "null"}
	case p.take("CASE"):
		return p.caseExpr()
	case p.take("EXISTS"):
		p.want("(")
		e := &qEx{op: "exists", sub: p.sel()}
		p.want(")")
		return e
	case p.word("CAST"):
		p.i++
		p.want("(")
		e := p.expr()
		if !p.take("AS") {
			p.fail("missing AS")
		}
		for depth := 0; !(depth == 0 && p.isPunct(")")); p.i++ {
			if p.i >= len(p.ts) {
				p.fail("missing )")
			}
			if p.isPunct("(") {
				depth++
			} else if p.isPunct(")") {
				depth--
			}
		}
		p.want(")")
		return bin("other", e)
	}
	n := p.ident()
	q := ""
	for p.punct(".") {
		if p.punct("*") {
			return &qEx{op: "star", q: n}
		}
		q, n = n, p.ident()
	}
	if !p.punct("(") {
		return &qEx{op: "col", q: q, s: n}
	}
	e := &qEx{op: "fn", s: n}
	p.take("DISTINCT")
	for !p.isPunct(")") {
		e.kids = append(e.kids, p.expr())
		if p.take("ORDER", "BY") {
			e.kids = append(e.kids, p.orderList()...)
		}
		if p.take("SEPARATOR") {
			p.primary()
		}
		if !p.punct(",") {
			break
		}
	}
	p.want(")")
	if p.take("WITHIN", "GROUP") || p.take("OVER") {
		p.want("(")
		if p.take("PARTITION", "BY") {
			e.kids = append(e.kids, p.orderList()...)
		}
		if p.take("ORDER", "BY") {
			e.kids = append(e.kids, p.orderList()...)
		}
		p.want(")")
	}
	return e
}

// caseExpr: kids are the subject (or nil), condition, value, …, and the value
// of ELSE (or nil).
func (p *qParser) caseExpr() *qEx {
	e := bin("case", nil)
	if !p.word("WHEN") {
		e.kids[0] = p.expr()
	}
	for p.take("WHEN") {
		c := p.expr()
		if !p.take("THEN") {
			p.fail("missing THEN")
		}
		e.kids = append(e.kids, c, p.expr())
	}
	if p.take("ELSE") {
		e.kids = append(e.kids, p.expr())
	} else {
		e.kids = append(e.kids, nil)
	}
	if !p.take("END") {
		p.fail("missing END")
	}
	return e
}

// unresolved are the qualified names that don't denote anything in scope.
func (s *qSel) unresolved(outer map[string]bool, bad func(string)) {
	for _, b := range s.branches {
		scope := map[string]bool{}
		for k := range outer {
			scope[k] = true
		}
		subs := map[string]*qSel{}
		for _, f := range b.from {
			if f.sub != nil {
				f.sub.unresolved(scope, bad)
				subs[f.alias] = f.sub
			} else {
				delete(subs, f.alias)
			}
			scope[f.alias] = true
		}
		var walk func(e *qEx)
		walk = func(e *qEx) {
			if e == nil {
				return
			}
			if e.op == "col" && e.q != "" {
				if !scope[e.q] {
					bad(e.q + "." + e.s)
				} else if sub := subs[e.q]; sub != nil && sub.index(e.s) < 0 && !sub.star() {
					bad(e.q + "." + e.s)
				}
			}
			if e.op == "col" && e.q == "" && len(outer) == 0 && len(b.from) == 1 && b.from[0].sub != nil && b.from[0].sub.index(e.s) < 0 && !b.from[0].sub.star() && !isName(b, e.s) {
				bad(e.s)
			}
			if e.sub != nil {
				e.sub.unresolved(scope, bad)
			}
			for _, k := range e.kids {
				walk(k)
			}
		}
		for _, it := range b.items {
			walk(it.e)
		}
		for _, f := range b.from {
			walk(f.on)
			for _, a := range f.args {
				walk(a)
			}
		}
		walk(b.where)
		for _, r := range b.refs {
			walk(r)
		}
		if len(s.branches) == 1 {
			for _, r := range b.order {
				walk(r)
			}
		} else {
			for _, r := range b.order {
				if r.op == "col" && (r.q != "" || s.index(r.s) < 0) {
					bad(r.s)
				}
			}
		}
	}
}

// isName: the name is one of the block's own results, as in ORDER BY.
func isName(b *qBlock, n string) bool {
	for _, it := range b.items {
		if it.name == n {
			return true
		}
	}
	return false
}

func (s *qSel) star() bool {
	for _, it := range s.branches[0].items {
		if it.e.op == "star" {
			return true
		}
	}
	return false
}

func (s *qSel) index(name string) int {
	for i, it := range s.branches[0].items {
		if it.name == name {
			return i
		}
	}
	return -1
}

// tri is a truth value: 'T', 'F' or '?'.
type tri byte

func (t tri) not() tri {
	switch t {
	case 'T':
		return 'F'
	case 'F':
		return 'T'
	}
	return '?'
}

// feasible: rows whose result i is bind[i] can exist in one of the branches.
func (s *qSel) feasible(bind map[int]string) bool {
	for _, b := range s.branches {
		if b.feasible(bind) {
			return true
		}
	}
	return false
}

type qEnv struct {
	parent map[string]string
	val    map[string]string
	facts  map[string]tri // conditions that follow from the results
	b      *qBlock
}

// String is the same for equal expressions.
func (e *qEx) String() string {
	if e == nil {
		return "-"
	}
	var b strings.Builder
	b.WriteString("(" + e.op + " " + e.q + "." + e.s)
	for _, k := range e.kids {
		b.WriteString(" " + k.String())
	}
	b.WriteString(")")
	return b.String()
}

// learn: the expression is known to be want.
func (v *qEnv) learn(e *qEx, want string) {
	switch e.op {
	case "case":
		if len(e.kids) != 4 || e.kids[3] == nil {
			return
		}
		c := e.kids[1]
		if e.kids[0] != nil {
			c = bin("=", e.kids[0], c)
		}
		a, ok1 := v.value(e.kids[2])
		b, ok2 := v.value(e.kids[3])
		switch {
		case ok1 && ok2 && sameValue(a, b):
		case ok1 && !sameValue(a, want):
			v.assume(c, 'F')
		case ok2 && !sameValue(b, want):
			v.assume(c, 'T')
		}
	case "=", "in", "like", "not", "and", "or", "is":
		if sameValue(want, "1") {
			v.assume(e, 'T')
		} else if sameValue(want, "0") {
			v.assume(e, 'F')
		}
	}
}

func (v *qEnv) assume(c *qEx, t tri) {
	if c.op == "not" {
		v.assume(c.kids[0], t.not())
		return
	}
	v.facts[c.String()] = t
	if c.op == "=" {
		v.facts[bin("=", c.kids[1], c.kids[0]).String()] = t
		if x, ok := v.value(c.kids[1]); ok && t == 'T' && c.kids[0].op == "col" {
			v.val[v.find(v.key(c.kids[0]))] = x
		}
	}
	if c.op == "and" && t == 'T' || c.op == "or" && t == 'F' {
		v.assume(c.kids[0], t)
		v.assume(c.kids[1], t)
	}
}

func (v *qEnv) find(x string) string {
	for {
		p, ok := v.parent[x]
		if !ok {
			return x
		}
		x = p
	}
}

func (v *qEnv) union(a, b string) {
	if a, b = v.find(a), v.find(b); a != b {
		v.parent[a] = b
	}
}

// key is the variable a column reference denotes.
func (v *qEnv) key(e *qEx) string {
	if e.q != "" {
		return e.q + "." + e.s
	}
	if len(v.b.from) == 1 {
		return v.b.from[0].alias + "." + e.s
	}
	owner := ""
	for _, f := range v.b.from {
		for _, u := range f.using {
			if u == e.s {
				return "." + e.s
			}
		}
		if f.sub != nil && f.sub.index(e.s) >= 0 {
			owner = f.alias
		}
	}
	return owner + "." + e.s
}

func (b *qBlock) feasible(bind map[int]string) bool {
	v := &qEnv{parent: map[string]string{}, val: map[string]string{}, facts: map[string]tri{}, b: b}
	var equal func(e *qEx)
	equal = func(e *qEx) {
		switch {
		case e == nil:
		case e.op == "and":
			equal(e.kids[0])
			equal(e.kids[1])
		case e.op == "=" && e.kids[0].op == "col" && e.kids[1].op == "col":
			v.union(v.key(e.kids[0]), v.key(e.kids[1]))
		}
	}
	equal(b.where)
	for i, f := range b.from {
		if f.left {
			continue
		}
		equal(f.on)
		for _, u := range f.using {
			for _, g := range b.from[:i+1] {
				v.union("."+u, g.alias+"."+u)
			}
		}
	}
	type left struct {
		e *qEx
		s string
	}
	var rest []left
	for i, want := range bind {
		if i >= len(b.items) {
			continue
		}
		e := b.items[i].e
		if e.op == "col" {
			k := v.find(v.key(e))
			if old, ok := v.val[k]; ok && old != want {
				return false
			}
			v.val[k] = want
		} else {
			rest = append(rest, left{e, want})
		}
	}
	for _, r := range rest {
		if x, ok := v.value(r.e); ok && !sameValue(x, r.s) {
			return false
		}
		v.learn(r.e, r.s)
	}
	for _, f := range b.from {
		if f.sub == nil || f.left {
			continue
		}
		inner := map[int]string{}
		for i, it := range f.sub.branches[0].items {
			if x, ok := v.val[v.find(f.alias+"."+it.name)]; ok && it.name != "" {
				inner[i] = x
			}
		}
		if !f.sub.feasible(inner) {
			return false
		}
	}
	if v.eval(b.where) == 'F' {
		return false
	}
	for _, f := range b.from {
		if !f.left && v.eval(f.on) == 'F' {
			return false
		}
	}
	return true
}

func sameValue(a, b string) bool {
	norm := func(s string) string {
		switch strings.ToLower(s) {
		case "false":
			return "0"
		case "true":
			return "1"
		}
		return s
	}
	return norm(a) == norm(b)
}

// value is the value an expression is known to have.
func (v *qEnv) value(e *qEx) (string, bool) {
	switch e.op {
	case "str", "num", "bool":
		return e.s, true
	case "col":
		x, ok := v.val[v.find(v.key(e))]
		return x, ok
	case "case":
		n := len(e.kids)
		for i := 1; i+1 < n; i += 2 {
			c := e.kids[i]
			if e.kids[0] != nil {
				c = bin("=", e.kids[0], c)
			}
			switch v.eval(c) {
			case 'T':
				return v.value(e.kids[i+1])
			case '?':
				return "", false
			}
		}
		if e.kids[n-1] == nil {
			return "", false
		}
		return v.value(e.kids[n-1])
	case "fn":
		if e.s == "coalesce" && len(e.kids) > 0 {
			return v.value(e.kids[0])
		}
		if len(e.kids) == 1 {
			x, ok := v.value(e.kids[0])
			switch e.s {
			case "lower":
				return strings.ToLower(x), ok
			case "upper":
				return strings.ToUpper(x), ok
			}
		}
	case "and", "or", "not", "=", "in", "like":
		switch v.eval(e) {
		case 'T':
			return "1", true
		case 'F':
			return "0", true
		}
	}
	return "", false
}

func (v *qEnv) eval(e *qEx) tri {
	if e == nil {
		return 'T'
	}
	if t, ok := v.facts[e.String()]; ok {
		return t
	}
	switch e.op {
	case "and", "or":
		a, b := v.eval(e.kids[0]), v.eval(e.kids[1])
		absorbing := tri('F')
		if e.op == "or" {
			absorbing = 'T'
		}
		switch {
		case a == absorbing || b == absorbing:
			return absorbing
		case a == '?' || b == '?':
			return '?'
		}
		return absorbing.not()
	case "not":
		return v.eval(e.kids[0]).not()
	case "=":
		a, ok1 := v.value(e.kids[0])
		b, ok2 := v.value(e.kids[1])
		if ok1 && ok2 {
			return truth(sameValue(a, b))
		}
	case "in":
		a, ok := v.value(e.kids[0])
		if !ok || e.sub != nil {
			return '?'
		}
		r := tri('F')
		for _, k := range e.kids[1:] {
			b, ok := v.value(k)
			if ok && sameValue(a, b) {
				return 'T'
			} else if !ok {
				r = '?'
			}
		}
		return r
	case "like":
		a, ok1 := v.value(e.kids[0])
		b, ok2 := v.value(e.kids[1])
		if ok1 && ok2 && len(e.kids) == 2 {
			return truth(likes(a, b))
		}
	case "bool", "num":
		return truth(e.s != "0")
	case "col", "case", "fn":
		if x, ok := v.value(e); ok && (x == "0" || x == "1") {
			return truth(x == "1")
		}
	}
	return '?'
}

func truth(b bool) tri {
	if b {
		return 'T'
	}
	return 'F'
}

// likes ignores case, as the databases that matter do for ASCII names.
func likes(s, pattern string) bool {
	var b strings.Builder
	b.WriteString("(?is)^")
	for _, r := range pattern {
		switch r {
		case '%':
			b.WriteString(".*")
		case '_':
			b.WriteString(".")
		default:
			b.WriteString(regexp.QuoteMeta(string(r)))
		}
	}
	b.WriteString("$")
	ok, _ := regexp.MatchString(b.String(), s)
	return ok
}

// nullable: result i can be NULL because it is taken from a joined table that
// may have no matching row, or from a function that yields NULL when there is
// nothing. Only what is certain counts.
func (s *qSel) nullable(i int) bool {
	for _, b := range s.branches {
		if i < len(b.items) && b.nullable(b.items[i].e) {
			return true
		}
	}
	return false
}

var nullFuncs = map[string]bool{"obj_description": true, "col_description": true, "shobj_description": true, "nullif": true}

func (b *qBlock) nullable(e *qEx) bool {
	switch e.op {
	case "null":
		return true
	case "col":
		for _, f := range b.from {
			if f.alias != e.q && !(e.q == "" && len(b.from) == 1) {
				continue
			}
			if f.sub != nil {
				if k := f.sub.index(e.s); k >= 0 && f.sub.nullable(k) {
					return true
				}
			}
			// every object has a schema and a type
			if f.left && f.base != "pg_namespace" && f.base != "pg_type" && f.base != "schemas" && f.base != "types" {
				return !b.excludesNull(b.where, e)
			}
		}
	case "case":
		n := len(e.kids)
		if e.kids[n-1] != nil && b.nullable(e.kids[n-1]) {
			return true // without ELSE all cases may be covered
		}
	case "fn":
		if nullFuncs[e.s] {
			return true
		}
		if e.s == "coalesce" || e.s == "ifnull" || e.s == "isnull" {
			for _, k := range e.kids {
				if !b.nullable(k) {
					return false
				}
			}
			return len(e.kids) > 0
		}
	}
	return false
}

// excludesNull: the condition doesn't hold for rows in which the table of the
// column has no match.
func (b *qBlock) excludesNull(c, col *qEx) bool {
	if c == nil {
		return false
	}
	switch c.op {
	case "and":
		return b.excludesNull(c.kids[0], col) || b.excludesNull(c.kids[1], col)
	case "=", "in", "like", "<", ">", "<=", ">=":
		return c.kids[0].op == "col" && c.kids[0].q == col.q
	case "not":
		k := c.kids[0]
		switch k.op {
		case "=", "in", "like":
			return k.kids[0].op == "col" && k.kids[0].q == col.q
		case "is":
			return k.kids[0].op == "col" && k.kids[0].q == col.q && k.kids[1].op == "null"
		}
	}
	return false
}
