package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ObjsOf returns the objects a pointer or interface value denotes.
func ObjsOf(v *AV) []ObjID {
	var out []ObjID
	seen := map[ObjID]bool{}
	add := func(r Ref) {
		if !seen[r.O] {
			seen[r.O] = true
			out = append(out, r.O)
		}
	}
	for _, r := range v.Refs {
		add(r)
	}
	for _, d := range v.Dyn {
		for _, r := range d.V.Refs {
			add(r)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// refsOf returns the references a pointer or interface value denotes.
func refsOf(v *AV) []Ref {
	out := append([]Ref(nil), v.Refs...)
	for _, d := range v.Dyn {
		out = append(out, d.V.Refs...)
	}
	return out
}

// MayUnknown reports whether v may denote something without a known object.
func MayUnknown(v *AV) bool {
	switch v.K {
	case Ptr:
		return v.Unk || len(v.Refs) == 0 && !v.MustNil()
	case Iface:
		if len(v.Refs) > 0 {
			return false
		}
		if v.Unk {
			return true
		}
		for _, d := range v.Dyn {
			if MayUnknown(d.V) {
				return true
			}
		}
		return false
	}
	return true
}

// Res creates a resource object for the result of a call.
func (e *Engine) Res(c *Call, s *State, kind string, t types.Type, attrs map[string]*AV) *AV {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	id := e.Obj(c.Site, c.Ctx, kind+e.iterKey(s), t, c.Site.Pos())
	weak := false
	if s.Heap[id] != nil {
		var self ssa.Value
		if v, ok := c.Site.(ssa.Value); ok {
			self = v
		}
		weak = e.referenced(s, id, self)
	}
	at := map[string]*AV{"kind": StrV(kind)}
	for k, v := range attrs {
		at[k] = v
	}
	n := &Obj{V: e.resZero(t), At: at, Weak: weak}
	if weak {
		n = joinObj(s.Heap[id], n, false)
	}
	s.setObj(id, n)
	return PtrV(Ref{O: id})
}

func (e *Engine) resZero(t types.Type) *AV {
	if _, ok := under(t).(*types.Struct); ok {
		return e.Unknown(t)
	}
	return Top()
}

// IfaceOf is an interface value denoting the object p points to.
func IfaceOf(p *AV) *AV { return &AV{K: Iface, Nil: MayNonNil, Unk: true, Refs: p.Refs, Lab: p.Lab} }

func resT(c *Call, i int) types.Type {
	return c.ResT.(*types.Tuple).At(i).Type()
}

// okFail: success with the given values, failure with zero values.
func (e *Engine) okFail(c *Call, s *State, mk func(t *State) []*AV) []Outcome {
	rt := c.ResT.(*types.Tuple)
	n := rt.Len()
	fail := &AV{K: Tuple}
	for i := 0; i < n-1; i++ {
		fail.Elems = append(fail.Elems, e.Zero(rt.At(i).Type()))
	}
	fail.Elems = append(fail.Elems, FailErr("fail"))
	failV := fail
	if n == 1 {
		failV = fail.Elems[0]
	}
	ok := Outcome{Ret: TupleV()}
	okT := &AV{K: Tuple}
	ok.Ret = okT
	if n == 1 {
		ok.Ret = nilErr
		ok.Apply = func(t *State) {
			if mk != nil {
				mk(t)
			}
		}
	} else {
		for i := 0; i < n; i++ {
			okT.Elems = append(okT.Elems, nil)
		}
		ok.Apply = func(t *State) {
			var vs []*AV
			if mk != nil {
				vs = mk(t)
			}
			for i := 0; i < n-1; i++ {
				if i < len(vs) && vs[i] != nil {
					okT.Elems[i] = vs[i]
				} else {
					u := e.Unknown(rt.At(i).Type())
					if isRefKind(u) {
						m := *u
						m.Nil = MayNonNil
						u = &m
					}
					okT.Elems[i] = u
				}
			}
			okT.Elems[n-1] = nilErr
		}
	}
	return []Outcome{ok, {Ret: failV, Fail: true}}
}

func labelsOf(args []*AV) Set {
	var l Set
	for _, a := range args {
		l = l.Union(deepLab(a))
	}
	return l
}

func deepLab(v *AV) Set {
	l := v.Lab
	for _, d := range v.Dyn {
		l = l.Union(deepLab(d.V))
	}
	if v.K == Struct || v.K == Tuple || v.K == Arr {
		for _, x := range v.Elems {
			l = l.Union(deepLab(x))
		}
		for _, x := range v.Sum {
			l = l.Union(deepLab(x))
		}
	}
	return l
}

// DeepLab collects the labels of a value and of everything it refers to.
func (s *State) DeepLab(v *AV) Set {
	var l Set
	seen := map[ObjID]bool{}
	var walk func(v *AV)
	walk = func(v *AV) {
		l = l.Union(v.Lab)
		for _, d := range v.Dyn {
			walk(d.V)
		}
		for _, x := range v.Elems {
			walk(x)
		}
		for _, x := range v.Sum {
			walk(x)
		}
		for _, r := range v.Refs {
			if o := s.Heap[r.O]; o != nil && !seen[r.O] {
				seen[r.O] = true
				walk(o.V)
			}
		}
	}
	walk(v)
	return l
}

// SliceElems returns the possible elements of a slice, in order if known.
func (e *Engine) SliceElems(s *State, v *AV) (elems []*AV, exact bool) {
	if v.MustNil() || v.K == Slice && v.Hi == 0 {
		return nil, true
	}
	off, ok := v.off()
	exact = len(v.Refs) == 1 && !v.Unk && ok
	for _, r := range v.Refs {
		a := e.loadRef(s, r)
		if a.K != Arr {
			exact = false
			continue
		}
		if n := int(off + v.Lo); exact && v.Lo == v.Hi && len(a.Sum) == 0 && n <= len(a.Elems) {
			return a.Elems[off:n], true
		}
		if len(a.Elems) > 0 {
			elems = append(elems, a.Elems...)
			if v.Lo != v.Hi || int(v.Lo) != len(a.Elems) {
				exact = false
			}
		}
		if len(a.Sum) > 0 {
			exact = false
			elems = append(elems, a.Sum...)
		}
	}
	return
}

func bufKey(r Ref) string { return "text@" + r.P }

// BufText returns the text held in the buffer(s) v points to.
func (e *Engine) BufText(s *State, v *AV) *AV {
	var t *AV = botV
	for _, r := range refsOf(v) {
		x := s.Attr(r.O, bufKey(r))
		if x == nil {
			x = StrV("")
		}
		t = Join(t, x)
	}
	if t.K == Bot || MayUnknown(v) {
		t = Join(t, AnyStr().withLab(v.Lab))
	}
	return t
}

func (e *Engine) bufSet(s *State, v *AV, f func(old *AV) *AV) {
	refs := refsOf(v)
	for _, r := range refs {
		old := s.Attr(r.O, bufKey(r))
		if old == nil {
			old = StrV("")
		}
		n := f(old)
		if len(refs) > 1 || MayUnknown(v) {
			n = Join(old, n)
		}
		s.SetAttr(r.O, bufKey(r), n)
	}
}

// BufAppend appends text to the buffer(s).
func (e *Engine) BufAppend(s *State, v *AV, t *AV) {
	e.bufSet(s, v, func(old *AV) *AV { return ConcatStr(old, t) })
}

// isBuffer: the writer is an in-memory buffer.
func isBuffer(v *AV) bool {
	if v.K == Iface {
		if len(v.Dyn) == 0 || v.Unk {
			return false
		}
		for _, d := range v.Dyn {
			if !bufType(d.T) {
				return false
			}
		}
		return true
	}
	return false
}

func bufType(t types.Type) bool {
	switch types.TypeString(t, nil) {
	case "*bytes.Buffer", "*strings.Builder":
		return true
	}
	return false
}

// ReaderText is the abstract text obtained by reading r to the end.
func (e *Engine) ReaderText(s *State, r *AV) *AV {
	t := AnyStr()
	var l Set
	var known *AV
	for i, ref := range refsOf(r) {
		if x := s.Attr(ref.O, bufKey(ref)); x != nil {
			if i == 0 && len(refsOf(r)) == 1 {
				return x
			}
			l = l.Union(x.Lab)
			continue
		}
		if p := s.Attr(ref.O, "path"); p != nil {
			l = l.Union(contentLab(p))
			if e.Content != nil {
				if x := e.Content(p); x != nil {
					if i == 0 {
						known = x
					} else if known != nil {
						known = Join(known, x)
					}
				} else {
					known = nil
				}
			}
		}
		if u := s.Attr(ref.O, "under"); u != nil {
			l = l.Union(e.ReaderText(s, u).Lab)
		}
	}
	if known != nil {
		t = known
	}
	l = l.Union(r.Lab.Filter(func(x string) bool { return strings.HasPrefix(x, "file") }))
	return t.withLab(l)
}

func contentLab(p *AV) Set {
	l := NewSet("file")
	if strings.HasSuffix(Text(p).suffix(), ".undo.sql") {
		l = l.Union(NewSet("undo"))
	}
	for _, n := range p.Lab.Names() {
		if strings.HasPrefix(n, "rec:") {
			l = l.Union(NewSet(n))
			continue
		}
		l = l.Union(NewSet("file(" + n + ")"))
	}
	return l
}

// FormatText models fmt.Sprintf.
func (e *Engine) FormatText(s *State, format *AV, args []*AV, exact bool) *AV {
	f, ok := format.One()
	var all Set
	for _, a := range args {
		all = all.Union(deepLab(a))
	}
	if !ok || !exact {
		r := AnyStr()
		r.Frags = format.fragSet()
		return r.withLab(all.Union(format.Lab))
	}
	t := StrV("")
	n := 0
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			t = ConcatStr(t, StrV(f))
			break
		}
		t = ConcatStr(t, StrV(f[:i]))
		j := i + 1
		for j < len(f) && strings.ContainsRune("+-# 0123456789.[]", rune(f[j])) {
			j++
		}
		if j >= len(f) {
			break
		}
		verb, flags := f[j], f[i:j]
		f = f[j+1:]
		if verb == '%' {
			t = ConcatStr(t, StrV("%"))
			continue
		}
		if n < len(args) {
			a := args[n]
			n++
			in := a.Inner()
			switch {
			case (verb == 's' || verb == 'v') && in.K == Str:
				t = ConcatStr(t, in)
			case verb == 'q' && flags == "%" && in.K == Str && in.Consts != nil:
				t = ConcatStr(t, mapStr(in, strconv.Quote).withLab(wrapLab(deepLab(a), "q")))
			case verb == 'd' && in.K == Int && in.Lo == in.Hi && !strings.ContainsAny(flags, "[]"):
				t = ConcatStr(t, StrV(fmt.Sprintf(flags+"d", in.Lo)).withLab(deepLab(a)))
			case verb == 'q':
				t = ConcatStr(t, AnyStr().withLab(wrapLab(deepLab(a), "q")))
			default:
				t = ConcatStr(t, AnyStr().withLab(deepLab(a)))
			}
		}
	}
	return t.withLab(format.Lab)
}

// wrapLab marks field labels as having passed through a transformation.
func wrapLab(l Set, how string) Set {
	var out Set
	for _, n := range l.Names() {
		out = out.Union(NewSet(how + "(" + n + ")"))
	}
	return out
}

func (e *Engine) varargs(c *Call, s *State, i int) ([]*AV, bool) {
	if i >= len(c.Args) {
		return nil, true
	}
	return e.SliceElems(s, c.Args[i])
}

func one(v *AV) []Outcome { return []Outcome{{Ret: v}} }

// mapStr applies f to constants, else an unknown string that keeps labels.
func mapStr(x *AV, f func(string) string) *AV {
	if x.K == Str && x.Consts != nil {
		var out []string
		for _, c := range x.Consts {
			out = append(out, f(c))
		}
		v := StrV(unionStrs(out, nil)...)
		v.Lab = x.Lab
		return v
	}
	return &AV{K: Str, Hi: MaxInt, Lab: x.Lab, Frags: x.Frags}
}

var sqlRecv = map[string]string{
	"(*database/sql.DB).": "db", "(*database/sql.Tx).": "tx", "(*database/sql.Conn).": "conn", "(*database/sql.Stmt).": "stmt",
}

// SQLOp splits the name of a database operation into receiver kind and method.
func (e *Engine) SQLOp(name string) (recv, method string) {
	for p, k := range sqlRecv {
		if strings.HasPrefix(name, p) {
			return k, name[len(p):]
		}
	}
	if i := strings.LastIndex(name, ")."); i > 0 && strings.HasPrefix(name, "("+e.Module) {
		t := name[1:i]
		if strings.HasSuffix(t, ".DB") {
			return "iface", name[i+2:]
		}
	}
	return "", ""
}

// SQLText returns the statement text argument of a database operation.
func SQLText(c *Call, method string) *AV {
	i := 1
	if strings.HasSuffix(method, "Context") {
		i = 2
	}
	if i < len(c.Args) {
		return c.Args[i]
	}
	return StrV("")
}

var WriteFlags = int64(1 | 2 | 0x40 | 0x200 | 0x400)

func (e *Engine) model(c *Call, s *State) []Outcome {
	if m := e.Models[c.Name]; m != nil {
		return m(e, c, s)
	}
	if recv, m := e.SQLOp(c.Name); recv != "" {
		if o := e.sqlModel(c, s, recv, m); o != nil {
			return o
		}
	}
	if v, ok := fold(c); ok {
		return []Outcome{{Ret: v}}
	}
	if m := stdModels[c.Name]; m != nil {
		return m(e, c, s)
	}
	return e.defaultModel(c, s)
}

func (e *Engine) sqlModel(c *Call, s *State, recv, m string) []Outcome {
	parent := c.Args[0]
	rt := c.ResT.(*types.Tuple)
	switch m {
	case "Begin", "BeginTx":
		return e.okFail(c, s, func(t *State) []*AV {
			return []*AV{e.Res(c, t, "tx", rt.At(0).Type(), map[string]*AV{"parent": parent, "st": StrV("open")})}
		})
	case "Conn":
		return e.okFail(c, s, func(t *State) []*AV {
			return []*AV{e.Res(c, t, "conn", rt.At(0).Type(), map[string]*AV{"parent": parent, "st": StrV("open")})}
		})
	case "Prepare", "PrepareContext":
		q := SQLText(c, m)
		return e.okFail(c, s, func(t *State) []*AV {
			return []*AV{e.Res(c, t, "stmt", rt.At(0).Type(), map[string]*AV{"parent": parent, "query": q, "st": StrV("open")})}
		})
	case "Query", "QueryContext":
		q := SQLText(c, m)
		if recv == "stmt" {
			q = e.stmtQuery(s, parent)
		}
		return e.okFail(c, s, func(t *State) []*AV {
			return []*AV{e.Res(c, t, "rows", rt.At(0).Type(), map[string]*AV{"parent": parent, "query": q, "st": StrV("open")})}
		})
	case "QueryRow", "QueryRowContext":
		q := SQLText(c, m)
		return one(e.Res(c, s, "row", rt.At(0).Type(), map[string]*AV{"parent": parent, "query": q}))
	case "Exec", "ExecContext":
		return e.okFail(c, s, nil)
	case "Commit":
		return e.okFail(c, s, nil)
	case "Rollback":
		return one(Top())
	case "Close":
		return one(&AV{K: Iface, Nil: MayNil | MayNonNil, Unk: true})
	case "Ping", "PingContext":
		return e.okFail(c, s, nil)
	}
	return nil
}

// Twin makes a copy of the object the (single) reference result v denotes under
// an identity of its own, and returns v pointing to it.
func (e *Engine) Twin(c *Call, s *State, v *AV) (*AV, ObjID, bool) {
	if v.K == Iface && len(v.Refs) == 0 && len(v.Dyn) == 1 {
		w, id, ok := e.Twin(c, s, v.Dyn[0].V)
		n := *v
		n.Dyn = []Dyn{{v.Dyn[0].T, w}}
		return &n, id, ok
	}
	refs := v.Refs
	if len(refs) != 1 || refs[0].P != "" {
		return v, 0, false
	}
	old := refs[0].O
	info := e.objs[old]
	id := e.Obj(c.Site, c.Ctx, "!"+info.Key, info.T, info.Pos)
	o := s.Heap[old]
	if o == nil {
		return v, 0, false
	}
	n := &Obj{V: o.V, At: o.At}
	if o.Weak { // the fresh object is none of the earlier ones
		n.At = map[string]*AV{}
		for k, x := range o.At {
			n.At[k] = x
		}
		if _, ok := n.At["st"]; ok {
			n.At["st"] = StrV("open")
		}
	}
	s.setObj(id, n)
	w := *v
	w.Refs = []Ref{{O: id}}
	return &w, id, true
}

// MapEntries returns the entries of a map whose keys are all known texts.
func (e *Engine) MapEntries(s *State, m *AV) (keys []string, vals []*AV, exact bool) {
	if m.MustNil() {
		return nil, nil, true
	}
	if m.Unk || len(m.Refs) != 1 {
		return nil, nil, false
	}
	o := s.Heap[m.Refs[0].O]
	if o == nil || o.V.K != Arr || o.V.Consts == nil {
		return nil, nil, false
	}
	return o.V.Consts, o.V.Elems, true
}

// Load gives what a pointer points to.
func (e *Engine) Load(s *State, p *AV, t types.Type) *AV { return e.load(s, p, t) }
