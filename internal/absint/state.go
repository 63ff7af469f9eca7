package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ObjID int32

// Ctx is an interned call string.
type Ctx struct {
	Parent *Ctx
	Site   ssa.Instruction
	Fn     *ssa.Function
	Depth  int
	kids   map[ctxKey]*Ctx
}

type ctxKey struct {
	site ssa.Instruction
	fn   *ssa.Function
	iter string
}

func (c *Ctx) Child(site ssa.Instruction, fn *ssa.Function) *Ctx { return c.child(site, fn, "") }

// child is the context of a call made in the given iterations of loops.
func (c *Ctx) child(site ssa.Instruction, fn *ssa.Function, iter string) *Ctx {
	if c.kids == nil {
		c.kids = map[ctxKey]*Ctx{}
	}
	k := ctxKey{site, fn, iter}
	n := c.kids[k]
	if n == nil {
		n = &Ctx{Parent: c, Site: site, Fn: fn, Depth: c.Depth + 1}
		c.kids[k] = n
	}
	return n
}

// Contains reports whether fn is on the call string.
func (c *Ctx) Count(fn *ssa.Function) int {
	n := 0
	for ; c != nil; c = c.Parent {
		if c.Fn == fn {
			n++
		}
	}
	return n
}

// ObjInfo describes an abstract object.
type ObjInfo struct {
	ID   ObjID
	Key  string
	T    types.Type
	Pos  token.Pos
	Site any
	Ctx  *Ctx
}

type objKey struct {
	site any
	ctx  *Ctx
	sub  string
}

// Obj is the immutable content of an object.
type Obj struct {
	V    *AV
	At   map[string]*AV
	Weak bool // stands for several concrete objects
	Foc  *Ref // element of a slice in focus: writes are added to this summary
}

func (o *Obj) Attr(k string) *AV {
	if o == nil {
		return nil
	}
	return o.At[k]
}

// State is an abstract program state of one activation.
type State struct {
	Q    string
	Env  map[ssa.Value]*AV
	From map[ssa.Value]Ref
	Def  []*Deferred
	Heap map[ObjID]*Obj
	iter []iterOf // iterations of loops that are unrolled
}

// iterOf counts the iterations of the loop with the given head.
type iterOf struct{ head, n int }

type Deferred struct {
	In   *ssa.Defer
	Args []*AV
	Fn   *AV
	Many bool
}

func (s *State) Clone() *State {
	n := &State{Q: s.Q, Def: s.Def, iter: s.iter}
	n.Env = make(map[ssa.Value]*AV, len(s.Env)+4)
	for k, v := range s.Env {
		n.Env[k] = v
	}
	n.From = make(map[ssa.Value]Ref, len(s.From))
	for k, v := range s.From {
		n.From[k] = v
	}
	n.Heap = make(map[ObjID]*Obj, len(s.Heap)+4)
	for k, v := range s.Heap {
		n.Heap[k] = v
	}
	return n
}

func (s *State) setObj(id ObjID, o *Obj) {
	s.Heap[id] = o
	for r, f := range s.From {
		if f.O == id {
			delete(s.From, r)
		}
	}
}

// Attr reads an attribute of an object.
func (s *State) Attr(id ObjID, k string) *AV { return s.Heap[id].Attr(k) }

// SetAttr sets an attribute of an object.
func (s *State) SetAttr(id ObjID, k string, v *AV) {
	o := s.Heap[id]
	n := &Obj{At: map[string]*AV{}}
	if o != nil {
		n.V, n.Weak, n.Foc = o.V, o.Weak, o.Foc
		for kk, vv := range o.At {
			n.At[kk] = vv
		}
		if o.Weak {
			if old := o.At[k]; old != nil {
				v = Join(old, v)
			}
		}
	}
	if n.V == nil {
		n.V = Top()
	}
	n.At[k] = v
	s.Heap[id] = n
}

func stepsOf(p string) []rune { return []rune(p) }

// getPath reads a component of v of type t.
func (e *Engine) getPath(v *AV, t types.Type, p []rune) *AV {
	for len(p) > 0 {
		if v == nil || v.K == Bot {
			return botV
		}
		r := p[0]
		p = p[1:]
		switch u := under(t).(type) {
		case *types.Struct:
			i := int(r - 1)
			if r == anyElem || i >= u.NumFields() {
				return Top()
			}
			if v.K == Struct {
				v = v.Elems[i].withLab(v.Lab)
			} else {
				v = e.unknownField(t, i).withLab(v.Lab)
			}
			t = u.Field(i).Type()
		case *types.Array:
			v = e.elemOf(v, u.Elem(), r)
			t = u.Elem()
		case *types.Slice:
			v = e.elemOf(v, u.Elem(), r)
			t = u.Elem()
		default:
			return Top()
		}
	}
	return v
}

func (e *Engine) elemOf(v *AV, et types.Type, r rune) *AV {
	if v.K != Arr {
		return e.Unknown(et).withLab(v.Lab)
	}
	if r != anyElem {
		i := int(r - 1)
		if i < len(v.Elems) {
			return v.Elems[i].withLab(v.Lab)
		}
	}
	j := flat(v.Sum)
	for _, x := range v.Elems {
		j = Join(j, x)
	}
	return j.withLab(v.Lab)
}

// setPath replaces a component; weak joins with the old value.
func (e *Engine) setPath(v *AV, t types.Type, p []rune, nv *AV, weak bool) *AV {
	if len(p) == 0 {
		if weak {
			return Join(v, nv)
		}
		return nv
	}
	r := p[0]
	switch u := under(t).(type) {
	case *types.Struct:
		i := int(r - 1)
		if r == anyElem || i >= u.NumFields() {
			return Top()
		}
		if v.K != Struct {
			v = e.Unknown(t)
			if v.K != Struct {
				return v
			}
		}
		w := *v
		w.Elems = append([]*AV(nil), v.Elems...)
		w.Elems[i] = e.setPath(v.Elems[i], u.Field(i).Type(), p[1:], nv, weak)
		return &w
	case *types.Array:
		return e.setElem(v, u.Elem(), r, p[1:], nv, weak)
	case *types.Slice:
		return e.setElem(v, u.Elem(), r, p[1:], nv, weak)
	}
	return Top()
}

func (e *Engine) setElem(v *AV, et types.Type, r rune, rest []rune, nv *AV, weak bool) *AV {
	if v.K != Arr {
		// unknown contents stay unknown (joined)
		w := &AV{K: Arr, Sum: []*AV{Join(e.Unknown(et), e.setPath(e.Unknown(et), et, rest, nv, weak))}, Lab: v.Lab}
		return w
	}
	w := *v
	if r != anyElem {
		i := int(r - 1)
		if i < len(v.Elems) {
			w.Elems = append([]*AV(nil), v.Elems...)
			w.Elems[i] = e.setPath(v.Elems[i], et, rest, nv, weak)
			return &w
		}
	}
	if len(v.Elems) > 0 {
		w.Elems = append([]*AV(nil), v.Elems...)
		for i := range w.Elems {
			w.Elems[i] = e.setPath(v.Elems[i], et, rest, nv, true)
		}
		return &w
	}
	if len(rest) == 0 {
		w.Sum = addVariant(v.Sum, nv)
		return &w
	}
	sum := v.Sum
	for _, x := range v.Sum {
		sum = addVariant(sum, e.setPath(x, et, rest, nv, false))
	}
	w.Sum = sum
	return &w
}

// Load reads through a reference.
func (e *Engine) loadRef(s *State, r Ref) *AV {
	o := s.Heap[r.O]
	info := e.objs[r.O]
	if o == nil {
		return e.getPath(e.Unknown(info.T), info.T, stepsOf(r.P))
	}
	return e.getPath(o.V, info.T, stepsOf(r.P))
}

func hasAny(p string) bool { return strings.ContainsRune(p, anyElem) }

// storeRef writes through one reference.
func (e *Engine) storeRef(s *State, r Ref, v *AV, weak bool) {
	o := s.Heap[r.O]
	info := e.objs[r.O]
	if o == nil {
		o = &Obj{V: e.Unknown(info.T)}
	}
	if o.Weak {
		weak = true
	}
	n := &Obj{At: o.At, Weak: o.Weak, Foc: o.Foc}
	n.V = e.setPath(o.V, info.T, stepsOf(r.P), v, weak)
	if r.P != "" && len(v.Lab) > 0 && n.V != nil && n.V.K == Struct {
		if c := v.Lab.Filter(isCohort); len(c) > 0 {
			n.V = n.V.withLab(c)
		}
	}
	s.setObj(r.O, n)
	if o.Foc != nil {
		// element in focus: the summary gains the updated element
		f := *o.Foc
		so := s.Heap[f.O]
		if so != nil && so.V.K == Arr {
			si := e.objs[f.O]
			nso := &Obj{At: so.At, Weak: so.Weak, Foc: so.Foc}
			nso.V = e.setPath(so.V, si.T, stepsOf(f.P), n.V, true)
			s.setObj(f.O, nso)
		}
	}
}

// isCohort: labels that describe a whole record, spread to its fields.
func isCohort(l string) bool { return strings.HasPrefix(l, "rec:") }

// Store writes v through pointer p.
func (e *Engine) store(s *State, p *AV, v *AV) {
	switch len(p.Refs) {
	case 0:
		return
	case 1:
		r := p.Refs[0]
		e.storeRef(s, r, v, p.Unk || hasAny(r.P))
	default:
		for _, r := range p.Refs {
			e.storeRef(s, r, v, true)
		}
	}
}

func (e *Engine) load(s *State, p *AV, t types.Type) *AV {
	var j *AV = botV
	for _, r := range p.Refs {
		j = Join(j, e.loadRef(s, r))
	}
	if p.Unk || len(p.Refs) == 0 {
		if j.K == Bot {
			return e.Unknown(t).withLab(p.Lab)
		}
		j = Join(j, e.Unknown(t))
	}
	return j
}

// havocRef makes what a reference denotes unknown.
func (e *Engine) havocRef(s *State, r Ref) {
	info := e.objs[r.O]
	t := typeAt(info.T, stepsOf(r.P))
	if t == nil {
		return
	}
	e.storeRef(s, r, e.unknownAt(info.T, stepsOf(r.P), t), hasAny(r.P))
}

// unknownAt is the unknown value for the location r, using field assumptions.
func (e *Engine) unknownAt(root types.Type, p []rune, t types.Type) *AV {
	if len(p) > 0 {
		pt := typeAt(root, p[:len(p)-1])
		if pt != nil {
			if _, ok := under(pt).(*types.Struct); ok {
				return e.unknownField(pt, int(p[len(p)-1]-1))
			}
		}
	}
	return e.Unknown(t)
}

func typeAt(t types.Type, p []rune) types.Type {
	for _, r := range p {
		switch u := under(t).(type) {
		case *types.Struct:
			i := int(r - 1)
			if i >= u.NumFields() {
				return nil
			}
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return types.Unalias(t).Underlying()
}

// mergeInto joins b into a (same key); reports change.
func (e *Engine) mergeInto(a, b *State, widen bool) bool {
	changed := false
	for k, bv := range b.Env {
		av, ok := a.Env[k]
		if !ok {
			a.Env[k] = bv
			changed = true
			continue
		}
		j := Join(av, bv)
		if j != av {
			if widen {
				j = Widen(av, j)
			}
			a.Env[k] = j
			changed = true
		}
	}
	for k, r := range a.From {
		if br, ok := b.From[k]; !ok || br != r {
			delete(a.From, k)
			changed = true
		}
	}
	for id, bo := range b.Heap {
		ao, ok := a.Heap[id]
		if !ok {
			a.Heap[id] = bo
			changed = true
			continue
		}
		if ao == bo {
			continue
		}
		n := joinObj(ao, bo, widen)
		if n != ao {
			a.Heap[id] = n
			changed = true
		}
	}
	for i := range a.Def {
		da, db := a.Def[i], b.Def[i]
		if da == db {
			continue
		}
		nd := &Deferred{In: da.In, Many: da.Many || db.Many, Fn: Join(da.Fn, db.Fn)}
		ch := nd.Many != da.Many || nd.Fn != da.Fn
		for j := range da.Args {
			v := Join(da.Args[j], db.Args[j])
			if v != da.Args[j] {
				ch = true
			}
			nd.Args = append(nd.Args, v)
		}
		if ch {
			a.Def = append([]*Deferred(nil), a.Def...)
			a.Def[i] = nd
			changed = true
		}
	}
	return changed
}

// cellZero is the initial value of an opaque cell holding values like v.
func cellZero(v *AV) *AV {
	if v.K == Bool {
		return falseV
	}
	return IntV(0)
}

func joinObj(a, b *Obj, widen bool) *Obj {
	v := Join(a.V, b.V)
	if v != a.V && widen {
		v = Widen(a.V, v)
	}
	ch := v != a.V
	weak := a.Weak || b.Weak
	if weak != a.Weak {
		ch = true
	}
	at := a.At
	copied := false
	for k, bv := range b.At {
		av, ok := at[k]
		var nv *AV
		if !ok && strings.HasPrefix(k, "cell@") {
			nv = Join(cellZero(bv), bv)
		} else if !ok {
			nv = bv
		} else {
			nv = Join(av, bv)
			if nv == av {
				continue
			}
			if widen {
				nv = Widen(av, nv)
			}
		}
		if !copied {
			m := map[string]*AV{}
			for kk, vv := range at {
				m[kk] = vv
			}
			at = m
			copied = true
		}
		at[k] = nv
		ch = true
	}
	for k, av := range a.At {
		if _, ok := b.At[k]; ok || !strings.HasPrefix(k, "cell@") {
			continue
		}
		if nv := Join(av, cellZero(av)); nv != av {
			if !copied {
				m := map[string]*AV{}
				for kk, vv := range at {
					m[kk] = vv
				}
				at = m
				copied = true
			}
			at[k] = nv
			ch = true
		}
	}
	if !ch {
		return a
	}
	foc := a.Foc
	if foc == nil {
		foc = b.Foc
	}
	return &Obj{V: v, At: at, Weak: weak, Foc: foc}
}

func defSig(d []*Deferred) string {
	if len(d) == 0 {
		return ""
	}
	var b strings.Builder
	for _, x := range d {
		fmt.Fprintf(&b, "%d:%d,", x.In.Block().Index, x.In.Pos())
		if x.Fn != nil && x.Fn.K == Func {
			b.WriteString(fnTag(x.Fn))
		}
	}
	return b.String()
}

// fnTag names the functions a function value may denote: states in which a
// variable denotes different functions are kept apart.
func fnTag(v *AV) string {
	names := []string{"0nx?"[v.NilBits() : v.NilBits()+1]}
	for _, f := range v.Fns {
		names = append(names, f.Fn.Name())
	}
	sort.Strings(names[1:])
	return strings.Join(names, "+") + ";"
}

// refsIn calls f for every reference in v.
func refsIn(v *AV, f func(ObjID)) {
	if v == nil {
		return
	}
	for _, r := range v.Refs {
		f(r.O)
	}
	for _, x := range v.Elems {
		refsIn(x, f)
	}
	for _, x := range v.Sum {
		refsIn(x, f)
	}
	if v.Keys != nil {
		refsIn(v.Keys, f)
	}
	for _, d := range v.Dyn {
		refsIn(d.V, f)
	}
	for _, fn := range v.Fns {
		for _, x := range fn.Bind {
			refsIn(x, f)
		}
	}
}

func (s *State) objRefs(o *Obj, f func(ObjID)) {
	refsIn(o.V, f)
	for _, v := range o.At {
		refsIn(v, f)
	}
	if o.Foc != nil {
		f(o.Foc.O)
	}
}

// reach marks everything reachable from the given roots.
func (s *State) reach(mark map[ObjID]bool, roots ...*AV) {
	var stack []ObjID
	add := func(id ObjID) {
		if !mark[id] {
			mark[id] = true
			stack = append(stack, id)
		}
	}
	for _, v := range roots {
		refsIn(v, add)
	}
	for len(stack) > 0 {
		id := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if o := s.Heap[id]; o != nil {
			s.objRefs(o, add)
		}
	}
}

// Reaches reports whether object id can be reached from the given values.
func (s *State) Reaches(id ObjID, roots ...*AV) bool {
	mark := map[ObjID]bool{}
	s.reach(mark, roots...)
	return mark[id]
}

// DumpHeap is a debugging aid.
func (e *Engine) DumpHeap(s *State) string {
	var ids []int
	for id := range s.Heap {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	var b strings.Builder
	for _, id := range ids {
		o := s.Heap[ObjID(id)]
		fmt.Fprintf(&b, "o%d (%s %v)%v = %v", id, e.objs[id].Key, e.objs[id].T, map[bool]string{true: " weak"}[o.Weak], o.V)
		var ks []string
		for k := range o.At {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&b, " @%s=%v", k, o.At[k])
		}
		b.WriteString("\n")
	}
	return b.String()
}

// Store assigns v through the pointer p.
func (e *Engine) Store(s *State, p, v *AV) { e.store(s, p, v) }

// Field loads the named field of the struct p points to, or that the
// interface p holds or points to.
func (e *Engine) Field(s *State, p *AV, name string) *AV {
	var v *AV = botV
	for _, d := range p.Dyn {
		if t, ok := under(d.T).(*types.Struct); ok && d.V.K == Struct {
			for i := 0; i < t.NumFields(); i++ {
				if t.Field(i).Name() == name {
					v = Join(v, d.V.Elems[i])
				}
			}
		} else {
			v = Join(v, e.Field(s, d.V, name))
		}
	}
	for _, r := range p.Refs {
		t, ok := under(typeAt(e.objs[r.O].T, stepsOf(r.P))).(*types.Struct)
		if !ok {
			continue
		}
		found := false
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == name {
				v = Join(v, e.loadRef(s, Ref{r.O, pathStep(r.P, i)}))
				found = true
			}
		}
		for i := 0; i < t.NumFields() && !found; i++ {
			if _, ok := under(t.Field(i).Type()).(*types.Struct); ok && t.Field(i).Embedded() {
				if x := e.Field(s, PtrV(Ref{r.O, pathStep(r.P, i)}), name); x.K != Unk {
					v = Join(v, x)
				}
			}
		}
	}
	if v.K == Bot {
		return Top()
	}
	return v
}
