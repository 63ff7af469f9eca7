package absint

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// QCanon is an optional interface of monitors: the automaton states a function
// cannot tell apart may share one interpretation of it. CanonQ returns the
// representative; outcomes still in the representative state are mapped back.
type QCanon interface {
	CanonQ(e *Engine, fn *ssa.Function, q string) string
}

// QHide is an optional interface of monitors whose automaton follows one object:
// HideQ returns the state to use in a callee that can reach the marked objects
// only; outcomes still in that state are mapped back.
type QHide interface {
	HideQ(e *Engine, q string, mark map[ObjID]bool) string
}

type memoKey struct {
	fn  *ssa.Function
	ctx *Ctx
	q   string
	h   [32]byte
	g   bool
}

type fper struct {
	e   *Engine
	buf []byte
}

func (f *fper) int(n int64) { f.buf = binary.AppendVarint(f.buf, n) }
func (f *fper) str(s string) {
	f.buf = binary.AppendUvarint(f.buf, uint64(len(s)))
	f.buf = append(f.buf, s...)
}
func (f *fper) set(s Set) {
	f.buf = binary.AppendUvarint(f.buf, uint64(len(s)))
	for _, x := range s {
		f.int(int64(x))
	}
}

func (f *fper) av(v *AV) {
	if v == nil {
		f.buf = append(f.buf, 255)
		return
	}
	f.buf = append(f.buf, byte(v.K), v.Nil, v.B)
	if v.Unk {
		f.buf = append(f.buf, 1)
	} else {
		f.buf = append(f.buf, 0)
	}
	f.int(v.Lo)
	f.int(v.Hi)
	var present byte
	if v.Consts != nil {
		present |= 1
	}
	if v.Pre != nil {
		present |= 2
	}
	if v.Keys != nil {
		present |= 4
	}
	f.buf = append(f.buf, present, byte(len(v.Consts)), byte(len(v.Pre)))
	for _, s := range v.Consts {
		f.str(s)
	}
	for _, s := range v.Pre {
		f.str(s)
	}
	f.str(v.Suf)
	f.set(v.Frags)
	f.set(v.Lab)
	f.str(v.Sent)
	f.int(int64(len(v.Refs)))
	for _, r := range v.Refs {
		f.int(int64(r.O))
		f.str(r.P)
	}
	f.int(int64(len(v.Fns)))
	for _, x := range v.Fns {
		f.str(fmt.Sprintf("%p", x.Fn))
		f.int(int64(len(x.Bind)))
		for _, b := range x.Bind {
			f.av(b)
		}
	}
	f.int(int64(len(v.Elems)))
	for _, x := range v.Elems {
		f.av(x)
	}
	f.int(int64(len(v.Sum)))
	for _, x := range v.Sum {
		f.av(x)
	}
	if v.Keys != nil {
		f.av(v.Keys)
	}
	f.int(int64(len(v.Dyn)))
	for _, d := range v.Dyn {
		f.str(f.e.typeKey(d.T))
		f.av(d.V)
	}
}

func (f *fper) obj(o *Obj) {
	f.av(o.V)
	if o.Weak {
		f.buf = append(f.buf, 1)
	} else {
		f.buf = append(f.buf, 0)
	}
	if o.Foc != nil {
		f.int(int64(o.Foc.O))
		f.str(o.Foc.P)
	}
	f.int(int64(len(o.At)))
	if len(o.At) > 0 {
		ks := make([]string, 0, len(o.At))
		for k := range o.At {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			f.str(k)
			f.av(o.At[k])
		}
	}
}

// callIn interprets fn on the part of the heap it can reach, reusing an
// earlier interpretation with the same inputs.
func (e *Engine) callIn(s *State, fn *ssa.Function, binds, args []*AV, ctx *Ctx) (outs []*Out, mark map[ObjID]bool) {
	mark = map[ObjID]bool{}
	s.reach(mark, args...)
	s.reach(mark, binds...)
	var globals []*AV
	for id := range s.Heap {
		if !mark[id] && isGlobalObj(e.objs[id]) {
			globals = append(globals, PtrV(Ref{O: id}))
		}
	}
	s.reach(mark, globals...)
	sub := make(map[ObjID]*Obj, len(mark))
	ids := make([]int, 0, len(mark))
	for id := range mark {
		if o := s.Heap[id]; o != nil {
			sub[id] = o
			ids = append(ids, int(id))
		}
	}
	sort.Ints(ids)
	q := s.Q
	if cq, ok := e.Mon.(QCanon); ok {
		q = cq.CanonQ(e, fn, s.Q)
	}
	if h, ok := e.Mon.(QHide); ok {
		q = h.HideQ(e, q, mark)
	}
	f := fper{e: e}
	for _, a := range args {
		f.av(a)
	}
	for _, a := range binds {
		f.av(a)
	}
	for _, id := range ids {
		f.int(int64(id))
		f.obj(sub[ObjID(id)])
	}
	k := memoKey{fn, ctx, q, sha256.Sum256(f.buf), e.inGo > 0}
	outs, ok := e.memo[k]
	if ok {
		e.memoHits++
	} else {
		outs = e.RunFn(fn, args, binds, q, sub, ctx)
		e.memo[k] = outs
	}
	if q != s.Q {
		mapped := make([]*Out, len(outs))
		for i, o := range outs {
			m := *o
			if m.Q == q {
				m.Q = s.Q
			}
			mapped[i] = &m
		}
		outs = mapped
	}
	return outs, mark
}

func (e *Engine) typeKey(t types.Type) string {
	k, ok := e.typeKeys[t]
	if !ok {
		k = types.TypeString(t, nil)
		e.typeKeys[t] = k
	}
	return k
}

// MemoHits is the number of reused interpretations.
func (e *Engine) MemoHits() int { return e.memoHits }
