package absint

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A channel is an object holding the number of values queued, whether it is
// closed, and the join of the queued values. A goroutine is interpreted where
// it is started, so what it sends is queued when its parent receives; what it
// receives may not have been sent yet.

func (s *State) channel(v *AV) (*Obj, ObjID) {
	if v == nil || len(v.Refs) != 1 || v.Unk {
		var none ObjID
		return nil, none
	}
	o := s.Heap[v.Refs[0].O]
	if o == nil || o.V == nil || o.V.K != Struct || len(o.V.Elems) != 3 || o.V.Elems[0].K != Int || o.V.Elems[1].K != Bool {
		return nil, v.Refs[0].O
	}
	return o, v.Refs[0].O
}

func (e *Engine) send(s *State, ch, v *AV) {
	for _, r := range ch.Refs {
		o, id := s.channel(&AV{Refs: []Ref{r}})
		if o == nil {
			continue
		}
		n, sent := o.V.Elems[0], v
		if n.Hi > 0 {
			sent = Join(o.V.Elems[2], v)
		}
		lo, hi := n.Lo, n.Hi
		if hi < MaxInt {
			hi++
		}
		if len(ch.Refs) > 1 || o.Weak {
			sent = Join(o.V.Elems[2], v)
		} else if lo < MaxInt {
			lo++
		}
		s.setObj(id, &Obj{V: &AV{K: Struct, Elems: []*AV{IntRange(lo, hi), o.V.Elems[1], sent}}, At: o.At, Weak: o.Weak})
	}
}

// receive takes a value from a channel.
func (e *Engine) receive(s *State, ch *AV, t types.Type) (v, ok *AV) {
	et := under(t).(*types.Chan).Elem()
	o, id := s.channel(ch)
	if o == nil || o.Weak {
		return e.Unknown(et), AnyBool()
	}
	n, closed, sent := o.V.Elems[0], o.V.Elems[1], o.V.Elems[2]
	if n.Hi == 0 {
		if closed.B == MayTrue {
			return e.Zero(et), falseV
		}
		return e.Unknown(et), AnyBool()
	}
	lo, hi := n.Lo, n.Hi
	if lo > 0 {
		lo--
	}
	if hi < MaxInt {
		hi--
	}
	s.setObj(id, &Obj{V: &AV{K: Struct, Elems: []*AV{IntRange(lo, hi), closed, sent}}, At: o.At, Weak: o.Weak})
	if n.Lo > 0 {
		return sent, trueV
	}
	if closed.B == MayTrue {
		return Join(sent, e.Zero(et)), AnyBool()
	}
	return Join(sent, e.Unknown(et)), AnyBool()
}

// choose takes each case of a select statement in turn.
func (e *Engine) choose(in *ssa.Select, s *State) []*State {
	rt := in.Type().(*types.Tuple)
	var out []*State
	pick := func(i int) {
		t := s.Clone()
		r := []*AV{IntV(int64(i)), AnyBool()}
		for j := 2; j < rt.Len(); j++ {
			r = append(r, e.Zero(rt.At(j).Type()))
		}
		if i >= 0 {
			c := in.States[i]
			if c.Dir == types.SendOnly {
				e.send(t, e.val(t, c.Chan), e.val(t, c.Send))
			} else {
				k := 2
				for _, x := range in.States[:i] {
					if x.Dir == types.RecvOnly {
						k++
					}
				}
				r[k], r[1] = e.receive(t, e.val(t, c.Chan), c.Chan.Type())
			}
		}
		t.bind(in, TupleV(r...))
		out = append(out, t)
	}
	for i, c := range in.States {
		if v := e.val(s, c.Chan); !v.MustNil() {
			pick(i)
		}
	}
	if !in.Blocking {
		pick(-1)
	}
	return out
}
