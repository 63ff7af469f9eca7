package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one possible result of a modelled call.
type Outcome struct {
	Ret   *AV
	Fail  bool   // the operation failed
	Tag   string // model-specific detail
	Apply func(*State)
	Stop  bool // the path ends here (os.Exit)
}

// Call describes an external or interesting call being interpreted.
type Call struct {
	Site     ssa.Instruction
	Common   *ssa.CallCommon
	In       *ssa.Function
	Ctx      *Ctx
	Name     string // resolved full name
	Args     []*AV  // receiver first
	Deferred bool
	Go       bool
	ResT     types.Type
}

// Model gives the outcomes of an external function.
type Model func(e *Engine, c *Call, s *State) []Outcome

// Monitor observes the analysis and drives the property automaton.
type Monitor interface {
	// Before sees an external call before it happens. It may change s.Q; false drops the path.
	Before(e *Engine, c *Call, s *State) bool
	// After sees one outcome; it returns the states to go on with.
	After(e *Engine, c *Call, s *State, o *Outcome) []*State
	// Enter sees a call of a module function; false drops the path.
	Enter(e *Engine, c *Call, fn *ssa.Function, s *State) bool
	// Leave sees the return of a module function.
	Leave(e *Engine, c *Call, fn *ssa.Function, s *State, ret *AV) []Result
	// Instr sees every other instruction before it is executed.
	Instr(e *Engine, in ssa.Instruction, fn *ssa.Function, ctx *Ctx, s *State)
}

// Forker is an optional interface of monitors that replaces After: it may also
// replace the returned value.
type Forker interface {
	Fork(e *Engine, c *Call, s *State, o *Outcome) []Result
}

// Result is a state with a returned value.
type Result struct {
	S   *State
	Ret *AV
}

// Base is a Monitor that does nothing.
type Base struct{}

func (Base) Before(*Engine, *Call, *State) bool                      { return true }
func (Base) After(_ *Engine, _ *Call, s *State, _ *Outcome) []*State { return []*State{s} }
func (Base) Enter(*Engine, *Call, *ssa.Function, *State) bool        { return true }
func (Base) Leave(_ *Engine, _ *Call, _ *ssa.Function, s *State, ret *AV) []Result {
	return []Result{{s, ret}}
}
func (Base) Instr(*Engine, ssa.Instruction, *ssa.Function, *Ctx, *State) {}

// Violation is a reported construct.
type Violation struct {
	Rule  string
	Pos   string
	Func  string
	Msg   string
	Chain []string
}

func (v Violation) Key() string { return v.Rule + "|" + v.Pos + "|" + v.Msg }

// Engine runs analyses.
type Engine struct {
	Prog    *ssa.Program
	Module  string
	Root    string // directory positions are relative to
	Mon     Monitor
	Assume  map[string]*AV     // "Type.Field" or "pkg.Func#n"
	Scan    ScanHook           // values read from the database
	Content func(path *AV) *AV // contents of files (nil: unknown)
	// Walk are the files of a walked directory (nil: unknown).
	Walk []*AV
	// Few: slices up to this length are followed element by element and loops
	// over them one iteration at a time (0: 3).
	Few int64
	// PerIter: objects made in different iterations of unrolled loops are
	// different objects.
	PerIter bool
	// EveryLoop: the iterations of all loops are kept apart, not only of those
	// known to run a few times.
	EveryLoop bool
	Recur     int // nested calls of a function that are followed (0: two)
	Models    map[string]Model
	Inline    func(fn *ssa.Function) bool // extra functions outside the module to interpret (optional)
	Opaque    map[string]bool             // module functions (exported) treated as external
	Eff       *Effects                    // set to allow Skip
	Skip      func(fn *ssa.Function) bool // functions summarised instead of interpreted

	objs    []*ObjInfo
	objIDs  map[objKey]ObjID
	fnInfos map[*ssa.Function]*fnInfo
	ufCache map[ufKey]*AV

	Violations map[string]Violation
	Notes      map[string]int

	Funcs    map[*ssa.Function]bool
	Skipped  map[*ssa.Function]bool
	CallSite map[ssa.Instruction]bool // external call sites interpreted
	Sites    map[string]map[ssa.Instruction]bool
	Steps    int
	MaxSteps int
	Unmod    map[string]int
	RootCtx  *Ctx
	Trace    bool
	inGo     int
	memo     map[memoKey][]*Out
	memoHits int
	typeKeys map[types.Type]string
	cutRec   map[string]int
	instrCov map[ssa.Instruction]bool
	profile  map[*ssa.Function]int
}

type ufKey struct {
	t types.Type
	i int
}

type fnInfo struct {
	rpo     []*ssa.BasicBlock
	order   map[*ssa.BasicBlock]int
	liveIn  map[*ssa.BasicBlock]map[ssa.Value]bool
	tagRegs map[*ssa.BasicBlock][]ssa.Value
	loop    map[*ssa.BasicBlock]bool
	body    map[int]map[int]bool // blocks of the loop with a given head
}

// BudgetExceeded is the panic value when MaxSteps is passed.
type BudgetExceeded struct{ Steps int }

func New(prog *ssa.Program, module string) *Engine {
	e := &Engine{Prog: prog, Module: module, Mon: Base{}, Assume: map[string]*AV{}, Models: map[string]Model{},
		objIDs: map[objKey]ObjID{}, fnInfos: map[*ssa.Function]*fnInfo{}, ufCache: map[ufKey]*AV{},
		Violations: map[string]Violation{}, Notes: map[string]int{}, Funcs: map[*ssa.Function]bool{}, Skipped: map[*ssa.Function]bool{}, CallSite: map[ssa.Instruction]bool{},
		Sites: map[string]map[ssa.Instruction]bool{}, Unmod: map[string]int{}, RootCtx: &Ctx{}, MaxSteps: 200_000_000, Opaque: map[string]bool{}, cutRec: map[string]int{},
		instrCov: map[ssa.Instruction]bool{}, memo: map[memoKey][]*Out{}, typeKeys: map[types.Type]string{}, profile: map[*ssa.Function]int{}}
	return e
}

// Pos renders a position relative to the repository.
func (e *Engine) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := e.Prog.Fset.Position(p)
	f := q.Filename
	if e.Root != "" {
		f = strings.TrimPrefix(f, e.Root+"/")
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// InstrPos finds a usable position of an instruction.
func InstrPos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if p := in.Pos(); p.IsValid() {
		return p
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		if p := c.Common().Pos(); p.IsValid() {
			return p
		}
	}
	b := in.Block()
	if b == nil {
		return token.NoPos
	}
	var last token.Pos
	for _, x := range b.Instrs {
		if x.Pos().IsValid() {
			last = x.Pos()
		}
		if x == in && last.IsValid() {
			return last
		}
	}
	if in.Parent() != nil {
		return in.Parent().Pos()
	}
	return last
}

// Report records a violation.
func (e *Engine) Report(rule string, at ssa.Instruction, ctx *Ctx, msg string) {
	fn := ""
	if at != nil && at.Parent() != nil {
		fn = at.Parent().String()
	}
	v := Violation{Rule: rule, Pos: e.Pos(InstrPos(at)), Func: fn, Msg: msg}
	if _, ok := e.Violations[v.Key()]; ok {
		return
	}
	for c := ctx; c != nil && c.Fn != nil; c = c.Parent {
		v.Chain = append(v.Chain, fmt.Sprintf("%s called from %s", c.Fn.String(), e.Pos(InstrPos(c.Site))))
	}
	e.Violations[v.Key()] = v
}

// Obj interns an abstract object.
func (e *Engine) Obj(site any, ctx *Ctx, sub string, t types.Type, pos token.Pos) ObjID {
	k := objKey{site, ctx, sub}
	if id, ok := e.objIDs[k]; ok {
		return id
	}
	id := ObjID(len(e.objs))
	name := sub
	if v, ok := site.(ssa.Value); ok {
		name = v.Name() + " " + sub
		if v.Parent() != nil {
			name = v.Parent().Name() + "." + name
		}
	} else if s, ok := site.(string); ok {
		name = s + sub
	}
	e.objs = append(e.objs, &ObjInfo{ID: id, Key: name, T: t, Pos: pos, Site: site, Ctx: ctx})
	e.objIDs[k] = id
	return id
}

// Info returns the description of an object.
func (e *Engine) Info(id ObjID) *ObjInfo { return e.objs[id] }

// InModule reports whether fn belongs to the analysed module and has a body.
func (e *Engine) InModule(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	if fn.Synthetic != "" && fn.Pkg == nil && fn.Origin() == nil && fn.Parent() == nil {
		// wrappers, thunks, bound methods: look at the wrapped object
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return e.modPath(o.Pkg().Path())
		}
		return true
	}
	p := fn
	for p.Parent() != nil {
		p = p.Parent()
	}
	if p.Origin() != nil {
		p = p.Origin()
	}
	if p.Pkg == nil {
		if o := p.Object(); o != nil && o.Pkg() != nil {
			return e.modPath(o.Pkg().Path())
		}
		return false
	}
	return e.modPath(p.Pkg.Pkg.Path())
}

func (e *Engine) modPath(p string) bool {
	return p == e.Module || strings.HasPrefix(p, e.Module+"/")
}

// Zero is the zero value of t.
func (e *Engine) Zero(t types.Type) *AV {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return falseV
		case u.Info()&types.IsInteger != 0:
			return IntV(0)
		case u.Info()&types.IsString != 0:
			return StrV("")
		case u.Kind() == types.UnsafePointer:
			return &AV{K: Ptr, Nil: MayNil}
		}
		return &AV{K: Unk, Nil: MayNonNil}
	case *types.Pointer:
		return &AV{K: Ptr, Nil: MayNil}
	case *types.Slice:
		return &AV{K: Slice, Nil: MayNil}
	case *types.Map, *types.Chan:
		return &AV{K: Map, Nil: MayNil}
	case *types.Signature:
		return &AV{K: Func, Nil: MayNil}
	case *types.Interface:
		return nilErr
	case *types.Struct:
		r := &AV{K: Struct, Elems: make([]*AV, u.NumFields())}
		for i := range r.Elems {
			r.Elems[i] = e.Zero(u.Field(i).Type())
		}
		return r
	case *types.Array:
		r := &AV{K: Arr}
		n := u.Len()
		if n <= 24 {
			for i := int64(0); i < n; i++ {
				r.Elems = append(r.Elems, e.Zero(u.Elem()))
			}
		} else {
			r.Sum = []*AV{e.Zero(u.Elem())}
		}
		return r
	case *types.Tuple:
		r := &AV{K: Tuple}
		for i := 0; i < u.Len(); i++ {
			r.Elems = append(r.Elems, e.Zero(u.At(i).Type()))
		}
		return r
	}
	return Top()
}

func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// Unknown is an arbitrary value of t.
func (e *Engine) Unknown(t types.Type) *AV {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return AnyBool()
		case u.Info()&types.IsInteger != 0:
			switch u.Kind() {
			case types.Uint8:
				return IntRange(0, 255)
			case types.Int32:
				return IntRange(-1<<31, 1<<31-1)
			case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
				return IntRange(0, MaxInt)
			}
			return IntRange(MinInt, MaxInt)
		case u.Info()&types.IsString != 0:
			return AnyStr()
		}
		return &AV{K: Unk, Nil: MayNonNil}
	case *types.Struct:
		r := &AV{K: Struct, Elems: make([]*AV, u.NumFields())}
		for i := range r.Elems {
			r.Elems[i] = e.unknownField(t, i)
		}
		return r
	case *types.Array:
		r := &AV{K: Arr}
		if n := u.Len(); n <= 24 {
			for i := int64(0); i < n; i++ {
				r.Elems = append(r.Elems, e.Unknown(u.Elem()))
			}
		} else {
			r.Sum = []*AV{e.Unknown(u.Elem())}
		}
		return r
	case *types.Tuple:
		r := &AV{K: Tuple}
		for i := 0; i < u.Len(); i++ {
			r.Elems = append(r.Elems, e.Unknown(u.At(i).Type()))
		}
		return r
	}
	return Top()
}

func (e *Engine) unknownField(t types.Type, i int) *AV {
	k := ufKey{types.Unalias(t), i}
	if v, ok := e.ufCache[k]; ok {
		return v
	}
	st := under(t).(*types.Struct)
	f := st.Field(i)
	n := typeName(t)
	var v *AV
	if n != "" {
		key := n + "." + f.Name()
		if a, ok := e.Assume[key]; ok {
			v = a
		} else {
			v = e.Unknown(f.Type())
			if f.Pkg() != nil && e.modPath(f.Pkg().Path()) {
				v = v.withLab(NewSet("f:" + key))
			}
		}
	} else {
		v = e.Unknown(f.Type())
	}
	e.ufCache[k] = v
	return v
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	fi := e.fnInfos[fn]
	if fi != nil {
		return fi
	}
	fi = &fnInfo{order: map[*ssa.BasicBlock]int{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, tagRegs: map[*ssa.BasicBlock][]ssa.Value{}, loop: map[*ssa.BasicBlock]bool{}, body: map[int]map[int]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.order[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	// loop heads
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if fi.order[s] <= fi.order[b] {
				fi.loop[s] = true
				fi.addLoop(s, b)
			}
		}
	}
	// liveness
	for _, b := range fi.rpo {
		fi.liveIn[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for ch := true; ch; {
		ch = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.liveIn[s] {
					live[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, ph)
				}
			}
			for _, s := range b.Succs {
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b && track(ph.Edges[k]) {
							live[ph.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if *op != nil && track(*op) {
						live[*op] = true
					}
				}
			}
			// phis of b are defined on entry
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				live[ph] = true
			}
			if len(live) != len(fi.liveIn[b]) {
				ch = true
			}
			fi.liveIn[b] = live
		}
	}
	for _, b := range fi.rpo {
		var regs []ssa.Value
		for v := range fi.liveIn[b] {
			switch u := under(v.Type()).(type) {
			case *types.Basic:
				if u.Info()&types.IsBoolean != 0 {
					regs = append(regs, v)
				}
			case *types.Interface:
				if isError(v.Type()) {
					regs = append(regs, v)
				}
			case *types.Signature:
				if _, ok := v.(*ssa.Function); !ok {
					regs = append(regs, v)
				}
			case *types.Pointer:
				if _, ok := v.(*ssa.Phi); ok {
					regs = append(regs, v)
				}
			}
		}
		sort.Slice(regs, func(i, j int) bool { return regs[i].Name() < regs[j].Name() })
		fi.tagRegs[b] = regs
	}
	e.fnInfos[fn] = fi
	return fi
}

var errorType = types.Universe.Lookup("error").Type()

func isError(t types.Type) bool { return types.Identical(t, errorType) }

// addLoop collects the blocks of the loop closed by the edge from b to head.
func (fi *fnInfo) addLoop(head, b *ssa.BasicBlock) {
	m := fi.body[head.Index]
	if m == nil {
		m = map[int]bool{head.Index: true}
		fi.body[head.Index] = m
	}
	for work := []*ssa.BasicBlock{b}; len(work) > 0; {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if m[x.Index] {
			continue
		}
		m[x.Index] = true
		work = append(work, x.Preds...)
	}
}

// fewTimes reports whether the loop headed by b is known to run only a few
// times: it counts up to a small constant.
func (e *Engine) fewTimes(s *State, b *ssa.BasicBlock) bool {
	if e.EveryLoop {
		return true
	}
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if x, ok := br.Cond.(*ssa.Extract); ok {
		if n, ok := x.Tuple.(*ssa.Next); ok && n.IsString {
			it := e.val(s, n.Iter)
			return it.K == Tuple && it.Elems[1].K == Int && it.Elems[1].Lo == it.Elems[1].Hi
		}
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	known := func(v ssa.Value) (int64, bool) {
		x := e.peek(s, v, b, 0)
		if x == nil {
			return 0, false
		}
		return x.IntConst()
	}
	switch cmp.Op {
	case token.LSS:
		n, ok := known(cmp.Y)
		return ok && n > 0 && n <= e.few()
	case token.GTR:
		if n, ok := known(cmp.X); ok && n > 0 && n <= e.few() {
			return true
		}
	case token.LEQ, token.GEQ, token.NEQ:
	default:
		return false
	}
	x, ok := known(cmp.X)
	y, ok2 := known(cmp.Y)
	return ok && ok2 && x-y <= e.few() && y-x <= e.few()
}

// peek is the value v will have once the instructions of b it depends on have
// been interpreted in s, nil if they do more than read and compute.
func (e *Engine) peek(s *State, v ssa.Value, b *ssa.BasicBlock, depth int) *AV {
	in, ok := v.(ssa.Instruction)
	if !ok || in.Block() != b {
		return e.val(s, v)
	}
	if depth > 8 {
		return nil
	}
	switch in := v.(type) {
	case *ssa.Phi:
		return e.val(s, v)
	case *ssa.BinOp:
		x, y := e.peek(s, in.X, b, depth+1), e.peek(s, in.Y, b, depth+1)
		if x == nil || y == nil {
			return nil
		}
		return e.binop(in.Op, x, y, in.X.Type())
	case *ssa.UnOp:
		if in.Op != token.MUL {
			return nil
		}
		p := e.peek(s, in.X, b, depth+1)
		if p == nil || p.K != Ptr || p.Unk || len(p.Refs) == 0 {
			return nil
		}
		return e.load(s, p, in.Type())
	case *ssa.FieldAddr:
		p := e.peek(s, in.X, b, depth+1)
		if p == nil || p.K != Ptr || p.Unk || len(p.Refs) == 0 {
			return nil
		}
		r := &AV{K: Ptr, Nil: MayNonNil}
		for _, x := range p.Refs {
			r.Refs = append(r.Refs, Ref{x.O, pathStep(x.P, in.Field)})
		}
		return r
	case *ssa.Field:
		if x := e.peek(s, in.X, b, depth+1); x != nil && x.K == Struct {
			return x.Elems[in.Field]
		}
	case *ssa.Call:
		if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			x := e.peek(s, in.Call.Args[0], b, depth+1)
			if x != nil && (x.K == Slice || x.K == Str) && x.Lo == x.Hi {
				return IntV(x.Lo)
			}
		}
	}
	return nil
}

// enter updates the iteration counts of a state that reaches b.
func (e *Engine) enter(fi *fnInfo, s *State, b *ssa.BasicBlock, back bool) {
	if len(s.iter) == 0 && !fi.loop[b] {
		return
	}
	var it []iterOf
	for _, x := range s.iter {
		if !fi.body[x.head][b.Index] || x.head == b.Index && !back {
			continue
		}
		if x.head == b.Index {
			if x.n++; x.n > int(e.few()) {
				continue
			}
		}
		it = append(it, x)
	}
	if fi.loop[b] && !back && e.fewTimes(s, b) {
		it = append(it, iterOf{b.Index, 0})
	}
	s.iter = it
}

// Out is one way a function can return.
type Out struct {
	Q    string
	Heap map[ObjID]*Obj
	Ret  *AV
}

type inState struct {
	s      *State
	visits int
}

// RunFn interprets fn and returns its possible outcomes.
func (e *Engine) RunFn(fn *ssa.Function, args, binds []*AV, q string, heap map[ObjID]*Obj, ctx *Ctx) []*Out {
	e.Funcs[fn] = true
	fi := e.info(fn)
	in := map[*ssa.BasicBlock]map[string]*inState{}
	nq := map[*ssa.BasicBlock]map[string]int{}
	type item struct {
		b *ssa.BasicBlock
		k string
	}
	queue := map[item]bool{}
	outs := map[string]*Out{}
	var outKeys []string

	st := &State{Q: q, Env: map[ssa.Value]*AV{}, From: map[ssa.Value]Ref{}, Heap: map[ObjID]*Obj{}}
	for k, v := range heap {
		st.Heap[k] = v
	}
	for i, p := range fn.Params {
		if i < len(args) {
			st.Env[p] = args[i]
		} else {
			st.Env[p] = e.Unknown(p.Type())
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			st.Env[f] = binds[i]
		} else {
			st.Env[f] = e.Unknown(f.Type())
		}
	}

	enqueue := func(b *ssa.BasicBlock, s *State, back bool) {
		live := fi.liveIn[b]
		for v := range s.Env {
			if !live[v] {
				delete(s.Env, v)
			}
		}
		for v := range s.From {
			if !live[v] {
				delete(s.From, v)
			}
		}
		e.enter(fi, s, b, back)
		base := s.Q + "\x00" + defSig(s.Def)
		for _, x := range s.iter {
			base += fmt.Sprintf("\x00%d:%d", x.head, x.n)
		}
		var tag strings.Builder
		for _, r := range fi.tagRegs[b] {
			v := s.Env[r]
			if v == nil {
				tag.WriteByte('.')
				continue
			}
			if v.K == Func {
				tag.WriteString(fnTag(v))
			} else if v.K == Bool {
				tag.WriteByte("0ft?"[v.B])
			} else {
				tag.WriteByte("0nx?"[v.NilBits()])
			}
		}
		if back { // the first iteration of a loop is kept apart from the others
			tag.WriteByte('^')
		}
		key := base + "\x00" + tag.String()
		m := in[b]
		if m == nil {
			m = map[string]*inState{}
			in[b] = m
			nq[b] = map[string]int{}
		}
		cur := m[key]
		if cur == nil && nq[b][base] >= 8 {
			key = base + "\x00*"
			cur = m[key]
		}
		if cur == nil {
			m[key] = &inState{s: s}
			nq[b][base]++
			queue[item{b, key}] = true
			return
		}
		cur.visits++
		if e.mergeInto(cur.s, s, cur.visits > 5 && fi.loop[b] || cur.visits > 40) {
			queue[item{b, key}] = true
		}
		if cur.visits > 2000 {
			panic(fmt.Sprintf("no fixpoint in %s block %d", fn, b.Index))
		}
	}
	enqueue(fn.Blocks[0], st, false)

	for len(queue) > 0 {
		var it item
		best := -1
		for x := range queue {
			o := fi.order[x.b]
			if best < 0 || o < best || o == best && x.k < it.k {
				best, it = o, x
			}
		}
		delete(queue, it)
		states := []*State{in[it.b][it.k].s.Clone()}
		b := it.b
	instrs:
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Phi:
				continue
			case *ssa.If:
				for _, s := range states {
					e.Mon.Instr(e, ins, fn, ctx, s)
					for k := 0; k < 2; k++ {
						t := s
						if k == 0 {
							t = s.Clone()
						}
						if !e.refine(t, ins.Cond, k == 0, 0) {
							continue
						}
						for _, u := range e.edge(t, b, k) {
							enqueue(b.Succs[k], u, fi.order[b] >= fi.order[b.Succs[k]])
						}
					}
				}
				states = nil
			case *ssa.Jump:
				for _, s := range states {
					for _, u := range e.edge(s, b, 0) {
						enqueue(b.Succs[0], u, fi.order[b] >= fi.order[b.Succs[0]])
					}
				}
				states = nil
			case *ssa.Return:
				for _, s := range states {
					e.tick(fn)
					e.instrCov[ins] = true
					e.Mon.Instr(e, ins, fn, ctx, s)
					var ret *AV
					switch len(ins.Results) {
					case 0:
						ret = TupleV()
					case 1:
						ret = e.val(s, ins.Results[0])
					default:
						ret = &AV{K: Tuple}
						for _, r := range ins.Results {
							ret.Elems = append(ret.Elems, e.val(s, r))
						}
					}
					key := s.Q + "\x00" + retTag(ret)
					if o := outs[key]; o != nil {
						o.Ret = Join(o.Ret, ret)
						o.Heap = mergeHeaps(o.Heap, s.Heap)
					} else {
						outs[key] = &Out{Q: s.Q, Heap: s.Heap, Ret: ret}
						outKeys = append(outKeys, key)
					}
				}
				states = nil
			case *ssa.Panic:
				for _, s := range states {
					e.instrCov[ins] = true
					e.Mon.Instr(e, ins, fn, ctx, s)
				}
				states = nil
			default:
				var next []*State
				for _, s := range states {
					e.tick(fn)
					next = append(next, e.step(ins, fn, ctx, s)...)
				}
				if traceAt != "" && strings.HasSuffix(e.Pos(ins.Pos()), traceAt) {
					if v, ok := ins.(ssa.Value); ok {
						for _, s := range next {
							fmt.Fprintf(os.Stderr, "TRACE %s %s = %s -> %s Q=%s\n", e.Pos(ins.Pos()), v.Name(), ins, e.val(s, v), s.Q)
						}
					}
				}
				if len(next) > 48 {
					next = e.mergeList(next)
				}
				states = next
			}
			if len(states) == 0 {
				break instrs
			}
		}
	}
	sort.Strings(outKeys)
	var res []*Out
	for _, k := range outKeys {
		res = append(res, outs[k])
	}
	return res
}

func (e *Engine) tick(fn *ssa.Function) {
	e.Steps++
	e.profile[fn]++
	if e.Steps > e.MaxSteps {
		panic(BudgetExceeded{e.Steps})
	}
}

// Profile returns the functions with most interpreted instructions.
func (e *Engine) Profile(n int) []string {
	type fc struct {
		f *ssa.Function
		c int
	}
	var l []fc
	for f, c := range e.profile {
		l = append(l, fc{f, c})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].c > l[j].c })
	var out []string
	for i := 0; i < n && i < len(l); i++ {
		out = append(out, fmt.Sprintf("%8d %s", l[i].c, l[i].f))
	}
	return out
}

func mergeHeaps(a, b map[ObjID]*Obj) map[ObjID]*Obj {
	out := make(map[ObjID]*Obj, len(a))
	for k, v := range a {
		out[k] = v
	}
	for k, bo := range b {
		ao, ok := out[k]
		if !ok {
			out[k] = bo
		} else if ao != bo {
			out[k] = joinObj(ao, bo, false)
		}
	}
	return out
}

func (e *Engine) mergeList(l []*State) []*State {
	m := map[string]*State{}
	var keys []string
	for _, s := range l {
		k := s.Q + "\x00" + defSig(s.Def)
		if c := m[k]; c != nil {
			e.mergeInto(c, s, false)
		} else {
			m[k] = s
			keys = append(keys, k)
		}
	}
	var out []*State
	for _, k := range keys {
		out = append(out, m[k])
	}
	return out
}

func retTag(v *AV) string {
	switch v.K {
	case Tuple:
		var b strings.Builder
		for _, x := range v.Elems {
			b.WriteString(retTag1(x))
		}
		return b.String()
	}
	return retTag1(v)
}

func retTag1(v *AV) string {
	switch v.K {
	case Bool:
		return string("0ft?"[v.B])
	case Func:
		return fnTag(v)
	case Unk, Ptr, Iface:
		return string("0nx?"[v.NilBits()])
	}
	return "."
}

// edge evaluates the phis of the successor.
func (e *Engine) edge(s *State, b *ssa.BasicBlock, k int) []*State {
	to := b.Succs[k]
	idx := -1
	n := 0
	for i, p := range to.Preds {
		if p == b {
			if n == 0 || k == 1 && b.Succs[0] == to {
				idx = i
			}
			n++
		}
	}
	t := s.Clone()
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		op := ph.Edges[idx]
		t.Env[ph] = e.val(s, op)
		if r, ok := s.From[op]; ok {
			t.From[ph] = r
		} else {
			delete(t.From, ph)
		}
	}
	return []*State{t}
}

// val evaluates an operand.
// traceAt prints the values computed at a line (file.go:12) while developing.
var traceAt = os.Getenv("SQV_TRACE")

// Val is the abstract value of v in s.
func (e *Engine) Val(s *State, v ssa.Value) *AV { return e.val(s, v) }

// CondLabels are the labels of what a branch condition is computed from, if
// the condition is not determined.
func (e *Engine) CondLabels(s *State, v ssa.Value) Set {
	var l Set
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 6 {
			return
		}
		seen[v] = true
		l = l.Union(s.DeepLab(e.val(s, v)))
		in, ok := v.(ssa.Instruction)
		if !ok {
			return
		}
		var ops [10]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			if *o != nil {
				walk(*o, d+1)
			}
		}
	}
	if x := e.val(s, v); x.MustTrue() || x.MustFalse() {
		return l
	}
	walk(v, 0)
	return l
}

func (e *Engine) val(s *State, v ssa.Value) *AV {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return &AV{K: Func, Nil: MayNonNil, Fns: []*FnVal{{Fn: v}}}
	case *ssa.Global:
		return PtrV(Ref{O: e.globalObj(v)})
	case *ssa.Builtin:
		return NonNil()
	}
	if x, ok := s.Env[v]; ok {
		return x
	}
	return e.Unknown(v.Type())
}

func (e *Engine) globalObj(g *ssa.Global) ObjID {
	return e.Obj(g, nil, "", g.Type().(*types.Pointer).Elem(), g.Pos())
}

func (e *Engine) constVal(c *ssa.Const) *AV {
	if c.Value == nil {
		return e.Zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return trueV
		}
		return falseV
	case constant.String:
		return StrV(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := under(c.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n, ok := constant.Int64Val(c.Value); ok {
				return IntV(n)
			}
			return IntRange(MinInt, MaxInt)
		}
	}
	return &AV{K: Unk, Nil: MayNonNil}
}

// bind sets a register.
func (s *State) bind(v ssa.Value, x *AV) {
	s.Env[v] = x
	delete(s.From, v)
}

// refine narrows register v (and the memory cell it was loaded from).
func (e *Engine) setReg(s *State, v ssa.Value, x *AV) {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return
	}
	s.Env[v] = x
	if r, ok := s.From[v]; ok {
		o := s.Heap[r.O]
		info := e.objs[r.O]
		if o == nil {
			o = &Obj{V: e.Unknown(info.T)}
		}
		if !o.Weak {
			s.Heap[r.O] = &Obj{V: e.setPath(o.V, info.T, stepsOf(r.P), x, false), At: o.At, Foc: o.Foc}
		}
	}
	switch d := v.(type) {
	case *ssa.ChangeInterface:
		e.setReg(s, d.X, x)
	case *ssa.ChangeType:
		if under(d.X.Type()) != nil && x.K != Struct {
			e.setReg(s, d.X, x)
		}
	}
}

// LookupObj finds the object created at a site, if any.
func (e *Engine) LookupObj(site any, ctx *Ctx, sub string) (ObjID, bool) {
	id, ok := e.objIDs[objKey{site, ctx, sub}]
	return id, ok
}
