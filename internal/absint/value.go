// Package absint is an interprocedural, flow-sensitive abstract interpreter
// over go/ssa. States that differ in the state of a property automaton are kept
// apart, everything else is merged at control-flow joins.
package absint

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	Bot Kind = iota
	Unk
	Bool
	Int
	Str
	Ptr
	Slice
	Map
	Func
	Iface
	Struct
	Tuple
	Arr
)

var kindNames = [...]string{"bot", "unk", "bool", "int", "str", "ptr", "slice", "map", "func", "iface", "struct", "tuple", "arr"}

const (
	MayNil    = 1
	MayNonNil = 2
	MayFalse  = 1
	MayTrue   = 2
	MinInt    = math.MinInt64
	MaxInt    = math.MaxInt64
)

// Set is a sorted set of interned strings.
type Set []int32

var labels struct {
	sync.RWMutex
	ids   map[string]int32
	names []string
}

func labelID(s string) int32 {
	labels.RLock()
	id, ok := labels.ids[s]
	labels.RUnlock()
	if ok {
		return id
	}
	labels.Lock()
	defer labels.Unlock()
	if id, ok := labels.ids[s]; ok {
		return id
	}
	if labels.ids == nil {
		labels.ids = map[string]int32{}
	}
	id = int32(len(labels.names))
	labels.ids[s] = id
	labels.names = append(labels.names, s)
	return id
}

func labelTable() []string {
	labels.RLock()
	defer labels.RUnlock()
	return labels.names
}

func NewSet(ss ...string) Set {
	var out Set
	for _, s := range ss {
		out = out.Union(Set{labelID(s)})
	}
	return out
}

func (s Set) Union(t Set) Set {
	if len(t) == 0 {
		return s
	}
	if len(s) == 0 {
		return t
	}
	sub := true
	i := 0
	for _, x := range t {
		for i < len(s) && s[i] < x {
			i++
		}
		if i >= len(s) || s[i] != x {
			sub = false
			break
		}
	}
	if sub {
		return s
	}
	out := make(Set, 0, len(s)+len(t))
	i, j := 0, 0
	for i < len(s) && j < len(t) {
		switch {
		case s[i] < t[j]:
			out = append(out, s[i])
			i++
		case s[i] > t[j]:
			out = append(out, t[j])
			j++
		default:
			out = append(out, s[i])
			i++
			j++
		}
	}
	out = append(out, s[i:]...)
	out = append(out, t[j:]...)
	return out
}

func (s Set) Eq(t Set) bool {
	if len(s) != len(t) {
		return false
	}
	for i := range s {
		if s[i] != t[i] {
			return false
		}
	}
	return true
}

func (s Set) Has(name string) bool {
	labels.RLock()
	id, ok := labels.ids[name]
	labels.RUnlock()
	if !ok {
		return false
	}
	for _, x := range s {
		if x == id {
			return true
		}
	}
	return false
}

func (s Set) Names() []string {
	out := make([]string, len(s))
	if len(s) == 0 {
		return out
	}
	tab := labelTable()
	for i, x := range s {
		out[i] = tab[x]
	}
	sort.Strings(out)
	return out
}

// HasPrefix reports whether some member starts with p.
func (s Set) HasPrefix(p string) bool {
	if len(s) == 0 {
		return false
	}
	tab := labelTable()
	for _, x := range s {
		if strings.HasPrefix(tab[x], p) {
			return true
		}
	}
	return false
}

// Filter keeps the members for which keep is true.
func (s Set) Filter(keep func(string) bool) Set {
	var out Set
	if len(s) == 0 {
		return nil
	}
	tab := labelTable()
	for _, x := range s {
		if keep(tab[x]) {
			out = append(out, x)
		}
	}
	return out
}

// Ref is a pointer target: an object and a path inside it.
type Ref struct {
	O ObjID
	P string
}

const anyElem = '￰'

func pathStep(p string, i int) string { return p + string(rune(i+1)) }
func pathAny(p string) string         { return p + string(anyElem) }

type FnVal struct {
	Fn   *ssa.Function
	Bind []*AV
}

type Dyn struct {
	T types.Type
	V *AV
}

// AV is an immutable abstract value.
type AV struct {
	K      Kind
	Nil    uint8 // reference kinds, Unk
	B      uint8
	Unk    bool  // reference kinds: may also be something not listed
	Lo, Hi int64 // Int value, Slice/Map/Str length
	Consts []string
	Pre    []string // possible prefixes (string starts with one of them); nil = unknown
	Suf    string
	Frags  Set // constant fragments the text may contain
	Refs   []Ref
	Fns    []*FnVal
	Elems  []*AV // Struct, Tuple, fixed Arr
	Sum    []*AV // Arr summary variants / Map value variants
	Keys   *AV   // Map key summary
	Dyn    []Dyn
	Lab    Set
	Sent   string // identity of an error value ("" unknown)
}

var (
	botV   = &AV{K: Bot}
	trueV  = &AV{K: Bool, B: MayTrue}
	falseV = &AV{K: Bool, B: MayFalse}
	boolV  = &AV{K: Bool, B: MayTrue | MayFalse}
	nilErr = &AV{K: Iface, Nil: MayNil}
)

func True() *AV  { return trueV }
func False() *AV { return falseV }
func AnyBool() *AV {
	return &AV{K: Bool, B: MayTrue | MayFalse}
}
func NilErr() *AV { return nilErr }
func FailErr(sent string) *AV {
	return &AV{K: Unk, Nil: MayNonNil, Sent: sent}
}
func Top() *AV         { return &AV{K: Unk, Nil: MayNil | MayNonNil} }
func NonNil() *AV      { return &AV{K: Unk, Nil: MayNonNil} }
func IntV(n int64) *AV { return &AV{K: Int, Lo: n, Hi: n} }
func IntRange(lo, hi int64) *AV {
	return &AV{K: Int, Lo: lo, Hi: hi}
}
func StrV(ss ...string) *AV {
	ss = append([]string(nil), ss...)
	sort.Strings(ss)
	v := &AV{K: Str, Consts: ss}
	v.fixStrLen()
	return v
}
func AnyStr() *AV { return &AV{K: Str, Lo: 0, Hi: MaxInt} }
func TupleV(vs ...*AV) *AV {
	return &AV{K: Tuple, Elems: vs}
}
func PtrV(r Ref) *AV { return &AV{K: Ptr, Nil: MayNonNil, Refs: []Ref{r}} }
func Labelled(v *AV, labs ...string) *AV {
	return v.withLab(NewSet(labs...))
}

func (v *AV) withLab(s Set) *AV {
	if len(s) == 0 {
		return v
	}
	u := v.Lab.Union(s)
	if u.Eq(v.Lab) {
		return v
	}
	w := *v
	w.Lab = u
	return &w
}

func (v *AV) fixStrLen() {
	if len(v.Consts) > 0 {
		v.Lo, v.Hi = int64(len(v.Consts[0])), int64(len(v.Consts[0]))
		for _, c := range v.Consts {
			if int64(len(c)) < v.Lo {
				v.Lo = int64(len(c))
			}
			if int64(len(c)) > v.Hi {
				v.Hi = int64(len(c))
			}
		}
	}
}

func (v *AV) IsTrue() bool  { return v.K == Bool && v.B == MayTrue }
func (v *AV) IsFalse() bool { return v.K == Bool && v.B == MayFalse }
func (v *AV) MustNil() bool { return v.NilBits() == MayNil }
func (v *AV) MustNonNil() bool {
	return v.NilBits() == MayNonNil
}
func (v *AV) MayBeNil() bool { return v.NilBits()&MayNil != 0 }

func (v *AV) NilBits() uint8 {
	switch v.K {
	case Unk, Ptr, Slice, Map, Func, Iface:
		if v.Nil == 0 {
			return MayNil | MayNonNil
		}
		return v.Nil
	}
	return MayNonNil
}

// One returns the constant if v is exactly one string constant.
func (v *AV) One() (string, bool) {
	if v.K == Str && len(v.Consts) == 1 {
		return v.Consts[0], true
	}
	return "", false
}

// IntConst returns the value if v is exactly one integer.
func (v *AV) IntConst() (int64, bool) {
	if v.K == Int && v.Lo == v.Hi {
		return v.Lo, true
	}
	return 0, false
}

// Inner returns the value inside an interface if there is exactly one dynamic
// type, else v itself.
func (v *AV) Inner() *AV {
	if v.K == Iface && len(v.Dyn) == 1 && !v.Unk {
		return v.Dyn[0].V
	}
	return v
}

// Text returns the possible text of a string-like value.
func (v *AV) AllFrags() []string {
	var out []string
	out = append(out, v.Consts...)
	out = append(out, v.Frags.Names()...)
	return out
}

func (v *AV) String() string { return v.str(0) }

func (v *AV) str(d int) string {
	if v == nil {
		return "<nil>"
	}
	var b strings.Builder
	b.WriteString(kindNames[v.K])
	switch v.K {
	case Bool:
		b.WriteString([]string{"?", ":false", ":true", ":any"}[v.B])
	case Int:
		fmt.Fprintf(&b, "[%s,%s]", ends(v.Lo), ends(v.Hi))
	case Str:
		if v.Consts != nil {
			fmt.Fprintf(&b, "%q", v.Consts)
		} else {
			fmt.Fprintf(&b, "(pre=%q suf=%q len=[%s,%s])", v.Pre, v.Suf, ends(v.Lo), ends(v.Hi))
		}
	case Slice, Map:
		fmt.Fprintf(&b, "(len=[%s,%s])", ends(v.Lo), ends(v.Hi))
	}
	switch v.K {
	case Unk, Ptr, Slice, Map, Func, Iface:
		b.WriteString([]string{"", "/nil", "/nonnil", "/maynil"}[v.Nil])
		if v.Unk {
			b.WriteString("/+unk")
		}
	}
	for _, r := range v.Refs {
		fmt.Fprintf(&b, " o%d%v", r.O, []rune(r.P))
	}
	for _, f := range v.Fns {
		b.WriteString(" " + f.Fn.Name())
	}
	for _, dd := range v.Dyn {
		b.WriteString(" <" + dd.T.String() + ":" + dd.V.str(d+1) + ">")
	}
	if d < 3 {
		if len(v.Elems) > 0 {
			b.WriteString("{")
			for i, e := range v.Elems {
				if i > 0 {
					b.WriteString(", ")
				}
				b.WriteString(e.str(d + 1))
			}
			b.WriteString("}")
		}
		for _, e := range v.Sum {
			b.WriteString(" *" + e.str(d+1))
		}
	}
	if len(v.Lab) > 0 {
		fmt.Fprintf(&b, " lab%v", v.Lab.Names())
	}
	if v.Sent != "" {
		b.WriteString(" !" + v.Sent)
	}
	return b.String()
}

func ends(n int64) string {
	if n == MinInt {
		return "-inf"
	}
	if n == MaxInt {
		return "inf"
	}
	return fmt.Sprint(n)
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqVals(a, b []*AV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Eq(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Eq is structural equality.
func Eq(a, b *AV) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if a.K != b.K || a.Nil != b.Nil || a.B != b.B || a.Unk != b.Unk || a.Lo != b.Lo || a.Hi != b.Hi || a.Suf != b.Suf || a.Sent != b.Sent {
		return false
	}
	if !eqStrs(a.Consts, b.Consts) || !eqStrs(a.Pre, b.Pre) || !a.Frags.Eq(b.Frags) || !a.Lab.Eq(b.Lab) {
		return false
	}
	if len(a.Refs) != len(b.Refs) || len(a.Fns) != len(b.Fns) || len(a.Dyn) != len(b.Dyn) {
		return false
	}
	for i := range a.Refs {
		if a.Refs[i] != b.Refs[i] {
			return false
		}
	}
	for i := range a.Fns {
		if a.Fns[i].Fn != b.Fns[i].Fn || !eqVals(a.Fns[i].Bind, b.Fns[i].Bind) {
			return false
		}
	}
	for i := range a.Dyn {
		if !types.Identical(a.Dyn[i].T, b.Dyn[i].T) || !Eq(a.Dyn[i].V, b.Dyn[i].V) {
			return false
		}
	}
	if (a.Keys == nil) != (b.Keys == nil) || a.Keys != nil && !Eq(a.Keys, b.Keys) {
		return false
	}
	return eqVals(a.Elems, b.Elems) && eqVals(a.Sum, b.Sum)
}

const (
	maxConsts = 10
	maxPre    = 8
	maxVar    = 6
)

func unionStrs(a, b []string) []string {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	out := make([]string, 0, len(m))
	for x := range m {
		out = append(out, x)
	}
	sort.Strings(out)
	return out
}

func commonPrefix(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return a[:i]
}

func commonSuffix(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[len(a)-1-i] == b[len(b)-1-i] {
		i++
	}
	return a[len(a)-i:]
}

func (v *AV) prefixes() []string {
	if v.K != Str {
		return nil
	}
	if v.Consts != nil {
		return v.Consts
	}
	return v.Pre
}

func (v *AV) suffix() string {
	if v.K != Str {
		return ""
	}
	if v.Consts != nil {
		s := v.Consts[0]
		for _, c := range v.Consts[1:] {
			s = commonSuffix(s, c)
		}
		return s
	}
	return v.Suf
}

func (v *AV) fragSet() Set {
	if v.Consts != nil {
		var s Set
		for _, c := range v.Consts {
			if c != "" {
				s = s.Union(Set{labelID(c)})
			}
		}
		return s.Union(v.Frags)
	}
	return v.Frags
}

func joinPre(a, b []string) []string {
	if a == nil || b == nil {
		return nil
	}
	u := unionStrs(a, b)
	if len(u) > maxPre {
		p := u[0]
		for _, x := range u[1:] {
			p = commonPrefix(p, x)
		}
		if p == "" {
			return nil
		}
		return []string{p}
	}
	return u
}

func joinStr(a, b *AV) *AV {
	r := &AV{K: Str, Lab: a.Lab.Union(b.Lab)}
	if a.Consts != nil && b.Consts != nil {
		u := unionStrs(a.Consts, b.Consts)
		if len(u) <= maxConsts {
			r.Consts = u
			r.fixStrLen()
			return r
		}
	}
	r.Pre = joinPre(a.prefixes(), b.prefixes())
	r.Suf = commonSuffix(a.suffix(), b.suffix())
	r.Frags = a.fragSet().Union(b.fragSet())
	r.Lo, r.Hi = min(a.Lo, b.Lo), max(a.Hi, b.Hi)
	return r
}

// ConcatStr is string concatenation.
func ConcatStr(a, b *AV) *AV {
	if a.K != Str {
		a = asStr(a)
	}
	if b.K != Str {
		b = asStr(b)
	}
	r := &AV{K: Str, Lab: a.Lab.Union(b.Lab)}
	if a.Consts != nil && b.Consts != nil && len(a.Consts)*len(b.Consts) <= maxConsts {
		m := map[string]bool{}
		for _, x := range a.Consts {
			for _, y := range b.Consts {
				m[x+y] = true
			}
		}
		tooLong := false
		for x := range m {
			r.Consts = append(r.Consts, x)
			if len(x) > 1<<16 {
				tooLong = true
			}
		}
		sort.Strings(r.Consts)
		r.fixStrLen()
		if !tooLong {
			return r
		}
		r.Consts = nil
	}
	switch {
	case a.Consts != nil && b.prefixes() != nil && len(a.Consts)*len(b.prefixes()) <= maxPre:
		for _, x := range a.Consts {
			for _, y := range b.prefixes() {
				r.Pre = append(r.Pre, x+y)
			}
		}
		r.Pre = unionStrs(r.Pre, nil)
	case a.Consts != nil && len(a.Consts) <= maxPre:
		r.Pre = a.Consts
	default:
		r.Pre = a.Pre
	}
	switch {
	case b.Consts != nil && len(b.Consts) == 1:
		r.Suf = a.suffix() + b.Consts[0]
		if len(r.Suf) > 4096 {
			r.Suf = r.Suf[len(r.Suf)-4096:]
		}
	default:
		r.Suf = b.suffix()
	}
	r.Frags = a.fragSet().Union(b.fragSet())
	r.Lo, r.Hi = addSat(a.Lo, b.Lo), addSat(a.Hi, b.Hi)
	return r
}

func asStr(v *AV) *AV {
	if v.K == Str {
		return v
	}
	return &AV{K: Str, Lo: 0, Hi: MaxInt, Lab: v.Lab, Frags: v.Frags}
}

func addSat(a, b int64) int64 {
	if a == MinInt || b == MinInt {
		return MinInt
	}
	if a == MaxInt || b == MaxInt {
		return MaxInt
	}
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return MaxInt
	}
	if a < 0 && b < 0 && s >= 0 {
		return MinInt
	}
	return s
}

func negSat(a int64) int64 {
	switch a {
	case MinInt:
		return MaxInt
	case MaxInt:
		return MinInt
	}
	return -a
}

func unionRefs(a, b []Ref) []Ref {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	m := map[Ref]bool{}
	for _, r := range a {
		m[r] = true
	}
	n := len(m)
	for _, r := range b {
		m[r] = true
	}
	if len(m) == n {
		return a
	}
	out := make([]Ref, 0, len(m))
	for r := range m {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].O != out[j].O {
			return out[i].O < out[j].O
		}
		return out[i].P < out[j].P
	})
	return out
}

func unionFns(a, b []*FnVal) []*FnVal {
	out := append([]*FnVal(nil), a...)
	for _, f := range b {
		found := false
		for i, g := range out {
			if g.Fn == f.Fn {
				found = true
				if !eqVals(g.Bind, f.Bind) {
					nb := make([]*AV, len(g.Bind))
					for k := range nb {
						nb[k] = Join(g.Bind[k], f.Bind[k])
					}
					out[i] = &FnVal{Fn: g.Fn, Bind: nb}
				}
				break
			}
		}
		if !found {
			out = append(out, f)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Fn.String() < out[j].Fn.String() })
	return out
}

func unionDyn(a, b []Dyn) []Dyn {
	out := append([]Dyn(nil), a...)
	for _, d := range b {
		found := false
		for i := range out {
			if types.Identical(out[i].T, d.T) {
				out[i].V = Join(out[i].V, d.V)
				found = true
				break
			}
		}
		if !found {
			out = append(out, d)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return typeKey(out[i].T) < typeKey(out[j].T) })
	return out
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

// addVariant adds v to a variant list.
func addVariant(list []*AV, v *AV) []*AV {
	if v == nil || v.K == Bot {
		return list
	}
	for _, x := range list {
		if x == v || Eq(x, v) {
			return list
		}
	}
	for i, x := range list {
		if j := Join(x, v); Eq(j, x) {
			_ = i
			return list
		}
	}
	if v.K != Struct && len(list) >= 1 || len(list) >= maxVar {
		j := v
		for _, x := range list {
			j = Join(x, j)
		}
		return []*AV{j}
	}
	return append(append([]*AV(nil), list...), v)
}

func joinSum(a, b []*AV) []*AV {
	out := a
	for _, v := range b {
		out = addVariant(out, v)
	}
	return out
}

func flat(list []*AV) *AV {
	if len(list) == 0 {
		return botV
	}
	j := list[0]
	for _, x := range list[1:] {
		j = Join(j, x)
	}
	return j
}

// Join is the least upper bound (approximately). It returns a itself if b adds
// nothing.
func Join(a, b *AV) *AV {
	if a == b || b == nil || b.K == Bot {
		return a
	}
	if a == nil || a.K == Bot {
		return b
	}
	r := join2(a, b)
	if r != a && Eq(r, a) {
		return a
	}
	return r
}

// off is the known offset of a slice into its backing array.
func (v *AV) off() (int64, bool) {
	switch {
	case !strings.HasPrefix(v.Sent, "off"):
		return 0, true
	case v.Sent == "off":
		return 0, false
	}
	n, err := strconv.ParseInt(v.Sent[4:], 10, 64)
	return n, err == nil
}

// setOff moves the start of a slice of x by lo.
func (v *AV) setOff(x, lo *AV) {
	off, ok := x.off()
	n, known := lo.IntConst()
	if !ok || !known || n < 0 {
		v.Sent = "off"
	} else if off+n > 0 {
		v.Sent = "off:" + strconv.FormatInt(off+n, 10)
	}
}

func join2(a, b *AV) *AV {
	sent := ""
	if a.Sent == b.Sent {
		sent = a.Sent
	} else if a.MustNil() {
		sent = b.Sent
	} else if b.MustNil() {
		sent = a.Sent
	} else if a.K == Slice || b.K == Slice {
		sent = "off"
	}
	if a.K != b.K {
		if a.K == Unk || b.K == Unk {
			k, u := a, b
			if a.K == Unk {
				k, u = b, a
			}
			switch k.K {
			case Ptr, Slice, Map, Func, Iface:
				r := *k
				r.Nil = k.NilBits() | u.NilBits()
				r.Unk = true
				r.Sent = sent
				if k.K == Slice || k.K == Map {
					r.Lo, r.Hi = 0, MaxInt
				}
				r.Lab = k.Lab.Union(u.Lab)
				return &r
			case Str:
				return joinStr(k, asStr(u))
			}
			return &AV{K: Unk, Nil: a.NilBits() | b.NilBits(), Lab: a.Lab.Union(b.Lab), Frags: a.Frags.Union(b.Frags)}
		}
		return &AV{K: Unk, Nil: a.NilBits() | b.NilBits(), Lab: a.Lab.Union(b.Lab)}
	}
	switch a.K {
	case Str:
		return joinStr(a, b)
	case Bool:
		return &AV{K: Bool, B: a.B | b.B, Lab: a.Lab.Union(b.Lab)}
	case Int:
		return &AV{K: Int, Lo: min(a.Lo, b.Lo), Hi: max(a.Hi, b.Hi), Lab: a.Lab.Union(b.Lab)}
	case Struct, Tuple:
		if len(a.Elems) != len(b.Elems) {
			return &AV{K: Unk, Nil: MayNil | MayNonNil}
		}
		r := &AV{K: a.K, Elems: make([]*AV, len(a.Elems)), Lab: a.Lab.Union(b.Lab)}
		for i := range a.Elems {
			r.Elems[i] = Join(a.Elems[i], b.Elems[i])
		}
		return r
	case Arr:
		r := &AV{K: Arr, Lab: a.Lab.Union(b.Lab), Keys: a.Keys}
		if b.Keys != nil {
			r.Keys = b.Keys
			if a.Keys != nil {
				r.Keys = Join(a.Keys, b.Keys)
			}
		}
		if a.Consts != nil || b.Consts != nil {
			// maps
			if eqStrs(a.Consts, b.Consts) && a.Consts != nil && b.Consts != nil {
				r.Consts = a.Consts
				for i := range a.Elems {
					r.Elems = append(r.Elems, Join(a.Elems[i], b.Elems[i]))
				}
			}
			r.Sum = joinSum(a.Sum, b.Sum)
			return r
		}
		if len(a.Sum) == 0 && len(b.Sum) == 0 && len(a.Elems)+len(b.Elems) > 0 {
			// (there are no elements beyond the shorter one's end)
			for i := 0; i < max(len(a.Elems), len(b.Elems)); i++ {
				switch {
				case i >= len(a.Elems):
					r.Elems = append(r.Elems, b.Elems[i])
				case i >= len(b.Elems):
					r.Elems = append(r.Elems, a.Elems[i])
				default:
					r.Elems = append(r.Elems, Join(a.Elems[i], b.Elems[i]))
				}
			}
			return r
		}
		sa, sb := a.Sum, b.Sum
		for _, e := range a.Elems {
			sa = addVariant(sa, e)
		}
		for _, e := range b.Elems {
			sb = addVariant(sb, e)
		}
		r.Sum = joinSum(sa, sb)
		return r
	}
	r := &AV{K: a.K, Nil: a.NilBits() | b.NilBits(), Unk: a.Unk || b.Unk, Lab: a.Lab.Union(b.Lab), Sent: sent, Frags: a.Frags.Union(b.Frags)}
	switch a.K {
	case Ptr:
		r.Refs = unionRefs(a.Refs, b.Refs)
	case Slice, Map:
		r.Refs = unionRefs(a.Refs, b.Refs)
		r.Lo, r.Hi = min(a.Lo, b.Lo), max(a.Hi, b.Hi)
		if a.Consts != nil || b.Consts != nil || a.Pre != nil || b.Pre != nil || a.Suf != "" {
			t := joinStr(Text(a), Text(b))
			r.Consts, r.Pre, r.Suf, r.Frags = t.Consts, t.Pre, t.Suf, t.Frags
		}
	case Func:
		r.Fns = unionFns(a.Fns, b.Fns)
	case Iface:
		r.Dyn = unionDyn(a.Dyn, b.Dyn)
		r.Refs = unionRefs(a.Refs, b.Refs)
	}
	return r
}

// Widen makes growing bounds infinite.
func Widen(old, new *AV) *AV {
	if old == nil || old == new || new == nil || old.K != new.K {
		return new
	}
	switch new.K {
	case Int:
		lo, hi := new.Lo, new.Hi
		if lo < old.Lo {
			lo = MinInt
			if new.Lo >= 0 {
				lo = 0
			}
		}
		if hi > old.Hi {
			hi = MaxInt
		}
		if lo != new.Lo || hi != new.Hi {
			r := *new
			r.Lo, r.Hi = lo, hi
			return &r
		}
	case Slice, Map, Str:
		lo, hi := new.Lo, new.Hi
		if lo < old.Lo {
			lo = 0
		}
		if hi > old.Hi {
			hi = MaxInt
		}
		r := *new
		ch := lo != new.Lo || hi != new.Hi
		r.Lo, r.Hi = lo, hi
		if new.K == Str && !eqStrs(new.Consts, old.Consts) && len(old.Consts) > 0 && new.Consts != nil && len(new.Consts) > 4 {
			r.Frags = new.fragSet()
			r.Pre = joinPre(new.Consts, new.Consts)
			r.Suf = new.suffix()
			r.Consts = nil
			ch = true
		}
		if new.K == Str && r.Consts == nil && len(new.Suf) < len(old.suffix()) && false {
			ch = true
		}
		if new.K == Str && new.Consts == nil && old.Consts == nil && !eqStrs(new.Pre, old.Pre) && len(new.Pre) > 4 {
			p := new.Pre[0]
			for _, x := range new.Pre[1:] {
				p = commonPrefix(p, x)
			}
			r.Pre = nil
			if p != "" {
				r.Pre = []string{p}
			}
			ch = true
		}
		if ch {
			return &r
		}
	case Struct, Tuple, Arr:
		if len(old.Elems) == len(new.Elems) {
			var el []*AV
			for i := range new.Elems {
				w := Widen(old.Elems[i], new.Elems[i])
				if w != new.Elems[i] {
					if el == nil {
						el = append([]*AV(nil), new.Elems...)
					}
					el[i] = w
				}
			}
			r := *new
			ch := false
			if el != nil {
				r.Elems = el
				ch = true
			}
			if len(new.Sum) > 0 && len(old.Sum) > 0 && len(new.Sum) != len(old.Sum) {
				j := flat(new.Sum)
				o := flat(old.Sum)
				r.Sum = []*AV{Widen(o, j)}
				ch = true
			} else if len(new.Sum) == 1 && len(old.Sum) == 1 {
				w := Widen(old.Sum[0], new.Sum[0])
				if w != new.Sum[0] {
					r.Sum = []*AV{w}
					ch = true
				}
			}
			if ch {
				return &r
			}
		}
	}
	return new
}

// MustFalse: v is certainly the boolean false.
func (v *AV) MustFalse() bool { return v.K == Bool && v.B == falseV.B }

// MustTrue: v is certainly the boolean true.
func (v *AV) MustTrue() bool { return v.K == Bool && v.B == trueV.B }
