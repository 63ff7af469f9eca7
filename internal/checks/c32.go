package checks

import (
	"fmt"
	"go/types"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C32", Technique: "abstract interpretation of BatchInsert over described rows and batch sizes; evaluation of the statements it sends on a model of the table", Run: runC32,
		Explain: "BatchInsert is interpreted per dialect for described columns, keys, identity columns, batch sizes (smaller than, equal to and larger than the number of rows, none, negative) and zero to five rows of recognisable values, which an unknown iterator function hands out one by one before it returns io.EOF. The statements sent on each successful way to return, with their arguments, are evaluated in order on a model of a table that already holds a row with the key of one of the new ones and one that shares part of a key: placeholders are resolved to arguments (each must exist, none may be left over), INSERT with ON CONFLICT, ON DUPLICATE KEY or NOT EXISTS and UPDATE ... JOIN are understood. Afterwards the table must hold exactly the old row, updated if keys are given, and every other new row once, all values in their columns. With identity columns, Postgres sequences are set after the last row, by the plain column name, and SQL Server's IDENTITY_INSERT is switched on before and off after. A slice made with a negative capacity is reported. Statements of other forms are counted as undetermined and not judged. Not covered: rows that clash with each other inside a batch, failures in between (C08, C26). SQL Server's limit of arguments is judged with a table of a hundred columns, the larger limits of the others are not reached."})
}

// batchScene describes a table, what is inserted into it and how.
type batchScene struct {
	name               string
	cols, keys, ids    []string
	schema             string
	batch, rows, clash int // clash: the new row whose key is already there
}

func batchScenes() []batchScene {
	ab := []string{"a", "b"}
	abc := []string{"a", "b", "c"}
	out := []batchScene{
		{"plain, no rows", ab, nil, nil, "", 2, 0, -1},
		{"plain, one row", ab, nil, nil, "", 2, 1, -1},
		{"plain, one batch", ab, nil, nil, "", 2, 2, -1},
		{"plain, two batches and a rest", ab, nil, nil, "s1", 2, 5, -1},
		{"plain, single rows", abc, nil, nil, "", 1, 3, -1},
		{"plain, default batch size", ab, nil, nil, "", 0, 3, -1},
		{"plain, negative batch size", ab, nil, nil, "", -1, 3, -1},
		{"one key, rest", abc, []string{"a"}, nil, "", 2, 3, 2},
		{"one key, batch", abc, []string{"a"}, nil, "s1", 2, 4, 1},
		{"last column is key", abc, []string{"c"}, nil, "", 3, 4, 0},
		{"two keys", abc, []string{"a", "c"}, nil, "", 2, 3, 1},
		{"only keys", ab, []string{"a", "b"}, nil, "", 2, 3, 1},
		{"key isn't inserted", ab, []string{"a", "z"}, nil, "", 2, 3, -1},
		{"identity", ab, nil, []string{"a"}, "", 2, 3, -1},
		{"identity, full batches", ab, nil, []string{"a"}, "", 2, 4, -1},
		{"identity, no rows", ab, []string{"a"}, []string{"a"}, "", 2, 0, -1},
		{"identity key, full batches", abc, []string{"a"}, []string{"a"}, "s1", 2, 2, 0},
		{"identity key", abc, []string{"a"}, []string{"a"}, "s1", 2, 3, 2},
		{"identity column with an awkward name", []string{"Order", "b"}, nil, []string{"Order"}, "", 2, 3, -1},
		{"two identities", abc, nil, []string{"a", "c"}, "", 2, 3, -1},
		{"identity isn't inserted", ab, []string{"a"}, []string{"z"}, "", 2, 3, 0},
		{"identity beside the key", ab, []string{"b"}, []string{"a"}, "", 2, 3, 1},
		{"identity beside key and others", abc, []string{"b"}, []string{"a"}, "", 2, 3, 1},
	}
	wide := []string{}
	for i := 0; i < 100; i++ {
		wide = append(wide, fmt.Sprintf("c%d", i))
	}
	return append(out, batchScene{"many columns", wide, nil, nil, "", 24, 24, -1})
}

// argLimits is how many arguments a statement can have.
var argLimits = map[string]int{"sqlite": 32766, "postgres": 65535, "mysql": 65535, "sqlserver": 2100}

// batchMon: Q is the number of rows handed out, and for each statement sent
// its text and arguments.
type batchMon struct {
	absint.Base
	res  *Result
	name string
}

const (
	batchSep = "\x01"
	argSep   = "\x02"
	unknown  = "\x03"
)

func cellText(v *AV) string {
	if v.K == absint.Iface && len(v.Dyn) == 1 && !v.Unk {
		v = v.Dyn[0].V
	}
	if t, ok := absint.Text(v).One(); ok && v.K == absint.Str {
		return t
	}
	if n, ok := v.IntConst(); ok && v.K == absint.Int {
		return strconv.FormatInt(n, 10)
	}
	return unknown
}

func (m *batchMon) After(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []*absint.State {
	if c.Name == "dynamic:rows" && o.Tag == "row" {
		n, rest, _ := strings.Cut(s.Q, batchSep)
		k, _ := strconv.Atoi(n)
		s.Q = strconv.Itoa(k+1) + batchSep + rest
	}
	if strings.HasPrefix(c.Name, "dynamic") && c.Name != "dynamic:rows" {
		s.Q += unknown + batchSep
	}
	op, ok := stmtOf(e, c, s, false)
	if !ok {
		return []*absint.State{s}
	}
	if o.Fail {
		return nil // judged by other checks
	}
	m.res.note("statement_sites", siteName(e, c))
	entry := unknown
	if text, ok := op.text.One(); ok {
		entry = text
		elems, exact := e.SliceElems(s, op.args)
		if op.args == nil || op.args.MustNil() {
			elems, exact = nil, true
		}
		for _, x := range elems {
			entry += argSep + cellText(x)
		}
		if !exact {
			entry = unknown
		}
	}
	if !strings.Contains(s.Q, batchSep) {
		s.Q = "0" + batchSep
	}
	s.Q += entry + batchSep
	return []*absint.State{s}
}

func (m *batchMon) Instr(e *absint.Engine, in ssa.Instruction, fn *ssa.Function, ctx *absint.Ctx, s *absint.State) {
	if mk, ok := in.(*ssa.MakeSlice); ok {
		for _, v := range []ssa.Value{mk.Len, mk.Cap} {
			if n, ok := e.Val(s, v).IntConst(); ok && n < 0 {
				e.Report("C32", in, ctx, m.name+": a slice is made with a negative size")
			}
		}
	}
}

func rowCell(r, c int) string { return fmt.Sprintf("row%dcol%d", r, c) }

func (env *Env) judgeBatch(res *Result, d string, b batchScene) {
	fn := env.P.Method(ddlPkg, "BatchInsert", "ExecContext")
	named := env.P.Type(ddlPkg, "BatchInsert")
	if fn == nil || named == nil || len(fn.Params) != 4 {
		res.note("undetermined", "no BatchInsert.ExecContext")
		return
	}
	name := d + ": " + b.name
	e := env.newEngine()
	e.Few, e.PerIter, e.EveryLoop = 4000, true, true
	e.Mon = &batchMon{res: res, name: name}
	str := types.Typ[types.String]
	e.Models = map[string]absint.Model{
		"dynamic:rows": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			n, _, _ := strings.Cut(s.Q, batchSep)
			k, _ := strconv.Atoi(n)
			if k >= b.rows {
				return []absint.Outcome{{Ret: absint.FailErr("io.EOF"), Tag: "eof"}}
			}
			return []absint.Outcome{{Ret: absint.NilErr(), Tag: "row", Apply: func(t *absint.State) {
				var vs []*AV
				for j := range b.cols {
					vs = append(vs, &AV{K: absint.Iface, Nil: absint.MayNonNil, Dyn: []absint.Dyn{{T: str, V: absint.StrV(rowCell(k, j))}}})
				}
				e.SetElems(t, c.Args[0], vs)
			}}}
		},
	}
	st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
	names := func(l []string) list {
		out := list{}
		for _, x := range l {
			out = append(out, x)
		}
		return out
	}
	recv := env.build(e, st, types.NewPointer(named), rec{"Batchsize": b.batch, "Dialect": d, "TableSchema": b.schema, "TableName": "t1",
		"Columns": names(b.cols), "KeyColumns": names(b.keys), "IdentityColumns": names(b.ids)}, "batch")
	ctxV, dbV := e.Unknown(fn.Params[1].Type()), e.Unknown(fn.Params[2].Type())
	nonNil := func(v *AV) *AV {
		n := *v
		n.Nil = absint.MayNonNil
		return &n
	}
	next := &AV{K: absint.Func, Nil: absint.MayNonNil, Unk: true, Lab: absint.NewSet("f:rows")}
	outs := e.RunFn(fn, []*AV{recv, nonNil(ctxV), nonNil(dbV), next}, nil, "0"+batchSep, st.Heap, e.RootCtx.Child(nil, fn))
	res.noteEngine(e)
	judged := false
	for _, o := range outs {
		ret := o.Ret
		if ret.K == absint.Tuple {
			ret = ret.Elems[len(ret.Elems)-1]
		}
		if !ret.MayBeNil() {
			continue
		}
		problem, sure := b.evaluate(d, o.Q)
		switch {
		case !sure:
			res.note("undetermined", name+": "+problem)
			debugf("undetermined %s: %s %q\n", name, problem, o.Q)
		case problem != "":
			res.violate(e, "C32", fn, name+": "+problem)
			debugf("problem %s: %s %q\n", name, problem, o.Q)
			judged = true
		default:
			res.note("scenes_confirmed", name)
			judged = true
		}
	}
	if !judged && len(outs) == 0 {
		res.note("undetermined", name+": no way to return found")
	}
	res.note("scenes", name)
}

// evaluate runs the statements of a trace on a model of the table.
func (b batchScene) evaluate(d, q string) (problem string, sure bool) {
	parts := strings.Split(strings.TrimSuffix(q, batchSep), batchSep)
	handed, _ := strconv.Atoi(parts[0])
	if handed != b.rows && !strings.Contains(q, unknown) {
		return fmt.Sprintf("%d of %d rows are asked for before success is reported", handed, b.rows), true
	}
	sim := &batchTable{d: d, table: "t1", schema: b.schema, keys: b.keys, ids: b.ids}
	for _, k := range b.keys {
		if !slices.Contains(b.cols, k) {
			sim.keys = nil
		}
	}
	old := map[string]string{"other": "old other"}
	for j, c := range b.cols {
		old[c] = "old " + c
		if b.clash >= 0 && slices.Contains(b.keys, c) {
			old[c] = rowCell(b.clash, j)
		}
	}
	sim.rows = append(sim.rows, old)
	if b.clash >= 0 && len(b.keys) > 1 {
		// and a row that shares a part of its key
		near := map[string]string{}
		for j, c := range b.cols {
			near[c] = "near " + c
			if c == b.keys[0] {
				near[c] = rowCell(b.clash, j)
			}
		}
		sim.rows = append(sim.rows, near)
	}
	want := []map[string]string{}
	kept := map[string]string{}
	for c, v := range old {
		kept[c] = v
	}
	want = append(want, kept)
	for _, r := range sim.rows[1:] {
		n := map[string]string{}
		for c, v := range r {
			n[c] = v
		}
		want = append(want, n)
	}
	for r := 0; r < b.rows; r++ {
		row := map[string]string{}
		for j, c := range b.cols {
			row[c] = rowCell(r, j)
		}
		if r == b.clash {
			for c, v := range row {
				if d == "sqlserver" && slices.Contains(b.ids, c) {
					continue // can't be changed
				}
				kept[c] = v
			}
			continue
		}
		want = append(want, row)
	}
	for _, p := range parts[1:] {
		if p == "" {
			continue
		}
		if strings.Contains(p, unknown) {
			return "a statement isn't known exactly", false
		}
		f := strings.Split(p, argSep)
		if problem, sure := sim.exec(f[0], f[1:]); problem != "" || !sure {
			return problem, sure
		}
	}
	inserted := has2(b.ids, b.cols)
	switch {
	case d == "sqlserver" && sim.identityOn:
		return "IDENTITY_INSERT stays on", true
	case d == "postgres" && len(inserted) > 0 && b.rows > 0:
		for _, c := range inserted {
			if !slices.Contains(sim.reset, c) {
				return "the sequence of identity column " + c + " isn't set after the last row", true
			}
		}
	}
	var got, exp []string
	for _, r := range sim.rows {
		got = append(got, showRow(r))
	}
	for _, r := range want {
		exp = append(exp, showRow(r))
	}
	if missing := minus(exp, got); len(missing) > 0 {
		return "afterwards the table lacks " + missing[0], true
	}
	if extra := minus(got, exp); len(extra) > 0 {
		return "afterwards the table also has " + extra[0], true
	}
	return "", true
}

// has2 are the elements of a that are in b.
func has2(a, b []string) []string {
	var out []string
	for _, x := range a {
		if slices.Contains(b, x) {
			out = append(out, x)
		}
	}
	return out
}

// minus are the elements of a without those of b, counting repetitions.
func minus(a, b []string) []string {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	var out []string
	for _, x := range a {
		if n[x]--; n[x] < 0 {
			out = append(out, x)
		}
	}
	return out
}

func showRow(r map[string]string) string {
	var l []string
	for k, v := range r {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return "(" + strings.Join(l, ", ") + ")"
}

// batchTable is a model of a table and of the statements that fill it.
type batchTable struct {
	d, table, schema string
	keys, ids        []string
	rows             []map[string]string
	identityOn       bool
	reset            []string // identity columns whose sequence is right

	ts   []tok
	args []string
	used map[int]bool
	seq  int
	// problem is set when the statement is wrong
	problem string
}

func (b *batchTable) peek(i int) tok {
	if i < len(b.ts) {
		return b.ts[i]
	}
	return tok{}
}

// words consumes the words, if they come next.
func (b *batchTable) words(ws ...string) bool {
	for i, w := range ws {
		t := b.peek(i)
		if !(t.k == 'w' && strings.EqualFold(t.s, w) || t.k == 'p' && t.s == w) {
			return false
		}
	}
	b.ts = b.ts[len(ws):]
	return true
}

func (b *batchTable) name() (string, bool) {
	t := b.peek(0)
	if t.k != 'w' && t.k != 'q' || t.s == "" {
		return "", false
	}
	b.ts = b.ts[1:]
	return t.s, true
}

// path is a name with what qualifies it.
func (b *batchTable) path() ([]string, bool) {
	var p []string
	for {
		n, ok := b.name()
		if !ok {
			return nil, false
		}
		p = append(p, n)
		if !b.words(".") {
			return p, true
		}
	}
}

func (b *batchTable) isTable(p []string) bool {
	if len(p) == 0 || p[len(p)-1] != b.table {
		return false
	}
	return len(p) == 1 && b.schema == "" || len(p) == 2 && p[0] == b.schema
}

// target consumes the name of the table; another one is wrong.
func (b *batchTable) target() bool {
	p, ok := b.path()
	if ok && !b.isTable(p) {
		b.problem = "a statement is sent for the table " + strings.Join(p, ".")
	}
	return ok
}

func (b *batchTable) names() ([]string, bool) {
	if !b.words("(") {
		return nil, false
	}
	var l []string
	for {
		n, ok := b.name()
		if !ok {
			return nil, false
		}
		l = append(l, n)
		if b.words(")") {
			return l, true
		}
		if !b.words(",") {
			return nil, false
		}
	}
}

// cell consumes a placeholder.
func (b *batchTable) cell() (string, bool) {
	t := b.peek(0)
	n := 0
	switch {
	case t.k == 'p' && t.s == "?" && (b.d == "sqlite" || b.d == "mysql"):
		b.seq++
		n = b.seq
	case t.k == 'w' && b.d == "postgres" && strings.HasPrefix(t.s, "$"):
		n, _ = strconv.Atoi(t.s[1:])
	case t.k == 'w' && b.d == "sqlserver" && strings.HasPrefix(t.s, "@p"):
		n, _ = strconv.Atoi(t.s[2:])
	}
	if n <= 0 {
		return "", false
	}
	b.ts = b.ts[1:]
	if n > len(b.args) {
		b.problem = fmt.Sprintf("a statement refers to argument %d of %d", n, len(b.args))
		return "", true
	}
	b.used[n] = true
	return b.args[n-1], true
}

func (b *batchTable) tuples() ([][]string, bool) {
	var out [][]string
	for {
		if !b.words("(") {
			return nil, false
		}
		var row []string
		for {
			v, ok := b.cell()
			if !ok {
				return nil, false
			}
			row = append(row, v)
			if b.words(")") {
				break
			}
			if !b.words(",") {
				return nil, false
			}
		}
		out = append(out, row)
		if !b.words(",") {
			return out, true
		}
	}
}

// joined consumes t.a = x.a AND ... and yields the columns; of columns linked
// by OR one is enough.
func (b *batchTable) joined(alias string) ([][]string, bool) {
	var l [][]string
	and := false
	for {
		p, ok := b.path()
		if !ok || !b.words("=") {
			return nil, false
		}
		q, ok := b.path()
		if !ok || len(p) < 2 || len(q) < 2 {
			return nil, false
		}
		if q[0] != alias {
			p, q = q, p
		}
		if len(q) != 2 || q[0] != alias || !b.isTable(p[:len(p)-1]) || p[len(p)-1] != q[1] {
			return nil, false
		}
		if and {
			l[len(l)-1] = append(l[len(l)-1], q[1])
		} else {
			l = append(l, []string{q[1]})
		}
		if and = b.words("AND"); !and && !b.words("OR") {
			return l, true
		}
	}
}

// matches: the rows agree in all columns of one of the lists.
func matches(r, row map[string]string, on [][]string) bool {
	for _, l := range on {
		same := true
		for _, k := range l {
			same = same && r[k] == row[k]
		}
		if same {
			return true
		}
	}
	return false
}

func sameSet(a, b []string) bool { return len(minus(a, b)) == 0 && len(minus(b, a)) == 0 }

func (b *batchTable) find(row map[string]string, on [][]string) map[string]string {
	for _, r := range b.rows {
		if matches(r, row, on) {
			return r
		}
	}
	return nil
}

func (b *batchTable) exec(text string, args []string) (problem string, sure bool) {
	b.ts, b.args, b.used, b.seq, b.problem = lexSQL(text), args, map[int]bool{}, 0, ""
	for i, t := range b.ts {
		n := b.peek(i + 1)
		if t == (tok{'p', ","}) && (n.k == 'p' && n.s != "?" && n.s != "(" || n.k == 0) || t == (tok{'p', "("}) && n == (tok{'p', ","}) {
			return "a statement has a list with a gap: " + text, true
		}
	}
	if len(args) > argLimits[b.d] {
		return fmt.Sprintf("a statement has %d arguments", len(args)), true
	}
	for b.words(";") {
	}
	ok := false
	switch {
	case b.words("SET", "IDENTITY_INSERT"):
		if ok = b.target(); ok {
			switch {
			case b.words("ON"):
				b.identityOn = true
			case b.words("OFF"):
				b.identityOn = false
			default:
				ok = false
			}
		}
		for i := range args {
			b.used[i+1] = true
		}
	case b.words("SELECT"):
		ok = b.words("setval")
		if ok {
			ok = b.setval()
		}
	case b.words("INSERT", "INTO"):
		ok = b.insert()
	case b.words("UPDATE"):
		ok = b.update()
	}
	for b.words(";") {
	}
	if b.problem != "" {
		return b.problem, true
	}
	if !ok || len(b.ts) > 0 {
		return "statement of another form: " + text, false
	}
	if len(b.used) != len(args) {
		return fmt.Sprintf("%d of %d arguments are used by a statement", len(b.used), len(args)), true
	}
	return "", true
}

// setval: (pg_get_serial_sequence(table, column), max(column)) FROM table.
func (b *batchTable) setval() bool {
	if !b.words("(", "pg_get_serial_sequence", "(") {
		return false
	}
	value := func() (string, bool) {
		if t := b.peek(0); t.k == 's' {
			b.ts = b.ts[1:]
			return t.s, true
		}
		return b.cell()
	}
	table, ok := value()
	if !ok || !b.words(",") {
		return false
	}
	col, ok := value()
	if !ok || !b.words(")", ",", "MAX", "(") {
		return false
	}
	of, ok := b.name()
	if !ok || !b.words(")", ")", "FROM") || !b.target() {
		return false
	}
	if b.problem != "" {
		return true
	}
	in := &batchTable{ts: lexSQL(table), schema: b.schema, table: b.table}
	if p, ok := in.path(); !ok || !in.isTable(p) {
		b.problem = "the sequence of another table is set: " + table
	}
	if col != of || !slices.Contains(b.ids, col) {
		b.problem = "the sequence of the column named " + col + " is set"
	}
	b.reset = append(b.reset, col)
	return true
}

// insert understands INSERT INTO t (...) VALUES ... and its SELECT form.
func (b *batchTable) insert() bool {
	if !b.target() {
		return false
	}
	cols, ok := b.names()
	if !ok {
		return false
	}
	if !b.words("OVERRIDING", "SYSTEM", "VALUE") && b.d == "postgres" && len(has2(b.ids, cols)) > 0 {
		b.problem = "values for an identity column are inserted without OVERRIDING SYSTEM VALUE"
		return true
	}
	if len(has2(b.ids, cols)) > 0 && b.d == "sqlserver" && !b.identityOn {
		b.problem = "values for an identity column are inserted while IDENTITY_INSERT is off"
		return true
	}
	var tuples [][]string
	var absent [][]string // rows with these columns like an existing one are left out
	var conflict []string
	var set [][2]string // column, and the column its value comes from
	doing := ""
	if b.words("SELECT") {
		var picked []string
		for {
			n, ok := b.name()
			if !ok {
				return false
			}
			picked = append(picked, n)
			if !b.words(",") {
				break
			}
		}
		if !b.words("FROM", "(", "VALUES") {
			return false
		}
		if tuples, ok = b.tuples(); !ok || !b.words(")") {
			return false
		}
		b.words("AS")
		alias, ok := b.name()
		if !ok {
			return false
		}
		of, ok := b.names()
		if !ok || !b.words("WHERE", "NOT", "EXISTS", "(", "SELECT", "1", "FROM") || !b.target() || !b.words("WHERE") {
			return false
		}
		if absent, ok = b.joined(alias); !ok || !b.words(")") {
			return false
		}
		// the columns in the order they are inserted in
		if len(picked) != len(cols) {
			b.problem = fmt.Sprintf("%d columns are inserted into %d", len(picked), len(cols))
			return true
		}
		for i, row := range tuples {
			if len(row) != len(of) {
				b.problem = fmt.Sprintf("a row has %d values for %d columns", len(row), len(of))
				return true
			}
			var r []string
			for _, p := range picked {
				at := -1
				for j, c := range of {
					if c == p {
						at = j
					}
				}
				if at < 0 {
					return false
				}
				r = append(r, row[at])
			}
			tuples[i] = r
		}
	} else {
		if !b.words("VALUES") {
			return false
		}
		if tuples, ok = b.tuples(); !ok {
			return false
		}
		switch {
		case b.words("ON", "CONFLICT"):
			conflict = b.keys
			if b.peek(0) == (tok{'p', "("}) {
				if conflict, ok = b.names(); !ok {
					return false
				}
			}
			if b.words("DO", "NOTHING") {
				doing = "nothing"
				break
			}
			if !b.words("DO", "UPDATE", "SET") {
				return false
			}
			doing = "update"
			for {
				c, ok := b.name()
				if !ok || !b.words("=") {
					return false
				}
				from, ok := b.path()
				if !ok {
					return false
				}
				switch {
				case len(from) == 2 && strings.EqualFold(from[0], "EXCLUDED"):
					set = append(set, [2]string{c, from[1]})
				case from[len(from)-1] != c:
					return false
				}
				if !b.words(",") {
					break
				}
			}
		case b.words("ON", "DUPLICATE", "KEY", "UPDATE"):
			doing, conflict = "update", b.keys
			for {
				c, ok := b.name()
				if !ok || !b.words("=") {
					return false
				}
				if b.words("VALUES", "(") {
					from, ok := b.name()
					if !ok || !b.words(")") {
						return false
					}
					set = append(set, [2]string{c, from})
				} else if from, ok := b.name(); !ok || from != c {
					return false
				}
				if !b.words(",") {
					break
				}
			}
		}
	}
	if b.problem != "" {
		return true
	}
	if doing != "" && !sameSet(conflict, b.keys) {
		b.problem = fmt.Sprintf("conflicts are looked for in %q instead of %q", conflict, b.keys)
		return true
	}
	b.reset = nil
	for _, t := range tuples {
		if len(t) != len(cols) {
			b.problem = fmt.Sprintf("a row has %d values for %d columns", len(t), len(cols))
			return true
		}
		row := map[string]string{}
		for j, c := range cols {
			row[c] = t[j]
		}
		if b.find(row, absent) != nil {
			continue
		}
		var keys [][]string
		if len(b.keys) > 0 {
			keys = append(keys, b.keys)
		}
		if r := b.find(row, keys); r != nil {
			switch doing {
			case "":
				b.problem = "a row whose key exists is inserted: " + showRow(row)
				return true
			case "update":
				for _, x := range set {
					r[x[0]] = row[x[1]]
				}
			}
			continue
		}
		b.rows = append(b.rows, row)
	}
	return true
}

// update understands UPDATE t SET a = x.a FROM t JOIN (VALUES ...) AS x (...) ON ...
func (b *batchTable) update() bool {
	if !b.target() {
		return false
	}
	if b.words("WITH", "(") {
		for len(b.ts) > 0 && !b.words(")") {
			b.ts = b.ts[1:]
		}
	}
	if !b.words("SET") {
		return false
	}
	if t := b.peek(0); t.k == 'w' && strings.EqualFold(t.s, "FROM") {
		b.problem = "an UPDATE sets no column"
		return true
	}
	var set [][3]string
	for {
		c, ok := b.name()
		if !ok || !b.words("=") {
			return false
		}
		p, ok := b.path()
		if !ok || len(p) != 2 {
			return false
		}
		set = append(set, [3]string{c, p[0], p[1]})
		if !b.words(",") {
			break
		}
	}
	if !b.words("FROM") || !b.target() || !b.words("JOIN", "(", "VALUES") {
		return false
	}
	tuples, ok := b.tuples()
	if !ok || !b.words(")") {
		return false
	}
	b.words("AS")
	alias, ok := b.name()
	if !ok {
		return false
	}
	of, ok := b.names()
	if !ok || !b.words("ON") {
		return false
	}
	on, ok := b.joined(alias)
	if !ok {
		return false
	}
	if b.problem != "" {
		return true
	}
	for _, t := range tuples {
		if len(t) != len(of) {
			b.problem = fmt.Sprintf("a row has %d values for %d columns", len(t), len(of))
			return true
		}
		row := map[string]string{}
		for j, c := range of {
			row[c] = t[j]
		}
		for _, r := range b.rows {
			if !matches(r, row, on) {
				continue
			}
			for _, x := range set {
				if slices.Contains(b.ids, x[0]) && b.d == "sqlserver" {
					b.problem = "an UPDATE sets the identity column " + x[0]
					return true
				}
				if x[1] != alias {
					return false
				}
				r[x[0]] = row[x[2]]
			}
		}
	}
	return true
}

func runC32(env *Env) *Result {
	var jobs []job
	for _, d := range dialects {
		for _, b := range batchScenes() {
			jobs = append(jobs, job{d + "/" + b.name, func(res *Result) { env.judgeBatch(res, d, b) }})
		}
	}
	r := env.runJobs(jobs)
	r.need("scenes", 1)
	return r
}
