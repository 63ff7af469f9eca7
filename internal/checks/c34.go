package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C34", Technique: "abstract interpretation of the struct writer and the struct parser over catalogs of described table structs, comparing the catalogs before and after", Run: runC34,
		Explain: "The declarations described for C33, and more with names that need quoting, schemas, defaults with brackets, braces and quotes, all kinds of types and many modifiers at once, are turned into catalogs; ReadCatalog and MarshalText of TableStructs are interpreted on these, and what they write must be Go that, handed to the struct parser, gives the catalog again: the same tables, columns in order with types and attributes, constraints with rules and indexes. Not counted as differences: rules that are the default, brackets around a whole default, the current schema. For every kind of column type, table and view structs must have a field of the matching type, with the name of the column, and must not declare plain indexes for those with predicates, expressions, included or descending columns, nor constraints that are marked ignored. Indexing and dereferencing on the way is judged as in C23. " +
			"Not covered: names that aren't made of letters, digits, underscores and spaces, comments, check and exclusion constraints, expressions of generated columns, which structs can't declare, and running the commands."})
}

// writtenScenes are declarations with what is hard to write.
var writtenScenes = []declScene{
	{"names with capitals and spaces", "", `type ACTOR struct {
		sq.TableStruct ~sq:"Film Actor"~
		A sq.NumberField ~sq:"firstName" ddl:"primarykey"~
		B sq.NumberField ~sq:"last name" ddl:"unique index notnull"~
		C sq.NumberField ~sq:"c3" ddl:"references={{Film Actor.last name} index ondelete=cascade}"~
		D sq.NumberField ~sq:"D" ddl:"references={{Film Actor.firstName}}"~
		_ struct{} ~ddl:"unique={firstName,D} index={D,c3 unique}"~
		_ struct{} ~ddl:"foreignkey={{firstName,last name} references={Film Actor.last name,firstName}}"~
	}`, ""},
	{"names with dots of tables in schemas", "s1", `type T1 struct {
		sq.TableStruct ~sq:"s1.Big Table"~
		A sq.NumberField ~ddl:"unique"~
	}
	type T2 struct {
		sq.TableStruct ~sq:"s2.small"~
		A sq.NumberField ~ddl:"references={{s1.Big Table.a} onupdate=cascade}"~
		B sq.NumberField ~ddl:"references=s3.other.a"~
	}
	type T3 struct {
		sq.TableStruct ~sq:"s3.other"~
		A sq.NumberField ~ddl:"primarykey references=s2.small.a"~
	}`, ""},
	{"defaults with brackets, braces and quotes", "", `type T struct {
		sq.TableStruct
		A sq.NumberField ~ddl:"default={(1) + (2)}"~
		B sq.StringField ~ddl:"default='{}'"~
		C sq.StringField ~ddl:"default={'a {b} c'}"~
		D sq.StringField ~ddl:"default='a=b'"~
		E sq.StringField ~ddl:"default='\\\"x\\\"'"~
		F sq.StringField ~ddl:"default={concat('a) ', '(b')}"~
		G sq.StringField ~ddl:"default={('a) ' || '(b')}"~
		H sq.StringField ~ddl:"default={'c d' || 'e'} notnull unique index"~
		I sq.NumberField ~ddl:"default=(1)+(2)"~
	}`, ""},
	{"types that are not the default", "", `type T struct {
		sq.TableStruct
		A sq.NumberField ~ddl:"type=BIGINT"~
		B sq.NumberField ~ddl:"type=INTEGER"~
		C sq.NumberField ~ddl:"type=NUMERIC(10,2)"~
		D sq.StringField ~ddl:"type=VARCHAR(255)"~
		E sq.StringField ~ddl:"type=TEXT"~
		F sq.StringField ~ddl:"type=NVARCHAR(255)"~
		G sq.StringField ~ddl:"type=CHAR(3)"~
		H sq.TimeField ~ddl:"type=DATE"~
		I sq.TimeField ~ddl:"type=TIMESTAMP"~
		J sq.TimeField ~ddl:"type=DATETIME"~
		K sq.TimeField ~ddl:"type=TIMESTAMPTZ"~
		L sq.BinaryField ~ddl:"type=VARBINARY(16)"~
		M sq.BinaryField ~ddl:"type=BINARY(16)"~
		N sq.BinaryField ~ddl:"type=BLOB"~
		O sq.JSONField ~ddl:"type=JSON"~
		P sq.JSONField ~ddl:"type=JSONB"~
		Q sq.BooleanField ~ddl:"type=BIT"~
		R sq.BooleanField ~ddl:"type=BOOLEAN"~
		S sq.ArrayField ~ddl:"type=INT[]"~
		T sq.UUIDField ~ddl:"type=UUID"~
		U sq.UUIDField ~ddl:"type=UNIQUEIDENTIFIER"~
		V sq.AnyField ~ddl:"type={DOUBLE PRECISION}"~
		W sq.AnyField ~ddl:"type={BIT(8)}"~
		X sq.NumberField ~ddl:"type=TINYINT(1)"~
		Y sq.AnyField ~ddl:"type=INT4RANGE"~
	}`, ""},
	{"keys of SQLite", "", `type T1 struct {
		sq.TableStruct
		A sq.NumberField ~ddl:"type=INTEGER primarykey autoincrement"~
	}
	type T2 struct {
		sq.TableStruct
		A sq.NumberField ~ddl:"type=BIGINT primarykey"~
	}
	type T3 struct {
		sq.TableStruct ~ddl:"primarykey=a,b"~
		A sq.NumberField
		B sq.NumberField ~ddl:"type=INTEGER"~
	}
	type T4 struct {
		sq.TableStruct
		A sq.StringField ~ddl:"primarykey"~
	}
	type T5 struct {
		sq.TableStruct
		A sq.NumberField ~ddl:"notnull"~
		B sq.NumberField ~ddl:"type=INT primarykey"~
	}`, ""},
	{"everything at once", "", `type T struct {
		sq.TableStruct ~ddl:"primarykey={a,b deferrable}"~
		A sq.NumberField ~ddl:"notnull identity auto_increment"~
		B sq.StringField ~ddl:"len=40 notnull unique={. deferred} references={u.b onupdate=cascade ondelete=setnull deferred index={. unique using=HASH}} default={'x y'} collate={c d}"~
		C sq.TimeField ~ddl:"type=DATETIME notnull default=CURRENT_TIMESTAMP onupdatecurrenttimestamp index"~
		D sq.NumberField ~ddl:"generated index={. using=HASH}"~
		E sq.NumberField ~ddl:"alwaysidentity"~
		_ struct{} ~ddl:"foreignkey={a,b references=u onupdate=restrict ondelete=setdefault deferrable index}"~
		_ struct{} ~ddl:"index={c,d unique}"~
		_ struct{} ~ddl:"unique={a,c deferrable}"~
	}
	type U struct {
		sq.TableStruct
		A sq.NumberField
		B sq.StringField
	}`, ""},
}

func runC34(env *Env) *Result {
	var jobs []job
	for _, d := range dialects {
		for _, sc := range append(append([]declScene{}, declScenes...), writtenScenes...) {
			if w := sc.wanted(d); len(w) == 1 && w[0] == "error" {
				continue
			}
			jobs = append(jobs, job{d + ": " + sc.name, func(res *Result) { env.judgeWritten(res, d, sc) }})
		}
	}
	for _, d := range dialects {
		for _, typ := range []string{"TableStructs", "ViewStructs"} {
			jobs = append(jobs, job{d + ": fields of " + typ, func(res *Result) { env.judgeFields(res, d, typ) }})
		}
	}
	res := env.runJobs(jobs)
	res.need("scenes_confirmed", 1)
	return res
}

// fieldKinds are column types and the fields they have.
var fieldKinds = map[string]string{
	"sqlite": `BLOB Binary, BOOLEAN Boolean, JSON JSON, INT Number, INTEGER Number, BIGINT Number, REAL Number, NUMERIC Number, TEXT String, VARCHAR(255) String,
		DATE Time, DATETIME Time, TIMESTAMP Time, UUID UUID, FANCY Any`,
	"postgres": `BYTEA Binary, BOOLEAN Boolean, JSON JSON, JSONB JSON, SMALLINT Number, INT Number, BIGINT Number, NUMERIC(5,2) Number, REAL Number, DOUBLE PRECISION Number,
		TEXT String, VARCHAR(255) String, CHAR(3) String, DATE Time, TIME Time, TIMESTAMP Time, TIMESTAMPTZ Time, UUID UUID, TEXT[] Array, INT[] Array, TSVECTOR Any, mpaa Enum`,
	"mysql": `BLOB Binary, MEDIUMBLOB Binary, VARBINARY(20) Binary, BOOLEAN Boolean, TINYINT(1) Boolean, JSON JSON, TINYINT Number, SMALLINT Number, MEDIUMINT Number, INT Number, BIGINT Number,
		VARCHAR(255) String, CHAR(3) String, TEXT String, LONGTEXT String, DATE Time, DATETIME Time, TIMESTAMP Time, BINARY(16) UUID, GEOMETRY Any`,
	"sqlserver": `VARBINARY(MAX) Binary, BIT Boolean, TINYINT Number, SMALLINT Number, INT Number, BIGINT Number, NVARCHAR(255) String, VARCHAR(255) String, CHAR(3) String,
		DATE Time, DATETIME Time, DATETIME2 Time, SMALLDATETIME Time, DATETIMEOFFSET Time, UNIQUEIDENTIFIER UUID, BINARY(16) UUID, XML Any`,
}

// judgeFields judges the names and types of written fields.
func (env *Env) judgeFields(res *Result, d, typ string) {
	read := env.P.Method(ddlPkg, typ, "ReadCatalog")
	marshal := env.P.Method(ddlPkg, typ, "MarshalText")
	cat := env.P.Type(ddlPkg, "Catalog")
	structs := env.P.Type(ddlPkg, typ)
	name := d + ": fields of " + typ
	if read == nil || marshal == nil || cat == nil || structs == nil || len(read.Params) != 2 || len(marshal.Params) != 1 {
		res.note("undetermined", "no writer of "+typ)
		return
	}
	res.note("scenes", name)
	e := env.writeEngine(res, name)
	var cols, kinds, enums, columns list
	var want []string
	for i, k := range strings.Split(fieldKinds[d], ",") {
		f := strings.Fields(k)
		n, t := fmt.Sprintf("c%d", i), strings.Join(f[:len(f)-1], " ")
		if strings.HasPrefix(k, "2)") { // NUMERIC(5,2)
			continue
		}
		if strings.HasSuffix(k, "(5") {
			f, t = []string{"", "Number"}, "NUMERIC(5,2)"
		}
		cols, kinds = append(cols, n), append(kinds, t)
		c := rec{"TableName": "film list", "ColumnName": n, "ColumnType": t}
		if f[len(f)-1] == "Enum" {
			enums = append(enums, n)
			c["IsEnum"] = true
		}
		columns = append(columns, c)
		want = append(want, n+" sq."+f[len(f)-1]+"Field")
	}
	cols, kinds = append(cols, "zip code", "zipCode"), append(kinds, "INT", "INT")
	columns = append(columns, rec{"TableName": "film list", "ColumnName": "zip code", "ColumnType": "INT"}, rec{"TableName": "film list", "ColumnName": "zipCode", "ColumnType": "INT"})
	want = append(want, "zip code sq.NumberField", "zipCode sq.NumberField")
	index := func(n string, r rec) rec {
		r["TableName"], r["IndexName"] = "film list", n
		if r["Columns"] == nil {
			r["Columns"] = list{"c0"}
		}
		return r
	}
	indexes := list{
		index("i1", rec{"Predicate": "c0 > 1"}),
		index("i2", rec{"IncludeColumns": list{"c1"}}),
		index("i3", rec{"Descending": list{true}}),
		index("i4", rec{"Columns": list{"(lower(c0))"}}),
		index("i5", rec{"SQL": "CREATE INDEX i5 ON t (c0) WHERE c0 > 1"}),
		index("i6", rec{"SQL": "CREATE INDEX i6 ON t (c0 DESC)"}),
		index("i7", rec{"Ignore": true}),
	}
	keys := list{
		rec{"TableName": "film list", "ConstraintName": "k1", "ConstraintType": "CHECK", "CheckExpr": "c0 > 1", "Columns": list{"c0"}},
		rec{"TableName": "film list", "ConstraintName": "k2", "ConstraintType": "UNIQUE", "Columns": list{"c0"}, "Ignore": true},
	}
	s := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
	schemas := list{
		rec{"SchemaName": "", "Tables": list{rec{"TableName": "film list", "Columns": columns, "Indexes": indexes, "Constraints": keys}},
			"Views": list{rec{"ViewName": "film list", "Columns": cols, "ColumnTypes": kinds, "EnumColumns": enums}}},
		rec{"SchemaName": "main", "Tables": list{rec{"TableSchema": "main", "TableName": "t1", "Columns": list{rec{"ColumnName": "a", "ColumnType": "INT"}}}},
			"Views": list{rec{"ViewSchema": "main", "ViewName": "t1", "Columns": list{"a"}, "ColumnTypes": list{"INT"}}}},
		rec{"SchemaName": "s2", "Tables": list{rec{"TableSchema": "s2", "TableName": "t2", "Columns": list{rec{"ColumnName": "a", "ColumnType": "INT"}}}},
			"Views": list{rec{"ViewSchema": "s2", "ViewName": "t2", "Columns": list{"a"}, "ColumnTypes": list{"INT"}}}},
	}
	c := env.build(e, s, types.NewPointer(cat), rec{"Dialect": d, "CurrentSchema": "main", "Schemas": schemas}, "catalog")
	want = append([]string{"film list:"}, want...)
	want = append(want, "t1:", "a sq.NumberField", "s2.t2:", "a sq.NumberField")
	srcs, ok := env.writeStructs(e, s.Heap, structs, read, marshal, c)
	for _, w := range srcs {
		got, err := fieldsOf(w.src)
		switch {
		case err != nil:
			res.violate(e, "C34", marshal, name+": the text isn't Go: "+err.Error())
		default:
			for _, l := range minus(want, got) {
				res.violate(e, "C34", read, name+": there should be "+strconv.Quote(l))
			}
			if len(minus(want, got)) == 0 {
				for _, l := range minus(got, want) {
					res.violate(e, "C34", read, name+": there is "+strconv.Quote(l))
				}
			}
		}
	}
	res.noteEngine(e)
	if ok && len(srcs) > 0 {
		res.note("scenes_confirmed", name)
	} else {
		res.note("undetermined", name)
		debugf("undetermined %s\n", name)
	}
}

// fieldsOf are the tables, columns, types and index modifiers of structs.
func fieldsOf(src string) ([]string, error) {
	file, err := parser.ParseFile(token.NewFileSet(), "t.go", "package p\n"+src, 0)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, decl := range file.Decls {
		spec := decl.(*ast.GenDecl).Specs[0].(*ast.TypeSpec)
		str, ok := spec.Type.(*ast.StructType)
		if !ok {
			continue
		}
		for _, f := range str.Fields.List {
			tag, ddl := "", ""
			if f.Tag != nil {
				if t, err := strconv.Unquote(f.Tag.Value); err == nil {
					tag, ddl = reflect.StructTag(t).Get("sq"), reflect.StructTag(t).Get("ddl")
				}
			}
			typ := types.ExprString(f.Type)
			name, end := spec.Name.Name, ":"
			if len(f.Names) > 0 {
				name, end = f.Names[0].Name, " "+typ
			}
			if tag == "" {
				tag = strings.ToLower(name)
			}
			for _, m := range []string{"index", "unique", "primarykey"} {
				if strings.Contains(" "+ddl+" ", " "+m) {
					end += " " + m
				}
			}
			out = append(out, tag+end)
		}
	}
	return out, nil
}

// writtenText is what MarshalText returned.
type writtenText struct {
	src  string
	heap map[absint.ObjID]*absint.Obj
}

// writeStructs hands a catalog to ReadCatalog and the structs to MarshalText.
func (env *Env) writeStructs(e *absint.Engine, heap map[absint.ObjID]*absint.Obj, structs types.Type, read, marshal *ssa.Function, c *AV) ([]writtenText, bool) {
	s := &absint.State{Heap: heap}
	id := e.Obj("structs", nil, "", structs, 0)
	s.Heap[id] = &absint.Obj{V: e.Zero(structs)}
	ts := absint.PtrV(absint.Ref{O: id})
	var out []writtenText
	ok := true
	for _, o := range e.RunFn(read, []*AV{ts, c}, nil, "", s.Heap, e.RootCtx.Child(nil, read)) {
		if o.Q != "" || !o.Ret.MustNil() {
			ok = false
			continue
		}
		for _, o := range e.RunFn(marshal, []*AV{ts}, nil, "", o.Heap, e.RootCtx.Child(nil, marshal)) {
			if o.Q != "" || o.Ret.K != absint.Tuple || len(o.Ret.Elems) != 2 || !o.Ret.Elems[1].MustNil() {
				ok = false
				continue
			}
			src, exact := textOf(e, &absint.State{Heap: o.Heap}, o.Ret.Elems[0])
			if !exact {
				ok = false
				continue
			}
			out = append(out, writtenText{src, o.Heap})
		}
	}
	return out, ok
}

// writeEngine is an engine for writing structs.
func (env *Env) writeEngine(res *Result, name string) *absint.Engine {
	e := env.declEngine(res, "C34", name)
	e.Few, e.Recur = 8000, 6
	e.Models["strconv.Quote"] = func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
		if t, ok := c.Args[0].One(); ok {
			return []absint.Outcome{{Ret: absint.StrV(strconv.Quote(t))}}
		}
		return []absint.Outcome{{Ret: absint.AnyStr()}}
	}
	return e
}

func (env *Env) judgeWritten(res *Result, d string, sc declScene) {
	visit := env.P.Method(ddlPkg, "StructParser", "VisitStruct")
	write := env.P.Method(ddlPkg, "StructParser", "WriteCatalog")
	mk := env.P.Func(ddlPkg, "NewStructParser")
	read := env.P.Method(ddlPkg, "TableStructs", "ReadCatalog")
	marshal := env.P.Method(ddlPkg, "TableStructs", "MarshalText")
	cat := env.P.Type(ddlPkg, "Catalog")
	structs := env.P.Type(ddlPkg, "TableStructs")
	name := d + ": " + sc.name
	if visit == nil || write == nil || mk == nil || read == nil || marshal == nil || cat == nil || structs == nil || len(visit.Params) != 2 || len(write.Params) != 2 || len(mk.Params) != 1 || len(read.Params) != 2 || len(marshal.Params) != 1 {
		res.note("undetermined", "no struct parser or writer")
		return
	}
	res.note("scenes", name)
	e := env.writeEngine(res, name)
	judged := true
	unknown := func(why string) {
		res.note("undetermined", name+": "+why)
		debugf("undetermined %s: %s\n", name, why)
		judged = false
	}
	// catalogs of declarations
	type made struct {
		c    *AV
		heap map[absint.ObjID]*absint.Obj
		ls   []string
	}
	catalogs := func(src, label string, heap map[absint.ObjID]*absint.Obj) []made {
		p, runs := env.declare(e, res, name, src, label, heap, "")
		if p == nil {
			judged = false
			return nil
		}
		var out []made
		for _, r := range runs {
			s := &absint.State{Heap: r.heap}
			c := env.build(e, s, types.NewPointer(cat), rec{"Dialect": d, "CurrentSchema": sc.current}, label+".catalog")
			ctx := e.RootCtx.Child(nil, write)
			if label != "decl" {
				ctx = ctx.Child(nil, write)
			}
			for _, o := range e.RunFn(write, []*AV{p, c}, nil, r.q, s.Heap, ctx) {
				if o.Q != "" || !o.Ret.MustNil() && !o.Ret.MayBeNil() && label == "decl" {
					unknown("the declarations aren't determined")
					continue
				}
				if !o.Ret.MayBeNil() {
					res.violate(e, "C34", marshal, name+": an error is reported for the written structs")
					continue
				}
				s := &absint.State{Heap: o.Heap}
				r := &declReader{env: env, e: e, s: s, d: d}
				ls := r.catalog(e.Load(s, c, cat))
				if r.inexact != "" {
					unknown(r.inexact)
					continue
				}
				out = append(out, made{c, o.Heap, ls})
			}
		}
		return out
	}
	n := 0
	for _, m := range catalogs(sc.src, "decl", nil) {
		srcs, ok := env.writeStructs(e, m.heap, structs, read, marshal, m.c)
		if !ok {
			unknown("the written text isn't determined")
		}
		for _, w := range srcs {
			debugf("%s: %s\n", name, w.src)
			if _, err := fieldsOf(w.src); err != nil {
				res.violate(e, "C34", marshal, name+": the text isn't Go: "+err.Error())
				continue
			}
			for _, again := range catalogs(w.src, "written", w.heap) {
				for _, diff := range diffDecls(plain(m.ls, sc.current), plain(again.ls, sc.current)) {
					res.violate(e, "C34", read, name+": when the written structs are read, "+diff)
				}
				n++
			}
		}
	}
	res.noteEngine(e)
	if judged && n > 0 {
		res.note("scenes_confirmed", name)
	}
}

// textOf is the text of a byte slice.
func textOf(e *absint.Engine, s *absint.State, v *AV) (string, bool) {
	if t, ok := absint.Text(v).One(); ok {
		return t, true
	}
	vs, exact := e.SliceElems(s, v)
	var b []byte
	for _, x := range vs {
		if x.K != absint.Int || x.Lo != x.Hi {
			return "", false
		}
		b = append(b, byte(x.Lo))
	}
	return string(b), exact
}

var noAction = regexp.MustCompile(` on(update|delete)=NO ACTION`)

var length = regexp.MustCompile(` len=[0-9A-Z]+`)

// plain leaves out of descriptions what is the default anyway, the length that
// is part of the type, the current schema and brackets around a whole default.
func plain(ls []string, current string) []string {
	var out []string
	for _, l := range ls {
		l = strings.ReplaceAll(noAction.ReplaceAllString(l, ""), " using=BTREE", "")
		l = length.ReplaceAllString(l, "")
		if current != "" {
			l = strings.ReplaceAll(l, " ref="+current+".", " ref=")
		}
		if i := strings.Index(l, " default=("); i >= 0 {
			i += len(" default=")
			if j := closingAt(l[i:]); j > 0 && (i+j+1 == len(l) || !strings.ContainsAny(l[i+j+1:i+j+2], "+-*/|") && strings.IndexAny(strings.TrimLeft(l[i+j+1:], " "), "+-*/|<>=:") != 0) {
				l = l[:i] + l[i+1:i+j] + l[i+j+1:]
			}
		}
		out = append(out, l)
	}
	return out
}

// closingAt is the position of the bracket that closes the first one.
func closingAt(s string) int {
	level, quoted := 0, false
	for i := range len(s) {
		switch {
		case s[i] == '\'':
			quoted = !quoted
		case s[i] == '(' && !quoted:
			level++
		case s[i] == ')' && !quoted:
			if level--; level == 0 {
				return i
			}
		}
	}
	return -1
}
