package checks

import (
	"fmt"
	"maps"
	"slices"
	"sort"
	"strconv"
	"strings"
)

// A model of what the schema statements of the four dialects do to a database.
// Generated scripts, known from the analysis of the generator, are judged by
// their effect on it, not by how they are phrased.

type simCol struct {
	typ, def, coll, gen, ident string
	notNull, auto              bool
	origin                     string // source column whose data it holds
}

type simCon struct {
	kind, cols, ref, refCols, onUpdate, onDelete, expr string
	unvalidated, deferrable, deferred                  bool
}

type simIdx struct {
	cols, using, include, where string
	unique                      bool
}

type simTable struct {
	cols  map[string]simCol
	order []string
	cons  map[string]simCon
	idx   map[string]simIdx
}

type simKey struct{ schema, table string }

func (k simKey) String() string {
	if k.schema == "" {
		return k.table
	}
	return k.schema + "." + k.table
}

type simDB struct {
	d, cur  string
	coll    string // the default collation
	schemas map[string]bool
	tables  map[simKey]*simTable
}

// simFail is a statement the database would refuse or that was not understood.
type simFail struct {
	file, stmt, why string
	unknown         bool
}

func newTable() *simTable {
	return &simTable{cols: map[string]simCol{}, cons: map[string]simCon{}, idx: map[string]simIdx{}}
}

func (t *simTable) clone() *simTable {
	return &simTable{cols: maps.Clone(t.cols), order: slices.Clone(t.order), cons: maps.Clone(t.cons), idx: maps.Clone(t.idx)}
}

func (db *simDB) clone() *simDB {
	n := &simDB{d: db.d, cur: db.cur, schemas: maps.Clone(db.schemas), tables: map[simKey]*simTable{}}
	for k, t := range db.tables {
		n.tables[k] = t.clone()
	}
	return n
}

func (db *simDB) key(schema, table string) simKey {
	if schema == "" {
		schema = db.cur
	}
	return simKey{schema, table}
}

// descriptions

func recs(v any) []rec {
	l, _ := v.(list)
	var out []rec
	for _, x := range l {
		out = append(out, x.(rec))
	}
	return out
}

func (r rec) str(f string) string { s, _ := r[f].(string); return s }
func (r rec) yes(f string) bool   { b, _ := r[f].(bool); return b }
func (r rec) strs(f string) []string {
	l, _ := r[f].(list)
	var out []string
	for _, x := range l {
		out = append(out, x.(string))
	}
	return out
}

func homeSchema(d string, scene rec) string {
	if c := scene.str("CurrentSchema"); c != "" || d != "sqlserver" {
		return c
	}
	return "dbo"
}

// collation is the name of a collation, empty for the one a column has anyway.
func (db *simDB) collation(n string) string {
	if n == db.coll || db.d == "postgres" && n == "default" || db.d == "sqlserver" && strings.EqualFold(n, "database_default") {
		return ""
	}
	return n
}

func simColumn(c rec) simCol {
	return simCol{typ: canonType(c.str("ColumnType")), def: canonDefault(c.str("ColumnDefault")), coll: c.str("CollationName"), gen: canonExpr(c.str("GeneratedExpr")),
		ident: canonExpr(c.str("ColumnIdentity")), notNull: c.yes("IsNotNull"), auto: c.yes("IsAutoincrement")}
}

func (db *simDB) constraint(c rec) simCon {
	x := simCon{kind: c.str("ConstraintType"), cols: strings.Join(c.strs("Columns"), ","), deferrable: c.yes("IsDeferrable"), deferred: c.yes("IsInitiallyDeferred")}
	if x.kind == "FOREIGN KEY" {
		x.ref = db.key(c.str("ReferencesSchema"), c.str("ReferencesTable")).String()
		x.refCols = strings.Join(c.strs("ReferencesColumns"), ",")
		x.onUpdate, x.onDelete = rule(c.str("UpdateRule")), rule(c.str("DeleteRule"))
	}
	if x.kind == "CHECK" {
		x.expr, x.cols = canonExpr(c.str("CheckExpr")), ""
	}
	return x
}

func rule(r string) string {
	if r == "NO ACTION" {
		return ""
	}
	return r
}

func simIndex(d string, x rec) simIdx {
	desc, _ := x["Descending"].(list)
	var cols []string
	for i, c := range x.strs("Columns") {
		if strings.HasPrefix(c, "(") {
			c = canonExpr(c)
		}
		if i < len(desc) && desc[i] == true {
			c += " DESC"
		}
		cols = append(cols, c)
	}
	ix := simIdx{cols: strings.Join(cols, ","), unique: x.yes("IsUnique"), using: strings.ToUpper(x.str("IndexType"))}
	if ix.using == "BTREE" {
		ix.using = ""
	}
	if d == "postgres" || d == "sqlserver" {
		ix.include = strings.Join(x.strs("IncludeColumns"), ",")
	}
	if d != "mysql" {
		ix.where = canonExpr(x.str("Predicate"))
	}
	return ix
}

// conName identifies a constraint: where names don't matter, by its shape.
func conName(d, name string, c simCon) string {
	switch {
	case d == "sqlite":
		return fmt.Sprintf("%s (%s) %s (%s) %s", c.kind, c.cols, c.ref, c.refCols, c.expr)
	case d == "mysql" && c.kind == "PRIMARY KEY":
		return "PRIMARY"
	}
	return name
}

func (db *simDB) table(t rec, all bool) *simTable {
	n := newTable()
	key := db.key(t.str("TableSchema"), t.str("TableName"))
	for _, c := range recs(t["Columns"]) {
		if c.yes("Ignore") && !all {
			continue
		}
		x := simColumn(c)
		x.coll = db.collation(x.coll)
		if all {
			x.origin = key.String() + "." + c.str("ColumnName")
		}
		n.cols[c.str("ColumnName")] = x
		n.order = append(n.order, c.str("ColumnName"))
	}
	for _, c := range recs(t["Constraints"]) {
		if c.yes("Ignore") && !all {
			continue
		}
		x := db.constraint(c)
		n.cons[conName(db.d, c.str("ConstraintName"), x)] = x
	}
	for _, i := range recs(t["Indexes"]) {
		if i.yes("Ignore") && !all {
			continue
		}
		n.idx[i.str("IndexName")] = simIndex(db.d, i)
	}
	return n
}

// simOf is the database a catalog describes, with everything in it.
func simOf(d string, scene rec) *simDB {
	db := &simDB{d: d, cur: homeSchema(d, scene), coll: scene.str("DefaultCollation"), schemas: map[string]bool{}, tables: map[simKey]*simTable{}}
	db.schemas[db.cur] = true
	for _, s := range recs(scene["Schemas"]) {
		db.schemas[db.key(s.str("SchemaName"), "").schema] = true
		for _, t := range recs(s["Tables"]) {
			db.tables[db.key(t.str("TableSchema"), t.str("TableName"))] = db.table(t, true)
		}
	}
	return db
}

func find(rs []rec, field, name string) rec {
	for _, r := range rs {
		if r.str(field) == name {
			return r
		}
	}
	return nil
}

// expectedDB is the database a migration from src to dest has to end with.
func expectedDB(d string, src, dest rec, drop bool) *simDB {
	db := simOf(d, src)
	srcSchemas, destSchemas := recs(src["Schemas"]), recs(dest["Schemas"])
	for _, ds := range destSchemas {
		if ds.yes("Ignore") {
			continue
		}
		name := ds.str("SchemaName")
		ss := find(srcSchemas, "SchemaName", name)
		db.schemas[db.key(name, "").schema] = true
		for _, dt := range recs(ds["Tables"]) {
			if dt.yes("Ignore") {
				continue
			}
			key := db.key(dt.str("TableSchema"), dt.str("TableName"))
			var st rec
			if ss != nil {
				st = find(recs(ss["Tables"]), "TableName", dt.str("TableName"))
			}
			want := db.table(dt, false)
			if st == nil {
				db.tables[key] = want
				continue
			}
			have := db.tables[key]
			inPlace := d != "sqlite" || drop
			for c, x := range want.cols {
				old, ok := have.cols[c]
				switch {
				case !ok:
					have.cols[c] = x
					have.order = append(have.order, c)
				case inPlace:
					x.origin = old.origin
					have.cols[c] = x
				}
			}
			if inPlace {
				for n, x := range want.cons {
					if x.kind == "PRIMARY KEY" {
						for m, y := range have.cons {
							if y.kind == "PRIMARY KEY" && m != n {
								delete(have.cons, m)
							}
						}
					}
					if old, ok := have.cons[n]; !ok || d == "mysql" && x.kind == "PRIMARY KEY" {
						have.cons[n] = x
					} else if d == "postgres" {
						old.deferrable, old.deferred = x.deferrable, x.deferred
						have.cons[n] = old
					}
				}
			}
			if !inPlace {
				// SQLite gets the constraints of new columns only
				for n, x := range want.cons {
					if !strings.Contains(x.cols, ",") && have.cols[x.cols].origin == "" && has(have.cols, x.cols) {
						have.cons[n] = x
					}
				}
			}
			for n, x := range want.idx {
				if _, ok := have.idx[n]; !ok {
					have.idx[n] = x
				}
			}
			if drop {
				full := db.table(dt, true)
				for _, c := range recs(st["Columns"]) {
					if n := c.str("ColumnName"); !c.yes("Ignore") && !has(full.cols, n) {
						have.dropColumn(db, n)
					}
				}
				for _, c := range recs(st["Constraints"]) {
					if n := conName(d, c.str("ConstraintName"), db.constraint(c)); !c.yes("Ignore") && !has(full.cons, n) {
						delete(have.cons, n)
					}
				}
				for _, x := range recs(st["Indexes"]) {
					if n := x.str("IndexName"); !x.yes("Ignore") && !has(full.idx, n) {
						delete(have.idx, n)
					}
				}
			}
		}
	}
	if drop {
		for _, ss := range srcSchemas {
			if ss.yes("Ignore") {
				continue
			}
			ds := find(destSchemas, "SchemaName", ss.str("SchemaName"))
			for _, t := range recs(ss["Tables"]) {
				if t.yes("Ignore") || ds != nil && (ds.yes("Ignore") || find(recs(ds["Tables"]), "TableName", t.str("TableName")) != nil) {
					continue
				}
				if ds == nil && ss.str("SchemaName") == "" && d != "sqlite" {
					continue // the unnamed schema cannot be dropped
				}
				delete(db.tables, db.key(t.str("TableSchema"), t.str("TableName")))
			}
			if ds == nil && ss.str("SchemaName") != "" {
				delete(db.schemas, ss.str("SchemaName"))
			}
		}
	}
	return db
}

func has[V any](m map[string]V, k string) bool { _, ok := m[k]; return ok }

func (t *simTable) dropColumn(db *simDB, c string) {
	delete(t.cols, c)
	t.order = slices.DeleteFunc(t.order, func(x string) bool { return x == c })
	// what depends on the column goes with it
	for n, x := range t.cons {
		if slices.Contains(strings.Split(x.cols, ","), c) {
			delete(t.cons, n)
		}
	}
	for n, x := range t.idx {
		if slices.Contains(strings.Split(strings.ReplaceAll(x.cols, " DESC", ""), ","), c) {
			delete(t.idx, n)
		}
	}
}

// compareDB lists how got differs from want.
func compareDB(want, got *simDB) []string {
	var out []string
	add := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	for s := range want.schemas {
		if !got.schemas[s] {
			add("schema %q is missing", s)
		}
	}
	for s := range got.schemas {
		if !want.schemas[s] {
			add("schema %q is left", s)
		}
	}
	for k := range got.tables {
		if want.tables[k] == nil {
			add("table %s is left", k)
		}
	}
	for k, w := range want.tables {
		g := got.tables[k]
		if g == nil {
			add("table %s is missing", k)
			continue
		}
		for n, x := range w.cols {
			y, ok := g.cols[n]
			switch {
			case !ok:
				add("column %s.%s is missing", k, n)
			case x.origin != y.origin && x.origin != "":
				add("column %s.%s lost its data", k, n)
			case x.origin != y.origin:
				add("column %s.%s holds the data of %s", k, n, y.origin)
			default:
				x.origin = y.origin
				if x != y {
					add("column %s.%s should be %s, is %s", k, n, x, y)
				}
			}
		}
		for n := range g.cols {
			if !has(w.cols, n) {
				add("column %s.%s is left", k, n)
			}
		}
		compareParts(add, "constraint", k, w.cons, g.cons)
		compareParts(add, "index", k, w.idx, g.idx)
	}
	sort.Strings(out)
	return out
}

func compareParts[V comparable](add func(string, ...any), what string, k simKey, want, got map[string]V) {
	for n, x := range want {
		y, ok := got[n]
		switch {
		case !ok:
			add("%s %s of %s is missing", what, n, k)
		case x != y:
			add("%s %s of %s should be %v, is %v", what, n, k, x, y)
		}
	}
	for n := range got {
		if !has(want, n) {
			add("%s %s of %s is left", what, n, k)
		}
	}
}

func (c simCol) String() string {
	s := c.typ
	if c.notNull {
		s += " NOT NULL"
	}
	if c.def != "" {
		s += " DEFAULT " + c.def
	}
	if c.ident != "" {
		s += " " + c.ident
	}
	if c.coll != "" {
		s += " COLLATE " + c.coll
	}
	if c.gen != "" {
		s += " AS " + c.gen
	}
	if c.auto {
		s += " AUTO_INCREMENT"
	}
	return s
}

func (c simCon) String() string {
	s := c.kind + "(" + c.cols + c.expr + ")"
	if c.ref != "" {
		s += " REFERENCES " + c.ref + "(" + c.refCols + ")"
	}
	if c.onUpdate != "" {
		s += " ON UPDATE " + c.onUpdate
	}
	if c.onDelete != "" {
		s += " ON DELETE " + c.onDelete
	}
	if c.deferrable {
		s += " DEFERRABLE"
	}
	if c.deferred {
		s += " INITIALLY DEFERRED"
	}
	if c.unvalidated {
		s += " NOT VALID"
	}
	return s
}

func (x simIdx) String() string {
	s := "(" + x.cols + ")"
	if x.unique {
		s = "UNIQUE " + s
	}
	if x.using != "" {
		s += " USING " + x.using
	}
	if x.include != "" {
		s += " INCLUDE (" + x.include + ")"
	}
	if x.where != "" {
		s += " WHERE " + x.where
	}
	return s
}

// tokens

type tok struct {
	k byte // 'w' word, 'q' quoted name, 's' text, 'p' punctuation
	s string
}

func lexSQL(text string) []tok {
	var out []tok
	for i := 0; i < len(text); {
		c := text[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '-' && strings.HasPrefix(text[i:], "--"):
			j := strings.IndexByte(text[i:], '\n')
			if j < 0 {
				return out
			}
			i += j
		case c == '"' || c == '`' || c == '\'' || c == '[' && strings.IndexByte(text[i:], ']') > 1:
			end := c
			if c == '[' {
				end = ']'
			}
			var b strings.Builder
			j := i + 1
			for ; j < len(text); j++ {
				if text[j] == end {
					if j+1 < len(text) && text[j+1] == end {
						j++
					} else {
						break
					}
				}
				b.WriteByte(text[j])
			}
			k := byte('q')
			if c == '\'' {
				k = 's'
			}
			out = append(out, tok{k, b.String()})
			i = j + 1
		case c == '_' || c == '@' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(text) && (text[j] == '_' || text[j] == '@' || text[j] == '$' || text[j] >= '0' && text[j] <= '9' || text[j] >= 'a' && text[j] <= 'z' || text[j] >= 'A' && text[j] <= 'Z' || text[j] >= 0x80) {
				j++
			}
			out = append(out, tok{'w', text[i:j]})
			i = j
		default:
			out = append(out, tok{'p', string(c)})
			i++
		}
	}
	return out
}

func tokText(ts []tok) string {
	var b []string
	for _, t := range ts {
		switch t.k {
		case 'w':
			b = append(b, strings.ToUpper(t.s))
		case 's':
			b = append(b, "'"+strings.ReplaceAll(t.s, "'", "''")+"'")
		case 'q':
			b = append(b, `"`+strings.ReplaceAll(t.s, `"`, `""`)+`"`)
		default:
			b = append(b, t.s)
		}
	}
	return strings.Join(b, " ")
}

// canonExpr is an expression without differences of case and spacing, and
// without brackets around it.
func canonExpr(e string) string {
	ts := lexSQL(e)
	for len(ts) > 2 && ts[0] == (tok{'p', "("}) && closing(ts, 0) == len(ts)-1 {
		ts = ts[1 : len(ts)-1]
	}
	return tokText(ts)
}

// canonDefault is a default without quotes around a number or truth value.
func canonDefault(e string) string {
	e = canonExpr(e)
	switch {
	case e == "TRUE":
		return "1"
	case e == "FALSE":
		return "0"
	case len(e) > 2 && e[0] == '\'':
		if _, err := strconv.ParseFloat(e[1:len(e)-1], 64); err == nil {
			return e[1 : len(e)-1]
		}
	}
	return e
}

var typeAliases = map[string]string{"INTEGER": "INT", "BOOL": "BOOLEAN", "DECIMAL": "NUMERIC", "CHARACTER VARYING": "VARCHAR"}

func canonType(t string) string {
	ts := lexSQL(t)
	i := 0
	for i < len(ts) && ts[i].k == 'w' {
		i++
	}
	n := tokText(ts[:i])
	if a := typeAliases[n]; a != "" {
		n = a
	}
	return strings.TrimSpace(n + " " + tokText(ts[i:]))
}

// closing is the index of the bracket matching the one at i, or -1.
func closing(ts []tok, i int) int {
	d := 0
	for j := i; j < len(ts); j++ {
		if ts[j].k == 'p' {
			switch ts[j].s {
			case "(":
				d++
			case ")":
				d--
				if d == 0 {
					return j
				}
			}
		}
	}
	return -1
}
