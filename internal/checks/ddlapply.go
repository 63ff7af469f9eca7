package checks

import (
	"fmt"
	"slices"
	"strings"
)

// simParser reads one statement.
type simParser struct {
	db *simDB
	ts []tok
	i  int
}

// collation reads the name of a collation for a column of the type.
func (p *simParser) collation(typ string) string {
	n := p.ident()
	if n == "" {
		p.refuse("the collation has no name")
	}
	if strings.HasSuffix(typ, "INT") {
		p.refuse("%s has no collation", typ)
	}
	return p.db.collation(n)
}

// refusal is why the database would refuse a statement; notUnderstood is a
// statement outside the modelled ones.
type refusal string
type notUnderstood string

func (p *simParser) end() bool { return p.i >= len(p.ts) }

func (p *simParser) peek(words ...string) bool {
	for j, w := range words {
		if p.i+j >= len(p.ts) {
			return false
		}
		t := p.ts[p.i+j]
		if t.k == 'q' || t.k == 's' || !strings.EqualFold(t.s, w) {
			return false
		}
	}
	return true
}

func (p *simParser) take(words ...string) bool {
	if p.peek(words...) {
		p.i += len(words)
		return true
	}
	return false
}

func (p *simParser) need(words ...string) {
	if !p.take(words...) {
		p.unknown()
	}
}

func (p *simParser) unknown() {
	panic(notUnderstood("not understood at: " + tokText(p.ts[min(p.i, len(p.ts)):])))
}

func (p *simParser) refuse(f string, a ...any) { panic(refusal(fmt.Sprintf(f, a...))) }

func (p *simParser) ident() string {
	if p.end() || p.ts[p.i].k != 'q' && p.ts[p.i].k != 'w' {
		p.unknown()
	}
	p.i++
	return p.ts[p.i-1].s
}

func (p *simParser) name() simKey {
	a := p.ident()
	if p.take(".") {
		return simKey{a, p.ident()}
	}
	return p.db.key("", a)
}

// group is the contents of the brackets that follow.
func (p *simParser) group() []tok {
	if !p.peek("(") {
		p.unknown()
	}
	j := closing(p.ts, p.i)
	if j < 0 {
		p.unknown()
	}
	g := p.ts[p.i+1 : j]
	p.i = j + 1
	return g
}

func splitComma(ts []tok) [][]tok {
	var out [][]tok
	d, last := 0, 0
	for i, t := range ts {
		if t.k != 'p' {
			continue
		}
		switch t.s {
		case "(":
			d++
		case ")":
			d--
		case ",":
			if d == 0 {
				out = append(out, ts[last:i])
				last = i + 1
			}
		}
	}
	if last < len(ts) {
		out = append(out, ts[last:])
	}
	return out
}

// names are the names in a bracketed list, as one text.
func (p *simParser) names() string {
	var out []string
	for _, c := range splitComma(p.group()) {
		q := &simParser{db: p.db, ts: c}
		n := ""
		if q.peek("(") {
			n = canonExpr(tokText(c))
			if k := len(c); k > 1 && c[k-1] == (tok{'w', "DESC"}) {
				n = canonExpr(tokText(c[:k-1])) + " DESC"
			}
			out = append(out, n)
			continue
		}
		n = q.ident()
		if q.take("DESC") {
			n += " DESC"
		}
		q.take("ASC")
		if !q.end() {
			q.unknown()
		}
		out = append(out, n)
	}
	return strings.Join(out, ",")
}

var defStops = []string{"PRIMARY", "AUTOINCREMENT", "AUTO_INCREMENT", "NOT", "NULL", "UNIQUE", "GENERATED", "IDENTITY", "DEFAULT", "ON", "COLLATE", "AS", "REFERENCES", "CHECK", "CONSTRAINT", "FOR"}

// until collects tokens up to one of the words or the end.
func (p *simParser) until(stops []string) []tok {
	start, d := p.i, 0
	for ; !p.end(); p.i++ {
		t := p.ts[p.i]
		if t.k == 'p' {
			switch t.s {
			case "(":
				d++
			case ")":
				d--
			}
		}
		if t.k == 'w' && d == 0 && slices.ContainsFunc(stops, func(s string) bool { return strings.EqualFold(s, t.s) }) {
			break
		}
	}
	return p.ts[start:p.i]
}

// columnDef reads a column definition and adds the column.
func (p *simParser) columnDef(key simKey, t *simTable, modify bool) {
	name := p.ident()
	var c simCol
	c.typ = canonType(tokText(p.until(defStops)))
	for !p.end() {
		switch {
		case p.take("PRIMARY", "KEY"):
			p.addCon(key, t, "", simCon{kind: "PRIMARY KEY", cols: name}, true)
		case p.take("AUTOINCREMENT"), p.take("AUTO_INCREMENT"):
			c.auto = true
		case p.take("NOT", "NULL"):
			c.notNull = true
		case p.take("NULL"):
		case p.take("UNIQUE"):
			p.addCon(key, t, "", simCon{kind: "UNIQUE", cols: name}, true)
		case p.peek("GENERATED", "ALWAYS", "AS", "("), p.peek("AS", "("):
			p.take("GENERATED", "ALWAYS")
			p.need("AS")
			c.gen = canonExpr(tokText(p.group()))
			if !p.take("STORED") && !p.take("PERSISTED") {
				p.take("VIRTUAL")
			}
		case p.peek("GENERATED"), p.peek("IDENTITY"):
			start := p.i
			p.i++
			if p.peek("BY", "DEFAULT") {
				p.i += 2
			}
			p.until(slices.DeleteFunc(slices.Clone(defStops), func(s string) bool { return s == "AS" || s == "IDENTITY" }))
			c.ident = tokText(p.ts[start:p.i])
		case p.take("DEFAULT"):
			c.def = canonDefault(tokText(p.until(defStops)))
		case p.take("ON", "UPDATE", "CURRENT_TIMESTAMP"):
		case p.take("COLLATE"):
			c.coll = p.collation(c.typ)
		case p.take("REFERENCES"):
			x := simCon{kind: "FOREIGN KEY", cols: name}
			p.references(&x)
			t.cols[name] = c // for keys that refer to their own table
			p.addCon(key, t, "", x, true)
		default:
			p.unknown()
		}
	}
	if old, ok := t.cols[name]; ok && modify {
		c.origin = old.origin
	} else if ok && slices.Contains(t.order, name) {
		p.refuse("column %s exists already", name)
	} else if modify {
		p.refuse("column %s of %s does not exist", name, key)
	} else {
		t.order = append(t.order, name)
	}
	t.cols[name] = c
}

func (p *simParser) references(x *simCon) {
	ref := p.name()
	x.ref, x.refCols = ref.String(), p.names()
	for {
		switch {
		case p.take("ON", "UPDATE"):
			x.onUpdate = p.action()
		case p.take("ON", "DELETE"):
			x.onDelete = p.action()
		case p.take("NOT", "DEFERRABLE"):
		case p.take("DEFERRABLE"):
			x.deferrable = true
		case p.take("INITIALLY", "DEFERRED"):
			x.deferred = true
		case p.take("INITIALLY", "IMMEDIATE"):
		case p.take("NOT", "VALID"):
			x.unvalidated = true
		default:
			return
		}
	}
}

func (p *simParser) action() string {
	for _, a := range []string{"SET NULL", "SET DEFAULT", "NO ACTION", "CASCADE", "RESTRICT"} {
		if p.take(strings.Fields(a)...) {
			return rule(a)
		}
	}
	p.unknown()
	return ""
}

var conStarts = []string{"CONSTRAINT", "PRIMARY", "UNIQUE", "FOREIGN", "CHECK", "EXCLUDE"}

func (p *simParser) atConstraint() bool {
	return !p.end() && p.ts[p.i].k == 'w' && slices.Contains(conStarts, strings.ToUpper(p.ts[p.i].s)) && !p.peek("UNIQUE", "INDEX")
}

// constraintDef reads a constraint definition and adds the constraint. Keys to
// other tables may be forward references while a table is created in SQLite.
func (p *simParser) constraintDef(key simKey, t *simTable, lenient bool) {
	name := ""
	if p.take("CONSTRAINT") {
		name = p.ident()
	}
	var x simCon
	switch {
	case p.take("PRIMARY", "KEY"), p.take("UNIQUE"):
		x.kind = "UNIQUE"
		if strings.EqualFold(p.ts[p.i-1].s, "KEY") {
			x.kind = "PRIMARY KEY"
		}
		if p.take("USING", "INDEX") {
			n := p.ident()
			ix, ok := t.idx[n]
			if !ok {
				p.refuse("index %s does not exist on %s", n, key)
			}
			if !ix.unique {
				p.refuse("index %s is not unique", n)
			}
			delete(t.idx, n)
			x.cols = ix.cols
			break
		}
		x.cols = p.names()
	case p.take("FOREIGN", "KEY"):
		x.kind = "FOREIGN KEY"
		x.cols = p.names()
		p.need("REFERENCES")
		p.references(&x)
	case p.take("CHECK"):
		x.kind = "CHECK"
		x.expr = canonExpr(tokText(p.group()))
	default:
		p.unknown()
	}
	for !p.end() {
		switch {
		case p.take("DEFERRABLE"):
			x.deferrable = true
		case p.take("NOT", "DEFERRABLE"):
		case p.take("INITIALLY", "DEFERRED"):
			x.deferred = true
		case p.take("NOT", "VALID"):
			x.unvalidated = true
		default:
			p.unknown()
		}
	}
	p.addCon(key, t, name, x, lenient)
}

func (p *simParser) addCon(key simKey, t *simTable, name string, x simCon, lenient bool) {
	name = conName(p.db.d, name, x)
	if _, ok := t.cons[name]; ok && p.db.d != "sqlite" {
		p.refuse("constraint %s exists already", name)
	}
	if x.kind == "PRIMARY KEY" {
		for _, y := range t.cons {
			if y.kind == "PRIMARY KEY" {
				p.refuse("table %s has a primary key already", key)
			}
		}
	}
	if !lenient && x.kind != "CHECK" {
		for _, c := range strings.Split(x.cols, ",") {
			if !has(t.cols, c) {
				p.refuse("column %s of %s does not exist", c, key)
			}
		}
		if x.ref != "" {
			r := p.db.byName(x.ref)
			if r == nil {
				p.refuse("table %s does not exist", x.ref)
			}
			for _, c := range strings.Split(x.refCols, ",") {
				if !has(r.cols, c) {
					p.refuse("column %s of %s does not exist", c, x.ref)
				}
			}
		}
	}
	t.cons[name] = x
}

func (db *simDB) byName(n string) *simTable {
	for k, t := range db.tables {
		if k.String() == n {
			return t
		}
	}
	return nil
}

// indexDef reads an index definition after INDEX and adds the index.
func (p *simParser) indexDef(unique bool, using string, inline *simKey) {
	p.take("CONCURRENTLY")
	p.take("IF", "NOT", "EXISTS")
	name := p.ident()
	ix := simIdx{unique: unique, using: using}
	if p.take("USING") {
		ix.using = strings.ToUpper(p.ident())
	}
	var key simKey
	if inline != nil {
		key = *inline
		if !p.peek("(") && !p.end() {
			ix.using = strings.ToUpper(p.ident())
		}
	} else {
		p.need("ON")
		key = p.name()
		if p.take("USING") {
			ix.using = strings.ToUpper(p.ident())
		}
	}
	if ix.using == "BTREE" {
		ix.using = ""
	}
	t := p.table(key)
	ix.cols = p.names()
	if p.take("INCLUDE") {
		ix.include = p.names()
	}
	if p.take("WHERE") {
		ix.where = canonExpr(tokText(p.ts[p.i:]))
		p.i = len(p.ts)
	}
	if !p.end() {
		p.unknown()
	}
	if has(t.idx, name) {
		p.refuse("index %s exists already", name)
	}
	if p.db.d == "postgres" || p.db.d == "sqlite" {
		for k, o := range p.db.tables {
			if k.schema == key.schema && has(o.idx, name) {
				p.refuse("index %s exists already (on %s)", name, k)
			}
		}
	}
	for _, c := range strings.Split(ix.cols+","+ix.include, ",") {
		c = strings.TrimSuffix(c, " DESC")
		if c != "" && !strings.Contains(c, "(") && !strings.Contains(c, " ") && !has(t.cols, c) {
			p.refuse("column %s of %s does not exist", c, key)
		}
	}
	t.idx[name] = ix
}

func (p *simParser) table(k simKey) *simTable {
	t := p.db.tables[k]
	if t == nil {
		p.refuse("table %s does not exist", k)
	}
	return t
}

func (p *simParser) dropConstraint(key simKey, t *simTable, maybe bool) {
	n := p.ident()
	if p.db.d == "mysql" && !has(t.cons, n) {
		// the primary key goes by PRIMARY whatever the catalog calls it
		for m, x := range t.cons {
			if x.kind == "PRIMARY KEY" && strings.EqualFold(n, "PRIMARY") {
				n = m
			}
		}
	}
	if !has(t.cons, n) {
		if !maybe {
			p.refuse("constraint %s of %s does not exist", n, key)
		}
		return
	}
	delete(t.cons, n)
}

func (p *simParser) dropColumn(key simKey, t *simTable, maybe bool) {
	n := p.ident()
	if !has(t.cols, n) {
		if !maybe {
			p.refuse("column %s of %s does not exist", n, key)
		}
		return
	}
	if p.db.d == "sqlserver" || p.db.d == "sqlite" {
		for m, x := range t.cons {
			if slices.Contains(strings.Split(x.cols, ","), n) && !(p.db.d == "sqlite" && x.kind == "FOREIGN KEY") {
				p.refuse("column %s of %s is still used by constraint %s", n, key, m)
			}
		}
		for m, x := range t.idx {
			if slices.Contains(strings.Split(strings.ReplaceAll(x.cols, " DESC", ""), ","), n) {
				p.refuse("column %s of %s is still used by index %s", n, key, m)
			}
		}
	}
	for k, o := range p.db.tables {
		for m, x := range o.cons {
			if x.ref == key.String() && slices.Contains(strings.Split(x.refCols, ","), n) && p.db.d != "sqlite" && p.db.d != "postgres" {
				p.refuse("column %s of %s is still referenced by %s of %s", n, key, m, k)
			}
		}
	}
	t.dropColumn(p.db, n)
}

func (p *simParser) alterColumn(key simKey, t *simTable) {
	p.take("COLUMN")
	n := p.ident()
	c, ok := t.cols[n]
	if !ok {
		p.refuse("column %s of %s does not exist", n, key)
	}
	switch {
	case p.take("SET", "NOT", "NULL"):
		c.notNull = true
	case p.take("DROP", "NOT", "NULL"):
		c.notNull = false
	case p.take("SET", "DEFAULT"):
		c.def = canonDefault(tokText(p.ts[p.i:]))
		p.i = len(p.ts)
	case p.take("DROP", "DEFAULT"):
		c.def = ""
	case p.take("DROP", "IDENTITY"):
		p.take("IF", "EXISTS")
		c.ident = ""
	case p.take("ADD"):
		c.ident = tokText(p.ts[p.i:])
		p.i = len(p.ts)
	default:
		full := !(p.take("TYPE") || p.take("SET", "DATA", "TYPE"))
		c.typ = canonType(tokText(p.until(defStops)))
		c.coll = ""
		if full {
			c.notNull = false
		}
		for !p.end() {
			switch {
			case p.take("COLLATE"):
				c.coll = p.collation(c.typ)
			case p.take("NOT", "NULL"):
				c.notNull = true
			case p.take("NULL"):
				c.notNull = false
			default:
				p.unknown()
			}
		}
		if p.db.d == "sqlserver" {
			for m, x := range t.idx {
				if slices.Contains(strings.Split(strings.ReplaceAll(x.cols, " DESC", ""), ","), n) {
					p.refuse("column %s of %s is still used by index %s", n, key, m)
				}
			}
			for m, x := range t.cons {
				if slices.Contains(strings.Split(x.cols, ","), n) {
					p.refuse("column %s of %s is still used by constraint %s", n, key, m)
				}
			}
		}
	}
	if !p.end() {
		p.unknown()
	}
	t.cols[n] = c
}

// statement applies one statement.
func (p *simParser) statement() {
	db := p.db
	switch {
	case p.take("PRAGMA"), p.take("SET"):
	case p.take("IF", "SCHEMA_ID"):
		p.group()
		p.need("IS", "NULL", "EXEC")
		g := p.group()
		if len(g) != 1 || g[0].k != 's' {
			p.unknown()
		}
		q := &simParser{db: db, ts: lexSQL(g[0].s)}
		q.need("CREATE", "SCHEMA")
		db.schemas[q.ident()] = true
	case p.take("CREATE", "SCHEMA"):
		maybe := p.take("IF", "NOT", "EXISTS")
		n := p.ident()
		if db.schemas[n] && !maybe {
			p.refuse("schema %s exists already", n)
		}
		db.schemas[n] = true
	case p.take("DROP", "SCHEMA"):
		maybe := p.take("IF", "EXISTS")
		n := p.ident()
		if !db.schemas[n] && !maybe {
			p.refuse("schema %s does not exist", n)
		}
		all := p.take("CASCADE") || db.d == "mysql"
		for k := range db.tables {
			if k.schema != n {
				continue
			}
			if !all {
				p.refuse("schema %s still contains %s", n, k)
			}
			delete(db.tables, k)
			for _, o := range db.tables {
				for m, x := range o.cons {
					if x.ref == k.String() {
						if db.d == "mysql" {
							p.refuse("table %s is still referenced by %s", k, m)
						}
						delete(o.cons, m)
					}
				}
			}
		}
		delete(db.schemas, n)
	case p.take("CREATE", "TABLE"):
		maybe := p.take("IF", "NOT", "EXISTS")
		key := p.name()
		if db.tables[key] != nil {
			if maybe {
				return
			}
			p.refuse("table %s exists already", key)
		}
		if !db.schemas[key.schema] {
			p.refuse("schema %s does not exist", key.schema)
		}
		t := newTable()
		parts := splitComma(p.group())
		if !p.end() {
			p.unknown()
		}
		for _, ts := range parts {
			q := &simParser{db: db, ts: ts}
			if q.atConstraint() {
				q.constraintDef(key, t, true)
			} else {
				q.columnDef(key, t, false)
			}
		}
		for n, x := range t.cons {
			for _, c := range strings.Split(x.cols, ",") {
				if x.kind != "CHECK" && !has(t.cols, c) {
					p.refuse("constraint %s names column %s, which %s does not have", n, c, key)
				}
			}
		}
		if len(t.cols) == 0 {
			p.refuse("table %s has no columns", key)
		}
		db.tables[key] = t
	case p.take("DROP", "TABLE"):
		maybe := p.take("IF", "EXISTS")
		key := p.name()
		if db.tables[key] == nil {
			if maybe {
				return
			}
			p.refuse("table %s does not exist", key)
		}
		cascade := p.take("CASCADE")
		for k, o := range db.tables {
			for m, x := range o.cons {
				if x.ref == key.String() && k != key && db.d != "sqlite" {
					if !cascade {
						p.refuse("table %s is still referenced by %s of %s", key, m, k)
					}
					delete(o.cons, m)
				}
			}
		}
		delete(db.tables, key)
	case p.take("CREATE", "INDEX"):
		p.indexDef(false, "", nil)
	case p.take("CREATE", "UNIQUE", "INDEX"):
		p.indexDef(true, "", nil)
	case p.take("CREATE", "FULLTEXT", "INDEX"):
		p.indexDef(false, "FULLTEXT", nil)
	case p.take("CREATE", "SPATIAL", "INDEX"):
		p.indexDef(false, "SPATIAL", nil)
	case p.take("DROP", "INDEX"):
		p.take("CONCURRENTLY")
		maybe := p.take("IF", "EXISTS")
		key := p.name()
		if p.take("ON") {
			n := key.table
			key = p.name()
			t := p.table(key)
			if !has(t.idx, n) {
				p.refuse("index %s of %s does not exist", n, key)
			}
			delete(t.idx, n)
			return
		}
		found := false
		for k, t := range db.tables {
			if k.schema == key.schema && has(t.idx, key.table) {
				delete(t.idx, key.table)
				found = true
			}
		}
		if !found && !maybe {
			p.refuse("index %s does not exist", key)
		}
	case p.take("INSERT", "INTO"):
		to := p.name()
		t := p.table(to)
		cols := p.names()
		p.need("SELECT")
		sel := p.until([]string{"FROM"})
		p.need("FROM")
		from := p.name()
		f := p.table(from)
		if !p.end() {
			p.unknown()
		}
		var in []string
		for _, c := range splitComma(sel) {
			q := &simParser{db: db, ts: c}
			in = append(in, q.ident())
			if !q.end() {
				q.unknown()
			}
		}
		out := strings.Split(cols, ",")
		if len(in) != len(out) {
			p.refuse("%d columns take %d values", len(out), len(in))
		}
		for i := range in {
			a, ok1 := f.cols[in[i]]
			b, ok2 := t.cols[out[i]]
			if !ok1 || !ok2 {
				p.refuse("column %s of %s or %s of %s does not exist", in[i], from, out[i], to)
			}
			if b.gen != "" {
				p.refuse("column %s of %s is generated", out[i], to)
			}
			b.origin = a.origin
			t.cols[out[i]] = b
		}
	case p.take("ALTER", "TABLE"):
		key := p.name()
		t := p.table(key)
		for _, ts := range splitComma(p.ts[p.i:]) {
			q := &simParser{db: db, ts: ts}
			q.alter(key, t)
			if t != db.tables[key] {
				return // renamed
			}
		}
	default:
		p.unknown()
	}
}

func (p *simParser) alter(key simKey, t *simTable) {
	switch {
	case p.take("ADD", "DEFAULT"):
		def := canonDefault(tokText(p.until([]string{"FOR"})))
		p.need("FOR")
		n := p.ident()
		c, ok := t.cols[n]
		if !ok {
			p.refuse("column %s of %s does not exist", n, key)
		}
		if c.def != "" {
			p.refuse("column %s of %s has a default already", n, key)
		}
		c.def = def
		t.cols[n] = c
	case p.take("ADD", "COLUMN"):
		p.take("IF", "NOT", "EXISTS")
		if p.db.d == "sqlite" {
			for i := range p.ts {
				q := &simParser{ts: p.ts, i: i}
				if q.peek("PRIMARY", "KEY") || q.peek("UNIQUE") {
					p.refuse("SQLite cannot add a PRIMARY KEY or UNIQUE column")
				}
			}
		}
		p.columnDef(key, t, false)
	case p.take("MODIFY", "COLUMN"), p.take("MODIFY"):
		p.columnDef(key, t, true)
	case p.take("ADD", "INDEX"):
		p.indexDef(false, "", &key)
	case p.take("ADD", "UNIQUE", "INDEX"):
		p.indexDef(true, "", &key)
	case p.take("ADD", "FULLTEXT", "INDEX"):
		p.indexDef(false, "FULLTEXT", &key)
	case p.take("ADD", "SPATIAL", "INDEX"):
		p.indexDef(false, "SPATIAL", &key)
	case p.take("ADD"):
		if p.atConstraint() {
			p.constraintDef(key, t, false)
		} else {
			p.columnDef(key, t, false)
		}
	case p.take("DROP", "CONSTRAINT"):
		p.dropConstraint(key, t, p.take("IF", "EXISTS"))
	case p.take("DROP", "FOREIGN", "KEY"):
		p.dropConstraint(key, t, p.take("IF", "EXISTS"))
	case p.take("DROP", "PRIMARY", "KEY"):
		found := false
		for n, x := range t.cons {
			if x.kind == "PRIMARY KEY" {
				delete(t.cons, n)
				found = true
			}
		}
		if !found {
			p.refuse("table %s has no primary key", key)
		}
	case p.take("DROP", "INDEX"):
		n := p.ident()
		if !has(t.idx, n) {
			p.refuse("index %s of %s does not exist", n, key)
		}
		delete(t.idx, n)
	case p.take("DROP", "COLUMN"):
		p.dropColumn(key, t, p.take("IF", "EXISTS"))
	case p.take("ALTER", "CONSTRAINT"):
		n := p.ident()
		x, ok := t.cons[n]
		if !ok {
			p.refuse("constraint %s of %s does not exist", n, key)
		}
		switch {
		case p.take("NOT", "DEFERRABLE"):
			x.deferrable, x.deferred = false, false
		case p.take("DEFERRABLE"):
			x.deferrable, x.deferred = true, false
		}
		if p.take("INITIALLY", "DEFERRED") {
			if !x.deferrable {
				p.refuse("constraint %s declared INITIALLY DEFERRED must be DEFERRABLE", n)
			}
			x.deferred = true
		} else if p.take("INITIALLY", "IMMEDIATE") {
			x.deferred = false
		}
		t.cons[n] = x
	case p.take("ALTER"):
		p.alterColumn(key, t)
	case p.take("VALIDATE", "CONSTRAINT"):
		n := p.ident()
		x, ok := t.cons[n]
		if !ok {
			p.refuse("constraint %s of %s does not exist", n, key)
		}
		x.unvalidated = false
		t.cons[n] = x
	case p.take("RENAME", "TO"):
		to := simKey{key.schema, p.ident()}
		if p.db.tables[to] != nil {
			p.refuse("table %s exists already", to)
		}
		delete(p.db.tables, key)
		p.db.tables[to] = t
	default:
		p.unknown()
	}
	if !p.end() {
		p.unknown()
	}
}

// statementsOf splits a script into statements.
func statementsOf(text string) [][]tok {
	var out [][]tok
	ts := lexSQL(text)
	last, depth, block := 0, 0, 0
	for i, t := range ts {
		switch {
		case t.k == 'w' && strings.EqualFold(t.s, "BEGIN") && i == last:
			block++
		case t.k == 'w' && strings.EqualFold(t.s, "END") && block > 0:
			block--
		case t == tok{'p', "("}:
			depth++
		case t == tok{'p', ")"}:
			depth--
		case t == tok{'p', ";"} && block == 0:
			if i > last {
				out = append(out, ts[last:i])
			}
			last, depth = i+1, 0
		}
	}
	if last < len(ts) {
		out = append(out, ts[last:])
	}
	_ = depth
	return out
}

// dropDefaultBlock recognises the block that removes a SQL Server default by
// looking its name up.
func (p *simParser) dropDefaultBlock() bool {
	if !p.peek("BEGIN") {
		return false
	}
	var table, column, exec string
	schema := ""
	for i := range p.ts {
		q := &simParser{db: p.db, ts: p.ts, i: i}
		lit := func() string {
			if !q.end() && q.ts[q.i].k == 's' {
				return q.ts[q.i].s
			}
			return ""
		}
		switch {
		case q.take("TABLES", ".", "NAME", "="):
			table = lit()
		case q.take("COLUMNS", ".", "NAME", "="):
			column = lit()
		case q.take("SCHEMA_NAME", "(", "TABLES", ".", "SCHEMA_ID", ")", "="):
			schema = lit()
		case q.take("EXEC", "("):
			exec = lit()
		}
	}
	if table == "" || column == "" || exec == "" {
		p.unknown()
	}
	q := &simParser{db: p.db, ts: lexSQL(exec)}
	q.need("ALTER", "TABLE")
	key := q.name()
	q.need("DROP", "CONSTRAINT")
	if !q.end() {
		q.unknown()
	}
	if key.table != table || schema != "" && key.schema != schema {
		p.refuse("the default of %s.%s is looked up but %s is altered", schema, table, key)
	}
	t := p.table(key)
	c, ok := t.cols[column]
	if !ok {
		p.refuse("column %s of %s does not exist", column, key)
	}
	if c.def == "" {
		p.refuse("column %s of %s has no default", column, key)
	}
	c.def = ""
	t.cols[column] = c
	return true
}

// apply runs a script; the first statement the database would refuse ends it.
func (db *simDB) apply(file, text string) *simFail {
	for _, ts := range statementsOf(text) {
		if f := db.exec(file, ts); f != nil {
			return f
		}
	}
	return nil
}

func (db *simDB) exec(file string, ts []tok) (f *simFail) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case refusal:
			f = &simFail{file, tokText(ts), string(r), false}
		case notUnderstood:
			if m := malformed(db.d, ts); m != "" {
				f = &simFail{file, tokText(ts), m, false}
			} else {
				f = &simFail{file, tokText(ts), string(r), true}
			}
		default:
			panic(r)
		}
	}()
	p := &simParser{db: db, ts: ts}
	if p.dropDefaultBlock() {
		return nil
	}
	p.statement()
	return nil
}

var sqlVerbs = map[string]bool{}

func init() {
	for _, v := range strings.Fields("ALTER ANALYZE ATTACH BEGIN CALL COMMENT COMMIT COPY CREATE DECLARE DELETE DETACH DO DROP END EXEC EXECUTE GO GRANT IF INSERT LOCK MERGE PRAGMA REFRESH REINDEX RENAME REPLACE REVOKE ROLLBACK SAVEPOINT RELEASE SELECT SET START TRUNCATE UNLOCK UPDATE USE VACUUM WITH") {
		sqlVerbs[v] = true
	}
}

// malformed tells why no dialect can read a statement, if that is plain.
func malformed(d string, ts []tok) string {
	if len(ts) == 0 {
		return ""
	}
	if ts[0].k != 'w' || !sqlVerbs[strings.ToUpper(ts[0].s)] {
		return "it doesn't begin like a statement"
	}
	depth := 0
	for i, t := range ts {
		switch t {
		case tok{'p', "("}:
			depth++
		case tok{'p', ")"}:
			if depth--; depth < 0 {
				return "a bracket too much"
			}
		}
		if i == 0 {
			continue
		}
		if u := ts[i-1]; t.k == 'p' && u.k == 'p' {
			switch u.s + t.s {
			case ",,", "(,", ",)":
				return "something is missing between " + u.s + " and " + t.s
			}
		}
		if d != "sqlserver" && depth == 0 && t.k == 'w' && i+1 < len(ts) && ts[i+1].k == 'w' && ts[0].k == 'w' {
			first, a, b := strings.ToUpper(ts[0].s), strings.ToUpper(t.s), strings.ToUpper(ts[i+1].s)
			if (first == "ALTER" || first == "DROP" || first == "CREATE" && len(ts) > 1 && (strings.EqualFold(ts[1].s, "TABLE") || strings.EqualFold(ts[1].s, "INDEX"))) &&
				(a == "ALTER" || a == "CREATE" || a == "DROP") && b == "TABLE" {
				return "it isn't separated from the next one"
			}
		}
	}
	if depth > 0 {
		return "a bracket is missing"
	}
	return ""
}
