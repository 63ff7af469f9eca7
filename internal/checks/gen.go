package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"sqverif/internal/absint"
)

// genFile is one script of a generated migration.
type genFile struct{ name, text string }

// genOut is what generate yields; inexact says why the texts aren't known.
type genOut struct {
	files    []genFile
	warnings []string
	inexact  string
}

// generate analyses GenerateCmd.Results for the described catalogs and gives
// every result it can succeed with.
func (env *Env) generate(res *Result, name, d string, src, dest rec, drop bool) ([]genOut, *absint.Engine) {
	e := env.newEngine()
	e.Few, e.PerIter = 64, true
	e.Models = merged(env.quotesFor(d))
	fn := env.P.Method(ddlPkg, "GenerateCmd", "Results")
	if fn == nil {
		res.Err = fmt.Errorf("no GenerateCmd.Results")
		return nil, e
	}
	st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
	cat := types.NewPointer(env.P.Type(ddlPkg, "Catalog"))
	set := map[string]*AV{
		"Dialect":     absint.StrV(d),
		"Prefix":      absint.StrV("gen"),
		"SrcCatalog":  env.build(e, st, cat, withDialect(src, d), "src"),
		"DestCatalog": env.build(e, st, cat, withDialect(dest, d), "dest"),
		"DropObjects": absint.False(),
	}
	if drop {
		set["DropObjects"] = absint.True()
	}
	env.zeroHidden(e, "GenerateCmd", set)
	named := env.P.Type(ddlPkg, "GenerateCmd")
	v := env.cmdValue(e, st, "GenerateCmd", named, set)
	id := e.Obj("root:GenerateCmd", nil, "", named, named.Obj().Pos())
	st.Heap[id] = &absint.Obj{V: v}
	outs := e.RunFn(fn, []*AV{absint.PtrV(absint.Ref{O: id})}, nil, "", st.Heap, e.RootCtx.Child(nil, fn))
	res.noteEngine(e)
	res.note("roots", "GenerateCmd.Results/"+name)
	var all []genOut
	for _, o := range outs {
		if o.Ret.K != absint.Tuple || len(o.Ret.Elems) != 3 || !o.Ret.Elems[2].MayBeNil() {
			continue
		}
		s := &absint.State{Heap: o.Heap}
		g := genOut{}
		files, exact := e.SliceElems(s, o.Ret.Elems[0])
		if !exact {
			g.inexact = fmt.Sprintf("the files aren't known: %v", o.Ret.Elems[0])
		}
		for i, f := range files {
			n, t, ok := fileParts(e, s, f)
			if !ok {
				g.inexact = fmt.Sprintf("file %d isn't known", i)
			}
			g.files = append(g.files, genFile{n, t})
		}
		ws, exact := e.SliceElems(s, o.Ret.Elems[1])
		if !exact {
			g.warnings = append(g.warnings, "…")
		}
		for _, w := range ws {
			t, ok := absint.Text(w).One()
			if !ok {
				t = "…"
			}
			g.warnings = append(g.warnings, t)
		}
		debugf("%s: %+v\n", name, g)
		if g.inexact != "" {
			res.note("inexact", name+": "+g.inexact)
		}
		all = append(all, g)
	}
	return all, e
}

func withDialect(r rec, d string) rec {
	n := rec{"Dialect": d}
	for k, v := range r {
		n[k] = v
	}
	return n
}

// fileParts finds the name and the contents of a file in whatever represents
// it: the contents are the only buffer or longer text, the name ends in .sql.
func fileParts(e *absint.Engine, s *absint.State, v *AV) (name, text string, ok bool) {
	var names, texts []string
	exact := true
	seen := map[absint.ObjID]bool{}
	var walk func(v *AV)
	leaf := func(x *AV) {
		t, one := absint.Text(x).One()
		switch {
		case !one:
			exact = false
		case strings.HasSuffix(t, ".sql") && !strings.Contains(t, " "):
			names = append(names, t)
		case t != "":
			texts = append(texts, t)
		}
	}
	object := func(o absint.ObjID) {
		if seen[o] || s.Heap[o] == nil {
			return
		}
		seen[o] = true
		switch types.TypeString(e.Info(o).T, nil) {
		case "bytes.Buffer", "strings.Builder", "bytes.Reader", "strings.Reader":
			leaf(e.BufText(s, absint.PtrV(absint.Ref{O: o})))
			return
		}
		walk(s.Heap[o].V)
	}
	walk = func(v *AV) {
		switch {
		case v.K == absint.Str:
			leaf(v)
		case v.K == absint.Slice && v.Consts != nil:
			leaf(absint.Text(v))
		case v.K == absint.Struct:
			for _, x := range v.Elems {
				walk(x)
			}
		default:
			for _, o := range absint.ObjsOf(v) {
				object(o)
			}
		}
	}
	walk(v)
	if !exact || len(names) != 1 || len(texts) > 1 {
		return "", "", false
	}
	if len(texts) == 1 {
		text = texts[0]
	}
	return names[0], text, true
}

// statements splits a script: at semicolons outside quotes and BEGIN blocks.
func (f genFile) statements() []string {
	var out []string
	var b strings.Builder
	quote := byte(0)
	for i := 0; i < len(f.text); i++ {
		c := f.text[i]
		if quote != 0 {
			if c == quote {
				quote = 0
			}
		} else if c == '\'' || c == '"' || c == '`' {
			quote = c
		} else if c == ';' {
			if t := strings.TrimSpace(b.String()); t != "" {
				out = append(out, strings.Join(strings.Fields(t), " "))
			}
			b.Reset()
			continue
		}
		b.WriteByte(c)
	}
	if t := strings.TrimSpace(b.String()); t != "" {
		out = append(out, strings.Join(strings.Fields(t), " "))
	}
	return out
}

func (g genOut) String() string {
	var b strings.Builder
	for _, f := range g.files {
		fmt.Fprintf(&b, "-- %s\n%s", f.name, f.text)
	}
	sort.Strings(g.warnings)
	for _, w := range g.warnings {
		fmt.Fprintf(&b, "!! %s\n", w)
	}
	return b.String()
}

// object descriptions for scenes

func sceneOf(current string, schemas ...any) rec {
	return rec{"CurrentSchema": current, "VersionNums": &AV{K: absint.Slice, Nil: absint.MayNil}, "Schemas": list(schemas)}
}

func schemaOf(name string, tables ...any) rec {
	return rec{"SchemaName": name, "Tables": list(tables)}
}

func tableOf(schema, name string, parts ...rec) rec {
	t := rec{"TableSchema": schema, "TableName": name}
	var cols, cons, idx list
	for _, p := range parts {
		q := rec{"TableSchema": schema, "TableName": name}
		for k, v := range p {
			q[k] = v
		}
		switch {
		case q["ColumnName"] != nil:
			cols = append(cols, q)
		case q["ConstraintName"] != nil:
			cons = append(cons, q)
		case q["IndexName"] != nil:
			idx = append(idx, q)
		}
	}
	// what a catalog also says in the column of a key over one column
	for _, x := range cons {
		k := x.(rec)
		names := k.strs("Columns")
		if len(names) != 1 {
			continue
		}
		for _, y := range cols {
			c := y.(rec)
			if c.str("ColumnName") != names[0] {
				continue
			}
			switch k.str("ConstraintType") {
			case "PRIMARY KEY":
				c["IsPrimaryKey"] = true
			case "UNIQUE":
				c["IsUnique"] = true
			case "FOREIGN KEY":
				c["ReferencesSchema"], c["ReferencesTable"], c["ReferencesColumn"] = k.str("ReferencesSchema"), k.str("ReferencesTable"), k.strs("ReferencesColumns")[0]
				c["UpdateRule"], c["DeleteRule"] = k.str("UpdateRule"), k.str("DeleteRule")
			}
		}
	}
	t["Columns"], t["Constraints"], t["Indexes"] = cols, cons, idx
	return t
}

// adapted is a scene as catalogs of the dialect describe it: MySQL calls every
// primary key PRIMARY.
func adapted(d string, v any) any {
	switch v := v.(type) {
	case list:
		var n list
		for _, x := range v {
			n = append(n, adapted(d, x))
		}
		return n
	case rec:
		n := rec{}
		for k, x := range v {
			n[k] = adapted(d, x)
		}
		if d == "mysql" && v["ConstraintType"] == "PRIMARY KEY" {
			n["ConstraintName"] = "PRIMARY"
		}
		return n
	}
	return v
}

func colOf(name, typ string) rec { return rec{"ColumnName": name, "ColumnType": typ} }

func pkOf(name string, cols ...any) rec {
	return rec{"ConstraintName": name, "ConstraintType": "PRIMARY KEY", "Columns": list(cols)}
}

func uniqOf(name string, cols ...any) rec {
	return rec{"ConstraintName": name, "ConstraintType": "UNIQUE", "Columns": list(cols)}
}

func fkOf(name, col, rschema, rtable, rcol string) rec {
	return rec{"ConstraintName": name, "ConstraintType": "FOREIGN KEY", "Columns": list{col}, "ReferencesSchema": rschema, "ReferencesTable": rtable, "ReferencesColumns": list{rcol}}
}

func idxOf(name string, cols ...any) rec { return rec{"IndexName": name, "Columns": list(cols)} }

// also is r with further fields.
func also(r rec, more rec) rec {
	n := rec{}
	for k, v := range r {
		n[k] = v
	}
	for k, v := range more {
		n[k] = v
	}
	return n
}
