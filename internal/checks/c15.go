package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C15", Technique: "interprocedural typestate analysis of load on abstract dumps and analysis of the text dump writes for an abstract catalog", Run: runC15,
		Explain: "load is analysed per dialect for a directory, a zip and a tar archive (entries at the top or in a directory of the archive's name, listed in an unhelpful order) holding schema.sql, two CSV files, indexes.sql and constraints.sql with recognisable contents. Each statement executed is attributed to a stage by where its text comes from (INSERT statements are data). No stage is started after a later one, while workers of an earlier one have not been waited for, or after an earlier one failed; for archives every successful return has executed every file. dump is analysed per dialect and output format with a catalog of two schemas that refer to each other: in the text it writes, every ALTER TABLE adding a foreign key comes after all that add other constraints, and none is missing. Not covered: whether the SQL inside the files is itself ordered, beyond what dump writes."})
}

var stageNames = []string{"", "the schema", "data", "indexes", "constraints"}

// stageMon: Q is the last stage ("1".."4"), "w" while workers run, "x<n>" once
// stage n failed, and the files executed so far.
type stageMon struct {
	absint.Base
	env   *Env
	res   *Result
	files []string // entries of the archive, in order
}

type stageQ struct {
	cur, failed int
	workers     bool
	entry       int // entries of the tar archive read so far
	done        string
}

func (q stageQ) String() string {
	w := ""
	if q.workers {
		w = "w"
	}
	return fmt.Sprintf("%d|%d|%s|%d|%s", q.cur, q.failed, w, q.entry, q.done)
}

func stageOfQ(s string) stageQ {
	var q stageQ
	p := strings.SplitN(s, "|", 5)
	if len(p) == 5 {
		fmt.Sscan(p[0], &q.cur)
		fmt.Sscan(p[1], &q.failed)
		q.workers = p[2] == "w"
		fmt.Sscan(p[3], &q.entry)
		q.done = p[4]
	}
	return q
}

func (q *stageQ) add(f string) {
	for _, x := range strings.Fields(q.done) {
		if x == f {
			return
		}
	}
	p := append(strings.Fields(q.done), f)
	sort.Strings(p)
	q.done = strings.Join(p, " ")
}

// stage is the stage a statement belongs to, with the files it comes from.
func (m *stageMon) stage(op stmtOp) (int, []string) {
	k := 0
	var from []string
	for _, l := range op.text.Lab.Names() {
		switch l {
		case "dump:schema.sql":
			k = 1
		case "dump:indexes.sql":
			k = 3
		case "dump:constraints.sql":
			k = 4
		default:
			continue
		}
		from = append(from, strings.TrimPrefix(l, "dump:"))
	}
	if k == 0 {
		for _, v := range verbs(op.text) {
			switch v {
			case "INSERT", "REPLACE", "MERGE", "COPY":
				return 2, nil
			}
		}
	}
	return k, from
}

func (m *stageMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	if strings.HasSuffix(c.Name, ").Wait") && !e.InGoroutine() {
		q := stageOfQ(s.Q)
		q.workers = false
		s.Q = q.String()
	}
	if c.Name == "archive/tar.NewReader" {
		q := stageOfQ(s.Q)
		q.entry = 0
		s.Q = q.String()
	}
	if c.Name == "encoding/csv.NewReader" {
		q := stageOfQ(s.Q)
		for _, l := range e.ReaderText(s, c.Args[0]).Lab.Names() {
			if strings.HasPrefix(l, "dump:") {
				m.res.note("data_files", siteName(e, c)+" "+l)
				q.add(strings.TrimPrefix(l, "dump:"))
			}
		}
		s.Q = q.String()
	}
	op, ok := stmtOf(e, c, s, false)
	if !ok {
		return true
	}
	k, from := m.stage(op)
	if k == 0 {
		return true
	}
	m.res.note("stage_statements", stageNames[k]+" "+siteName(e, c))
	q := stageOfQ(s.Q)
	switch {
	case q.cur > k:
		e.Report("C15", c.Site, c.Ctx, fmt.Sprintf("%s may be loaded after %s", stageNames[k], stageNames[q.cur]))
	case q.workers && k > 2:
		e.Report("C15", c.Site, c.Ctx, stageNames[k]+" may be loaded while data is still being loaded")
	case q.failed > 0 && q.failed < k:
		e.Report("C15", c.Site, c.Ctx, fmt.Sprintf("%s may be loaded although loading %s failed", stageNames[k], stageNames[q.failed]))
	}
	q.cur = max(q.cur, k)
	for _, f := range from {
		q.add(f)
	}
	s.Q = q.String()
	return true
}

func (m *stageMon) After(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []*absint.State {
	if o.Tag == "absent" {
		return nil // the files are there
	}
	if c.Name == "(*archive/tar.Reader).Next" && !o.Fail && o.Tag == "" {
		q := stageOfQ(s.Q)
		q.entry++
		s.Q = q.String()
	}
	if o.Fail {
		k := 0
		if op, ok := stmtOf(e, c, s, false); ok {
			k, _ = m.stage(op)
		} else if _, meth := e.SQLOp(c.Name); meth == "Commit" {
			k = 2
		}
		if k > 0 {
			q := stageOfQ(s.Q)
			if q.failed == 0 || q.failed > k {
				q.failed = k
				s.Q = q.String()
			}
		}
	}
	return []*absint.State{s}
}

func (m *stageMon) Enter(e *absint.Engine, c *absint.Call, fn *ssa.Function, s *absint.State) bool {
	if startsWorker(c.Site) {
		q := stageOfQ(s.Q)
		q.workers = true
		s.Q = q.String()
	}
	return true
}

// Instr: receiving from a channel may be how workers are waited for.
func (m *stageMon) Instr(e *absint.Engine, in ssa.Instruction, fn *ssa.Function, ctx *absint.Ctx, s *absint.State) {
	if e.InGoroutine() {
		return
	}
	if u, ok := in.(*ssa.UnOp); ok {
		if _, ok := u.X.Type().Underlying().(*types.Chan); ok {
			q := stageOfQ(s.Q)
			q.workers = false
			s.Q = q.String()
		}
	}
}

// archiveModels make archives contain the given entries.
func (env *Env) archiveModels(names []string) map[string]absint.Model {
	entries := list{}
	for _, n := range names {
		entries = append(entries, rec{"FileHeader": rec{"Name": n}})
	}
	zipped := func(spec rec) absint.Model {
		return func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			t := c.ResT.(*types.Tuple).At(0).Type()
			st := s.Clone()
			v := env.build(e, st, t, spec, "archive")
			return []absint.Outcome{
				{Ret: absint.TupleV(v, absint.NilErr()), Apply: func(t2 *absint.State) {
					env.build(e, t2, t, spec, "archive")
				}},
				{Ret: absint.TupleV(e.Zero(t), absint.FailErr("fail")), Fail: true},
			}
		}
	}
	return map[string]absint.Model{
		"archive/zip.NewReader":  zipped(rec{"File": entries}),
		"archive/zip.OpenReader": zipped(rec{"Reader": rec{"File": entries}}),
		"(*archive/zip.File).Open": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			t := c.ResT.(*types.Tuple).At(0).Type()
			name := e.Field(s, c.Args[0], "Name")
			st := s.Clone()
			v := absint.IfaceOf(e.Res(c, st, "file", t, nil))
			return []absint.Outcome{
				{Ret: absint.TupleV(v, absint.NilErr()), Apply: func(t2 *absint.State) {
					e.Res(c, t2, "file", t, map[string]*AV{"path": name, "st": absint.StrV("open")})
				}},
				{Ret: absint.TupleV(e.Zero(t), absint.FailErr("fail")), Fail: true},
			}
		},
		"(*archive/tar.Reader).Next": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			t := c.ResT.(*types.Tuple).At(0).Type()
			ids := absint.ObjsOf(c.Args[0])
			fail := absint.Outcome{Ret: absint.TupleV(e.Zero(t), absint.FailErr("fail")), Fail: true}
			if len(ids) != 1 {
				return []absint.Outcome{{Ret: absint.TupleV(e.Unknown(t), absint.NilErr())}, fail, {Ret: absint.TupleV(e.Zero(t), absint.FailErr("io.EOF")), Tag: "eof"}}
			}
			n := stageOfQ(s.Q).entry
			if n >= len(names) {
				return []absint.Outcome{{Ret: absint.TupleV(e.Zero(t), absint.FailErr("io.EOF")), Tag: "eof"}}
			}
			name := names[n]
			spec := rec{"Name": name}
			v := env.build(e, s.Clone(), t, spec, "entry:"+name)
			return []absint.Outcome{
				{Ret: absint.TupleV(v, absint.NilErr()), Apply: func(t2 *absint.State) {
					env.build(e, t2, t, spec, "entry:"+name)
					t2.SetAttr(ids[0], "path", absint.StrV(name))
				}},
				fail,
			}
		},
		"(io/fs.DirEntry).IsDir": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			return []absint.Outcome{{Ret: absint.False()}}
		},
		"(io/fs.FileInfo).IsDir": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			return []absint.Outcome{{Ret: absint.True()}}
		},
	}
}

func dumpContent(p *AV) *AV {
	name, ok := absint.Text(p).One()
	if !ok {
		return nil
	}
	base := name[strings.LastIndex(name, "/")+1:]
	switch base {
	case "schema.sql", "indexes.sql", "constraints.sql":
		return absint.Labelled(absint.StrV("CREATE x; CREATE y;"), "dump:"+base)
	case "a.csv", "b.csv":
		return absint.Labelled(absint.AnyStr(), "dump:"+base)
	}
	return nil
}

func (env *Env) loadStages(d, kind string) func(res *Result) {
	return func(res *Result) {
		e := env.newEngine()
		files := []string{"constraints.sql", "b.csv", "indexes.sql", "a.csv", "schema.sql"}
		given := "dump"
		switch kind {
		case "zip", "zip-nested":
			given = "dump.zip"
		case "tgz", "tgz-nested":
			given = "dump.tgz"
		}
		entries := append([]string(nil), files...)
		if strings.HasSuffix(kind, "-nested") {
			for i := range entries {
				entries[i] = "dump/" + entries[i]
			}
		}
		for _, f := range files {
			e.Walk = append(e.Walk, absint.StrV("dump/"+f))
		}
		e.Content = dumpContent
		e.Few = 8
		e.Models = merged(env.quoteModels(), env.archiveModels(entries))
		m := &stageMon{env: env, res: res, files: entries}
		e.Mon = m
		st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
		set := map[string]*AV{"Dialect": absint.StrV(d), "Filenames": strSlice(e, st, "filenames", types.NewSlice(types.Typ[types.String]), []string{given})}
		env.zeroHidden(e, "LoadCmd", set)
		set["DirFS"] = &AV{K: absint.Iface, Nil: absint.MayNonNil, Unk: true}
		complete, ok := false, true
		for _, o := range env.runCmdWith(e, res, "LoadCmd", st, set) {
			debugf("%s/%s: out %q nil=%v\n", d, kind, o.Q, o.Ret.MayBeNil())
			if !o.Ret.MayBeNil() {
				continue
			}
			q := stageOfQ(o.Q)
			missing := ""
			for _, f := range files {
				if !strings.Contains(" "+q.done+" ", " "+f+" ") {
					missing = f
				}
			}
			if missing == "" {
				complete = true
			} else if kind != "dir" {
				ok = false
				res.violate(e, "C15", env.P.Method(ddlPkg, "LoadCmd", "Run"), fmt.Sprintf("load of a %s can succeed without having loaded %s", kind, missing))
			}
		}
		if ok && !complete {
			res.violate(e, "C15", env.P.Method(ddlPkg, "LoadCmd", "Run"), fmt.Sprintf("load of a %s never loads all of its files", kind))
		}
		res.note("roots", "LoadCmd/"+d+"/"+kind)
	}
}

// constraintMon looks at the order of constraints in texts written.
type constraintMon struct {
	absint.Base
	res *Result
}

// added lists the constraints a text adds, in order.
func added(text string) []string {
	var out []string
	for _, st := range strings.Split(text, ";") {
		i := strings.Index(st, "ALTER TABLE ")
		if i < 0 {
			continue
		}
		for _, w := range strings.FieldsFunc(st[i:], func(r rune) bool { return r != '_' && !(r >= 'a' && r <= 'z') && !(r >= '0' && r <= '9') }) {
			if strings.HasPrefix(w, "fk_") || strings.HasPrefix(w, "oc_") {
				out = append(out, w)
				break
			}
		}
	}
	return out
}

// written is the text a call sends to something other than a buffer.
func written(e *absint.Engine, c *absint.Call, s *absint.State) *AV {
	buffer := func(v *AV) bool {
		for _, o := range absint.ObjsOf(v) {
			switch types.TypeString(e.Info(o).T, nil) {
			case "bytes.Buffer", "strings.Builder", "hash.Hash":
				return true
			}
		}
		return false
	}
	switch {
	case c.Name == "(*bytes.Buffer).WriteTo" || c.Name == "(*bytes.Reader).WriteTo" || c.Name == "(*strings.Reader).WriteTo":
		if buffer(c.Args[1]) {
			return nil
		}
		return absint.Text(e.ReaderText(s, c.Args[0]))
	case c.Name == "io.Copy" || c.Name == "io.CopyBuffer" || c.Name == "io.CopyN":
		if buffer(c.Args[0]) {
			return nil
		}
		return absint.Text(e.ReaderText(s, c.Args[1]))
	case c.Name == "io.WriteString":
		if buffer(c.Args[0]) {
			return nil
		}
		return absint.Text(c.Args[1])
	case c.Name == "os.WriteFile":
		return absint.Text(c.Args[1])
	case strings.HasPrefix(c.Name, "fmt.Fprint") && len(c.Args) > 1:
		if buffer(c.Args[0]) {
			return nil
		}
		return absint.Text(e.Printed(s, c))
	case strings.HasSuffix(c.Name, ").Write") || strings.HasSuffix(c.Name, ").WriteString"):
		if len(c.Args) < 2 || strings.HasPrefix(c.Name, "(*bytes.") || strings.HasPrefix(c.Name, "(*strings.") || strings.HasPrefix(c.Name, "(*encoding/csv") || buffer(c.Args[0]) {
			return nil
		}
		return absint.Text(c.Args[1])
	}
	return nil
}

func (m *constraintMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	t := written(e, c, s)
	if t == nil {
		return true
	}
	text, ok := t.One()
	if !ok {
		m.res.note("inexact_texts", siteName(e, c))
		debugf("inexact %s %s\n", siteName(e, c), t)
		return true
	}
	m.res.note("texts", siteName(e, c))
	for _, n := range added(text) {
		if strings.HasPrefix(n, "oc_") && strings.Contains(s.Q, "fk_") {
			e.Report("C15", c.Site, c.Ctx, "a foreign key may be written before a constraint of another kind, of another schema or table")
		}
		if !strings.Contains(s.Q+" ", n+" ") {
			s.Q = s.Q + " " + n
		}
	}
	return true
}

func (env *Env) dumpConstraintOrder(d, out string) func(res *Result) {
	return func(res *Result) {
		table := func(schema, name, ref, refTable string) rec {
			id := schema + name
			return rec{"TableSchema": schema, "TableName": name,
				"Columns": list{rec{"TableSchema": schema, "TableName": name, "ColumnName": "c", "ColumnType": "INT"}},
				"Constraints": list{
					rec{"TableSchema": schema, "TableName": name, "ConstraintName": "fk_" + id, "ConstraintType": "FOREIGN KEY", "Columns": list{"c"}, "ReferencesSchema": ref, "ReferencesTable": refTable, "ReferencesColumns": list{"c"}},
					rec{"TableSchema": schema, "TableName": name, "ConstraintName": "oc_u" + id, "ConstraintType": "UNIQUE", "Columns": list{"c"}},
					rec{"TableSchema": schema, "TableName": name, "ConstraintName": "oc_c" + id, "ConstraintType": "CHECK", "CheckExpr": "c > 0"},
				}}
		}
		scene := rec{"Dialect": d, "CurrentSchema": "s1", "Schemas": list{
			rec{"SchemaName": "s1", "Tables": list{table("s1", "t1", "s2", "t4"), table("s1", "t2", "s1", "t1")}},
			rec{"SchemaName": "s2", "Tables": list{table("s2", "t3", "s1", "t1"), table("s2", "t4", "s2", "t3")}},
		}}
		e := env.newEngine()
		e.Models = merged(env.quoteModels(), env.catalogModel(scene))
		e.Mon = &constraintMon{res: res}
		no := &AV{K: absint.Slice, Nil: absint.MayNil}
		set := map[string]*AV{"Dialect": absint.StrV(d), "SchemaOnly": absint.True(), "DataOnly": absint.False(), "Zip": absint.StrV(""), "Tgz": absint.StrV(""),
			"SubsetQueries": no, "ExtendedSubsetQueries": no}
		env.zeroHidden(e, "DumpCmd", set)
		if out != "dir" {
			set[out] = absint.StrV("x")
		}
		for _, o := range env.runCmd(e, res, "DumpCmd", set) {
			debugf("%s/%s: out %q nil=%v\n", d, out, o.Q, o.Ret.MayBeNil())
			if !o.Ret.MayBeNil() || d == "sqlite" || len(res.sets["inexact_texts"]) > 0 {
				continue
			}
			for _, t := range []string{"s1t1", "s1t2", "s2t3", "s2t4"} {
				for _, n := range []string{"fk_" + t, "oc_u" + t, "oc_c" + t} {
					if !strings.Contains(o.Q+" ", " "+n+" ") {
						res.violate(e, "C15", env.P.Method(ddlPkg, "DumpCmd", "Run"), fmt.Sprintf("dump can succeed without having written constraint %s (%s)", n, out))
					}
				}
			}
		}
		res.note("roots", "DumpCmd/"+d+"/"+out)
	}
}

func runC15(env *Env) *Result {
	var jobs []job
	for _, d := range dialects {
		for _, kind := range []string{"dir", "zip", "zip-nested", "tgz", "tgz-nested"} {
			jobs = append(jobs, job{"LoadCmd/" + d + "/" + kind, env.loadStages(d, kind)})
		}
		for _, out := range []string{"dir", "Zip", "Tgz"} {
			jobs = append(jobs, job{"DumpCmd/" + d + "/" + out, env.dumpConstraintOrder(d, out)})
		}
	}
	r := env.runJobs(jobs)
	r.need("roots", 1)
	return r
}
