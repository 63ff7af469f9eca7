package checks

import (
	"fmt"
	"go/types"
	"slices"
	"sort"
	"strings"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C12", Technique: "abstract interpretation with awkward names; the resulting SQL texts are split into tokens by the rules of the dialect", Run: runC12,
		Explain: "quoting-faithful: QuoteIdentifier and EscapeQuote are analysed for awkward texts (every quote character alone, doubled and tripled, at the start, in the middle and at the end; spaces, semicolons, comments, capitals, digits, other scripts) and for the reserved words of each dialect; read by the dialect's rules, the result denotes exactly the given text. " +
			"names-quoted: generate, automigrate, wipe, dump (schema files), migrate, ls, rm, mv and touch are analysed with awkward names for schemas, tables, columns, constraints, indexes, the history table and files; in every SQL text they send or write that is known to the analysis, each of these names occurs only as a whole: as a quoted identifier, as a literal, or inside SQL that is itself a literal. " +
			"Not covered: backslashes, which MySQL gives a meaning inside literals; statements of load; the pseudo tables EXCLUDED, INSERTED, DELETED, NEW and OLD, which QuoteIdentifier leaves alone on purpose; texts made by the introspection templates; types, collations of MySQL and SQL Server, expressions and SQL given by the user, which are used as they are; texts of which the analysis only knows a part, beyond that part."})
}

var reserved = map[string]string{
	"sqlite":    "add all alter and as autoincrement between case check collate commit constraint create default deferrable delete distinct drop else escape except exists foreign from group having if in index insert intersect into is isnull join limit not notnull null on or order primary references select set table then to transaction union unique update using values when where",
	"postgres":  "all analyse analyze and any array as asc asymmetric both case cast check collate column constraint create current_catalog current_date current_role current_time current_timestamp current_user default deferrable desc distinct do else end except false fetch for foreign from grant group having in initially intersect into lateral leading limit localtime localtimestamp not null offset on only or order placing primary references returning select session_user some symmetric table then to trailing true union unique user using variadic when where window with",
	"mysql":     "accessible add all alter analyze and as asc asensitive before between bigint binary blob both by call cascade case change char character check collate column condition constraint continue convert create cross cube cume_dist current_date current_time current_timestamp current_user cursor database databases day_hour day_microsecond day_minute day_second dec decimal declare default delayed delete dense_rank desc describe deterministic distinct distinctrow div double drop dual each else elseif empty enclosed escaped except exists exit explain false fetch first_value float for force foreign from fulltext function generated get grant group grouping groups having high_priority hour_microsecond hour_minute hour_second if ignore in index infile inner inout insensitive insert int integer intersect interval into is iterate join json_table key keys kill lag last_value lateral lead leading leave left like limit linear lines load localtime localtimestamp lock long longblob longtext loop low_priority match maxvalue mediumblob mediumint mediumtext middleint minute_microsecond minute_second mod modifies natural not no_write_to_binlog nth_value ntile null numeric of on optimize option optionally or order out outer outfile over partition percent_rank precision primary procedure purge range rank read reads read_write real recursive references regexp release rename repeat replace require resignal restrict return revoke right rlike row rows row_number schema schemas second_microsecond select sensitive separator set show signal smallint spatial specific sql sqlexception sqlstate sqlwarning sql_big_result sql_calc_found_rows sql_small_result ssl starting stored straight_join system table terminated then tinyblob tinyint tinytext to trailing trigger true undo union unique unlock unsigned update usage use using utc_date utc_time utc_timestamp values varbinary varchar varcharacter varying virtual when where while window with write xor year_month zerofill",
	"sqlserver": "add all alter and any as asc authorization backup begin between break browse bulk by cascade case check checkpoint close clustered coalesce collate column commit compute constraint contains containstable continue convert create cross current current_date current_time current_timestamp current_user cursor database dbcc deallocate declare default delete deny desc disk distinct distributed double drop dump else end errlvl escape except exec execute exists exit external fetch file fillfactor for foreign freetext freetexttable from full function goto grant group having holdlock identity identity_insert identitycol if in index inner insert intersect into is join key kill left like lineno load merge national nocheck nonclustered not null nullif of off offsets on open opendatasource openquery openrowset openxml option or order outer over percent pivot plan precision primary print proc procedure public raiserror read readtext reconfigure references replication restore restrict return revert revoke right rollback rowcount rowguidcol rule save schema securityaudit select session_user set setuser shutdown some statistics system_user table tablesample textsize then to top tran transaction trigger truncate try_convert tsequal union unique unpivot update updatetext use user values varying view waitfor when where while with writetext",
}

// awkward are names that need care.
func awkward() []string {
	out := []string{"plain", "with_underscore1", "_x", "", "Capital", "camelCase", "UPPER", "1digit", "9", "a b", " lead", "trail ", "a.b", "a-b", "a--b", "a;b", "a;--", "a\\b", "a\\", "a$b", "a#b", "a@b", "a/*b", "ümlaut", "日本", "a\nb", "a\tb", "%s", "{x}", "a,b", "(a)"}
	for _, q := range []string{`"`, "`", "]", "[", "'"} {
		for _, n := range []string{q, q + q, q + q + q, q + q + q + q} {
			out = append(out, n, n+"a", "a"+n, "a"+n+"b", n+"a"+n, "a"+n+"b"+q+"c", "a"+q+"b"+n)
		}
		out = append(out, "a"+q+";drop table t;--")
	}
	return out
}

// identText reads a text as one identifier.
func identText(d, t string) (string, error) {
	if t == "" {
		return "", fmt.Errorf("is empty")
	}
	pairs := map[string]string{"sqlite": "\"\"``[]", "postgres": `""`, "mysql": "``", "sqlserver": `[]""`, "": `""`}[d]
	for i := 0; i < len(pairs); i += 2 {
		if t[0] != pairs[i] {
			continue
		}
		var b strings.Builder
		j := 1
		for ; j < len(t); j++ {
			if t[j] == pairs[i+1] {
				if d == "sqlite" && pairs[i] == '[' || j+1 >= len(t) || t[j+1] != t[j] {
					break
				}
				j++
			}
			b.WriteByte(t[j])
		}
		if j >= len(t) {
			return "", fmt.Errorf("isn't closed")
		}
		if j != len(t)-1 {
			return "", fmt.Errorf("ends early, leaving %s", t[j+1:])
		}
		return b.String(), nil
	}
	for i, c := range []byte(t) {
		switch {
		case c == '_' || c >= 'a' && c <= 'z' || c >= 0x80 || i > 0 && (c >= '0' && c <= '9' || c == '$' && d != "sqlite"):
		case c >= 'A' && c <= 'Z' && d != "postgres" && d != "":
		default:
			return "", fmt.Errorf("isn't quoted")
		}
	}
	for _, w := range strings.Fields(reserved[d]) {
		if strings.EqualFold(w, t) {
			return "", fmt.Errorf("is a reserved word and isn't quoted")
		}
	}
	return t, nil
}

func runC12(env *Env) *Result {
	var jobs []job
	for _, d := range append([]string{""}, dialects...) {
		jobs = append(jobs, job{"QuoteIdentifier/" + d, func(res *Result) { env.judgeQuoting(res, d) }})
	}
	jobs = append(jobs, job{"EscapeQuote", func(res *Result) { env.judgeEscaping(res) }})
	for _, d := range dialects {
		for _, s := range genScenes {
			if !s.for_(d) || strings.Contains(s.name, "given as SQL") {
				continue
			}
			for _, drop := range []bool{false, true} {
				name := sceneName(d, s, drop)
				for _, c := range generators {
					jobs = append(jobs, job{c.name + ": " + name, func(res *Result) {
						env.judgeNames(res, c, name, d, adapted(d, s.src(d)).(rec), adapted(d, s.dest(d)).(rec), drop)
					}})
				}
			}
		}
	}
	for _, d := range dialects {
		for _, s := range append(slices.Clone(genScenes), dumpScenes...) {
			if !s.for_(d) || strings.Contains(s.name, "given as SQL") {
				continue
			}
			name := "DumpCmd/" + d + ": " + s.name
			jobs = append(jobs, job{name, func(res *Result) { env.judgeDumpNames(res, name, d, adapted(d, s.dest(d)).(rec)) }})
		}
		for _, cmd := range []string{"LsCmd", "RmCmd", "MvCmd", "TouchCmd", "MigrateCmd", "WipeCmd"} {
			jobs = append(jobs, job{cmd + "/" + d, func(res *Result) { env.judgeSent(res, cmd, d) }})
		}
	}
	res := env.runJobs(jobs)
	res.need("texts_judged", 1)
	return res
}

func (env *Env) judgeQuoting(res *Result, d string) {
	fn := env.P.Func(ddlPkg, "QuoteIdentifier")
	if fn == nil {
		res.note("undetermined", "no QuoteIdentifier")
		return
	}
	names := awkward()
	for _, w := range strings.Fields(reserved[d]) {
		names = append(names, w, strings.ToUpper(w), strings.ToUpper(w[:1])+w[1:])
	}
	pseudo := map[string]bool{"EXCLUDED": true, "INSERTED": true, "DELETED": true, "NEW": true, "OLD": true}
	e := env.newEngine()
	e.Few, e.PerIter = 64, true
	for _, n := range names {
		if pseudo[n] {
			continue
		}
		outs := e.RunFn(fn, []*AV{absint.StrV(d), absint.StrV(n)}, nil, "", map[absint.ObjID]*absint.Obj{}, e.RootCtx.Child(nil, fn))
		for _, o := range outs {
			t, ok := absint.Text(o.Ret).One()
			if !ok {
				res.note("undetermined", fmt.Sprintf("QuoteIdentifier(%q, %q)", d, n))
				debugf("UNDETERMINED QuoteIdentifier(%q, %q): %v\n", d, n, o.Ret)
				continue
			}
			res.note("texts_judged", fmt.Sprintf("QuoteIdentifier(%q, %q)", d, n))
			switch got, err := identText(d, t); {
			case err != nil:
				res.violate(e, "quoting-faithful", fn, fmt.Sprintf("QuoteIdentifier(%q, %q) gives %s, which %v", d, n, t, err))
			case got != n:
				res.violate(e, "quoting-faithful", fn, fmt.Sprintf("QuoteIdentifier(%q, %q) gives %s, which denotes %q", d, n, t, got))
			}
		}
	}
	res.noteEngine(e)
}

func (env *Env) judgeEscaping(res *Result) {
	fn := env.P.Func(ddlPkg, "EscapeQuote")
	if fn == nil {
		res.note("undetermined", "no EscapeQuote")
		return
	}
	e := env.newEngine()
	e.Few, e.PerIter = 64, true
	for _, q := range []byte("'\"`]") {
		for _, n := range awkward() {
			outs := e.RunFn(fn, []*AV{absint.StrV(n), absint.IntV(int64(q))}, nil, "", map[absint.ObjID]*absint.Obj{}, e.RootCtx.Child(nil, fn))
			for _, o := range outs {
				t, ok := absint.Text(o.Ret).One()
				if !ok {
					res.note("undetermined", fmt.Sprintf("EscapeQuote(%q, %q)", n, q))
					debugf("UNDETERMINED EscapeQuote(%q, %q): %v\n", n, q, o.Ret)
					continue
				}
				res.note("texts_judged", fmt.Sprintf("EscapeQuote(%q, %q)", n, q))
				if want := strings.ReplaceAll(n, string(q), string(q)+string(q)); t != want {
					res.violate(e, "quoting-faithful", fn, fmt.Sprintf("EscapeQuote(%q, %q) gives %s instead of %s", n, q, t, want))
				}
			}
		}
	}
	res.noteEngine(e)
}

// nasty is the awkward form of a name; mark occurs in every one.
const mark = "zq"

func nasty(n string) string {
	if n == "" {
		return ""
	}
	return n + mark + "\"'`];\nN"
}

var nameFields = map[string]bool{"SchemaName": true, "TableSchema": true, "TableName": true, "ColumnName": true, "ConstraintName": true, "IndexName": true, "ReferencesSchema": true, "ReferencesTable": true, "ReferencesColumn": true,
	"Columns": true, "IncludeColumns": true, "ReferencesColumns": true, "CurrentSchema": true, "EnumName": true, "DomainName": true, "RoutineName": true, "TriggerName": true, "ViewName": true, "ViewSchema": true, "RoutineSchema": true, "EnumSchema": true, "DomainSchema": true, "Extensions": true, "EnumLabels": true, "CheckNames": true}

// nastyScene gives the objects of a description awkward names.
func nastyScene(d string, x any) any {
	switch y := x.(type) {
	case rec:
		n := rec{}
		for k, v := range y {
			if nameFields[k] || k == "CollationName" && d == "postgres" {
				switch z := v.(type) {
				case string:
					n[k] = nasty(z)
					continue
				case list:
					if len(z) > 0 {
						if _, ok := z[0].(string); ok {
							var l list
							for _, s := range z {
								l = append(l, nasty(s.(string)))
							}
							n[k] = l
							continue
						}
					}
				}
			}
			n[k] = nastyScene(d, v)
		}
		return n
	case list:
		var n list
		for _, v := range y {
			n = append(n, nastyScene(d, v))
		}
		return n
	}
	return x
}

// nastyNames are the names given by nastyScene.
func nastyNames(x any, names map[string]bool) {
	switch y := x.(type) {
	case rec:
		for _, v := range y {
			nastyNames(v, names)
		}
	case list:
		for _, v := range y {
			nastyNames(v, names)
		}
	case string:
		if strings.Contains(y, mark) {
			names[y] = true
		}
	}
}

// brokenName finds a place where a marked name isn't a token of its own.
func brokenName(text string, names map[string]bool, depth int) string {
	return brokenToks(lexSQL(text), names, depth)
}

func brokenToks(ts []tok, names map[string]bool, depth int) string {
	for _, t := range ts {
		if !strings.Contains(t.s, mark) {
			continue
		}
		switch {
		case (t.k == 'q' || t.k == 's') && whole(t.s, names):
		case t.k == 's' && depth < 3:
			if b := brokenName(t.s, names, depth+1); b != "" {
				return b
			}
		default:
			return t.s
		}
	}
	return ""
}

// whole: the text has marked names only as a whole, possibly as parts of a
// longer name.
func whole(t string, names map[string]bool) bool {
	for n := range names {
		t = strings.ReplaceAll(t, n, "")
	}
	return !strings.Contains(t, mark)
}

func (env *Env) judgeNames(res *Result, c generator, name, d string, src, dest rec, drop bool) {
	src, dest = nastyScene(d, src).(rec), nastyScene(d, dest).(rec)
	names := map[string]bool{}
	nastyNames(src, names)
	nastyNames(dest, names)
	outs, e := c.make(env, res, name, d, src, dest, drop)
	name = c.name + ": " + name
	for _, g := range outs {
		if g.inexact != "" {
			res.note("undetermined", name+": "+g.inexact)
			continue
		}
		for _, f := range g.files {
			res.note("texts_judged", name+": "+f.name)
			if b := brokenName(f.text, names, 0); b != "" {
				res.violateAt(env, e, "names-quoted", lineWith(f.text, b), fmt.Sprintf("%s: %s: a name isn't quoted as a whole: %s", name, f.name, lineWith(f.text, b)))
			}
		}
	}
}

func (env *Env) judgeDumpNames(res *Result, name, d string, scene rec) {
	scene = nastyScene(d, scene).(rec)
	names := map[string]bool{}
	nastyNames(scene, names)
	all, e := env.dumped(res, d, "dir", scene)
	for _, files := range all {
		for f, text := range files {
			if strings.Contains(text, "?unknown?") {
				res.note("undetermined", name+": "+f)
				continue
			}
			if !strings.HasSuffix(f, ".sql") || text == "" {
				continue
			}
			res.note("texts_judged", name+": "+f)
			if b := brokenName(text, names, 0); b != "" {
				res.violateAt(env, e, "names-quoted", lineWith(text, b), fmt.Sprintf("%s: %s: a name isn't quoted as a whole: %s", name, f, lineWith(text, b)))
			}
		}
	}
}

func lineWith(text, part string) string {
	for _, l := range strings.Split(text, "\n") {
		if strings.Contains(l, part) {
			return l
		}
	}
	return part
}

// quotesFor: quoting with the quotes of the dialect.
func (env *Env) quotesFor(d string) map[string]absint.Model {
	open, end := `"`, `"`
	switch d {
	case "mysql":
		open, end = "`", "`"
	case "sqlserver":
		open, end = "[", "]"
	}
	each := func(x *AV, f func(string) string) []absint.Outcome {
		r := absint.AnyStr()
		if len(x.Consts) > 0 {
			var ts []string
			for _, t := range x.Consts {
				ts = append(ts, f(t))
			}
			sort.Strings(ts)
			r = absint.StrV(ts...)
		}
		return []absint.Outcome{{Ret: absint.Labelled(r, x.Lab.Names()...)}}
	}
	return map[string]absint.Model{
		env.P.Module + "/ddl.QuoteIdentifier": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			return each(absint.Text(c.Args[1]), func(t string) string { return open + strings.ReplaceAll(t, end, end+end) + end })
		},
		env.P.Module + "/ddl.EscapeQuote": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			x, q := absint.Text(c.Args[0]), c.Args[1]
			if q.K != absint.Int || q.Lo != q.Hi {
				x = absint.Labelled(absint.AnyStr(), x.Lab.Names()...)
			}
			ch := string(rune(q.Lo))
			return each(x, func(t string) string { return strings.ReplaceAll(t, ch, ch+ch) })
		},
	}
}

// sentMon judges the statements sent to the database.
type sentMon struct {
	absint.Base
	res   *Result
	names map[string]bool
}

func (m *sentMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	op, ok := stmtOf(e, c, s, true)
	if !ok || op.recv == "stmt" {
		return true
	}
	m.judge(e, c, op.text)
	return true
}

func (m *sentMon) judge(e *absint.Engine, c *absint.Call, text *AV) {
	for _, t := range text.Consts {
		if !strings.Contains(t, mark) {
			continue
		}
		m.res.note("texts_judged", siteName(e, c)+": "+t)
		if b := brokenName(t, m.names, 0); b != "" {
			e.Report("C12", c.Site, c.Ctx, fmt.Sprintf("a name isn't quoted as a whole in what is sent: %s", t))
		}
	}
	if text.Consts != nil {
		return
	}
	for _, t := range text.Pre {
		if !strings.Contains(t, mark) {
			continue
		}
		m.res.note("beginnings_judged", siteName(e, c)+": "+t)
		// the last token may go on
		if ts := lexSQL(t); len(ts) > 1 {
			if b := brokenToks(ts[:len(ts)-1], m.names, 0); b != "" {
				e.Report("C12", c.Site, c.Ctx, fmt.Sprintf("a name isn't quoted as a whole in what is sent: %s…", t))
			}
		}
	}
	debugf("PARTLY %s: %v\n", siteName(e, c), text)
}

func (env *Env) judgeSent(res *Result, cmd, d string) {
	e := env.newEngine()
	e.Few, e.PerIter = 64, true
	m := &sentMon{res: res, names: map[string]bool{}}
	e.Mon = m
	scene := nastyScene(d, adapted(d, wipeScenes[0].is(d))).(rec)
	e.Models = merged(env.quotesFor(d), env.introspectModels(scene))
	st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
	set := map[string]*AV{"Dialect": absint.StrV(d)}
	str := env.P.Type(ddlPkg, cmd).Underlying().(*types.Struct)
	for i := 0; i < str.NumFields(); i++ {
		f := str.Field(i)
		text := func(n string) string {
			m.names[nasty(n)] = true
			return nasty(n)
		}
		switch f.Name() {
		case "HistoryTable", "SrcFilename", "DestFilename":
			set[f.Name()] = absint.StrV(text(f.Name()))
		case "Filenames":
			if cmd != "LoadCmd" {
				set[f.Name()] = env.build(e, st, f.Type(), list{text("f1") + ".sql", text("f2") + ".sql"}, f.Name())
			}
		}
	}
	for _, n := range []string{"w1", "w2"} {
		m.names[nasty(n)] = true
		e.Walk = append(e.Walk, absint.StrV(nasty(n)+".sql"))
	}
	nastyNames(scene, m.names)
	env.zeroHidden(e, cmd, set)
	env.runCmdWith(e, res, cmd, st, set)
	res.note("roots", cmd+"/"+d)
}
