package checks

import (
	"fmt"
	"sort"
	"strings"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C27", Technique: "interprocedural analysis of dump on a small abstract catalog, per option and output format", Run: runC27,
		Explain: "dump is analysed per dialect, output format (directory, zip, tar) and part option, with introspection yielding a table with an ordinary column and two generated ones (marked in either way), or no table at all, and every other option unknown. Files are recognised by the names given to os, archive/zip and archive/tar. With SchemaOnly no .csv file is created and no query is sent; with DataOnly no schema, index or constraint file is created. If there is a table, every successful return has created all the files of the selected parts. No data query and no CSV header contains the generated column; both contain the ordinary one."})
}

// partMon: Q lists the kinds of files created.
type partMon struct {
	absint.Base
	res  *Result
	mode string
}

var schemaFiles = map[string]bool{"schema.json": true, "schema.sql": true, "indexes.sql": true, "constraints.sql": true}

// createdName is the name of a file the call creates.
func createdName(e *absint.Engine, c *absint.Call, s *absint.State) (*AV, bool) {
	switch c.Name {
	case "os.OpenFile", "os.Create", "os.WriteFile":
		return c.Args[0], fileEffect(c)
	case "(*archive/zip.Writer).Create":
		return c.Args[1], true
	case "(*archive/zip.Writer).CreateHeader", "(*archive/tar.Writer).WriteHeader", "(*archive/zip.Writer).CreateRaw":
		return e.Field(s, c.Args[1], "Name"), true
	}
	return nil, false
}

// endsIn: what the file name is known to end in.
func endsIn(v *AV) []string {
	v = absint.Text(v)
	if v.Consts != nil {
		return v.Consts
	}
	return []string{v.Suf}
}

func (m *partMon) Before(e *absint.Engine, c *absint.Call, s *absint.State) bool {
	if op, ok := stmtOf(e, c, s, false); ok && (op.method == "Query" || op.method == "QueryRow") {
		m.res.note("data_queries", siteName(e, c))
		if m.mode == "SchemaOnly" {
			e.Report("C27", c.Site, c.Ctx, "a query is sent although only the schema is wanted")
		}
		t := known(op.text)
		if strings.Contains(t, "gen1") {
			e.Report("C27", c.Site, c.Ctx, "the data query contains a generated column")
		} else if strings.Contains(t, "t1") && op.text.Consts != nil && !strings.Contains(t, "plain1") {
			e.Report("C27", c.Site, c.Ctx, "the data query lacks a column that is not generated")
		}
	}
	if c.Name == "(*encoding/csv.Writer).Write" {
		elems, _ := e.SliceElems(s, c.Args[1])
		for _, x := range elems {
			m.res.note("csv_records", siteName(e, c))
			if strings.Contains(known(absint.Text(x)), "gen1") {
				e.Report("C27", c.Site, c.Ctx, "a generated column is part of the data")
			}
		}
	}
	return true
}

func (m *partMon) After(e *absint.Engine, c *absint.Call, s *absint.State, o *absint.Outcome) []*absint.State {
	name, ok := createdName(e, c, s)
	if !ok || o.Fail {
		return []*absint.State{s}
	}
	for _, n := range endsIn(name) {
		base := n[strings.LastIndexAny(n, "/\\")+1:]
		kind := ""
		switch {
		case strings.HasSuffix(n, ".csv"):
			kind = "csv"
			if m.mode == "SchemaOnly" {
				e.Report("C27", c.Site, c.Ctx, "a data file is created although only the schema is wanted")
			}
		case schemaFiles[base]:
			kind = base
			if m.mode == "DataOnly" {
				e.Report("C27", c.Site, c.Ctx, base+" is created although only data is wanted")
			}
		default:
			m.res.note("other_files", siteName(e, c)+" "+n)
			continue
		}
		m.res.note("files", kind+" "+siteName(e, c))
		if !strings.Contains(s.Q, kind+"|") {
			parts := append(strings.Split(strings.TrimSuffix(s.Q, "|"), "|"), kind)
			sort.Strings(parts)
			s.Q = strings.TrimPrefix(strings.Join(parts, "|")+"|", "|")
		}
	}
	return []*absint.State{s}
}

func runC27(env *Env) *Result {
	scene := rec{"CurrentSchema": "", "Dialect": "", "Schemas": list{
		rec{"SchemaName": "", "Tables": list{
			rec{"TableSchema": "", "TableName": "t1", "Columns": list{
				rec{"TableName": "t1", "ColumnName": "plain1", "ColumnType": "INT"},
				rec{"TableName": "t1", "ColumnName": "gen1a", "ColumnType": "INT", "GeneratedExpr": "plain1 + 1"},
				rec{"TableName": "t1", "ColumnName": "gen1b", "ColumnType": "INT", "IsGenerated": true},
			}},
		}},
	}}
	none := rec{"CurrentSchema": "", "Dialect": "", "Schemas": list{}}
	var jobs []job
	for _, d := range dialects {
		for _, scene := range []rec{scene, none} {
			for _, mode := range []string{"", "SchemaOnly", "DataOnly"} {
				for _, out := range []string{"dir", "Zip", "Tgz"} {
					name := fmt.Sprintf("DumpCmd/%s/%s/%s", d, mode, out)
					empty := len(scene["Schemas"].(list)) == 0
					if empty {
						name += "/no tables"
					}
					jobs = append(jobs, job{name, func(res *Result) {
						e := env.newEngine()
						sc := rec{}
						for k, v := range scene {
							sc[k] = v
						}
						sc["Dialect"] = d
						e.Models = merged(env.quoteModels(), env.catalogModel(sc))
						e.Mon = &partMon{res: res, mode: mode}
						no := &AV{K: absint.Slice, Nil: absint.MayNil}
						set := map[string]*AV{"Dialect": absint.StrV(d), "SchemaOnly": absint.False(), "DataOnly": absint.False(), "Zip": absint.StrV(""), "Tgz": absint.StrV(""),
							"SubsetQueries": no, "ExtendedSubsetQueries": no}
						env.zeroHidden(e, "DumpCmd", set)
						if mode != "" {
							set[mode] = absint.True()
						}
						if out != "dir" {
							set[out] = absint.StrV("x")
						}
						want := []string{"csv", "schema.sql", "indexes.sql", "constraints.sql"}
						switch mode {
						case "SchemaOnly":
							want = want[1:]
						case "DataOnly":
							want = want[:1]
						}
						if empty {
							want = nil
						}
						for _, o := range env.runCmd(e, res, "DumpCmd", set) {
							debugf("%s: out %q nil=%v\n", name, o.Q, o.Ret.MayBeNil())
							if !o.Ret.MayBeNil() {
								continue
							}
							for _, w := range want {
								if !strings.Contains("|"+o.Q, "|"+w+"|") {
									what := w
									if w == "csv" {
										what = "the data file"
									}
									res.violate(e, "C27", env.P.Method(ddlPkg, "DumpCmd", "Run"), fmt.Sprintf("dump can succeed without having created %s (%s, %s)", what, orDefault(mode), out))
								}
							}
						}
						res.note("roots", name)
					}})
				}
			}
		}
	}
	r := env.runJobs(jobs)
	r.need("roots", 1)
	return r
}

func orDefault(mode string) string {
	if mode == "" {
		return "default options"
	}
	return mode
}
