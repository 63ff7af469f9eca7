package checks

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{ID: "C35", Technique: "abstract interpretation of the generators over described catalogs; the warnings that come with the scripts are compared with the documented ones", Run: runC35,
		Explain: "GenerateCmd.Results is analysed for pairs of described catalogs that differ in one column; strings and containers are followed exactly, so the warnings are known to the analysis. Rules kept: warned (a change that is documented as unsafe comes with a warning that names the table and the column) and not-warned (a change that is documented as safe, or that changes nothing, comes with no warning). " +
			"Columns are in the current and in another schema, and alone or next to a column that changes safely. Not covered: changes other than the described ones; the wording of the warnings; SQLite, for which none are documented. That unaccepted warnings stop the commands is C06."})
}

type warnScene struct {
	name     string
	dialects string // as in "postgres mysql"
	version  []int  // of the database; none if unknown
	src      rec    // the column, nil if it is new
	dest     rec
	warn     bool
}

// retyped is a column that gets another type.
func retyped(d, from, to string, warn bool) warnScene {
	return warnScene{name: from + " to " + to, dialects: d, src: rec{"ColumnType": from}, dest: rec{"ColumnType": to}, warn: warn}
}

var warnScenes = []warnScene{
	// documented in sqddl.md, safe-migrations and migration-warnings
	retyped("postgres mysql sqlserver", "INT", "INT", false),
	retyped("postgres mysql sqlserver", "DATE", "INT", true),
	retyped("postgres mysql sqlserver", "INT", "BIGINT", true),
	retyped("postgres", "TEXT", "INT", true),
	retyped("postgres", "TEXT", "VARCHAR(255)", true),
	retyped("postgres", "TEXT", "VARCHAR", false),
	retyped("postgres", "VARCHAR(255)", "TEXT", false),
	retyped("postgres", "CIDR", "INET", false),
	retyped("postgres", "INET", "CIDR", true),
	retyped("postgres", "VARCHAR(1000)", "VARCHAR(255)", true),
	retyped("postgres", "VARCHAR(256)", "VARCHAR(255)", true),
	retyped("postgres", "VARCHAR(255)", "VARCHAR(1000)", false),
	retyped("postgres", "VARCHAR(99)", "VARCHAR(100)", false),
	retyped("postgres", "VARCHAR(100)", "VARCHAR(99)", true),
	retyped("postgres", "CHARACTER VARYING(1000)", "VARCHAR(255)", true),
	retyped("postgres", "VARCHAR(255)", "VARCHAR", false),
	retyped("postgres", "VARCHAR", "VARCHAR(255)", true),
	retyped("postgres", "NUMERIC(5,2)", "NUMERIC(5,4)", true),
	retyped("postgres", "NUMERIC(5,4)", "NUMERIC(5,2)", true),
	retyped("postgres", "NUMERIC(5,2)", "NUMERIC(3,2)", true),
	retyped("postgres", "NUMERIC(10,2)", "NUMERIC(9,2)", true),
	retyped("postgres", "NUMERIC(3,2)", "NUMERIC(5,2)", false),
	retyped("postgres", "NUMERIC(9,2)", "NUMERIC(10,2)", false),
	retyped("postgres", "NUMERIC(5,2)", "DECIMAL(5,2)", false),
	retyped("postgres", "NUMERIC(5,2)", "NUMERIC", false),
	retyped("postgres", "NUMERIC(5,2)", "NUMERIC(5)", true),
	retyped("postgres", "NUMERIC(5,2)", "NUMERIC(5,0)", true),
	retyped("postgres", "NUMERIC", "NUMERIC(5)", true),
	retyped("postgres", "INT[]", "TEXT[]", true),
	retyped("mysql", "VARCHAR(100)", "VARCHAR(255)", false),
	retyped("mysql", "VARCHAR(255)", "VARCHAR(256)", true),
	retyped("mysql", "VARCHAR(256)", "VARCHAR(255)", true),
	retyped("mysql", "VARCHAR(1000)", "VARCHAR(100)", true),
	retyped("mysql", "VARCHAR(300)", "VARCHAR(1000)", false),
	retyped("mysql", "VARCHAR(255)", "TEXT", true),
	retyped("sqlserver", "NVARCHAR(255)", "NVARCHAR(100)", true),
	{"other default", "postgres mysql sqlserver", nil, rec{"ColumnType": "INT", "ColumnDefault": "1"}, rec{"ColumnType": "INT", "ColumnDefault": "2"}, false},
	{"no longer not null", "postgres mysql sqlserver", nil, rec{"ColumnType": "INT", "IsNotNull": true}, rec{"ColumnType": "INT"}, false},
	{"not null", "postgres", nil, rec{"ColumnType": "INT"}, rec{"ColumnType": "INT", "IsNotNull": true}, false},
	{"not null", "postgres", []int{15, 3}, rec{"ColumnType": "INT"}, rec{"ColumnType": "INT", "IsNotNull": true}, false},
	{"not null", "postgres", []int{12, 0}, rec{"ColumnType": "INT"}, rec{"ColumnType": "INT", "IsNotNull": true}, false},
	{"not null", "postgres", []int{11, 9}, rec{"ColumnType": "INT"}, rec{"ColumnType": "INT", "IsNotNull": true}, true},
	{"not null", "postgres", []int{9, 6}, rec{"ColumnType": "INT"}, rec{"ColumnType": "INT", "IsNotNull": true}, true},
	{"new", "postgres mysql sqlserver", nil, nil, rec{"ColumnType": "INT"}, false},
	{"new", "postgres", []int{9, 6}, nil, rec{"ColumnType": "INT"}, false},
	{"new with default", "postgres mysql sqlserver", nil, nil, rec{"ColumnType": "INT", "ColumnDefault": "1"}, false},
	{"new with default", "postgres", []int{11, 0}, nil, rec{"ColumnType": "INT", "ColumnDefault": "1"}, false},
	{"new with default", "postgres", []int{10, 4}, nil, rec{"ColumnType": "INT", "ColumnDefault": "1"}, true},
	{"new with default", "postgres", []int{9, 6}, nil, rec{"ColumnType": "INT", "ColumnDefault": "1"}, true},
	{"new with identity", "postgres", []int{11, 0}, nil, rec{"ColumnType": "INT", "ColumnIdentity": "GENERATED BY DEFAULT AS IDENTITY"}, false},
	{"new with identity", "postgres", []int{10, 4}, nil, rec{"ColumnType": "INT", "ColumnIdentity": "GENERATED BY DEFAULT AS IDENTITY"}, true},
	{"new not null without default", "postgres mysql sqlserver", nil, nil, rec{"ColumnType": "INT", "IsNotNull": true}, true},
	{"new not null with default", "postgres mysql sqlserver", nil, nil, rec{"ColumnType": "INT", "IsNotNull": true, "ColumnDefault": "1"}, false},
	{"identity", "sqlserver", nil, rec{"ColumnType": "INT", "IsNotNull": true}, rec{"ColumnType": "INT", "IsNotNull": true, "ColumnIdentity": "IDENTITY"}, true},
}

func runC35(env *Env) *Result {
	var jobs []job
	for _, s := range warnScenes {
		for _, d := range strings.Fields(s.dialects) {
			for _, schema := range []string{"app", "other"} {
				for _, more := range []bool{false, true} {
					name := d + ": " + s.name
					if len(s.version) > 0 {
						name += fmt.Sprintf(", version %v", s.version)
					}
					if schema != "app" {
						name += ", other schema"
					}
					if more {
						name += ", among others"
					}
					jobs = append(jobs, job{name, func(res *Result) { env.judgeWarnings(res, name, d, schema, s, more) }})
				}
			}
		}
	}
	res := env.runJobs(jobs)
	res.need("changes_judged", 1)
	return res
}

func (env *Env) judgeWarnings(res *Result, name, d, schema string, s warnScene, more bool) {
	const table, column = "widgets", "weight_kilos"
	catalog := func(c rec, extra ...rec) rec {
		cols := []rec{colOf("part_no", "INT")}
		if c != nil {
			cols = append(cols, also(c, rec{"ColumnName": column}))
		}
		r := sceneOf("app", schemaOf(schema, tableOf(schema, table, append(cols, extra...)...)))
		if s.version != nil {
			var v list
			for _, n := range s.version {
				v = append(v, n)
			}
			r["VersionNums"] = v
		}
		return r
	}
	src, dest := catalog(s.src), catalog(s.dest)
	if more {
		src = catalog(s.src, also(colOf("label", "INT"), rec{"ColumnDefault": "1"}))
		dest = catalog(s.dest, also(colOf("label", "INT"), rec{"ColumnDefault": "2"}), colOf("note", "INT"))
	}
	outs, e := env.generate(res, name, d, src, dest, false)
	if len(outs) == 0 && res.Err == nil {
		res.note("undetermined", name+": no result")
	}
	for _, g := range outs {
		named, unsure := false, false
		for _, w := range g.warnings {
			unsure = unsure || w == "…"
			named = named || strings.Contains(w, table) && strings.Contains(w, column)
		}
		switch {
		case s.warn && named, !s.warn && len(g.warnings) == 0:
			res.note("changes_judged", name)
		case unsure:
			res.note("undetermined", name+": the warnings aren't known")
		case s.warn && len(g.warnings) == 0:
			res.violateAt(env, e, "warned", g.String(), name+": this change is unsafe but comes without a warning")
		case s.warn:
			res.violateAt(env, e, "warned", g.String(), fmt.Sprintf("%s: this change is unsafe but no warning names %s and %s: %s", name, table, column, g.warnings[0]))
		default:
			res.violateAt(env, e, "not-warned", g.String(), fmt.Sprintf("%s: this change is safe but comes with a warning: %s", name, g.warnings[0]))
		}
	}
}
