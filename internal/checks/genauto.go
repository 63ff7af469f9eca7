package checks

import (
	"fmt"
	"go/types"
	"strconv"

	"sqverif/internal/absint"
)

// automigrate analyses AutomigrateCmd.Run for a database with the objects of
// src and gives every migration it can hand to migrate.
func (env *Env) automigrate(res *Result, name, d string, src, dest rec, drop bool) ([]genOut, *absint.Engine) {
	e := env.newEngine()
	e.Few, e.PerIter = 64, true
	var all []genOut
	run := "(*" + env.P.Module + "/ddl.MigrateCmd).Run"
	e.Models = merged(env.quotesFor(d), env.catalogModel(withDialect(src, d)), map[string]absint.Model{
		run: func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			g := handedOver(e, s, c.Args[0])
			all = append(all, g)
			q := strconv.Itoa(len(all) - 1)
			return []absint.Outcome{{Ret: absint.NilErr(), Apply: func(t *absint.State) { t.Q = q }}}
		},
	})
	st := &absint.State{Heap: map[absint.ObjID]*absint.Obj{}}
	set := map[string]*AV{
		"Dialect":        absint.StrV(d),
		"DestCatalog":    env.build(e, st, types.NewPointer(env.P.Type(ddlPkg, "Catalog")), withDialect(dest, d), "dest"),
		"DropObjects":    absint.False(),
		"AcceptWarnings": absint.True(),
		"DryRun":         absint.False(),
		"HistoryTable":   absint.StrV(""),
	}
	if drop {
		set["DropObjects"] = absint.True()
	}
	env.zeroHidden(e, "AutomigrateCmd", set)
	outs := env.runCmdWith(e, res, "AutomigrateCmd", st, set)
	res.note("roots", "AutomigrateCmd.Run/"+name)
	used := map[string]bool{}
	var got []genOut
	for _, o := range outs {
		if !o.Ret.MayBeNil() || used[o.Q] {
			continue
		}
		used[o.Q] = true
		g := genOut{}
		if i, err := strconv.Atoi(o.Q); err == nil {
			g = all[i]
		}
		debugf("%s: %+v\n", name, g)
		if g.inexact != "" {
			res.note("inexact", name+": "+g.inexact)
		}
		got = append(got, g)
	}
	return got, e
}

// handedOver reads the scripts out of a MigrateCmd: its file names and their
// texts in its directory.
func handedOver(e *absint.Engine, s *absint.State, cmd *AV) genOut {
	g := genOut{}
	names, exact := e.SliceElems(s, e.Field(s, cmd, "Filenames"))
	if !exact {
		g.inexact = "the file names handed over aren't known"
	}
	dir := e.Field(s, cmd, "DirFS")
	if dir == nil || len(dir.Dyn) != 1 || dir.Unk {
		g.inexact = "the directory handed over isn't known"
		return g
	}
	keys, vals, exact := e.MapEntries(s, dir.Dyn[0].V)
	if !exact {
		g.inexact = "the contents of the directory handed over aren't known"
	}
	texts := map[string]*AV{}
	for i, k := range keys {
		texts[k] = vals[i]
	}
	for _, n := range names {
		k, ok := absint.Text(n).One()
		if !ok || texts[k] == nil {
			g.inexact = fmt.Sprintf("script %s isn't known", k)
			continue
		}
		t, ok := absint.Text(e.Field(s, texts[k], "Data")).One()
		if !ok {
			g.inexact = fmt.Sprintf("the text of script %s isn't known", k)
		}
		g.files = append(g.files, genFile{k, t})
	}
	return g
}
