// Command refactor rewrites the repository in ways that leave its behaviour
// alone, to see whether the checks still hold: refactor DIR KIND...
package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// span is a range of source text, which is rendered with the edits inside it.
type span struct{ pos, end token.Pos }

type edit struct {
	span
	parts []any // string or span
}

type file struct {
	pkg   *packages.Package
	ast   *ast.File
	src   []byte
	base  token.Pos
	edits []edit
	tests string
	n     int
}

func (f *file) text(n ast.Node) string { return string(f.src[n.Pos()-f.base : n.End()-f.base]) }

func (f *file) replace(n ast.Node, parts ...any) {
	for i, p := range parts {
		if x, ok := p.(ast.Node); ok {
			parts[i] = span{x.Pos(), x.End()}
		}
	}
	f.edits = append(f.edits, edit{span{n.Pos(), n.End()}, parts})
}

func (f *file) render(s span, after int) string {
	var out strings.Builder
	at := s.pos
	for i := after; i < len(f.edits); i++ {
		e := f.edits[i]
		if e.pos < at || e.end > s.end {
			continue
		}
		out.Write(f.src[at-f.base : e.pos-f.base])
		for _, p := range e.parts {
			switch p := p.(type) {
			case string:
				out.WriteString(p)
			case span:
				out.WriteString(f.render(p, i+1))
			}
		}
		at = e.end
	}
	out.Write(f.src[at-f.base : s.end-f.base])
	return out.String()
}

func (f *file) imports(path string) bool {
	for _, i := range f.ast.Imports {
		if i.Path.Value == `"`+path+`"` && i.Name == nil {
			return true
		}
	}
	return false
}

func (f *file) typeOf(e ast.Expr) types.Type { return f.pkg.TypesInfo.TypeOf(e) }

func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	}
	return false
}

// leaves tells whether control can leave the statement other than at its end.
func leaves(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt:
			found = true
		}
		return true
	})
	return found
}

func assigned(body ast.Node, f *file, text string) bool {
	found := false
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if strings.HasPrefix(f.text(l), text) || strings.HasPrefix(text, f.text(l)+".") {
					found = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND && f.text(n.X) == text {
				found = true
			}
		}
		return true
	})
	return found
}

func isString(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.String
}

func concat(e ast.Expr) []ast.Expr {
	if b, ok := e.(*ast.BinaryExpr); ok && b.Op == token.ADD {
		return append(concat(b.X), concat(b.Y)...)
	}
	return []ast.Expr{e}
}

func (f *file) isConst(e ast.Expr) bool {
	tv := f.pkg.TypesInfo.Types[e]
	return tv.Value != nil
}

// writer returns an expression for the writer a WriteString statement goes to.
func (f *file) writer(n ast.Node) (recv ast.Expr, addr string, arg ast.Expr) {
	s, ok := n.(*ast.ExprStmt)
	if !ok {
		return
	}
	c, ok := s.X.(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || sel.Sel.Name != "WriteString" {
		return
	}
	t := f.typeOf(sel.X)
	name := strings.TrimPrefix(t.String(), "*")
	if name != "bytes.Buffer" && name != "strings.Builder" {
		return
	}
	if name == t.String() {
		addr = "&"
	}
	return sel.X, addr, c.Args[0]
}

type kind func(f *file, n ast.Node)

var kinds = map[string]kind{
	"incdec": func(f *file, n ast.Node) {
		switch n := n.(type) {
		case *ast.IncDecStmt:
			op := "+"
			if n.Tok == token.DEC {
				op = "-"
			}
			f.replace(n, n.X, " "+op+"= 1")
		case *ast.AssignStmt:
			if n.Tok == token.ADD_ASSIGN && pure(n.Lhs[0]) {
				f.replace(n, n.Lhs[0], " = ", f.text(n.Lhs[0]), " + (", n.Rhs[0], ")")
			}
		}
	},
	"invert": func(f *file, n ast.Node) {
		if n, ok := n.(*ast.IfStmt); ok && n.Else != nil {
			parts := []any{"if "}
			if n.Init != nil {
				parts = append(parts, n.Init, "; ")
			}
			parts = append(parts, "!(", n.Cond, ") ")
			if _, ok := n.Else.(*ast.BlockStmt); ok {
				parts = append(parts, n.Else)
			} else {
				parts = append(parts, "{\n", n.Else, "\n}")
			}
			f.replace(n, append(parts, " else ", n.Body)...)
		}
	},
	"splitand": func(f *file, n ast.Node) {
		if n, ok := n.(*ast.IfStmt); ok && n.Else == nil && n.Init == nil {
			if b, ok := n.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
				f.replace(n, "if ", b.X, " {\nif ", b.Y, " ", n.Body, "\n}")
			}
		}
	},
	"demorgan": func(f *file, n ast.Node) {
		if b, ok := n.(*ast.BinaryExpr); ok {
			switch b.Op {
			case token.LAND:
				f.replace(b, "!(!(", b.X, ") || !(", b.Y, "))")
			case token.LOR:
				f.replace(b, "!(!(", b.X, ") && !(", b.Y, "))")
			case token.NEQ:
				f.replace(b, "!(", b.X, " == ", b.Y, ")")
			}
		}
	},
	"rangeidx": func(f *file, n ast.Node) {
		r, ok := n.(*ast.RangeStmt)
		if !ok || r.Tok != token.DEFINE || r.Key == nil || !pure(r.X) {
			return
		}
		if _, ok := f.typeOf(r.X).Underlying().(*types.Slice); !ok {
			return
		}
		x := f.text(r.X)
		if assigned(r.Body, f, x) {
			return
		}
		if r.Value == nil {
			i := f.text(r.Key)
			if i == "_" {
				return
			}
			f.replace(r, "for "+i+" := 0; "+i+" < len("+x+"); "+i+"++ ", r.Body)
			return
		}
		if f.text(r.Value) == "_" {
			return
		}
		i := f.text(r.Key)
		if i == "_" {
			f.n++
			i = fmt.Sprintf("zi%d", f.n)
		} else if assigned(r.Body, f, i) {
			return
		}
		f.replace(r, "for "+i+" := 0; "+i+" < len("+x+"); "+i+"++ {\n"+f.text(r.Value)+" := "+x+"["+i+"]\n", r.Body, "\n}")
	},
	"switchif": func(f *file, n ast.Node) {
		s, ok := n.(*ast.SwitchStmt)
		if !ok || s.Init != nil || s.Tag == nil || !pure(s.Tag) || len(s.Body.List) == 0 {
			return
		}
		bad := false
		var depth int
		var walk func(n ast.Node) bool
		walk = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.FuncLit, *ast.TypeSwitchStmt:
				return false
			case *ast.SwitchStmt:
				if n != s {
					return false
				}
			case *ast.BranchStmt:
				if n.Label == nil && (n.Tok == token.BREAK || n.Tok == token.FALLTHROUGH) {
					bad = true
				}
			case *ast.LabeledStmt:
				bad = true
			}
			return true
		}
		_ = depth
		ast.Inspect(s, walk)
		if bad {
			return
		}
		tag := f.text(s.Tag)
		var parts []any
		var def *ast.CaseClause
		for _, c := range s.Body.List {
			c := c.(*ast.CaseClause)
			if c.List == nil {
				def = c
				continue
			}
			if len(parts) > 0 {
				parts = append(parts, " else ")
			}
			parts = append(parts, "if ")
			for i, e := range c.List {
				if i > 0 {
					parts = append(parts, " || ")
				}
				parts = append(parts, tag+" == (", e, ")")
			}
			parts = append(parts, " {", span{c.Colon + 1, c.End()}, "\n}")
		}
		if len(parts) == 0 {
			return
		}
		if def != nil {
			parts = append(parts, " else {", span{def.Colon + 1, def.End()}, "\n}")
		}
		f.replace(s, parts...)
	},
	"splitwrite": func(f *file, n ast.Node) {
		recv, _, arg := f.writer(n)
		if recv == nil || !pure(recv) || f.isConst(arg) {
			return
		}
		list := concat(arg)
		if len(list) < 2 {
			return
		}
		var parts []any
		for i, e := range list {
			if i > 0 {
				parts = append(parts, "\n")
			}
			parts = append(parts, f.text(recv)+".WriteString(", e, ")")
		}
		f.replace(n, parts...)
	},
	"joinwrite": func(f *file, n ast.Node) {
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return
		}
		for i := 0; i+1 < len(b.List); i++ {
			r1, _, a1 := f.writer(b.List[i])
			r2, _, a2 := f.writer(b.List[i+1])
			if r1 == nil || r2 == nil || f.text(r1) != f.text(r2) || !pure(r1) {
				continue
			}
			f.edits = append(f.edits, edit{span{b.List[i].Pos(), b.List[i+1].End()}, []any{f.text(r1) + ".WriteString(", span{a1.Pos(), a1.End()}, " + ", span{a2.Pos(), a2.End()}, ")"}})
			i++
		}
	},
	"fprint": func(f *file, n ast.Node) {
		recv, addr, arg := f.writer(n)
		if recv == nil || !f.imports("fmt") {
			return
		}
		f.replace(n, "fmt.Fprintf("+addr, recv, ", \"%s\", ", arg, ")")
	},
	"iowrite": func(f *file, n ast.Node) {
		recv, addr, arg := f.writer(n)
		if recv == nil || !f.imports("io") {
			return
		}
		f.replace(n, "io.WriteString("+addr, recv, ", ", arg, ")")
	},
	"bytewrite": func(f *file, n ast.Node) {
		recv, _, arg := f.writer(n)
		if recv == nil {
			return
		}
		f.replace(n, recv, ".Write([]byte(", arg, "))")
	},
	"closure": func(f *file, n ast.Node) {
		if n, ok := n.(*ast.IfStmt); ok && len(n.Body.List) > 0 && !leaves(n.Body) {
			f.replace(n.Body, "{\nfunc() ", span{n.Body.Pos(), n.Body.End()}, "()\n}")
		}
	},
	"temps": func(f *file, n ast.Node) {
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return
		}
		for _, s := range b.List {
			var c *ast.CallExpr
			switch s := s.(type) {
			case *ast.ExprStmt:
				c, _ = s.X.(*ast.CallExpr)
			case *ast.AssignStmt:
				if len(s.Rhs) == 1 {
					c, _ = s.Rhs[0].(*ast.CallExpr)
				}
				for _, l := range s.Lhs {
					if !pure(l) {
						c = nil
					}
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 1 {
					c, _ = s.Results[0].(*ast.CallExpr)
				}
			}
			if c == nil || !pure(c.Fun) || f.pkg.TypesInfo.Types[c.Fun].IsType() || f.pkg.TypesInfo.Types[c.Fun].IsBuiltin() {
				continue
			}
			var pre, args []any
			for i, a := range c.Args {
				tv := f.pkg.TypesInfo.Types[a]
				if i > 0 {
					args = append(args, ", ")
				}
				if _, ok := tv.Type.(*types.Tuple); ok || tv.IsNil() || tv.Value != nil || c.Ellipsis.IsValid() {
					args = append(args, span{a.Pos(), a.End()})
					continue
				}
				f.n++
				name := fmt.Sprintf("zt%d", f.n)
				pre = append(pre, name+" := ", span{a.Pos(), a.End()}, "\n")
				args = append(args, name)
			}
			if len(pre) == 0 {
				continue
			}
			parts := append(pre, span{s.Pos(), c.Lparen + 1})
			parts = append(parts, args...)
			parts = append(parts, span{c.Rparen, s.End()})
			f.edits = append(f.edits, edit{span{s.Pos(), s.End()}, parts})
		}
	},
	"uninit": func(f *file, n ast.Node) {
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return
		}
		for _, s := range b.List {
			if n, ok := s.(*ast.IfStmt); ok && n.Init != nil {
				f.replace(n, "{\n", n.Init, "\nif ", span{n.Cond.Pos(), n.End()}, "\n}")
			}
		}
	},
	"sprintf": func(f *file, n ast.Node) {
		e, ok := n.(*ast.BinaryExpr)
		if !ok || e.Op != token.ADD || !f.imports("fmt") || f.isConst(e) || !isString(f.typeOf(e)) {
			return
		}
		var parts []any
		format := ""
		for _, x := range concat(e) {
			t := f.typeOf(x)
			if b, ok := t.(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				return
			}
			if tv := f.pkg.TypesInfo.Types[x]; tv.Value != nil && !strings.Contains(f.text(x), ".Sep") {
				format += strings.ReplaceAll(constant.StringVal(tv.Value), "%", "%%")
				continue
			}
			format += "%s"
			parts = append(parts, ", ", x)
		}
		f.replace(e, append(append([]any{fmt.Sprintf("fmt.Sprintf(%q", format)}, parts...), ")")...)
	},
	"elsewrap": func(f *file, n ast.Node) {
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return
		}
		for _, s := range b.List {
			if _, ok := s.(*ast.LabeledStmt); ok {
				return
			}
		}
		for i, s := range b.List {
			n, ok := s.(*ast.IfStmt)
			if !ok || n.Else != nil || len(n.Body.List) == 0 || i == len(b.List)-1 {
				continue
			}
			switch last := n.Body.List[len(n.Body.List)-1].(type) {
			case *ast.ReturnStmt:
			case *ast.BranchStmt:
				if last.Tok != token.CONTINUE {
					continue
				}
			default:
				continue
			}
			f.edits = append(f.edits, edit{span{n.Pos(), b.List[len(b.List)-1].End()}, []any{span{n.Pos(), n.End()}, " else {\n", span{b.List[i+1].Pos(), b.List[len(b.List)-1].End()}, "\n}"}})
		}
	},
	"lens": func(f *file, n ast.Node) {
		b, ok := n.(*ast.BinaryExpr)
		if !ok {
			return
		}
		c, ok := b.X.(*ast.CallExpr)
		if !ok || f.text(c.Fun) != "len" || f.text(b.Y) != "0" {
			return
		}
		switch b.Op {
		case token.GTR, token.NEQ:
			f.replace(b, b.X, " >= 1")
		case token.EQL:
			f.replace(b, b.X, " < 1")
		}
	},
	"empties": func(f *file, n ast.Node) {
		b, ok := n.(*ast.BinaryExpr)
		if !ok {
			return
		}
		if l, ok := b.Y.(*ast.BasicLit); ok && l.Value == `""` && isString(f.typeOf(b.X)) {
			if b.Op == token.EQL {
				f.replace(b, "len(", b.X, ") == 0")
			} else if b.Op == token.NEQ {
				f.replace(b, "len(", b.X, ") > 0")
			}
		}
	},
	"wrap": func(f *file, n ast.Node) {
		d, ok := n.(*ast.FuncDecl)
		if !ok || d.Body == nil || d.Name.Name == "main" || d.Name.Name == "init" || d.Type.TypeParams != nil {
			return
		}
		var args []string
		for _, p := range d.Type.Params.List {
			if len(p.Names) == 0 {
				return
			}
			for _, x := range p.Names {
				if x.Name == "_" {
					return
				}
				a := x.Name
				if _, ok := p.Type.(*ast.Ellipsis); ok {
					a += "..."
				}
				args = append(args, a)
			}
		}
		inner := "zz" + d.Name.Name
		call := inner + "(" + strings.Join(args, ", ") + ")"
		recv := ""
		if d.Recv != nil {
			if len(d.Recv.List[0].Names) == 0 || strings.Contains(f.text(d.Recv.List[0].Type), "[") {
				return
			}
			recv = f.text(d.Recv) + " "
			call = d.Recv.List[0].Names[0].Name + "." + call
		}
		ret := ""
		if d.Type.Results != nil {
			ret = "return "
		}
		sig := string(f.src[d.Type.Params.Pos()-f.base : d.Body.Lbrace-f.base])
		f.replace(d.Body, "{\n"+ret+call+"\n}\n\nfunc "+recv+inner+sig, span{d.Body.Pos(), d.Body.End()})
	},
	"vars": func(f *file, n ast.Node) {
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return
		}
		for _, s := range b.List {
			a, ok := s.(*ast.AssignStmt)
			if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 || f.text(a.Lhs[0]) == "_" {
				continue
			}
			f.replace(a, "var "+f.text(a.Lhs[0])+" = ", a.Rhs[0])
		}
	},
	"rename": func(f *file, n ast.Node) {
		id, ok := n.(*ast.Ident)
		if !ok || id.Name == "_" || id.Name == "main" || id.Name == "init" {
			return
		}
		o := f.pkg.TypesInfo.Defs[id]
		if o == nil {
			if strings.Contains(string(f.src), "switch "+id.Name+" := ") {
				return
			}
			o = f.pkg.TypesInfo.Uses[id]
		}
		if o == nil || o.Pkg() == nil || ast.IsExported(id.Name) || !strings.Contains(o.Pkg().Path(), "sqddl") {
			return
		}
		switch o := o.(type) {
		case *types.PkgName, *types.Label:
			return
		case *types.Var:
			if o.Embedded() {
				return
			}
		}
		if strings.Contains(f.tests, "|"+id.Name+"|") || strings.Contains(string(f.src), "switch "+id.Name+" := ") {
			return
		}
		f.replace(id, id.Name+"Qz")
	},
}

func main() {
	dir, which := os.Args[1], os.Args[2:]
	for _, k := range which {
		if err := run(dir, k); err != nil {
			fmt.Fprintln(os.Stderr, k, err)
			os.Exit(1)
		}
	}
}

func run(dir, name string) error {
	k := kinds[name]
	if k == nil {
		return fmt.Errorf("no such kind")
	}
	pkgs, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: dir, BuildFlags: []string{"-tags=fts5"}}, "./...")
	if err != nil {
		return err
	}
	total := 0
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return fmt.Errorf("%v", p.Errors)
		}
		var words strings.Builder
		words.WriteString("|")
		tests, _ := filepath.Glob(filepath.Join(dir, "ddl", "*_test.go"))
		for _, t := range tests {
			b, _ := os.ReadFile(t)
			for _, w := range strings.FieldsFunc(string(b), func(r rune) bool {
				return !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
			}) {
				words.WriteString(w + "|")
			}
		}
		for i, a := range p.Syntax {
			path := p.CompiledGoFiles[i]
			if !strings.HasPrefix(path, dir) {
				continue
			}
			src, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			f := &file{pkg: p, ast: a, src: src, base: token.Pos(p.Fset.File(a.Pos()).Base()), tests: words.String()}
			ast.Inspect(a, func(n ast.Node) bool {
				if n == nil {
					return false
				}
				if g, ok := n.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
					return false
				}
				k(f, n)
				return true
			})
			// An edit comes before the edits inside it.
			sort.SliceStable(f.edits, func(i, j int) bool {
				a, b := f.edits[i], f.edits[j]
				if a.pos != b.pos {
					return a.pos < b.pos
				}
				return a.end > b.end
			})
			total += len(f.edits)
			out := f.render(span{f.base, f.base + token.Pos(len(src))}, 0)
			if err := os.WriteFile(path, []byte(out), 0o644); err != nil {
				return err
			}
		}
	}
	fmt.Println(name, total)
	return nil
}
