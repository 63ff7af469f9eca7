package absint

import (
	"go/types"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// StmtQuery is the text a prepared statement was made from.
func (e *Engine) stmtQuery(s *State, v *AV) *AV {
	var q *AV = botV
	for _, o := range ObjsOf(v) {
		if x := s.Attr(o, "query"); x != nil {
			q = Join(q, x)
		}
	}
	if q.K == Bot {
		return AnyStr()
	}
	return q
}

// StmtText returns the SQL text of any statement operation.
func (e *Engine) StmtText(c *Call, s *State) *AV {
	recv, m := e.SQLOp(c.Name)
	if recv == "stmt" {
		return e.stmtQuery(s, c.Args[0])
	}
	return SQLText(c, m)
}

// havocPtr makes what a pointer denotes unknown.
func (e *Engine) havocPtr(s *State, v *AV) {
	refs := refsOf(v)
	for _, r := range refs {
		info := e.objs[r.O]
		t := typeAt(info.T, stepsOf(r.P))
		if t == nil {
			continue
		}
		nv := e.unknownAt(info.T, stepsOf(r.P), t)
		weak := hasAny(r.P) || len(refs) > 1
		e.storeRef(s, r, nv, weak)
	}
}

// scanDest models Scan writing its destinations; f may give a value for the
// i-th destination.
func (e *Engine) scanDest(s *State, dests []*AV, f func(i int, d *AV, t types.Type) *AV) {
	for i, d := range dests {
		for _, r := range refsOf(d) {
			info := e.objs[r.O]
			t := typeAt(info.T, stepsOf(r.P))
			if t == nil {
				continue
			}
			var nv *AV
			if f != nil {
				nv = f(i, d, t)
			}
			if nv == nil {
				nv = e.unknownAt(info.T, stepsOf(r.P), t)
			}
			e.storeRef(s, r, nv, hasAny(r.P) || len(refsOf(d)) > 1)
		}
	}
}

// ScanHook gives the value scanned into the i-th destination (nil: unknown).
type ScanHook func(e *Engine, c *Call, s *State, i int, t types.Type) *AV

func (e *Engine) scanHook(c *Call, s *State) func(i int, d *AV, t types.Type) *AV {
	if e.Scan == nil {
		return nil
	}
	return func(i int, d *AV, t types.Type) *AV { return e.Scan(e, c, s, i, t) }
}

func (e *Engine) attrTrue(s *State, v *AV, k string) bool {
	for _, o := range ObjsOf(v) {
		if a := s.Attr(o, k); a != nil && a.K == Bool && a.B&MayTrue != 0 {
			return true
		}
	}
	return false
}

func (e *Engine) setAttr(s *State, v *AV, k string, x *AV) {
	for _, o := range ObjsOf(v) {
		s.SetAttr(o, k, x)
	}
}

var stdModels map[string]Model

func pureStr(f func(string) string) Model {
	return func(e *Engine, c *Call, s *State) []Outcome { return one(mapStr(c.Args[0], f)) }
}

func pureStr2(f func(a, b string) string) Model {
	return func(e *Engine, c *Call, s *State) []Outcome {
		if b, ok := c.Args[1].One(); ok {
			v := mapStr(c.Args[0], func(a string) string { return f(a, b) })
			return one(v)
		}
		return one(mapStr(asUnknownStr(c.Args[0]), func(a string) string { return a }))
	}
}

func asUnknownStr(x *AV) *AV {
	return &AV{K: Str, Hi: MaxInt, Lab: x.Lab, Frags: x.fragSet()}
}

func boolStr2(f func(a, b string) bool, unk func(x *AV, b string) uint8) Model {
	return func(e *Engine, c *Call, s *State) []Outcome {
		x, y := Text(c.Args[0]), Text(c.Args[1])
		lab := x.Lab.Union(y.Lab)
		if x.Consts != nil && y.Consts != nil {
			var b uint8
			for _, p := range x.Consts {
				for _, q := range y.Consts {
					if f(p, q) {
						b |= MayTrue
					} else {
						b |= MayFalse
					}
				}
			}
			return one(&AV{K: Bool, B: b, Lab: lab})
		}
		b := uint8(3)
		if q, ok := y.One(); ok && unk != nil {
			b = unk(x, q)
		}
		return one(&AV{K: Bool, B: b, Lab: lab})
	}
}

func fallible(e *Engine, c *Call, s *State) []Outcome { return e.okFail(c, s, nil) }

// fallibleNoTrack: fails without this being a failure of the environment.
func fallibleNoTrack(e *Engine, c *Call, s *State) []Outcome {
	o := e.okFail(c, s, nil)
	o[1].Tag = "parse"
	return o
}

// parseText is exact for known texts.
func parseText(e *Engine, c *Call, s *State) []Outcome {
	t, ok := c.Args[0].One()
	if !ok {
		return fallibleNoTrack(e, c, s)
	}
	arg := func(i int) int {
		n, known := c.Args[i].IntConst()
		ok = ok && known
		return int(n)
	}
	v, err := Top(), error(nil)
	switch c.Name {
	case "strconv.Atoi":
		var n int
		n, err = strconv.Atoi(t)
		v = IntV(int64(n))
	case "strconv.ParseInt":
		base, bits := arg(1), arg(2)
		if ok {
			var n int64
			n, err = strconv.ParseInt(t, base, bits)
			v = IntV(n)
		}
	case "strconv.ParseBool":
		var b bool
		b, err = strconv.ParseBool(t)
		v = False()
		if b {
			v = True()
		}
	case "strconv.ParseFloat":
		_, err = strconv.ParseFloat(t, 64)
		v = e.Unknown(c.ResT.(*types.Tuple).At(0).Type())
	default:
		ok = false
	}
	if !ok {
		return fallibleNoTrack(e, c, s)
	}
	lab := c.Args[0].Lab
	if err != nil {
		return []Outcome{{Ret: TupleV(v.withLab(lab), FailErr("")), Fail: true, Tag: "parse"}}
	}
	return one(TupleV(v.withLab(lab), NilErr()))
}

// rounded: rounding stays within whole-numbered bounds.
func rounded(e *Engine, c *Call, s *State) []Outcome {
	if len(c.Args) == 1 && c.Args[0].K == Int {
		return one(c.Args[0])
	}
	return topRet(e, c, s)
}

func topRet(e *Engine, c *Call, s *State) []Outcome {
	return one(e.resultOf(c.ResT.(*types.Tuple), e.Unknown).withLab(labelsOf(c.Args)))
}

func nonNilRet(e *Engine, c *Call, s *State) []Outcome {
	v := e.resultOf(c.ResT.(*types.Tuple), e.Unknown)
	if isRefKind(v) {
		n := *v
		n.Nil = MayNonNil
		v = &n
	}
	return one(v)
}

func nop(e *Engine, c *Call, s *State) []Outcome { return one(TupleV()) }

// derivedCtx: a context ends when the one it is derived from ends.
func derivedCtx(e *Engine, c *Call, s *State) []Outcome {
	ctx := NonNil().withLab(c.Args[0].Lab)
	rt, ok := c.ResT.(*types.Tuple)
	if !ok || rt.Len() == 1 {
		return one(ctx)
	}
	if strings.HasPrefix(c.Name, "context.WithCancel") {
		ctx = ctx.withLab(NewSet("ctx:group"))
	}
	return one(TupleV(ctx, NonNil()))
}

func wrapper(kind string) Model {
	return func(e *Engine, c *Call, s *State) []Outcome {
		rt := c.ResT.(*types.Tuple)
		under := c.Args[0]
		if rt.Len() == 1 {
			return one(e.Res(c, s, kind, rt.At(0).Type(), map[string]*AV{"under": under, "st": StrV("open")}))
		}
		return e.okFail(c, s, func(t *State) []*AV {
			return []*AV{e.Res(c, t, kind, rt.At(0).Type(), map[string]*AV{"under": under, "st": StrV("open")})}
		})
	}
}

func nilMayErr() *AV { return &AV{K: Iface, Nil: MayNil | MayNonNil, Unk: true} }

func openModel(e *Engine, c *Call, s *State) []Outcome {
	rt := c.ResT.(*types.Tuple)
	path := c.Args[0]
	w := falseV
	switch c.Name {
	case "os.OpenFile":
		w = trueV
		if n, ok := c.Args[1].IntConst(); ok && n&WriteFlags == 0 {
			w = falseV
		}
	case "os.Create":
		w = trueV
	case "(io/fs.FS).Open", "(*archive/zip.File).Open":
		if len(c.Args) > 1 {
			path = c.Args[1]
		}
	}
	o := e.okFail(c, s, func(t *State) []*AV {
		k := "file"
		if w == trueV {
			k = "wfile"
		}
		p := e.Res(c, t, k, rt.At(0).Type(), map[string]*AV{"path": path, "w": w, "st": StrV("open")})
		if _, ok := under(rt.At(0).Type()).(*types.Interface); ok {
			p = IfaceOf(p)
		}
		return []*AV{p}
	})
	if w == falseV {
		f := o[1]
		f.Tag = "absent"
		f.Fail = false
		r := *f.Ret
		r.Elems = append([]*AV(nil), r.Elems...)
		r.Elems[len(r.Elems)-1] = FailErr("io/fs.ErrNotExist")
		f.Ret = &r
		o = append(o, f)
	}
	return o
}

// readFile: the contents of the file named by argument i.
func readFile(i int) Model {
	return func(e *Engine, c *Call, s *State) []Outcome {
		p := c.Args[i]
		t := AnyStr()
		if e.Content != nil {
			if x := e.Content(p); x != nil {
				t = x
			}
		}
		t = t.withLab(contentLab(p))
		o := e.okFail(c, s, func(u *State) []*AV { return []*AV{textBytes(t)} })
		f := o[1]
		f.Tag, f.Fail = "absent", false
		f.Ret = TupleV(f.Ret.Elems[0], FailErr("io/fs.ErrNotExist"))
		return append(o, f)
	}
}

func textBytes(t *AV) *AV {
	return &AV{K: Slice, Nil: MayNonNil, Unk: true, Hi: MaxInt, Lab: t.Lab, Frags: t.Frags, Consts: t.Consts, Pre: t.Pre, Suf: t.Suf}
}

// textReader: a reader of the given text.
func textReader(e *Engine, c *Call, s *State) []Outcome {
	return one(e.Res(c, s, "text", c.ResT, map[string]*AV{bufKey(Ref{}): Text(c.Args[0])}))
}

func init() {
	stdModels = map[string]Model{
		"database/sql.Open": func(e *Engine, c *Call, s *State) []Outcome {
			return e.okFail(c, s, func(t *State) []*AV {
				return []*AV{e.Res(c, t, "db", resT(c, 0), map[string]*AV{"st": StrV("open")})}
			})
		},
		"(*database/sql.Row).Scan": func(e *Engine, c *Call, s *State) []Outcome {
			d, _ := e.varargs(c, s, 1)
			return []Outcome{
				{Ret: nilErr, Apply: func(t *State) { e.scanDest(t, d, e.scanHook(c, t)) }},
				{Ret: FailErr("fail"), Fail: true},
				{Ret: FailErr("database/sql.ErrNoRows"), Tag: "norows"},
			}
		},
		"(*database/sql.Rows).Next": func(e *Engine, c *Call, s *State) []Outcome {
			return []Outcome{
				{Ret: trueV},
				{Ret: falseV, Tag: "exhausted"},
				{Ret: falseV, Fail: true, Tag: "itererr", Apply: func(t *State) { e.setAttr(t, c.Args[0], "iterr", trueV) }},
			}
		},
		"(*database/sql.Rows).Err": func(e *Engine, c *Call, s *State) []Outcome {
			if e.attrTrue(s, c.Args[0], "iterr") {
				return []Outcome{{Ret: FailErr("fail")}, {Ret: nilErr, Tag: "noerr"}}
			}
			return one(nilErr)
		},
		"(*database/sql.Rows).Scan": func(e *Engine, c *Call, s *State) []Outcome {
			d, _ := e.varargs(c, s, 1)
			return []Outcome{
				{Ret: nilErr, Apply: func(t *State) { e.scanDest(t, d, e.scanHook(c, t)) }},
				{Ret: FailErr("fail"), Fail: true},
			}
		},
		"(*database/sql.Rows).Columns": fallible,
		"(*database/sql.Rows).Close":   func(e *Engine, c *Call, s *State) []Outcome { return one(nilMayErr()) },
		"(*database/sql.NullTime).Scan": func(e *Engine, c *Call, s *State) []Outcome {
			e.havocPtr(s, c.Args[0])
			return fallibleNoTrack(e, c, s)
		},
		"(database/sql.Result).RowsAffected": fallible,
		"(database/sql.Result).LastInsertId": fallible,

		"os.Open": openModel, "os.OpenFile": openModel, "os.Create": openModel,
		"(io/fs.FS).Open": openModel, "(*archive/zip.File).Open": openModel,
		"os.MkdirAll": fallible, "os.Mkdir": fallible, "os.WriteFile": fallible, "os.ReadFile": readFile(0), "os.Remove": fallible, "os.RemoveAll": fallible, "os.Rename": fallible,
		"os.Exit":        func(e *Engine, c *Call, s *State) []Outcome { return []Outcome{{Ret: TupleV(), Stop: true}} },
		"io/fs.ReadFile": readFile(1), "(embed.FS).ReadFile": readFile(1), "(io/fs.ReadFileFS).ReadFile": readFile(1),
		"strings.NewReader": textReader, "bytes.NewReader": textReader, "bytes.NewBuffer": textReader, "bytes.NewBufferString": textReader,
		"(*os.File).Close":              closeModel,
		"(io/fs.File).Close":            closeModel,
		"(io.Closer).Close":             closeModel,
		"(io.ReadCloser).Close":         closeModel,
		"(io.WriteCloser).Close":        closeModel,
		"(*compress/gzip.Writer).Close": closeModel, "(*archive/tar.Writer).Close": closeModel, "(*archive/zip.Writer).Close": closeModel,
		"(*compress/gzip.Reader).Close": closeModel,
		"(io/fs.File).Stat":             fallible, "(*os.File).Stat": fallible, "(io/fs.FS).Stat": fallible,
		"(io/fs.File).Read": fallible, "(*os.File).Read": fallible, "(io.Reader).Read": fallible,
		"(*os.File).ReadFrom": fallible, "(*os.File).Write": fallible, "(*os.File).WriteString": fallible, "(*os.File).Sync": fallible,
		"(io.Writer).Write": writeModel,
		"io.WriteString":    writeModel,
		"io.Copy": func(e *Engine, c *Call, s *State) []Outcome {
			t := e.ReaderText(s, c.Args[1])
			return e.okFail(c, s, func(u *State) []*AV { e.BufAppend(u, c.Args[0], t); return nil })
		},
		"io.ReadAll": func(e *Engine, c *Call, s *State) []Outcome {
			t := e.ReaderText(s, c.Args[0])
			return e.okFail(c, s, func(u *State) []*AV {
				return []*AV{textBytes(t)}
			})
		},
		"(*bytes.Buffer).WriteTo": func(e *Engine, c *Call, s *State) []Outcome {
			t := e.BufText(s, c.Args[0])
			return e.okFail(c, s, func(u *State) []*AV {
				e.BufAppend(u, c.Args[1], t)
				e.bufSet(u, c.Args[0], func(*AV) *AV { return StrV("") })
				return nil
			})
		},
		"(*bytes.Buffer).ReadFrom": func(e *Engine, c *Call, s *State) []Outcome {
			t := e.ReaderText(s, c.Args[1])
			return e.okFail(c, s, func(u *State) []*AV { e.BufAppend(u, c.Args[0], t); return nil })
		},
		"(*bytes.Buffer).Read": func(e *Engine, c *Call, s *State) []Outcome {
			o := e.okFail(c, s, nil)
			o[1].Fail = false
			o[1].Ret = TupleV(IntV(0), FailErr("io.EOF"))
			return o
		},
		"(*bufio.Reader).Peek": fallibleNoTrack,
		"(*bufio.Reader).WriteTo": func(e *Engine, c *Call, s *State) []Outcome {
			t := e.ReaderText(s, c.Args[0])
			return e.okFail(c, s, func(u *State) []*AV { e.BufAppend(u, c.Args[1], t); return nil })
		},
		"bufio.NewReader": wrapper("bufreader"),

		"(*bytes.Buffer).Reset":          bufReset,
		"(*strings.Builder).Reset":       bufReset,
		"(*bytes.Buffer).Grow":           nop,
		"(*strings.Builder).Grow":        nop,
		"(*bytes.Buffer).WriteString":    bufWrite,
		"(*bytes.Buffer).Write":          bufWrite,
		"(*strings.Builder).WriteString": bufWrite,
		"(*strings.Builder).Write":       bufWrite,
		"(*bytes.Buffer).WriteByte":      bufWriteChar,
		"(*bytes.Buffer).WriteRune":      bufWriteChar,
		"(*strings.Builder).WriteByte":   bufWriteChar,
		"(*strings.Builder).WriteRune":   bufWriteChar,
		"(*bytes.Buffer).String":         bufString,
		"(*strings.Builder).String":      bufString,
		"(*bytes.Buffer).Bytes": func(e *Engine, c *Call, s *State) []Outcome {
			t := e.BufText(s, c.Args[0])
			// the bytes alias the buffer
			return one(&AV{K: Slice, Nil: MayNonNil | MayNil, Unk: true, Lo: t.Lo, Hi: t.Hi, Consts: t.Consts, Pre: t.Pre, Suf: t.Suf, Frags: t.Frags, Lab: t.Lab})
		},
		"(*bytes.Buffer).Len":    bufLen,
		"(*strings.Builder).Len": bufLen,
		"(*sync.Pool).Get": func(e *Engine, c *Call, s *State) []Outcome {
			bt := e.lookupType("bytes", "Buffer")
			p := e.Res(c, s, "pooled", bt, map[string]*AV{"text@": AnyStr().withLab(NewSet("stale"))})
			return one(&AV{K: Iface, Nil: MayNonNil, Dyn: []Dyn{{types.NewPointer(bt), p}}})
		},
		"(*sync.Pool).Put": nop,

		"encoding/csv.NewReader": wrapper("csvreader"), "encoding/csv.NewWriter": wrapper("csvwriter"),
		"(*encoding/csv.Reader).Read": func(e *Engine, c *Call, s *State) []Outcome {
			o := e.okFail(c, s, nil)
			return append(o, Outcome{Ret: TupleV(e.Zero(resT(c, 0)), FailErr("io.EOF")), Tag: "eof"})
		},
		"(*encoding/csv.Writer).Write": func(e *Engine, c *Call, s *State) []Outcome {
			o := e.okFail(c, s, nil)
			return append(o, Outcome{Ret: nilErr, Fail: true, Tag: "pending", Apply: func(t *State) { e.setAttr(t, c.Args[0], "pend", trueV) }})
		},
		"(*encoding/csv.Writer).WriteAll": fallible,
		"(*encoding/csv.Writer).Flush": func(e *Engine, c *Call, s *State) []Outcome {
			return []Outcome{{Ret: TupleV()}, {Ret: TupleV(), Fail: true, Tag: "pending", Apply: func(t *State) { e.setAttr(t, c.Args[0], "pend", trueV) }}}
		},
		"(*encoding/csv.Writer).Error": func(e *Engine, c *Call, s *State) []Outcome {
			if e.attrTrue(s, c.Args[0], "pend") {
				return []Outcome{{Ret: FailErr("fail")}, {Ret: nilErr, Tag: "noerr"}}
			}
			return one(nilErr)
		},
		"encoding/json.NewDecoder": wrapper("jsondec"), "encoding/json.NewEncoder": wrapper("jsonenc"),
		"(*encoding/json.Encoder).SetIndent": nop,
		"(*encoding/json.Encoder).Encode":    fallible,
		"encoding/json.Marshal":              fallible,
		"(*encoding/json.Decoder).Decode": func(e *Engine, c *Call, s *State) []Outcome {
			return e.okFail(c, s, func(t *State) []*AV { e.havocPtr(t, c.Args[1]); return nil })
		},
		"encoding/json.Unmarshal": func(e *Engine, c *Call, s *State) []Outcome {
			return e.okFail(c, s, func(t *State) []*AV { e.havocPtr(t, c.Args[1]); return nil })
		},
		"archive/zip.NewReader": wrapper("zipreader"), "archive/zip.NewWriter": wrapper("zipwriter"),
		"archive/tar.NewReader": wrapper("tarreader"), "archive/tar.NewWriter": wrapper("tarwriter"),
		"compress/gzip.NewReader": wrapper("gzipreader"), "compress/gzip.NewWriter": wrapper("gzipwriter"), "compress/gzip.NewWriterLevel": func(e *Engine, c *Call, s *State) []Outcome {
			o := wrapper("gzipwriter")(e, c, s)
			if l := c.Args[1]; l.K == Int && l.Lo >= -2 && l.Hi <= 9 {
				o = o[:1] // only an invalid level is an error
			}
			return o
		},
		"(*archive/zip.Writer).Create":      wrapper("zipentry"),
		"(*archive/tar.Writer).WriteHeader": fallible,
		"(*archive/tar.Reader).Next": func(e *Engine, c *Call, s *State) []Outcome {
			o := e.okFail(c, s, nil)
			return append(o, Outcome{Ret: TupleV(e.Zero(resT(c, 0)), FailErr("io.EOF")), Tag: "eof"})
		},
		"text/template.New": nonNilRet, "(*text/template.Template).Funcs": nonNilRet, "(*text/template.Template).Lookup": topRet,
		"(*text/template.Template).Parse": fallible, "(*text/template.Template).AddParseTree": fallible,
		"(*text/template.Template).Execute": func(e *Engine, c *Call, s *State) []Outcome {
			return e.okFail(c, s, func(t *State) []*AV {
				e.BufAppend(t, c.Args[1], AnyStr().withLab(NewSet("template")))
				return nil
			})
		},
		"go/format.Source":    fallibleNoTrack,
		"go/parser.ParseFile": fallible,

		"context.Background":        func(e *Engine, c *Call, s *State) []Outcome { return one(Labelled(NonNil(), "ctx:background")) },
		"context.TODO":              func(e *Engine, c *Call, s *State) []Outcome { return one(Labelled(NonNil(), "ctx:background")) },
		"context.WithCancel":        derivedCtx,
		"context.WithCancelCause":   derivedCtx,
		"context.WithTimeout":       derivedCtx,
		"context.WithTimeoutCause":  derivedCtx,
		"context.WithDeadline":      derivedCtx,
		"context.WithDeadlineCause": derivedCtx,
		"context.WithValue":         derivedCtx,
		"context.WithoutCancel":     func(e *Engine, c *Call, s *State) []Outcome { return one(Labelled(NonNil(), "ctx:background")) },
		"golang.org/x/sync/errgroup.WithContext": func(e *Engine, c *Call, s *State) []Outcome {
			g := e.Res(c, s, "errgroup", resT(c, 0), map[string]*AV{"err": nilErr})
			ctx := NonNil().withLab(c.Args[0].Lab).withLab(NewSet("ctx:group"))
			return one(TupleV(g, ctx))
		},
		"(*golang.org/x/sync/errgroup.Group).Wait": func(e *Engine, c *Call, s *State) []Outcome {
			v := botV
			for _, o := range ObjsOf(c.Args[0]) {
				if a := s.Attr(o, "err"); a != nil {
					v = Join(v, a)
				} else {
					v = Join(v, nilErr)
				}
			}
			if v.K == Bot {
				v = nilMayErr()
			}
			return one(v)
		},

		"fmt.Errorf": func(e *Engine, c *Call, s *State) []Outcome {
			el, _ := e.varargs(c, s, 1)
			sent := "new"
			f, ok := c.Args[0].One()
			if !ok || strings.Contains(f, "%w") {
				n := 0
				for _, a := range el {
					if a.Sent != "" {
						n++
						sent = "w:" + strings.TrimPrefix(a.Sent, "w:")
					}
				}
				if n == 0 {
					sent = ""
				}
			}
			l := labelsOf(el)
			for _, a := range el {
				l = l.Union(s.DeepLab(a).Filter(func(x string) bool { return strings.HasPrefix(x, "err:") }))
			}
			return one(&AV{K: Unk, Nil: MayNonNil, Sent: sent, Lab: l})
		},
		"errors.New": func(e *Engine, c *Call, s *State) []Outcome {
			return one(FailErr("new"))
		},
		"errors.Is": func(e *Engine, c *Call, s *State) []Outcome {
			x, y := c.Args[0], c.Args[1]
			if x.MustNil() {
				return one(falseV)
			}
			if x.Sent != "" && y.Sent != "" {
				if strings.TrimPrefix(x.Sent, "w:") == y.Sent {
					if x.MustNonNil() {
						return one(trueV)
					}
					return one(AnyBool())
				}
				return one(falseV)
			}
			return one(AnyBool())
		},
		"errors.As": func(e *Engine, c *Call, s *State) []Outcome {
			if c.Args[0].MustNil() {
				return one(falseV)
			}
			return []Outcome{{Ret: falseV}, {Ret: trueV, Apply: func(t *State) { e.havocPtr(t, c.Args[1]) }}}
		},
		"(error).Error": topRet,
		"fmt.Sprintf": func(e *Engine, c *Call, s *State) []Outcome {
			el, exact := e.varargs(c, s, 1)
			return one(e.FormatText(s, c.Args[0], el, exact))
		},
		"fmt.Sprint": func(e *Engine, c *Call, s *State) []Outcome {
			el, exact := e.varargs(c, s, 0)
			if exact && len(el) == 1 && el[0].Inner().K == Str {
				return one(el[0].Inner())
			}
			return one(AnyStr().withLab(labelsOf(el)))
		},
		"fmt.Fprintf":  fprint,
		"fmt.Fprint":   fprint,
		"fmt.Fprintln": fprint,

		"strings.ToUpper": pureStr(strings.ToUpper), "strings.ToLower": pureStr(strings.ToLower), "strings.TrimSpace": pureStr(strings.TrimSpace),
		"strings.TrimPrefix": func(e *Engine, c *Call, s *State) []Outcome {
			x := Text(c.Args[0])
			if b, ok := c.Args[1].One(); ok {
				if x.Consts != nil {
					return one(mapStr(x, func(a string) string { return strings.TrimPrefix(a, b) }))
				}
				r := *x
				r.Lo = max(0, r.Lo-int64(len(b)))
				r.Pre = nil
				for _, p := range x.Pre {
					if strings.HasPrefix(p, b) {
						r.Pre = append(r.Pre, p[len(b):])
					} else if len(p) >= len(b) {
						r.Pre = append(r.Pre, p)
					} else {
						r.Pre = nil
						break
					}
				}
				r.Suf = ""
				return one(&r)
			}
			return one(asUnknownStr(x))
		},
		"strings.TrimSuffix": func(e *Engine, c *Call, s *State) []Outcome {
			x := Text(c.Args[0])
			if b, ok := c.Args[1].One(); ok {
				if x.Consts != nil {
					return one(mapStr(x, func(a string) string { return strings.TrimSuffix(a, b) }))
				}
				r := *x
				r.Lo = max(0, r.Lo-int64(len(b)))
				r.Suf = strings.TrimSuffix(x.Suf, b)
				if r.Suf == x.Suf && len(x.Suf) < len(b) {
					r.Suf = ""
				}
				return one(&r)
			}
			return one(asUnknownStr(x))
		},
		"strings.Trim": pureStr2(strings.Trim), "strings.TrimLeft": pureStr2(strings.TrimLeft), "strings.TrimRight": pureStr2(strings.TrimRight),
		"strings.HasPrefix": boolStr2(strings.HasPrefix, func(x *AV, b string) uint8 {
			if x.Pre == nil {
				return 3
			}
			var r uint8
			for _, p := range x.Pre {
				switch {
				case strings.HasPrefix(p, b):
					r |= MayTrue
				case len(p) >= len(b) || !strings.HasPrefix(b, p):
					r |= MayFalse
				default:
					r |= 3
				}
			}
			return r
		}),
		"strings.HasSuffix": boolStr2(strings.HasSuffix, func(x *AV, b string) uint8 {
			if x.Suf == "" {
				return 3
			}
			if strings.HasSuffix(x.Suf, b) {
				return MayTrue
			}
			if !strings.HasSuffix(b, x.Suf) {
				return MayFalse
			}
			return 3
		}),
		"strings.Contains":     boolStr2(strings.Contains, nil),
		"strings.EqualFold":    boolStr2(strings.EqualFold, nil),
		"strings.ContainsRune": topRet, "strings.ContainsAny": topRet,
		"strings.Count": func(e *Engine, c *Call, s *State) []Outcome { return one(IntRange(0, MaxInt)) },
		"strings.Index": indexModel, "strings.IndexByte": indexModel, "strings.IndexAny": indexModel, "strings.LastIndex": indexModel, "strings.IndexRune": indexModel, "strings.LastIndexByte": indexModel,
		"bytes.Index": indexModel, "bytes.IndexByte": indexModel, "bytes.IndexAny": indexModel,
		"strings.ReplaceAll": func(e *Engine, c *Call, s *State) []Outcome {
			o, ok1 := c.Args[1].One()
			n, ok2 := c.Args[2].One()
			if ok1 && ok2 && c.Args[0].Consts != nil {
				return one(mapStr(c.Args[0], func(a string) string { return strings.ReplaceAll(a, o, n) }))
			}
			if ok1 && o != "" && c.Args[0].Consts != nil && c.Args[2].K == Str {
				// known text with unknown pieces put in
				var r *AV = botV
				for _, t := range c.Args[0].Consts {
					var x *AV
					for i, piece := range strings.Split(t, o) {
						switch {
						case i == 0:
							x = StrV(piece)
						default:
							x = ConcatStr(ConcatStr(x, c.Args[2]), StrV(piece))
						}
					}
					r = Join(r, x)
				}
				return one(r.withLab(labelsOf(c.Args)))
			}
			r := asUnknownStr(c.Args[0])
			r.Lab = labelsOf(c.Args)
			return one(r)
		},
		"strings.Replace": func(e *Engine, c *Call, s *State) []Outcome {
			r := asUnknownStr(c.Args[0])
			r.Lab = labelsOf(c.Args)
			return one(r)
		},
		"strings.Cut": func(e *Engine, c *Call, s *State) []Outcome {
			x := asUnknownStr(Text(c.Args[0]))
			if a, ok := c.Args[0].One(); ok {
				if b, ok := c.Args[1].One(); ok {
					p, q, f := strings.Cut(a, b)
					fv := falseV
					if f {
						fv = trueV
					}
					return one(TupleV(Labelled(StrV(p)).withLab(x.Lab), StrV(q).withLab(x.Lab), fv))
				}
			}
			no := c.Args[0]
			return []Outcome{{Ret: TupleV(x, x, trueV), Tag: "found"}, {Ret: TupleV(no, StrV("").withLab(x.Lab), falseV), Tag: "notfound"}}
		},
		"strings.Split": splitModel, "strings.SplitN": splitModel, "strings.Fields": splitModel,
		"strings.Join": func(e *Engine, c *Call, s *State) []Outcome {
			el, exact := e.SliceElems(s, c.Args[0])
			lab := c.Args[0].Lab
			if exact {
				t := StrV("")
				for i, x := range el {
					if i > 0 {
						t = ConcatStr(t, c.Args[1])
					}
					t = ConcatStr(t, Text(x))
				}
				return one(t.withLab(lab))
			}
			t := AnyStr()
			t.Frags = c.Args[1].fragSet()
			for _, x := range el {
				lab = lab.Union(x.Lab)
				t.Frags = t.Frags.Union(Text(x).fragSet())
			}
			return one(t.withLab(lab))
		},
		"path/filepath.ToSlash": func(e *Engine, c *Call, s *State) []Outcome { return one(c.Args[0]) },
		"path/filepath.Join": func(e *Engine, c *Call, s *State) []Outcome {
			el, exact := e.varargs(c, s, 0)
			t := AnyStr()
			var lab Set
			for _, x := range el {
				lab = lab.Union(x.Lab)
				t.Frags = t.Frags.Union(Text(x).fragSet())
			}
			if exact && len(el) > 0 {
				t.Suf = Text(el[len(el)-1]).suffix()
				var parts []string
				for _, x := range el {
					if p, ok := Text(x).One(); ok {
						parts = append(parts, p)
					}
				}
				if len(parts) == len(el) {
					t = StrV(filepath.Join(parts...))
				}
			}
			return one(t.withLab(lab))
		},
		"path/filepath.Base": func(e *Engine, c *Call, s *State) []Outcome {
			x := Text(c.Args[0])
			if x.Consts != nil {
				return one(asUnknownStr(x))
			}
			return one(&AV{K: Str, Lo: 0, Hi: MaxInt, Suf: x.Suf, Lab: x.Lab, Frags: x.Frags})
		},
		"strconv.Itoa": topRet,
		"strconv.Quote": func(e *Engine, c *Call, s *State) []Outcome {
			return one(AnyStr().withLab(wrapLab(c.Args[0].Lab, "q")))
		},
		"math.Floor": rounded, "math.Ceil": rounded, "math.Trunc": rounded, "math.Round": rounded,
		"strconv.Atoi": parseText, "strconv.ParseInt": parseText, "strconv.ParseUint": parseText, "strconv.ParseBool": parseText, "strconv.ParseFloat": parseText, "strconv.Unquote": fallibleNoTrack,
		"time.ParseDuration": fallibleNoTrack, "time.ParseInLocation": fallibleNoTrack, "net/url.Parse": fallibleNoTrack, "net/url.ParseQuery": fallibleNoTrack,
		"encoding/hex.DecodeString": fallible, "encoding/hex.Decode": fallibleNoTrack,
		"(*flag.FlagSet).Parse": fallibleNoTrack,
		"flag.NewFlagSet":       nonNilRet,
		"bytes.Equal":           topRet, "bytes.HasPrefix": topRet,
		"crypto/sha256.Sum256": func(e *Engine, c *Call, s *State) []Outcome {
			return one((&AV{K: Unk, Nil: MayNonNil}).withLab(wrapLab(c.Args[0].Lab, "sum")))
		},
		"crypto/sha256.New": newHash, "crypto/sha512.New": newHash, "crypto/sha1.New": newHash, "crypto/md5.New": newHash,
		"(hash.Hash).Reset": bufReset,
		"(hash.Hash).Sum": func(e *Engine, c *Call, s *State) []Outcome {
			l := e.BufText(s, c.Args[0]).Lab.Union(c.Args[1].Lab)
			return one((&AV{K: Unk, Nil: MayNonNil}).withLab(wrapLab(l, "sum")))
		},
		"encoding/hex.EncodeToString": func(e *Engine, c *Call, s *State) []Outcome {
			return one(AnyStr().withLab(wrapLab(e.deepSliceLab(s, c.Args[0]), "hex")))
		},
		"(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop, "(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop,
		"math/rand.NewSource": nonNilRet, "math/rand.New": nonNilRet,
		"net/url.Userinfo":   topRet,
		"reflect.TypeOf":     nonNilRet,
		"regexp.MustCompile": nonNilRet,
	}
	for n, t := range map[string]types.Type{"Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32], "Uint64": types.Typ[types.Uint64]} {
		stdModels["sync/atomic.CompareAndSwap"+n] = casModel(
			func(e *Engine, s *State, p *AV) *AV { return e.load(s, p, t) },
			func(e *Engine, s *State, p, v *AV) { e.store(s, p, v) })
		stdModels["sync/atomic.Load"+n] = func(e *Engine, c *Call, s *State) []Outcome { return one(e.load(s, c.Args[0], t)) }
		stdModels["sync/atomic.Store"+n] = func(e *Engine, c *Call, s *State) []Outcome {
			e.store(s, c.Args[0], c.Args[1])
			return one(TupleV())
		}
		stdModels["sync/atomic.Swap"+n] = func(e *Engine, c *Call, s *State) []Outcome {
			old := e.load(s, c.Args[0], t)
			e.store(s, c.Args[0], c.Args[1])
			return one(old)
		}
	}
	for n, zero := range map[string]*AV{"Bool": falseV, "Int32": IntV(0), "Int64": IntV(0), "Uint32": IntV(0), "Uint64": IntV(0)} {
		get := func(e *Engine, s *State, p *AV) *AV { return e.cell(s, p, zero) }
		set := func(e *Engine, s *State, p, v *AV) { e.setCell(s, p, v, zero) }
		stdModels["(*sync/atomic."+n+").CompareAndSwap"] = casModel(get, set)
		stdModels["(*sync/atomic."+n+").Load"] = func(e *Engine, c *Call, s *State) []Outcome { return one(get(e, s, c.Args[0])) }
		stdModels["(*sync/atomic."+n+").Store"] = func(e *Engine, c *Call, s *State) []Outcome {
			set(e, s, c.Args[0], c.Args[1])
			return one(TupleV())
		}
		stdModels["(*sync/atomic."+n+").Swap"] = func(e *Engine, c *Call, s *State) []Outcome {
			old := get(e, s, c.Args[0])
			set(e, s, c.Args[0], c.Args[1])
			return one(old)
		}
	}
	for _, n := range []string{"BoolVar", "IntVar", "StringVar", "DurationVar"} {
		stdModels["(*flag.FlagSet)."+n] = func(e *Engine, c *Call, s *State) []Outcome {
			e.havocPtr(s, c.Args[1])
			return one(TupleV())
		}
	}
}

// casModel models compare-and-swap on a cell.
func casModel(get func(*Engine, *State, *AV) *AV, set func(*Engine, *State, *AV, *AV)) Model {
	return func(e *Engine, c *Call, s *State) []Outcome {
		p, old, nw := c.Args[0], c.Args[1], c.Args[2]
		yes := Outcome{Ret: trueV, Apply: func(t *State) { set(e, t, p, nw) }}
		switch eqResult(get(e, s, p), old) {
		case MayTrue:
			return []Outcome{yes}
		case MayFalse:
			return one(falseV)
		}
		return []Outcome{yes, {Ret: falseV}}
	}
}

// cell is the value of an opaque cell (atomic types, sync.Once) kept as an attribute of its object.
func (e *Engine) cell(s *State, p, zero *AV) *AV {
	refs := refsOf(p)
	if len(refs) == 0 || MayUnknown(p) {
		if zero.K == Bool {
			return boolV
		}
		return IntRange(MinInt, MaxInt)
	}
	var v *AV = botV
	for _, r := range refs {
		x := s.Attr(r.O, "cell@"+r.P)
		if x == nil {
			x = zero
		}
		v = Join(v, x)
	}
	return v
}

func (e *Engine) setCell(s *State, p, v, zero *AV) {
	refs := refsOf(p)
	for _, r := range refs {
		x := v
		if len(refs) > 1 || hasAny(r.P) || s.Heap[r.O] != nil && s.Heap[r.O].Weak {
			x = Join(v, e.cell(s, PtrV(r), zero))
		}
		s.SetAttr(r.O, "cell@"+r.P, x)
	}
}

func (e *Engine) deepSliceLab(s *State, v *AV) Set {
	l := v.Lab
	for _, r := range v.Refs {
		l = l.Union(deepLab(e.loadRef(s, r)))
	}
	return l
}

func indexModel(e *Engine, c *Call, s *State) []Outcome {
	x := Text(c.Args[0])
	if a, ok := x.One(); ok && strings.HasSuffix(c.Name, "strings.Index") {
		if b, ok := c.Args[1].One(); ok {
			return one(IntV(int64(strings.Index(a, b))))
		}
	}
	hi := int64(MaxInt)
	if x.Hi != MaxInt {
		hi = x.Hi - 1
	}
	return one(IntRange(-1, max(hi, -1)))
}

func splitModel(e *Engine, c *Call, s *State) []Outcome {
	if parts, ok := splitConst(c); ok && len(parts) <= 32 {
		id := e.Obj(c.Site, c.Ctx, "split"+e.iterKey(s), types.NewSlice(types.Typ[types.String]), c.Site.Pos())
		arr := &AV{K: Arr}
		for _, x := range parts {
			arr.Elems = append(arr.Elems, StrV(x).withLab(c.Args[0].Lab))
		}
		self, _ := c.Site.(ssa.Value)
		e.alloc(s, id, arr, self)
		n := int64(len(parts))
		return one(&AV{K: Slice, Nil: MayNonNil, Refs: []Ref{{O: id}}, Lo: n, Hi: n, Lab: c.Args[0].Lab})
	}
	id := e.Obj(c.Site, c.Ctx, "split", types.NewSlice(types.Typ[types.String]), c.Site.Pos())
	el := asUnknownStr(Text(c.Args[0]))
	var self ssa.Value
	if v, ok := c.Site.(ssa.Value); ok {
		self = v
	}
	e.alloc(s, id, &AV{K: Arr, Sum: []*AV{el}}, self)
	return one(&AV{K: Slice, Nil: MayNonNil, Refs: []Ref{{O: id}}, Lo: 1, Hi: MaxInt, Lab: el.Lab})
}

// splitConst splits known texts.
func splitConst(c *Call) ([]string, bool) {
	x, ok := c.Args[0].One()
	if !ok || c.Args[0].K != Str {
		return nil, false
	}
	if c.Name == "strings.Fields" {
		return strings.Fields(x), true
	}
	sep, ok := c.Args[1].One()
	if !ok {
		return nil, false
	}
	n := -1
	if len(c.Args) > 2 {
		k, ok := c.Args[2].IntConst()
		if !ok {
			return nil, false
		}
		n = int(k)
	}
	return strings.SplitN(x, sep, n), true
}

func fprint(e *Engine, c *Call, s *State) []Outcome {
	e.BufAppend(s, c.Args[0], e.Printed(s, c))
	return one(TupleV(IntRange(0, MaxInt), nilErr))
}

// Printed is the text a call of fmt.Fprint, Fprintf or Fprintln writes.
func (e *Engine) Printed(s *State, c *Call) *AV {
	if c.Name == "fmt.Fprintf" {
		el, exact := e.varargs(c, s, 2)
		return e.FormatText(s, c.Args[1], el, exact)
	}
	el, exact := e.varargs(c, s, 1)
	t := StrV("")
	if !exact {
		t = AnyStr()
	}
	for i, x := range el {
		if i > 0 && (c.Name == "fmt.Fprintln" || x.Inner().K != Str && el[i-1].Inner().K != Str) {
			t = ConcatStr(t, StrV(" "))
		}
		t = ConcatStr(t, Text(x.Inner()))
	}
	if c.Name == "fmt.Fprintln" {
		t = ConcatStr(t, StrV("\n"))
	}
	return t
}

func closeModel(e *Engine, c *Call, s *State) []Outcome {
	first := false
	w := false
	for _, o := range ObjsOf(c.Args[0]) {
		if st := s.Attr(o, "st"); st != nil && st.Consts != nil {
			for _, x := range st.Consts {
				if x == "open" {
					first = true
				}
			}
		}
		if k := s.Attr(o, "kind"); k != nil && k.Consts != nil {
			for _, x := range k.Consts {
				if x == "wfile" || strings.HasSuffix(x, "writer") {
					w = true
				}
			}
		}
	}
	if first && w {
		o := e.okFail(c, s, nil)
		for i := range o {
			o[i].Tag = "wclose"
			o[i].Apply = func(t *State) { e.setAttr(t, c.Args[0], "st", StrV("closed")) }
		}
		return o
	}
	e.setAttr(s, c.Args[0], "st", StrV("closed"))
	if w {
		return one(nilErr)
	}
	return one(nilMayErr())
}

func writeModel(e *Engine, c *Call, s *State) []Outcome {
	t := Text(c.Args[1])
	if isBuffer(c.Args[0]) || e.isHash(s, c.Args[0]) {
		e.BufAppend(s, c.Args[0], t)
		return one(TupleV(IntRange(0, MaxInt), nilErr))
	}
	return e.okFail(c, s, func(u *State) []*AV { e.BufAppend(u, c.Args[0], t); return nil })
}

// isHash: the writer computes a checksum.
func (e *Engine) isHash(s *State, v *AV) bool {
	for _, r := range refsOf(v) {
		k := s.Attr(r.O, "kind")
		if k == nil || len(k.Consts) != 1 || k.Consts[0] != "hash" {
			return false
		}
	}
	return len(refsOf(v)) > 0
}

func newHash(e *Engine, c *Call, s *State) []Outcome {
	return one(IfaceOf(e.Res(c, s, "hash", c.ResT, nil)))
}

func bufReset(e *Engine, c *Call, s *State) []Outcome {
	e.bufSet(s, c.Args[0], func(*AV) *AV { return StrV("") })
	return one(TupleV())
}

func bufWrite(e *Engine, c *Call, s *State) []Outcome {
	e.BufAppend(s, c.Args[0], Text(c.Args[1]))
	return one(TupleV(IntRange(0, MaxInt), nilErr))
}

func bufWriteChar(e *Engine, c *Call, s *State) []Outcome {
	t := &AV{K: Str, Lo: 1, Hi: 4, Lab: c.Args[1].Lab}
	if n, ok := c.Args[1].IntConst(); ok {
		t = StrV(string(rune(n)))
	}
	e.BufAppend(s, c.Args[0], t)
	if c.ResT.(*types.Tuple).Len() == 1 {
		return one(nilErr)
	}
	return one(TupleV(IntRange(0, MaxInt), nilErr))
}

func bufString(e *Engine, c *Call, s *State) []Outcome {
	return one(e.BufText(s, c.Args[0]))
}

func bufLen(e *Engine, c *Call, s *State) []Outcome {
	t := e.BufText(s, c.Args[0])
	return one(IntRange(t.Lo, t.Hi))
}

func (e *Engine) lookupType(pkg, name string) types.Type {
	for _, p := range e.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return types.Typ[types.Invalid]
}

// purePkgs: functions of these packages do not write through their arguments.
var purePkgs = []string{"strings.", "strconv.", "errors.", "fmt.", "path/filepath.", "path.", "time.", "(time.", "unicode.", "math.", "bytes.", "regexp.", "(*regexp.", "encoding/hex.Encode", "crypto/", "net/url.", "(net/url.", "(*net/url.", "sort.", "(error).", "reflect.", "(reflect.", "runtime.", "(*runtime.", "os.TempDir", "(io/fs.", "(go/token", "(*go/token", "(*flag.FlagSet).", "github.com/google/go-cmp", "(*math/rand", "(*hash"}

func isPure(name string) bool {
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (e *Engine) defaultModel(c *Call, s *State) []Outcome {
	e.Unmod[c.Name]++
	if !isPure(c.Name) && !strings.HasPrefix(c.Name, "dynamic") {
		for _, a := range c.Args {
			e.havocPtr(s, a)
		}
	}
	rt := c.ResT.(*types.Tuple)
	lab := labelsOf(c.Args)
	if n := rt.Len(); n > 0 && isError(rt.At(n-1).Type()) {
		o := e.okFail(c, s, func(t *State) []*AV {
			var vs []*AV
			for i := 0; i < n-1; i++ {
				u := e.Unknown(rt.At(i).Type()).withLab(lab)
				if isRefKind(u) {
					m := *u
					m.Nil = MayNonNil
					u = &m
				}
				vs = append(vs, u)
			}
			return vs
		})
		o[1].Tag = "unmodelled"
		return o
	}
	v := e.resultOf(rt, func(t types.Type) *AV { return e.Unknown(t).withLab(lab) })
	return one(v)
}

// hof handles externals that call back: it returns nil,false if c is not one.
func (e *Engine) hof(c *Call, s *State) ([]Result, bool) {
	switch c.Name {
	case "(*golang.org/x/sync/errgroup.Group).Go":
		e.inGo++
		defer func() { e.inGo-- }()
		var out []Result
		for _, r := range e.callValue(c, s, c.Args[1], nil) {
			if r.Ret != nil && !r.Ret.MustNil() {
				e.setAttr(r.S, c.Args[0], "err", r.Ret)
			}
			out = append(out, Result{r.S, TupleV()})
		}
		return out, true
	case "io/fs.WalkDir":
		return e.walkDir(c, s), true
	case "(*sync.Once).Do":
		done := e.cell(s, c.Args[0], falseV)
		var out []Result
		if !done.MustFalse() {
			out = append(out, Result{s.Clone(), TupleV()})
		}
		if !done.MustTrue() {
			e.setCell(s, c.Args[0], trueV, falseV)
			for _, r := range e.callValue(c, s, c.Args[1], nil) {
				out = append(out, Result{r.S, TupleV()})
			}
		}
		return out, true
	}
	var fns []*AV
	for _, a := range c.Args {
		if a.K == Func && len(a.Fns) > 0 {
			fns = append(fns, a)
		}
	}
	if len(fns) == 0 || e.Models[c.Name] != nil {
		return nil, false
	}
	// unknown higher-order function: the callback runs any number of times
	states := []*State{s}
	for iter := 0; iter < 3; iter++ {
		all := states
		for _, st := range states {
			for _, f := range fns {
				for _, r := range e.callValue(c, st.Clone(), f, nil) {
					all = append(all, r.S)
				}
			}
		}
		states = e.mergeList(all)
	}
	var out []Result
	for _, st := range states {
		for _, o := range e.model(c, st) {
			t := st.Clone()
			if o.Apply != nil {
				o.Apply(t)
			}
			out = append(out, Result{t, o.Ret})
		}
	}
	return out, true
}

// callValue calls a function value with the given (or unknown) arguments.
func (e *Engine) callValue(c *Call, s *State, f *AV, args []*AV) []Result {
	var out []Result
	for i, fv := range f.Fns {
		t := s
		if i < len(f.Fns)-1 {
			t = s.Clone()
		}
		as := args
		if as == nil {
			ps := fv.Fn.Signature.Params()
			for k := 0; k < ps.Len(); k++ {
				as = append(as, e.Unknown(ps.At(k).Type()))
			}
		}
		c2 := *c
		out = append(out, e.callFn(t, &c2, fv.Fn, fv.Bind, as)...)
	}
	return out
}

// InGoroutine reports whether the code being interpreted runs in a worker.
func (e *Engine) InGoroutine() bool { return e.inGo > 0 }

func (e *Engine) walkDir(c *Call, s *State) []Result {
	var out []Result
	states := []*State{s}
	path := func() *AV { return AnyStr().withLab(NewSet("walk")) }
	n := 4
	if e.Walk != nil {
		n = len(e.Walk)
	}
	for iter := 0; iter < n; iter++ {
		if e.Walk != nil {
			path = func() *AV { return e.Walk[iter] }
		}
		var next []*State
		for _, st := range states {
			// the directory could not be read
			if iter < 2 {
				bad := st.Clone()
				o := &Outcome{Ret: FailErr("fail"), Fail: true, Tag: "walk"}
				for _, b := range e.Mon.After(e, c, bad, o) {
					for _, r := range e.callValue(c, b, c.Args[2], []*AV{path(), Top(), FailErr("fail")}) {
						if r.Ret.MayBeNil() {
							t := r.S
							if !r.Ret.MustNil() {
								t = r.S.Clone()
							}
							next = append(next, t)
						}
						if !r.Ret.MustNil() {
							out = append(out, Result{r.S, nonNilOf(r.Ret)})
						}
					}
				}
			}
			for _, r := range e.callValue(c, st.Clone(), c.Args[2], []*AV{path(), NonNil(), nilErr}) {
				if r.Ret.MayBeNil() {
					t := r.S
					if !r.Ret.MustNil() {
						t = r.S.Clone()
					}
					next = append(next, t)
				}
				if !r.Ret.MustNil() {
					if r.Ret.Sent == "io/fs.SkipDir" || r.Ret.Sent == "io/fs.SkipAll" {
						next = append(next, r.S)
						continue
					}
					out = append(out, Result{r.S, nonNilOf(r.Ret)})
				}
			}
		}
		if e.Walk == nil {
			next = append(states, next...)
		}
		states = e.mergeList(next)
	}
	for _, st := range states {
		out = append(out, Result{st, nilErr})
	}
	return out
}

func nonNilOf(v *AV) *AV {
	if v.NilBits() == MayNonNil {
		return v
	}
	n := *v
	n.Nil = MayNonNil
	return &n
}
