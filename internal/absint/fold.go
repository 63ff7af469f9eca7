package absint

import (
	"bytes"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
)

// foldFns are pure standard functions evaluated when all arguments are known.
var foldFns = map[string]reflect.Value{}

func init() {
	for n, f := range map[string]any{
		"strings.Count": strings.Count, "strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.IndexByte": strings.IndexByte,
		"strings.LastIndexByte": strings.LastIndexByte, "strings.IndexAny": strings.IndexAny, "strings.IndexRune": strings.IndexRune,
		"strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune,
		"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.EqualFold": strings.EqualFold, "strings.Compare": strings.Compare,
		"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
		"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
		"strings.Cut": strings.Cut, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
		"strings.Repeat": strings.Repeat,
		"bytes.Count":    bytes.Count, "bytes.Index": bytes.Index, "bytes.LastIndex": bytes.LastIndex, "bytes.IndexByte": bytes.IndexByte, "bytes.LastIndexByte": bytes.LastIndexByte,
		"bytes.IndexAny": bytes.IndexAny, "bytes.Contains": bytes.Contains, "bytes.ContainsAny": bytes.ContainsAny, "bytes.HasPrefix": bytes.HasPrefix, "bytes.HasSuffix": bytes.HasSuffix,
		"bytes.Equal": bytes.Equal, "bytes.TrimSpace": bytes.TrimSpace, "bytes.Trim": bytes.Trim, "bytes.TrimRight": bytes.TrimRight, "bytes.TrimLeft": bytes.TrimLeft,
		"bytes.TrimPrefix": bytes.TrimPrefix, "bytes.TrimSuffix": bytes.TrimSuffix, "bytes.ReplaceAll": bytes.ReplaceAll, "bytes.ToLower": bytes.ToLower, "bytes.ToUpper": bytes.ToUpper,
		"path.Base": path.Base, "path.Dir": path.Dir, "path.Ext": path.Ext, "path.Clean": path.Clean,
		"path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.Ext": filepath.Ext, "path/filepath.Clean": filepath.Clean,
		"path/filepath.ToSlash": filepath.ToSlash, "path/filepath.FromSlash": filepath.FromSlash,
		"strconv.Itoa":    strconv.Itoa,
		"unicode.IsSpace": unicode.IsSpace, "unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter, "unicode.IsUpper": unicode.IsUpper, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper,
	} {
		foldFns[n] = reflect.ValueOf(f)
	}
}

// fold evaluates a pure function of constants.
func fold(c *Call) (*AV, bool) {
	f, ok := foldFns[c.Name]
	if !ok || f.Type().NumIn() != len(c.Args) {
		return nil, false
	}
	in := make([]reflect.Value, len(c.Args))
	for i, a := range c.Args {
		t := f.Type().In(i)
		switch t.Kind() {
		case reflect.String:
			s, ok := a.One()
			if !ok {
				return nil, false
			}
			in[i] = reflect.ValueOf(s)
		case reflect.Slice:
			if a.MustNil() {
				in[i] = reflect.Zero(t)
				break
			}
			if a.K != Slice || len(a.Consts) != 1 {
				return nil, false
			}
			in[i] = reflect.ValueOf([]byte(a.Consts[0]))
		case reflect.Int, reflect.Int32, reflect.Uint8:
			n, ok := a.IntConst()
			if !ok || n > 1<<16 || n < -1<<16 {
				return nil, false
			}
			in[i] = reflect.ValueOf(n).Convert(t)
		default:
			return nil, false
		}
	}
	lab := labelsOf(c.Args)
	var vs []*AV
	for _, r := range f.Call(in) {
		var v *AV
		switch r.Kind() {
		case reflect.String:
			v = StrV(r.String())
		case reflect.Bool:
			v = falseV
			if r.Bool() {
				v = trueV
			}
		case reflect.Int, reflect.Int32:
			v = IntV(r.Int())
		case reflect.Slice:
			b := r.Bytes()
			v = bytesV(string(b))
		}
		vs = append(vs, v.withLab(lab))
	}
	if len(vs) == 1 {
		return vs[0], true
	}
	return TupleV(vs...), true
}

// bytesV is a byte slice of known content.
func bytesV(s string) *AV {
	return &AV{K: Slice, Nil: MayNonNil, Unk: true, Lo: int64(len(s)), Hi: int64(len(s)), Consts: []string{s}}
}
