package absint

import (
	"go/types"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Pure functions of the standard library are folded when their arguments are
// constants, also when an argument is one of a few constants.
var hostFns = map[string]any{
	"strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"strings.Compare": strings.Compare, "strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny,
	"strings.Fields": strings.Fields, "strings.Split": strings.Split, "strings.SplitN": strings.SplitN,
	"strings.SplitAfter": strings.SplitAfter, "strings.SplitAfterN": strings.SplitAfterN, "strings.Join": strings.Join,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Trim": strings.Trim,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.TrimSpace": strings.TrimSpace,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Index": strings.Index,
	"strings.IndexAny": strings.IndexAny, "strings.LastIndex": strings.LastIndex, "strings.LastIndexAny": strings.LastIndexAny,
	"strings.LastIndexByte": strings.LastIndexByte, "strings.Count": strings.Count, "strings.EqualFold": strings.EqualFold,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.ToLower": strings.ToLower,
	"strings.ToUpper": strings.ToUpper, "strings.Title": strings.Title, "strings.ToTitle": strings.ToTitle,
	"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint,
	"strconv.FormatBool": strconv.FormatBool, "strconv.FormatFloat": strconv.FormatFloat, "strconv.Quote": strconv.Quote,
	"path/filepath.Ext": filepath.Ext, "path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir,
	"path/filepath.Clean": filepath.Clean, "path/filepath.Join": filepath.Join, "path/filepath.IsAbs": filepath.IsAbs,
	"path/filepath.Split": filepath.Split, "path/filepath.ToSlash": filepath.ToSlash, "path/filepath.FromSlash": filepath.FromSlash,
	"path.Ext": path.Ext, "path.Base": path.Base, "path.Dir": path.Dir, "path.Clean": path.Clean, "path.Join": path.Join,
	"path.Split":                           path.Split,
	"internal/stringslite.Index":           strings.Index,
	"internal/stringslite.IndexByte":       strings.IndexByte,
	"internal/stringslite.Cut":             strings.Cut,
	"internal/stringslite.HasPrefix":       strings.HasPrefix,
	"internal/stringslite.HasSuffix":       strings.HasSuffix,
	"internal/stringslite.TrimPrefix":      strings.TrimPrefix,
	"internal/stringslite.TrimSuffix":      strings.TrimSuffix,
	"internal/bytealg.IndexByteString":     strings.IndexByte,
	"internal/bytealg.LastIndexByteString": strings.LastIndexByte,
	"internal/bytealg.IndexString":         strings.Index,
	"unicode.IsDigit":                      unicode.IsDigit, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower,
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsSpace": unicode.IsSpace, "unicode.IsNumber": unicode.IsNumber,
	"unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode.IsPunct": unicode.IsPunct,
	"unicode.IsControl": unicode.IsControl, "unicode.IsPrint": unicode.IsPrint,
}

const maxHostAlts = 16

// hostFn is the folding model of a pure library function; old is the model
// for arguments that are not constant (nil: the function's own body).
func hostFn(h any, old Intrinsic) Intrinsic {
	f := reflect.ValueOf(h)
	ft := f.Type()
	var call Intrinsic
	call = func(m *M, fn *ssa.Function, a []V) (V, bool) {
		if ft.NumIn() != len(a) {
			return m.hostBody(fn, old, a)
		}
		in := make([]reflect.Value, len(a))
		for i := range a {
			v := m.Simplify(a[i])
			if v.K == KChoice {
				alts := v.X.([]Alt)
				if len(alts) > maxHostAlts {
					return m.hostBody(fn, old, a)
				}
				return m.guarded(alts, func(x V) (V, bool) {
					b := append([]V(nil), a...)
					b[i] = x
					return call(m, fn, b)
				})
			}
			x, ok := m.toHost(v, ft.In(i))
			if !ok {
				return m.hostBody(fn, old, a)
			}
			in[i] = x
		}
		var out []reflect.Value
		if ft.IsVariadic() {
			out = f.CallSlice(in)
		} else {
			out = f.Call(in)
		}
		rs := make([]V, len(out))
		for i, o := range out {
			rs[i] = m.fromHost(o)
		}
		if len(rs) == 1 {
			return rs[0], false
		}
		return Tuple(rs...), false
	}
	return call
}

func (m *M) hostBody(fn *ssa.Function, old Intrinsic, a []V) (V, bool) {
	if old != nil {
		return old(m, fn, a)
	}
	return m.fallback(fn, a)
}

func (m *M) toHost(v V, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := concStr(v)
		return reflect.ValueOf(s), ok
	case reflect.Bool:
		return reflect.ValueOf(v.K == KBool && v.N == 1), v.K == KBool && v.N <= 1
	case reflect.Float64:
		if v.K != KFloat {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(v.Float()), true
	case reflect.Slice:
		if t.Elem().Kind() != reflect.String || v.K != KSlice {
			return reflect.Value{}, false
		}
		var ss []string
		if v.X != nil {
			for _, c := range m.SliceCells(v) {
				s, ok := concStr(m.Simplify(c))
				if !ok {
					return reflect.Value{}, false
				}
				ss = append(ss, s)
			}
		}
		return reflect.ValueOf(ss), true
	}
	if v.K != KInt {
		return reflect.Value{}, false
	}
	return reflect.ValueOf(v.N).Convert(t), true
}

func (m *M) fromHost(o reflect.Value) V {
	switch o.Kind() {
	case reflect.String:
		return MkStr(o.String())
	case reflect.Bool:
		return Bool(o.Bool())
	case reflect.Slice:
		vs := make([]V, o.Len())
		for i := range vs {
			vs[i] = MkStr(o.Index(i).String())
		}
		return m.NewSlice(types.Typ[types.String], vs, "strings")
	case reflect.Int32:
		return MkInt(o.Int(), 32, true)
	}
	return Int(o.Int())
}
