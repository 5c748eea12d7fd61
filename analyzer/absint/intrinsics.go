package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/analyzer/bdd"

	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/tools/go/ssa"
)

const (
	tokLSS = token.LSS
	tokADD = token.ADD
)

// ErrVal is an error made by fmt.Errorf and the like.
type ErrVal struct {
	Msg   V
	Wraps []V
	Where string
}

func (e *ErrVal) CallMethod(m *M, name string, args []V) (V, bool) {
	switch name {
	case "Error":
		return e.Msg, false
	case "Unwrap":
		if len(e.Wraps) > 0 {
			return e.Wraps[0], false
		}
		return NilIface, false
	}
	m.Undecided("method %s on an error", name)
	return V{}, true
}

func (e *ErrVal) Implements(m *M, i *types.Interface) bool {
	for k := 0; k < i.NumMethods(); k++ {
		n := i.Method(k).Name()
		if n != "Error" && !(n == "Unwrap" && len(e.Wraps) > 0) {
			return false
		}
	}
	return true
}

// NewErr makes a fresh non-nil error.
func (m *M) NewErr(msg V, wraps ...V) V {
	return V{K: KIface, X: &IfaceV{Host: &ErrVal{Msg: msg, Wraps: wraps, Where: m.Where()}}}
}

// opaquePkgs are packages whose calls are external effects with unknown
// results; they are not analysed.
var opaquePkgs = []string{"os", "os/exec", "os/signal", "log", "log/slog", "fmt", "image/jpeg", "image/png", "image/gif", "github.com/fogleman/gg",
	"golang.org/x/image", "github.com/urfave/cli", "github.com/nsf/termbox-go", "syscall", "syscall/js", "time", "runtime", "runtime/debug", "reflect",
	"net", "net/http", "math/rand", "math/rand/v2", "crypto", "compress", "hash", "internal", "io/ioutil", "io/fs", "context", "unsafe", "image/draw", "github.com/golang/freetype",
	"github.com/mattn", "flag", "testing"}

func opaquePkg(path string) bool {
	if path == "internal/filepathlite" || path == "internal/stringslite" || path == "internal/strconv" {
		return false
	}
	for _, p := range opaquePkgs {
		if path == p || strings.HasPrefix(path, p+"/") {
			if path == "image/draw" || p != "image/draw" {
				return true
			}
		}
	}
	return false
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if ob := f.Object(); ob != nil && ob.Pkg() != nil {
			return ob.Pkg().Path()
		}
	}
	return ""
}

var intrinsics map[string]Intrinsic

func init() {
	intrinsics = buildIntrinsics()
	for k, h := range hostFns {
		intrinsics[k] = hostFn(h, intrinsics[k])
	}
}

func lookupIntrinsic(fn *ssa.Function) Intrinsic {
	if h, ok := intrinsics[fnKey(fn)]; ok {
		return h
	}
	if fn.Synthetic == "package initializer" {
		return func(m *M, fn *ssa.Function, args []V) (V, bool) {
			// initialisers of imported packages run on first use
			if m.frame == nil {
				return V{}, m.PC == bdd.False || m.runInit(fn)
			}
			return V{}, false
		}
	}
	if fn.Synthetic != "" && fn.Synthetic != "instance of" {
		// wrappers, thunks and bound methods have analysable bodies
		if strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "bound") {
			return nil
		}
	}
	if h := ggIntrinsic(fn); h != nil {
		return h
	}
	if opaquePkg(fnPkgPath(fn)) {
		return extCall
	}
	return nil
}

func (m *M) runInit(fn *ssa.Function) bool {
	c := m.P.codeOf(fn)
	if c == nil {
		return false
	}
	fr := &Frame{fn: fn, code: c, regs: make([]V, c.nregs), caller: nil, birth: m.birth}
	m.frame = fr
	o := m.run(fr, c.blocks[0], nil, 0, nil)
	m.frame = nil
	return o.kind == oDead
}

// external is a function without Go source.
func (m *M) external(fn *ssa.Function, args []V) (V, bool) {
	if fnPkgPath(fn) == "math" {
		return mathStub(m, fn, args)
	}
	m.Undecided("call of external function %s", fn)
	return V{}, true
}

// extCall is an effectful call into an unanalysed package. By convention the
// last error result decides whether the others are valid.
func extCall(m *M, fn *ssa.Function, args []V) (V, bool) {
	return m.ExtCall(fnKey(fn), fn.Signature, args)
}

func (m *M) ExtCall(name string, sig *types.Signature, args []V) (V, bool) {
	m.Event("call:"+name, args...)
	res := sig.Results()
	one := func(t types.Type, i int) V {
		if isErrorType(t) {
			m.opqN++
			return V{K: KOpaque, X: &Opaque{ID: m.opqN, Label: name + ".err", T: t, Data: len(m.Events) - 1}}
		}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature, *types.Slice:
			return m.NonNilOpaque(t, name)
		}
		return m.OpaqueOf(t, name)
	}
	switch res.Len() {
	case 0:
		return V{}, false
	case 1:
		return one(res.At(0).Type(), 0), false
	}
	vs := make([]V, res.Len())
	for i := range vs {
		vs[i] = one(res.At(i).Type(), i)
	}
	return Tuple(vs...), false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func concStr(v V) (string, bool) {
	if v.K == KStr {
		if s := v.X.(*Str); !s.isSy {
			return s.Con, true
		}
	}
	return "", false
}

// ifaceArgs are the elements of a ...any argument.
func (m *M) ifaceArgs(v V) []V {
	v = m.Simplify(v)
	if v.K != KSlice || v.X == nil {
		return nil
	}
	return append([]V(nil), m.SliceCells(v)...)
}

// goVal converts an abstract interface argument to a host value when concrete.
func (m *M) goVal(v V) (any, bool) {
	v = m.Simplify(v)
	if v.K != KIface {
		return nil, false
	}
	if v.X == nil {
		return nil, true
	}
	i := v.X.(*IfaceV)
	if i.Host != nil {
		if e, ok := i.Host.(*ErrVal); ok {
			if s, ok := concStr(e.Msg); ok {
				return fmt.Errorf("%s", s), true
			}
		}
		return nil, false
	}
	// named types may implement Stringer or error
	for _, name := range []string{"Error", "String"} {
		if ms := m.Prog.MethodSets.MethodSet(i.T); ms.Lookup(nil, name) != nil {
			fn := m.Prog.LookupMethod(i.T, nil, name)
			if fn != nil && !opaquePkg(fnPkgPath(fn)) {
				r, dead := m.callFn(&FuncV{Fn: fn}, []V{i.V})
				if !dead {
					if s, ok := concStr(r); ok {
						if name == "Error" {
							return fmt.Errorf("%s", s), true
						}
						return stringer{s, i.V.N}, true
					}
				}
			}
			return nil, false
		}
	}
	b, ok := i.T.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch i.V.K {
	case KInt:
		switch b.Kind() {
		case types.Uint8:
			return uint8(i.V.N), true
		case types.Int32:
			return int32(i.V.N), true
		case types.Uint, types.Uint64, types.Uint32, types.Uint16, types.Uintptr:
			return uint64(i.V.N), true
		}
		return i.V.N, true
	case KBool:
		if i.V.N <= 1 {
			return i.V.N == 1, true
		}
	case KFloat:
		return i.V.Float(), true
	case KStr:
		return concStr(i.V)
	}
	return nil, false
}

type stringer struct {
	s string
	n int64
}

func (s stringer) String() string { return s.s }

func (m *M) sprintf(format string, args []V) (string, bool) {
	var gs []any
	for _, a := range args {
		g, ok := m.goVal(a)
		if !ok {
			return "", false
		}
		gs = append(gs, g)
	}
	return fmt.Sprintf(format, gs...), true
}

func (m *M) opaqueStr(label string) V {
	m.opqN++
	return V{K: KOpaque, X: &Opaque{ID: m.opqN, Label: label, T: types.Typ[types.String], nilKnown: true}}
}

func buildIntrinsics() map[string]Intrinsic {
	t := map[string]Intrinsic{}
	def := func(n string, f Intrinsic) { t[n] = f }
	nop := func(m *M, fn *ssa.Function, args []V) (V, bool) { return V{}, false }
	canvasIntrinsics(def)
	def("fmt.Sscanf", sscanf)

	// fmt
	def("fmt.Sprintf", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		if f, ok := concStr(a[0]); ok {
			if s, ok := m.sprintf(f, m.ifaceArgs(a[1])); ok {
				return MkStr(s), false
			}
		}
		return m.opaqueStr("Sprintf"), false
	})
	def("fmt.Sprint", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		var gs []any
		for _, x := range m.ifaceArgs(a[0]) {
			g, ok := m.goVal(x)
			if !ok {
				return m.opaqueStr("Sprint"), false
			}
			gs = append(gs, g)
		}
		return MkStr(fmt.Sprint(gs...)), false
	})
	def("fmt.Errorf", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		msg := m.opaqueStr("Errorf")
		args := m.ifaceArgs(a[1])
		if f, ok := concStr(a[0]); ok {
			if s, ok := m.sprintf(strings.ReplaceAll(f, "%w", "%v"), args); ok {
				msg = MkStr(s)
			}
		}
		var wraps []V
		if f, ok := concStr(a[0]); ok && strings.Contains(f, "%w") {
			for _, x := range args {
				if x.K == KIface && x.X != nil {
					i := x.X.(*IfaceV)
					if i.Host != nil || i.T != nil && types.Implements(i.T, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
						wraps = append(wraps, x)
					}
				} else if x.K == KOpaque || x.K == KChoice {
					wraps = append(wraps, x)
				}
			}
		}
		return m.NewErr(msg, wraps...), false
	})
	printEv := func(m *M, fn *ssa.Function, a []V) (V, bool) {
		m.Event("stdout:"+fn.Name(), a...)
		return m.resultsNoErr(fn.Signature), false
	}
	def("fmt.Print", printEv)
	def("fmt.Println", printEv)
	def("fmt.Printf", printEv)
	fpr := func(m *M, fn *ssa.Function, a []V) (V, bool) {
		// the text is written to the writer
		w := m.Simplify(a[0])
		s := m.opaqueStr(fn.Name())
		switch fn.Name() {
		case "Fprintf":
			if f, ok := concStr(a[1]); ok {
				if r, ok := m.sprintf(f, m.ifaceArgs(a[2])); ok {
					s = MkStr(r)
				}
			}
		case "Fprint", "Fprintln":
			var gs []any
			ok := true
			var parts []V
			for _, x := range m.ifaceArgs(a[1]) {
				g, o := m.goVal(x)
				ok = ok && o
				gs = append(gs, g)
				if x.K == KIface && x.X != nil && x.X.(*IfaceV).V.K == KStr {
					parts = append(parts, x.X.(*IfaceV).V)
				}
			}
			if ok {
				if fn.Name() == "Fprint" {
					s = MkStr(fmt.Sprint(gs...))
				} else {
					s = MkStr(fmt.Sprintln(gs...))
				}
			} else if len(parts) == len(gs) && len(parts) == 1 {
				s = parts[0]
				if fn.Name() == "Fprintln" {
					s = m.strOp(token.ADD, s, MkStr("\n"))
				}
			}
		}
		if w.K == KIface && w.X != nil {
			if h := w.X.(*IfaceV).Host; h != nil {
				var b V
				if s.K == KStr {
					b = m.Convert(s, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]))
				} else {
					b = m.opaqueApp("bytes", types.NewSlice(types.Typ[types.Uint8]), s)
				}
				m.hard++
				return h.CallMethod(m, "Write", []V{b})
			}
		}
		return m.ExtCall("fmt."+fn.Name(), fn.Signature, append([]V{w}, s))
	}
	def("fmt.Fprint", fpr)
	def("fmt.Fprintln", fpr)
	def("fmt.Fprintf", fpr)

	// errors
	def("errors.Is", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		return BoolN(m.errIs(a[0], a[1], 0)), false
	})
	def("errors.Unwrap", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		v := m.Simplify(a[0])
		if v.K == KIface && v.X != nil {
			if e, ok := v.X.(*IfaceV).Host.(*ErrVal); ok && len(e.Wraps) == 1 {
				return e.Wraps[0], false
			}
			return NilIface, false
		}
		return m.opaqueApp("Unwrap", types.Universe.Lookup("error").Type(), a[0]), false
	})
	def("errors.Join", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		es := m.ifaceArgs(a[0])
		all := bdd.True
		for _, e := range es {
			all = m.B.And(all, m.NilCond(e))
		}
		return m.Merge(all, NilIface, m.NewErr(m.opaqueStr("Join"), es...)), false
	})

	// github.com/pkg/errors
	const pe = "github.com/pkg/errors"
	def(pe+".New", func(m *M, fn *ssa.Function, a []V) (V, bool) { return m.NewErr(a[0]), false })
	def(pe+".Errorf", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		msg := m.opaqueStr("Errorf")
		if f, ok := concStr(a[0]); ok {
			if s, ok := m.sprintf(f, m.ifaceArgs(a[1])); ok {
				msg = MkStr(s)
			}
		}
		return m.NewErr(msg), false
	})
	wrap := func(m *M, fn *ssa.Function, a []V) (V, bool) {
		nc := m.NilCond(m.Simplify(a[0]))
		return m.Merge(nc, NilIface, m.NewErr(m.opaqueStr(fn.Name()), a[0])), false
	}
	for _, n := range []string{"Wrap", "Wrapf", "WithMessage", "WithMessagef", "WithStack"} {
		def(pe+"."+n, wrap)
	}
	def(pe+".Is", func(m *M, fn *ssa.Function, a []V) (V, bool) { return BoolN(m.errIs(a[0], a[1], 0)), false })

	// log
	for _, n := range []string{"Print", "Printf", "Println"} {
		n := n
		h := func(m *M, fn *ssa.Function, a []V) (V, bool) { m.Event("log:"+n, a...); return V{}, false }
		def("log."+n, h)
		def("(*log.Logger)."+n, h)
	}
	for _, n := range []string{"Panic", "Panicf", "Panicln"} {
		h := func(m *M, fn *ssa.Function, a []V) (V, bool) { m.Panic("log." + fn.Name()); return V{}, true }
		def("log."+n, h)
		def("(*log.Logger)."+n, h)
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		h := func(m *M, fn *ssa.Function, a []V) (V, bool) {
			m.Event("exit", Int(1))
			m.PC = bdd.False
			return V{}, true
		}
		def("log."+n, h)
		def("(*log.Logger)."+n, h)
	}
	def("os.Exit", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		m.Event("exit", a[0])
		m.PC = bdd.False
		return V{}, true
	})
	getenv := func(m *M, fn *ssa.Function, a []V) (V, bool) {
		if m.Getenv != nil {
			return m.Getenv(m, a[0]), false
		}
		return MkStr(""), false
	}
	def("os.Getenv", getenv)
	def("os.LookupEnv", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		v, _ := getenv(m, fn, a)
		if s, ok := concStr(v); ok {
			return Tuple(v, Bool(s != "")), false
		}
		return Tuple(v, BoolN(m.B.NewVar("env set"))), false
	})

	// sync
	ptr := func(m *M, v V) (*Obj, int64) {
		v = m.Simplify(v)
		if v.K != KPtr {
			m.Undecided("synchronisation through %v", v)
		}
		if v.X == nil {
			m.Panic("nil pointer dereference")
			return nil, 0
		}
		return v.X.(*Obj), v.N
	}
	cell := func(o *Obj, off int64) int64 {
		c := o.Cells[off]
		if c.K != KInt {
			return 0
		}
		return c.N
	}
	put := func(m *M, o *Obj, off int64, n int64) { m.setCell(o, int(off), Int(n)) }
	lock := func(m *M, fn *ssa.Function, a []V) (V, bool) {
		o, off := ptr(m, a[0])
		if o == nil {
			return V{}, true
		}
		m.yieldPoint()
		if m.block(func() bool { return cell(o, off) == 0 }, "lock") {
			return V{}, true
		}
		put(m, o, off, 1)
		m.acquire(o, off)
		return V{}, false
	}
	unlock := func(m *M, fn *ssa.Function, a []V) (V, bool) {
		o, off := ptr(m, a[0])
		if o == nil {
			return V{}, true
		}
		if cell(o, off) != 1 {
			m.Panic("unlock of unlocked mutex")
			return V{}, true
		}
		put(m, o, off, 0)
		m.release(o, off)
		m.yieldPoint()
		return V{}, false
	}
	def("(*sync.Mutex).Lock", lock)
	def("(*sync.Mutex).Unlock", unlock)
	def("(*sync.Mutex).TryLock", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		o, off := ptr(m, a[0])
		if cell(o, off) != 0 {
			return Bool(false), false
		}
		put(m, o, off, 1)
		m.acquire(o, off)
		return Bool(true), false
	})
	// RWMutex: cell 0 writer, cell 1 readers
	def("(*sync.RWMutex).Lock", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		o, off := ptr(m, a[0])
		if o == nil {
			return V{}, true
		}
		m.yieldPoint()
		if m.block(func() bool { return cell(o, off) == 0 && cell(o, off+1) == 0 }, "lock") {
			return V{}, true
		}
		put(m, o, off, 1)
		m.acquire(o, off)
		m.acquire(o, off+1)
		return V{}, false
	})
	def("(*sync.RWMutex).Unlock", unlock)
	def("(*sync.RWMutex).RLock", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		o, off := ptr(m, a[0])
		if o == nil {
			return V{}, true
		}
		m.yieldPoint()
		if m.block(func() bool { return cell(o, off) == 0 }, "rlock") {
			return V{}, true
		}
		put(m, o, off+1, cell(o, off+1)+1)
		m.acquire(o, off)
		return V{}, false
	})
	def("(*sync.RWMutex).RUnlock", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		o, off := ptr(m, a[0])
		if o == nil {
			return V{}, true
		}
		if cell(o, off+1) == 0 {
			m.Panic("RUnlock of unlocked RWMutex")
			return V{}, true
		}
		put(m, o, off+1, cell(o, off+1)-1)
		m.release(o, off+1)
		return V{}, false
	})
	wgAdd := func(m *M, a V, d int64) bool {
		o, off := ptr(m, a)
		if o == nil {
			return true
		}
		n := cell(o, off) + d
		if n < 0 {
			m.Panic("negative WaitGroup counter")
			return true
		}
		put(m, o, off, n)
		if d < 0 {
			m.release(o, off)
		}
		return false
	}
	def("(*sync.WaitGroup).Add", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		if a[1].K != KInt {
			m.Undecided("WaitGroup.Add of symbolic value")
		}
		return V{}, wgAdd(m, a[0], a[1].N)
	})
	def("(*sync.WaitGroup).Done", func(m *M, fn *ssa.Function, a []V) (V, bool) { return V{}, wgAdd(m, a[0], -1) })
	def("(*sync.WaitGroup).Wait", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		o, off := ptr(m, a[0])
		if o == nil {
			return V{}, true
		}
		if m.block(func() bool { return cell(o, off) == 0 }, "WaitGroup.Wait") {
			return V{}, true
		}
		m.acquire(o, off)
		return V{}, m.PC == bdd.False
	})
	def("(*sync.WaitGroup).Go", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		if wgAdd(m, a[0], 1) {
			return V{}, true
		}
		wg, f := a[0], a[1]
		m.spawn(func() {
			if _, dead := m.Call(f); !dead {
				wgAdd(m, wg, -1)
			}
		})
		return V{}, false
	})
	def("(*sync.Once).Do", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		o, off := ptr(m, a[0])
		if o == nil {
			return V{}, true
		}
		if cell(o, off) == 2 {
			if m.block(func() bool { return cell(o, off) == 1 }, "Once") {
				return V{}, true
			}
		}
		if cell(o, off) == 1 {
			m.acquire(o, off)
			return V{}, false
		}
		put(m, o, off, 2)
		m.onceDepth++
		_, dead := m.Call(a[1])
		m.onceDepth--
		put(m, o, off, 1)
		m.release(o, off)
		return V{}, dead
	})
	// atomics
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		ld := func(m *M, fn *ssa.Function, a []V) (V, bool) {
			o, off := ptr(m, a[0])
			if o == nil {
				return V{}, true
			}
			off += int64(len(o.Cells)) * 0
			m.acquire(o, off)
			return o.Cells[off], false
		}
		st := func(m *M, fn *ssa.Function, a []V) (V, bool) {
			o, off := ptr(m, a[0])
			if o == nil {
				return V{}, true
			}
			m.noteWrite(o)
			if m.TrackWrites && o.ID < m.Epoch {
				m.Writes = append(m.Writes, WriteEvent{o, int(off), m.fnName(), m.posHere(), m.onceDepth > 0})
			}
			m.setCell(o, int(off), a[1])
			m.acquire(o, off)
			m.release(o, off)
			return V{}, false
		}
		ad := func(m *M, fn *ssa.Function, a []V) (V, bool) {
			o, off := ptr(m, a[0])
			if o == nil {
				return V{}, true
			}
			r := m.BinOp(token.ADD, o.Cells[off], a[1], types.Typ[types.Int64])
			st(m, fn, []V{a[0], r})
			return r, false
		}
		sw := func(m *M, fn *ssa.Function, a []V) (V, bool) {
			o, off := ptr(m, a[0])
			if o == nil {
				return V{}, true
			}
			old := o.Cells[off]
			st(m, fn, a)
			return old, false
		}
		cas := func(m *M, fn *ssa.Function, a []V) (V, bool) {
			o, off := ptr(m, a[0])
			if o == nil {
				return V{}, true
			}
			eq := m.Eq(o.Cells[off], a[1])
			st(m, fn, []V{a[0], m.Merge(eq, a[2], o.Cells[off])})
			return BoolN(eq), false
		}
		def("sync/atomic.Load"+ty, ld)
		def("sync/atomic.Store"+ty, st)
		def("sync/atomic.Add"+ty, ad)
		def("sync/atomic.Swap"+ty, sw)
		def("sync/atomic.CompareAndSwap"+ty, cas)
	}
	def("runtime.Gosched", nop)
	def("runtime.KeepAlive", nop)
	same := func(m *M, fn *ssa.Function, a []V) (V, bool) { return a[0], false }
	def("internal/abi.NoEscape", same)
	def("internal/abi.Escape", same)
	def("runtime.SetFinalizer", nop)
	def("runtime.NumCPU", func(m *M, fn *ssa.Function, a []V) (V, bool) { return Int(8), false })
	def("runtime.GOMAXPROCS", func(m *M, fn *ssa.Function, a []V) (V, bool) { return Int(8), false })

	// strings / strconv / utf8 on concrete arguments
	s1 := func(f func(string) V) Intrinsic {
		return func(m *M, fn *ssa.Function, a []V) (V, bool) {
			if s, ok := concStr(a[0]); ok {
				return f(s), false
			}
			return m.fallback(fn, a)
		}
	}
	s2 := func(f func(a, b string) V) Intrinsic {
		return func(m *M, fn *ssa.Function, a []V) (V, bool) {
			if s, ok := concStr(a[0]); ok {
				if t, ok := concStr(a[1]); ok {
					return f(s, t), false
				}
			}
			return m.fallback(fn, a)
		}
	}
	def("strings.ToLower", s1(func(s string) V { return MkStr(strings.ToLower(s)) }))
	def("strings.ToUpper", s1(func(s string) V { return MkStr(strings.ToUpper(s)) }))
	def("strings.TrimSpace", s1(func(s string) V { return MkStr(strings.TrimSpace(s)) }))
	def("strings.HasPrefix", s2(func(s, t string) V { return Bool(strings.HasPrefix(s, t)) }))
	def("strings.HasSuffix", s2(func(s, t string) V { return Bool(strings.HasSuffix(s, t)) }))
	def("strings.Contains", s2(func(s, t string) V { return Bool(strings.Contains(s, t)) }))
	def("strings.Index", s2(func(s, t string) V { return Int(int64(strings.Index(s, t))) }))
	def("strings.LastIndex", s2(func(s, t string) V { return Int(int64(strings.LastIndex(s, t))) }))
	def("strings.EqualFold", s2(func(s, t string) V { return Bool(strings.EqualFold(s, t)) }))
	def("strings.TrimPrefix", s2(func(s, t string) V { return MkStr(strings.TrimPrefix(s, t)) }))
	def("strings.TrimSuffix", s2(func(s, t string) V { return MkStr(strings.TrimSuffix(s, t)) }))
	def("strings.Trim", s2(func(s, t string) V { return MkStr(strings.Trim(s, t)) }))
	def("strings.Count", s2(func(s, t string) V { return Int(int64(strings.Count(s, t))) }))
	def("strings.IndexByte", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		a[0] = m.Simplify(a[0])
		if a[0].K != KStr {
			return m.fallback(fn, a)
		}
		s := a[0].X.(*Str)
		r := Int(-1)
		for i := s.Len() - 1; i >= 0; i-- {
			r = m.Merge(m.Eq(s.At(i), a[1]), Int(int64(i)), r)
		}
		return r, false
	})
	idxRune := func(m *M, fn *ssa.Function, a []V) (V, bool) {
		s := m.Simplify(a[0])
		if s.K != KStr {
			return m.fallback(fn, a)
		}
		st := s.X.(*Str)
		if st.isSy {
			return m.fallback(fn, a)
		}
		r := Int(-1)
		type pr struct {
			i int
			r rune
		}
		var ps []pr
		for i, c := range st.Con {
			ps = append(ps, pr{i, c})
		}
		for k := len(ps) - 1; k >= 0; k-- {
			r = m.Merge(m.Eq(MkInt(int64(ps[k].r), 32, true), a[1]), Int(int64(ps[k].i)), r)
		}
		return r, false
	}
	def("strings.IndexRune", idxRune)
	def("strings.ContainsRune", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		r, _ := idxRune(m, fn, a)
		return m.BinOp(token.GEQ, r, Int(0), types.Typ[types.Int]), false
	})
	def("strings.Repeat", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		if s, ok := concStr(a[0]); ok && a[1].K == KInt {
			if a[1].N < 0 {
				m.Panic("strings: negative Repeat count")
				return V{}, true
			}
			return MkStr(strings.Repeat(s, int(a[1].N))), false
		}
		return m.fallback(fn, a)
	})
	def("strconv.Itoa", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		if a[0].K == KInt {
			return MkStr(strconv.Itoa(int(a[0].N))), false
		}
		return m.opaqueStr("Itoa"), false
	})
	def("strconv.FormatInt", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		if a[0].K == KInt && a[1].K == KInt {
			return MkStr(strconv.FormatInt(a[0].N, int(a[1].N))), false
		}
		return m.opaqueStr("FormatInt"), false
	})
	def("strconv.Quote", s1(func(s string) V { return MkStr(strconv.Quote(s)) }))
	def("strconv.Atoi", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		if s, ok := concStr(a[0]); ok {
			n, err := strconv.Atoi(s)
			if err != nil {
				return Tuple(Int(int64(n)), m.NewErr(MkStr(err.Error()))), false
			}
			return Tuple(Int(int64(n)), NilIface), false
		}
		return m.fallback(fn, a)
	})
	cnt := func(m *M, fn *ssa.Function, a []V) (V, bool) {
		v := m.Simplify(a[0])
		if v.K == KOpaque {
			return m.AppAtom("runecount", true, v), false
		}
		return m.lift(v, func(v V) V {
			var s *Str
			if v.K == KSlice {
				s = MkSymStr(append([]V(nil), m.SliceCells(v)...)).X.(*Str)
			} else {
				s = v.X.(*Str)
			}
			n := 0
			for i := 0; i < s.Len(); {
				_, l := m.DecodeRune(s, i)
				i += l
				n++
			}
			return Int(int64(n))
		}), m.PC == bdd.False
	}
	def("unicode/utf8.RuneCountInString", cnt)
	def("unicode/utf8.RuneCount", cnt)
	dec := func(m *M, fn *ssa.Function, a []V) (V, bool) {
		v := m.Simplify(a[0])
		return m.lift(v, func(v V) V {
			var s *Str
			if v.K == KSlice {
				s = MkSymStr(append([]V(nil), m.SliceCells(v)...)).X.(*Str)
			} else {
				s = v.X.(*Str)
			}
			if s.Len() == 0 {
				return Tuple(MkInt(0xFFFD, 32, true), Int(0))
			}
			r, n := m.DecodeRune(s, 0)
			return Tuple(r, Int(int64(n)))
		}), m.PC == bdd.False
	}
	def("unicode/utf8.DecodeRuneInString", dec)
	def("unicode/utf8.DecodeRune", dec)
	valid := func(m *M, fn *ssa.Function, a []V) (V, bool) {
		v := m.Simplify(a[0])
		return m.lift(v, func(v V) V {
			var s *Str
			if v.K == KSlice {
				s = MkSymStr(append([]V(nil), m.SliceCells(v)...)).X.(*Str)
			} else {
				s = v.X.(*Str)
			}
			ok := bdd.True
			for i := 0; i < s.Len(); {
				r, l := m.DecodeRune(s, i)
				if l == 1 {
					// an error is reported as U+FFFD of width one
					ok = m.B.And(ok, m.B.Not(m.Eq(r, MkInt(0xFFFD, 32, true))))
				}
				i += l
			}
			return BoolN(ok)
		}), m.PC == bdd.False
	}
	def("unicode/utf8.ValidString", valid)
	def("unicode/utf8.Valid", valid)
	def("bytes.Equal", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		x := MkSymStr(append([]V(nil), m.SliceCells(a[0])...))
		y := MkSymStr(append([]V(nil), m.SliceCells(a[1])...))
		return BoolN(m.Eq(x, y)), false
	})

	// Shift JIS
	def("golang.org/x/text/transform.String", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		e, ok := encoderOf(m.Simplify(a[0]))
		if !ok {
			m.Undecided("transform.String with %v", a[0])
		}
		v, dead := m.encodeText(e, a[1])
		if dead {
			return v, dead
		}
		return m.lift(v, func(t V) V {
			x := t.X.([]V)
			return Tuple(x[0], Int(0), x[1])
		}), m.PC == bdd.False
	})
	def("golang.org/x/text/transform.Bytes", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		e, ok := encoderOf(m.Simplify(a[0]))
		if !ok {
			m.Undecided("transform.Bytes with %v", a[0])
		}
		s := MkSymStr(append([]V(nil), m.SliceCells(a[1])...))
		v, dead := m.encodeText(e, s)
		if dead {
			return v, dead
		}
		return m.lift(v, func(t V) V {
			x := t.X.([]V)
			return Tuple(m.Convert(x[0], types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])), Int(0), x[1])
		}), m.PC == bdd.False
	})
	def("(*golang.org/x/text/encoding.Encoder).String", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		e, ok := encoderOf(m.Simplify(a[0]))
		if !ok {
			m.Undecided("Encoder.String with %v", a[0])
		}
		return m.encodeText(e, a[1])
	})
	def("(*golang.org/x/text/encoding.Encoder).Bytes", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		e, ok := encoderOf(m.Simplify(a[0]))
		if !ok {
			m.Undecided("Encoder.Bytes with %v", a[0])
		}
		s := MkSymStr(append([]V(nil), m.SliceCells(a[1])...))
		v, dead := m.encodeText(e, s)
		if dead {
			return v, dead
		}
		return m.lift(v, func(t V) V {
			x := t.X.([]V)
			return Tuple(m.Convert(x[0], types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])), x[1])
		}), m.PC == bdd.False
	})

	// Reed-Solomon
	def("github.com/yeqown/reedsolomon.Encode", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		if m.RSHook != nil {
			return m.RSHook(m, a)
		}
		return m.RSDefault(a)
	})

	// math
	for _, n := range []string{"Sqrt", "Floor", "Ceil", "Trunc", "Abs", "Cos", "Sin", "Tan", "Atan2", "Atan", "Hypot", "Pow", "Max", "Min", "Mod", "Log", "Exp", "Round", "Acos", "Asin", "RoundToEven", "Log2", "Log10"} {
		def("math."+n, mathStub)
	}
	def("math.Float64bits", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		if a[0].K == KFloat {
			return MkInt(a[0].N, 64, false), false
		}
		return m.AppAtom("float64bits", true, a[0]), false
	})
	def("math.Float64frombits", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		if a[0].K == KInt {
			return Flt(math.Float64frombits(uint64(a[0].N))), false
		}
		return m.AppAtom("float64frombits", false, a[0]), false
	})
	def("math.IsNaN", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		if a[0].K == KFloat {
			return Bool(math.IsNaN(a[0].Float())), false
		}
		return Bool(false), false
	})
	def("math.IsInf", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		if a[0].K == KFloat && a[1].K == KInt {
			return Bool(math.IsInf(a[0].Float(), int(a[1].N))), false
		}
		return Bool(false), false
	})

	// sort with a callback: insertion sort through the callback
	srt := func(m *M, fn *ssa.Function, a []V) (V, bool) {
		v := m.Simplify(a[0])
		if v.K == KIface && v.X != nil {
			v = m.Simplify(v.X.(*IfaceV).V)
		}
		if v.K != KSlice {
			m.Undecided("sort of %v", v)
		}
		if v.X == nil {
			return V{}, false
		}
		s := v.X.(*SliceV)
		if s.Len > 2 && s.Len <= 16 {
			return m.rankSort(s, a[1])
		}
		for i := 1; i < s.Len; i++ {
			for j := i; j > 0; j-- {
				r, dead := m.Call(a[1], Int(int64(j)), Int(int64(j-1)))
				if dead {
					return V{}, true
				}
				c := r.Node()
				if m.B.And(m.PC, c) == bdd.False {
					break
				}
				for k := 0; k < s.Esz; k++ {
					p, q := s.Off+j*s.Esz+k, s.Off+(j-1)*s.Esz+k
					x, y := s.Obj.Cells[p], s.Obj.Cells[q]
					m.write(s.Obj, p, m.Merge(c, y, x))
					m.write(s.Obj, q, m.Merge(c, x, y))
				}
			}
		}
		return V{}, false
	}
	def("sort.Slice", srt)
	def("sort.SliceStable", srt)
	return t
}

// rankSort sorts a short slice stably: every pair is compared once, in the
// original order, and an element's place is the number of elements before it.
func (m *M) rankSort(s *SliceV, less V) (V, bool) {
	n := s.Len
	before := make([][]bdd.Node, n) // before[i]: conditions under which another element precedes i
	for j := 1; j < n; j++ {
		for i := 0; i < j; i++ {
			r, dead := m.Call(less, Int(int64(j)), Int(int64(i)))
			if dead {
				return V{}, true
			}
			c := r.Node()
			before[i] = append(before[i], c)
			before[j] = append(before[j], m.B.Not(c))
		}
	}
	place := make([][]bdd.Node, n) // place[i][p]: i goes to p
	for i := range place {
		cnt := make([]bdd.Node, n)
		cnt[0] = bdd.True
		for k := 1; k < n; k++ {
			cnt[k] = bdd.False
		}
		for _, c := range before[i] {
			nc := m.B.Not(c)
			for k := n - 1; k >= 0; k-- {
				x := m.B.And(cnt[k], nc)
				if k > 0 {
					x = m.B.Or(x, m.B.And(cnt[k-1], c))
				}
				cnt[k] = x
			}
		}
		place[i] = cnt
	}
	old := append([]V(nil), s.Obj.Cells[s.Off:s.Off+n*s.Esz]...)
	for p := 0; p < n; p++ {
		for k := 0; k < s.Esz; k++ {
			v := old[p*s.Esz+k]
			for i := n - 1; i >= 0; i-- {
				c := place[i][p]
				if m.B.And(m.PC, c) != bdd.False {
					v = m.Merge(c, old[i*s.Esz+k], v)
				}
			}
			m.write(s.Obj, s.Off+p*s.Esz+k, v)
		}
	}
	return V{}, false
}

func (m *M) resultsNoErr(sig *types.Signature) V {
	res := sig.Results()
	if res.Len() == 0 {
		return V{}
	}
	vs := make([]V, res.Len())
	for i := range vs {
		t := res.At(i).Type()
		if isErrorType(t) {
			vs[i] = NilIface
		} else {
			vs[i] = m.OpaqueOf(t, "n")
		}
	}
	if len(vs) == 1 {
		return vs[0]
	}
	return Tuple(vs...)
}

// fallback analyses the library function's own body.
func (m *M) fallback(fn *ssa.Function, args []V) (V, bool) {
	for _, a := range args {
		if a.K == KOpaque {
			sig := fn.Signature
			if sig.Results().Len() == 1 {
				k := fnKey(fn)
				t := sig.Results().At(0).Type()
				b, ok := t.Underlying().(*types.Basic)
				if ok && b.Info()&types.IsBoolean != 0 {
					kk := k
					for _, a := range args {
						kk += "|" + m.valKey(a)
					}
					if n, ok := m.strEq[kk]; ok {
						return BoolN(n), false
					}
					n := m.B.NewVar(kk)
					m.strEq[kk] = n
					return BoolN(n), false
				}
				if ok && b.Info()&types.IsInteger != 0 {
					return m.AppAtom(k, true, args...), false
				}
				return m.opaqueApp(k, t, args...), false
			}
			return m.OpaqueOf(sig.Results(), fnKey(fn)), false
		}
	}
	c := m.P.codeOf(fn)
	if c == nil {
		return m.external(fn, args)
	}
	fr := &Frame{fn: fn, code: c, regs: make([]V, c.nregs), caller: m.frame, birth: m.birth, pos: fn.Pos()}
	for i, r := range c.params {
		if i < len(args) {
			fr.regs[r] = args[i]
		}
	}
	m.frame = fr
	m.depth++
	o := m.run(fr, c.blocks[0], nil, 0, nil)
	m.depth--
	m.frame = fr.caller
	if o.kind == oDead {
		return V{}, true
	}
	return o.ret, false
}

func (m *M) errIs(e, target V, d int) bdd.Node {
	e = m.Simplify(e)
	if d > 10 {
		return bdd.False
	}
	if e.K == KChoice {
		r := bdd.False
		for _, a := range e.X.([]Alt) {
			r = m.B.Or(r, m.B.And(a.C, m.errIs(a.V, target, d)))
		}
		return r
	}
	r := m.Eq(e, target)
	if e.K == KIface && e.X != nil {
		if ev, ok := e.X.(*IfaceV).Host.(*ErrVal); ok {
			for _, w := range ev.Wraps {
				r = m.B.Or(r, m.errIs(w, target, d+1))
			}
		}
	}
	return r
}

func mathStub(m *M, fn *ssa.Function, a []V) (V, bool) {
	name := strings.TrimPrefix(strings.ToLower(fn.Name()), "arch")
	for _, x := range a {
		if x.K == KChoice {
			for i := range a {
				if a[i].K == KChoice {
					i := i
					return m.lift(a[i], func(v V) V {
						b := append([]V(nil), a...)
						b[i] = v
						r, _ := mathStub(m, fn, b)
						return r
					}), false
				}
			}
		}
	}
	conc := true
	for _, x := range a {
		if x.K != KFloat {
			conc = false
		}
	}
	if !conc {
		switch name {
		case "max", "min":
			lt := m.NumCmp("<", a[0], a[1])
			if name == "max" {
				return m.Merge(lt, a[1], a[0]), false
			}
			return m.Merge(lt, a[0], a[1]), false
		case "abs":
			neg := m.NumCmp("<", a[0], Flt(0))
			return m.Merge(neg, m.NumMul(a[0], Int(-1)), a[0]), false
		case "floor", "ceil", "trunc", "round":
			if a[0].K == KNum && m.integral(a[0]) {
				return a[0], false
			}
		}
		return m.AppAtom("math."+name, false, a...), false
	}
	x := a[0].Float()
	y := 0.0
	if len(a) > 1 && a[1].K == KFloat {
		y = a[1].Float()
	}
	var r float64
	switch name {
	case "sqrt":
		r = math.Sqrt(x)
	case "floor":
		r = math.Floor(x)
	case "ceil":
		r = math.Ceil(x)
	case "trunc":
		r = math.Trunc(x)
	case "abs":
		r = math.Abs(x)
	case "cos":
		r = math.Cos(x)
	case "sin":
		r = math.Sin(x)
	case "tan":
		r = math.Tan(x)
	case "atan":
		r = math.Atan(x)
	case "atan2":
		r = math.Atan2(x, y)
	case "hypot":
		r = math.Hypot(x, y)
	case "pow":
		r = math.Pow(x, y)
	case "max":
		r = math.Max(x, y)
	case "min":
		r = math.Min(x, y)
	case "mod":
		r = math.Mod(x, y)
	case "log":
		r = math.Log(x)
	case "log2":
		r = math.Log2(x)
	case "log10":
		r = math.Log10(x)
	case "exp":
		r = math.Exp(x)
	case "round":
		r = math.Round(x)
	case "roundtoeven":
		r = math.RoundToEven(x)
	case "acos":
		r = math.Acos(x)
	case "asin":
		r = math.Asin(x)
	default:
		m.Undecided("math.%s", name)
	}
	return Flt(r), false
}

func (m *M) integral(v V) bool {
	for _, t := range v.X.(*Num).terms {
		if !t.c.IsInt() {
			return false
		}
		for _, a := range t.mono {
			if !m.atoms[a].Int {
				return false
			}
		}
	}
	return true
}

// ---- text encodings ----

type encTable struct {
	name  string
	bytes [65536][2]byte
	n     [65536]uint8
}

var encTables = map[string]*encTable{}

func (m *M) encTable(name string) *encTable {
	m.P.mu.Lock()
	defer m.P.mu.Unlock()
	if t, ok := encTables[name]; ok {
		return t
	}
	var e encoding.Encoding
	switch name {
	case "ShiftJIS":
		e = japanese.ShiftJIS
	case "EUCJP":
		e = japanese.EUCJP
	default:
		return nil
	}
	t := &encTable{name: name}
	enc := e.NewEncoder()
	buf := make([]byte, 8)
	for r := 0; r < 65536; r++ {
		if r >= 0xD800 && r < 0xE000 || r == 0xFFFD {
			continue
		}
		enc.Reset()
		nd, _, err := enc.Transform(buf, []byte(string(rune(r))), true)
		if err != nil || nd > 2 {
			continue
		}
		t.n[r] = uint8(nd)
		copy(t.bytes[r][:], buf[:nd])
	}
	encTables[name] = t
	return t
}

// SJISTable gives the Shift JIS table of x/text.
func (m *M) SJIS(r rune) (int, byte, byte) {
	t := m.encTable("ShiftJIS")
	if r < 0 || r > 0xFFFF {
		return 0, 0, 0
	}
	return int(t.n[r]), t.bytes[r][0], t.bytes[r][1]
}

func encoderOf(v V) (string, bool) {
	if v.K == KIface && v.X != nil {
		if v.X.(*IfaceV).Host == nil {
			return encoderOf(v.X.(*IfaceV).V)
		}
	}
	if v.K == KOpaque {
		l := v.X.(*Opaque).Label
		if strings.HasSuffix(l, ".NewEncoder()") {
			l = strings.TrimSuffix(l, ".NewEncoder()")
			if i := strings.LastIndex(l, "."); i >= 0 {
				l = l[i+1:]
			}
			return l, true
		}
	}
	return "", false
}

// tableFn builds the boolean function of a 16-bit index given by bits.
func (m *M) tableFn(bits []bdd.Node, f func(i int) bool) bdd.Node {
	var rec func(k, base int) bdd.Node
	rec = func(k, base int) bdd.Node {
		if k < 0 {
			return b2n(f(base))
		}
		// constant ranges
		n := 1 << uint(k+1)
		v := f(base)
		same := true
		for i := 1; i < n; i++ {
			if f(base+i) != v {
				same = false
				break
			}
		}
		if same {
			return b2n(v)
		}
		if bits[k] == bdd.True {
			return rec(k-1, base|1<<uint(k))
		}
		if bits[k] == bdd.False {
			return rec(k-1, base)
		}
		return m.B.Ite(bits[k], rec(k-1, base|1<<uint(k)), rec(k-1, base))
	}
	return rec(15, 0)
}

type encRune struct {
	n1, n2 bdd.Node
	b0, b1 V
}

func (m *M) encodeRune(t *encTable, r V) encRune {
	if r.K == KInt {
		if r.N < 0 || r.N > 0xFFFF {
			return encRune{}
		}
		return encRune{b2n(t.n[r.N] == 1), b2n(t.n[r.N] == 2), MkInt(int64(t.bytes[r.N][0]), 8, false), MkInt(int64(t.bytes[r.N][1]), 8, false)}
	}
	bits := m.Bits(r)
	key := t.name
	for _, b := range bits {
		key += fmt.Sprintf(",%d", b)
	}
	if m.encMemo == nil {
		m.encMemo = map[string]encRune{}
	}
	if e, ok := m.encMemo[key]; ok {
		return e
	}
	hi := bdd.False
	for _, b := range bits[16:] {
		hi = m.B.Or(hi, b)
	}
	lo := m.B.Not(hi)
	var e encRune
	e.n1 = m.B.And(lo, m.tableFn(bits, func(i int) bool { return t.n[i] == 1 }))
	e.n2 = m.B.And(lo, m.tableFn(bits, func(i int) bool { return t.n[i] == 2 }))
	mk := func(k int) V {
		bs := make([]bdd.Node, 8)
		for j := range bs {
			j := j
			bs[j] = m.tableFn(bits, func(i int) bool { return t.bytes[i][k]>>uint(j)&1 == 1 })
		}
		return m.FromBits(bs, false)
	}
	e.b0, e.b1 = mk(0), mk(1)
	m.encMemo[key] = e
	return e
}

// encodeText is (string, error).
func (m *M) encodeText(name string, sv V) (V, bool) {
	t := m.encTable(name)
	if t == nil {
		m.Undecided("unknown text encoding %s", name)
	}
	sv = m.Simplify(sv)
	if sv.K == KOpaque {
		return Tuple(m.opaqueApp("encode"+name, types.Typ[types.String], sv), m.OpaqueOf(types.Universe.Lookup("error").Type(), "encode")), false
	}
	r := m.lift(sv, func(v V) V {
		s := v.X.(*Str)
		type part struct {
			c   bdd.Node
			out []V
		}
		parts := []part{{m.PC, nil}}
		var res V
		have := false
		add := func(c bdd.Node, v V) {
			if c == bdd.False {
				return
			}
			if !have {
				res, have = v, true
				return
			}
			res = m.Merge(c, v, res)
		}
		for i := 0; i < s.Len(); {
			rv, n := m.DecodeRune(s, i)
			i += n
			e := m.encodeRune(t, rv)
			var np []part
			bad := m.B.Not(m.B.Or(e.n1, e.n2))
			for _, p := range parts {
				if c := m.B.And(p.c, e.n1); c != bdd.False {
					np = append(np, part{c, append(p.out[:len(p.out):len(p.out)], e.b0)})
				}
				if c := m.B.And(p.c, e.n2); c != bdd.False {
					np = append(np, part{c, append(p.out[:len(p.out):len(p.out)], e.b0, e.b1)})
				}
				if c := m.B.And(p.c, bad); c != bdd.False {
					add(c, Tuple(MkSymStr(p.out), m.NewErr(MkStr("encoding: rune not supported by encoding"))))
				}
			}
			if len(np) > 256 {
				m.Undecided("length of the encoded text is not determined")
			}
			parts = np
		}
		for _, p := range parts {
			add(p.c, Tuple(MkSymStr(p.out), NilIface))
		}
		return res
	})
	return r, m.PC == bdd.False
}

// ---- Reed-Solomon ----

// BinaryBits reads a *binary.Binary.
func (m *M) BinaryBits(p V) []bdd.Node {
	p = m.Simplify(p)
	if p.K != KPtr || p.X == nil {
		m.Undecided("bit stream %v", p)
	}
	o := p.X.(*Obj)
	bits := m.Simplify(o.Cells[p.N])
	n := m.Simplify(o.Cells[p.N+1])
	if n.K != KInt {
		m.Undecided("bit stream of symbolic length")
	}
	cells := m.SliceCells(bits)
	out := make([]bdd.Node, n.N)
	for i := range out {
		out[i] = m.Bits(cells[i/8])[7-i%8]
	}
	return out
}

// MkBinary makes a *binary.Binary from bits.
func (m *M) MkBinary(t types.Type, bits []bdd.Node) V {
	cells := make([]V, (len(bits)+7)/8)
	for k := range cells {
		bs := make([]bdd.Node, 8)
		for j := 0; j < 8; j++ {
			if 8*k+j < len(bits) {
				bs[7-j] = bits[8*k+j]
			} else {
				bs[7-j] = bdd.False
			}
		}
		cells[k] = m.FromBits(bs, false)
	}
	sl := m.NewSlice(types.Typ[types.Uint8], cells, "binary")
	o := m.AllocType(t, "Binary")
	o.Cells[0] = sl
	o.Cells[1] = Int(int64(len(bits)))
	return V{K: KPtr, X: o}
}

// RSCall is one recorded Reed-Solomon encoding.
type RSCall struct {
	Data  []bdd.Node
	NumEC int
	EC    []bdd.Node
	Where string
	Cond  bdd.Node
}

// RSDefault models reedsolomon.Encode: the data followed by unknown bits.
func (m *M) RSDefault(a []V) (V, bool) {
	bits := m.BinaryBits(a[0])
	n := m.Simplify(a[1])
	if n.K != KInt {
		m.Undecided("number of EC codewords is symbolic")
	}
	if n.N < 0 || n.N > 255 {
		m.Panic(fmt.Sprintf("reedsolomon.Encode with %d EC codewords", n.N))
		return V{}, true
	}
	// the library pads the data to whole bytes
	data := append([]bdd.Node(nil), bits...)
	ec := make([]bdd.Node, 8*n.N)
	k := len(m.RSCalls)
	for i := range ec {
		ec[i] = m.B.NewVar(fmt.Sprintf("ec%d.%d", k, i))
	}
	m.RSCalls = append(m.RSCalls, RSCall{data, int(n.N), ec, m.Where(), m.PC})
	pt := m.Simplify(a[0]).X.(*Obj)
	t := pt.Typ
	return m.MkBinary(t, append(append([]bdd.Node(nil), data...), ec...)), false
}

var _ = utf8.RuneError
