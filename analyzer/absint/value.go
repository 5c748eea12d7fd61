// Package absint is an abstract interpreter for Go SSA.
//
// The abstract domain is a product of
//   - constants,
//   - bit vectors whose bits are boolean functions (BDDs) of input atoms,
//   - polynomials over named numeric parameters (symbolic geometry),
//   - guarded choices of otherwise incomparable values (pointers, slices, ...),
//   - opaque values.
//
// Control-flow joins are taken at immediate postdominators: both sides of a
// branch that the domain cannot decide are analysed and their states are
// joined there. No path is enumerated, no solver is called and no code of the
// analysed repository is compiled or executed.
package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"verif/analyzer/bdd"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KUndef  Kind = iota
	KInt         // concrete integer: N (normalised to width W, signedness S)
	KBV          // symbolic integer: X = []bdd.Node, LSB first
	KBool        // N = bdd node
	KFloat       // N = math.Float64bits
	KNum         // X = *Num: polynomial / term (int or float)
	KStr         // X = *Str
	KPtr         // X = *Obj (nil pointer: X == nil), N = offset
	KSlice       // X = *SliceV or nil
	KIface       // X = *IfaceV or nil
	KFunc        // X = *FuncV or nil
	KMap         // X = *MapObj or nil
	KChan        // X = *ChanObj or nil
	KStruct      // X = []V (struct or array)
	KTuple       // X = []V
	KChoice      // X = []Alt
	KOpaque      // X = *Opaque
	KIter        // X = *iterV
	KHost        // X = host object
)

// V is an abstract value.
type V struct {
	K Kind
	W uint8
	S bool
	N int64
	X any
}

type Alt struct {
	C bdd.Node
	V V
}

// Obj is an abstract memory object: a flat array of cells.
type Obj struct {
	ID    int64
	Cells []V
	Label string
	Typ   types.Type
	Pos   string
	race  []raceCell
	prov  []token.Pos
}

type SliceV struct {
	Obj      *Obj
	Off      int
	Len, Cap int
	Esz      int
}

type IfaceV struct {
	T types.Type // dynamic type
	V V
	// host objects: methods implemented by the harness
	Host HostObj
}

// HostObj is an object of the analysis harness that stands for an unknown
// implementation of an interface.
type HostObj interface {
	CallMethod(m *M, name string, args []V) (V, bool)
	Implements(m *M, iface *types.Interface) bool
}

type FuncV struct {
	Fn       *ssa.Function
	Bindings []V
	Host     func(m *M, args []V) (V, bool)
	Builtin  *ssa.Builtin
	Name     string
}

type Opaque struct {
	ID    int
	Label string
	T     types.Type
	// nilCond is the condition under which an opaque reference is nil
	nilKnown bool
	nilCond  bdd.Node
	Data     any
}

// Str is a string of known length with possibly symbolic bytes.
type Str struct {
	Con  string // concrete content when Sym == nil
	Sym  []V    // bytes
	isSy bool
}

func (s *Str) Len() int {
	if s.isSy {
		return len(s.Sym)
	}
	return len(s.Con)
}

type MapEnt struct {
	K, V V
	dead bool
}
type MapObj struct {
	ID    int64
	Keys  []string
	M     map[string]*MapEnt
	Label string
	race  []raceCell
}

type ChanObj struct {
	ID     int64
	Buf    []V
	Cap    int
	Closed bool
	sent   int
	taken  int
}

type iterV struct {
	str  *Str
	m    *MapObj
	keys []string
	cell *Obj
	pos  *int
}

func Int(n int64) V { return V{K: KInt, W: 64, S: true, N: n} }
func Bool(b bool) V {
	if b {
		return V{K: KBool, N: 1}
	}
	return V{K: KBool, N: 0}
}
func BoolN(n bdd.Node) V   { return V{K: KBool, N: int64(n)} }
func (v V) Node() bdd.Node { return bdd.Node(v.N) }
func Flt(f float64) V      { return V{K: KFloat, N: int64(math.Float64bits(f))} }
func (v V) Float() float64 { return math.Float64frombits(uint64(v.N)) }
func MkStr(s string) V     { return V{K: KStr, X: &Str{Con: s}} }
func MkSymStr(b []V) V {
	conc := true
	for _, x := range b {
		if x.K != KInt {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, x := range b {
			bs[i] = byte(x.N)
		}
		return MkStr(string(bs))
	}
	return V{K: KStr, X: &Str{Sym: b, isSy: true}}
}

var NilIface = V{K: KIface}

func Tuple(vs ...V) V { return V{K: KTuple, X: vs} }

// Norm normalises n to width w.
func Norm(n int64, w uint8, s bool) int64 {
	if w >= 64 {
		return n
	}
	sh := 64 - w
	if s {
		return n << sh >> sh
	}
	return int64(uint64(n) << sh >> sh)
}
func MkInt(n int64, w uint8, s bool) V {
	return V{K: KInt, W: w, S: s, N: Norm(n, w, s)}
}

func (v V) IsNilRef() bool {
	switch v.K {
	case KPtr, KSlice, KIface, KFunc, KMap, KChan:
		return v.X == nil
	}
	return false
}

// Ident is syntactic identity of abstract values (equal => same value).
func Ident(a, b V) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case KInt:
		return a.N == b.N
	case KBool, KFloat, KUndef:
		return a.N == b.N
	case KBV:
		x, y := a.X.([]bdd.Node), b.X.([]bdd.Node)
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	case KNum:
		return a.X == b.X
	case KStr:
		x, y := a.X.(*Str), b.X.(*Str)
		if x == y {
			return true
		}
		if x.isSy != y.isSy {
			return false
		}
		if !x.isSy {
			return x.Con == y.Con
		}
		return identSlice(x.Sym, y.Sym)
	case KPtr:
		return a.X == b.X && a.N == b.N
	case KSlice:
		if a.X == nil || b.X == nil {
			return a.X == nil && b.X == nil
		}
		return a.X == b.X || *a.X.(*SliceV) == *b.X.(*SliceV)
	case KIface:
		if a.X == nil || b.X == nil {
			return a.X == nil && b.X == nil
		}
		x, y := a.X.(*IfaceV), b.X.(*IfaceV)
		if x == y {
			return true
		}
		if x.Host != nil || y.Host != nil {
			return x.Host == y.Host
		}
		return types.Identical(x.T, y.T) && Ident(x.V, y.V)
	case KFunc:
		if a.X == b.X {
			return true
		}
		if a.X == nil || b.X == nil {
			return false
		}
		x, y := a.X.(*FuncV), b.X.(*FuncV)
		if x.Fn == nil || x.Fn != y.Fn {
			return false
		}
		return identSlice(x.Bindings, y.Bindings)
	case KStruct, KTuple:
		return identSlice(a.X.([]V), b.X.([]V))
	case KChoice:
		x, y := a.X.([]Alt), b.X.([]Alt)
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i].C != y[i].C || !Ident(x[i].V, y[i].V) {
				return false
			}
		}
		return true
	default:
		return a.X == b.X
	}
}

func identSlice(a, b []V) bool {
	if len(a) != len(b) {
		return false
	}
	if len(a) > 0 && &a[0] == &b[0] {
		return true
	}
	for i := range a {
		if !Ident(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (v V) String() string {
	switch v.K {
	case KUndef:
		return "undef"
	case KInt:
		if v.W == 64 && !v.S {
			return fmt.Sprint(uint64(v.N))
		}
		return fmt.Sprint(v.N)
	case KBV:
		return fmt.Sprintf("bv%v", v.X)
	case KBool:
		if v.N <= 1 {
			return fmt.Sprint(v.N == 1)
		}
		return fmt.Sprintf("bool#%d", v.N)
	case KFloat:
		return fmt.Sprint(v.Float())
	case KNum:
		return v.X.(*Num).String()
	case KStr:
		s := v.X.(*Str)
		if s.isSy {
			return fmt.Sprintf("symstr(len=%d)", len(s.Sym))
		}
		return fmt.Sprintf("%q", s.Con)
	case KPtr:
		if v.X == nil {
			return "nil"
		}
		o := v.X.(*Obj)
		return fmt.Sprintf("&%s#%d+%d", o.Label, o.ID, v.N)
	case KSlice:
		if v.X == nil {
			return "nil[]"
		}
		s := v.X.(*SliceV)
		return fmt.Sprintf("slice(%s#%d+%d len=%d)", s.Obj.Label, s.Obj.ID, s.Off, s.Len)
	case KIface:
		if v.X == nil {
			return "nil"
		}
		i := v.X.(*IfaceV)
		if i.Host != nil {
			return fmt.Sprintf("host(%T)", i.Host)
		}
		return fmt.Sprintf("iface(%v,%v)", i.T, i.V)
	case KFunc:
		if v.X == nil {
			return "nilfunc"
		}
		f := v.X.(*FuncV)
		if f.Fn != nil {
			return f.Fn.String()
		}
		return "hostfunc " + f.Name
	case KStruct, KTuple:
		var p []string
		for _, x := range v.X.([]V) {
			p = append(p, x.String())
		}
		return "{" + strings.Join(p, ",") + "}"
	case KChoice:
		var p []string
		for _, a := range v.X.([]Alt) {
			p = append(p, fmt.Sprintf("#%d=>%s", a.C, a.V.String()))
		}
		return "choice(" + strings.Join(p, " | ") + ")"
	case KOpaque:
		o := v.X.(*Opaque)
		return fmt.Sprintf("opaque(%s#%d)", o.Label, o.ID)
	}
	return fmt.Sprintf("kind%d", v.K)
}
