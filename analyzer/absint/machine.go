package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"verif/analyzer/bdd"

	"golang.org/x/tools/go/ssa"
)

// M is one run of the abstract interpreter.
type M struct {
	Prog *ssa.Program
	P    *Program
	B    *bdd.Manager
	PC   bdd.Node // path condition of the current program point

	atoms      []*Atom
	nums       map[string]*Num
	appAtoms   map[string]*Atom
	cmpVars    map[string]bdd.Node
	cmpMeaning map[int32]CmpAtom

	birth   int64
	globals map[*ssa.Global]*Obj
	inited  map[*ssa.Package]bool

	sides []*side
	hard  int64 // effects that cannot be withdrawn
	opqN  int

	Events []Event
	Panics []PanicEvent
	Writes []WriteEvent // writes to objects older than Epoch (when tracked)

	// tracking
	Epoch       int64 // objects with ID < Epoch are "pre-existing"
	TrackWrites bool
	onceDepth   int

	Instrs    int64
	MaxInstrs int64
	StopAfter int64 // end the analysis (Stop) at this step count
	depth     int

	frame    *Frame // innermost frame of the current goroutine
	gs       []*G   // goroutines not finished
	cur      *G
	Sched    SchedMode
	rr       int
	Spawned  int
	syncVCs  map[any]vclock
	encMemo  map[string]encRune
	RSCalls  []RSCall
	Getenv   func(m *M, name V) V
	Prov     bool        // record the last writer of every cell
	LastProv []token.Pos // writers of the cell(s) loaded last
	gsIDs    int
	Races    []string
	RaceOn   bool
	MapRev   bool // iterate maps in reverse insertion order

	// ScoreAbort summarises integer-valued functions whose control flow
	// depends on symbolic data by a fresh symbolic result.
	ScoreAbort bool
	Scores     []V
	ScoreFns   map[string]int

	Fns map[*ssa.Function]int64 // functions analysed -> times entered
	// AllocBound: maximal cells of one object
	Intr map[string]Intrinsic // harness-specific models (override)

	RSHook func(m *M, args []V) (V, bool)
	Data   any

	writesOld int64 // count of writes to old objects (score purity)
	strEq     map[string]bdd.Node
	oapps     map[string]V

	canvases     map[*Obj]*canvas
	canvasSplits int
	opqBytes     map[string]V
	overSplit    int
	// ScaleHook gives the pixels of a scaled image
	ScaleHook func(x, y int) [4]V
	ScaleSrc  V // the picture being scaled
}

type Intrinsic func(m *M, fn *ssa.Function, args []V) (V, bool)

// Event is an externally visible effect.
type Event struct {
	Cond bdd.Node
	Name string
	Args []V
	Pos  token.Pos
	Fn   string
	G    int
}

type PanicEvent struct {
	Cond   bdd.Node
	Reason string
	Fn     string
	Pos    string
}

type WriteEvent struct {
	Obj  *Obj
	Off  int
	Fn   string
	Pos  string
	Once bool
}

// Undecided is thrown when the domain cannot decide something it has to.
type Undecided struct {
	Msg   string
	Stack string
}

// charLen is reported where the code steps through free bytes character by
// character.
const charLen = "length of a character is not determined"

// CharLen says whether the reason is a text whose characters have
// undetermined lengths.
func (u Undecided) CharLen() bool { return strings.HasPrefix(u.Msg, charLen) }

func (u Undecided) Error() string { return u.Msg + " at " + u.Stack }

// Stop is thrown by harness hooks to end a run early.
type Stop struct{ Reason string }

type abortScore struct{ fr *Frame }

func (m *M) Undecided(f string, a ...any) {
	panic(Undecided{fmt.Sprintf(f, a...), m.StackString()})
}

func (m *M) StackString() string {
	var p []string
	for fr := m.frame; fr != nil && len(p) < 8; fr = fr.caller {
		p = append(p, fr.fn.String()+"@"+m.posString(fr.pos))
	}
	return strings.Join(p, " < ")
}

func (m *M) posString(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := m.Prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	} else if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// Where is the current source position.
func (m *M) Where() string {
	if m.frame == nil {
		return "harness"
	}
	return m.frame.fn.String() + " (" + m.posString(m.frame.pos) + ")"
}

// NewM makes a machine.
func NewM(p *Program) *M {
	m := &M{
		P: p, Prog: p.Prog, B: bdd.New(), PC: bdd.True,
		nums: map[string]*Num{}, appAtoms: map[string]*Atom{}, cmpVars: map[string]bdd.Node{},
		cmpMeaning: map[int32]CmpAtom{},
		globals:    map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]bool{},
		MaxInstrs: 400_000_000, Fns: map[*ssa.Function]int64{}, ScoreFns: map[string]int{},
		strEq: map[string]bdd.Node{}, Intr: map[string]Intrinsic{},
	}
	m.cur = &G{ID: 0, vc: vclock{0: 1}, main: true}
	m.gsIDs = 1
	return m
}

// ---- objects ----

func (m *M) NewObj(t types.Type, n int, label string) *Obj {
	m.birth++
	if n > 64_000_000 {
		m.Undecided("allocation of %d cells", n)
	}
	return &Obj{ID: m.birth, Cells: make([]V, n), Label: label, Typ: t}
}

// Sizeof is the number of cells of a type.
func Sizeof(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += Sizeof(u.Field(i).Type())
		}
		return n
	case *types.Array:
		return int(u.Len()) * Sizeof(u.Elem())
	case *types.Tuple:
		return 1
	}
	return 1
}

func FieldOff(st *types.Struct, i int) int {
	n := 0
	for j := 0; j < i; j++ {
		n += Sizeof(st.Field(j).Type())
	}
	return n
}

// Zero of a type (aggregate form).
func (m *M) Zero(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsInteger != 0:
			w, s := IntInfo(u)
			return V{K: KInt, W: w, S: s}
		case u.Info()&types.IsFloat != 0:
			return Flt(0)
		case u.Info()&types.IsString != 0:
			return MkStr("")
		case u.Kind() == types.UnsafePointer:
			return V{K: KPtr}
		case u.Kind() == types.UntypedNil:
			return NilIface
		case u.Info()&types.IsComplex != 0:
			return V{K: KStruct, X: []V{Flt(0), Flt(0)}}
		}
		return V{}
	case *types.Pointer:
		return V{K: KPtr}
	case *types.Slice:
		return V{K: KSlice}
	case *types.Map:
		return V{K: KMap}
	case *types.Chan:
		return V{K: KChan}
	case *types.Signature:
		return V{K: KFunc}
	case *types.Interface:
		return NilIface
	case *types.Struct:
		fs := make([]V, u.NumFields())
		for i := range fs {
			fs[i] = m.Zero(u.Field(i).Type())
		}
		return V{K: KStruct, X: fs}
	case *types.Array:
		n := int(u.Len())
		fs := make([]V, n)
		if n > 0 {
			z := m.Zero(u.Elem())
			for i := range fs {
				fs[i] = z
			}
		}
		return V{K: KStruct, X: fs}
	case *types.Tuple:
		fs := make([]V, u.Len())
		for i := range fs {
			fs[i] = m.Zero(u.At(i).Type())
		}
		return V{K: KTuple, X: fs}
	}
	return V{}
}

func IntInfo(b *types.Basic) (uint8, bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 64, true
}

func flattenInto(cells []V, v V) int {
	if v.K == KStruct {
		n := 0
		for _, x := range v.X.([]V) {
			n += flattenInto(cells[n:], x)
		}
		return n
	}
	cells[0] = v
	return 1
}

// AllocType allocates a zeroed object of type t.
func (m *M) AllocType(t types.Type, label string) *Obj {
	o := m.NewObj(t, Sizeof(t), label)
	m.fillZero(o.Cells, t)
	return o
}

func (m *M) fillZero(cells []V, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			s := Sizeof(ft)
			m.fillZero(cells[n:n+s], ft)
			n += s
		}
	case *types.Array:
		s := Sizeof(u.Elem())
		if s == 0 {
			return
		}
		for i := 0; i+s <= len(cells); i += s {
			m.fillZero(cells[i:i+s], u.Elem())
		}
	default:
		if len(cells) > 0 {
			cells[0] = m.Zero(t)
		}
	}
}

// ---- state joins ----

type wkey struct {
	o *Obj
	i int
}
type mkey struct {
	o *MapObj
	k string
}
type wrec struct {
	o   *Obj
	i   int
	old V
}
type mrec struct {
	o     *MapObj
	k     string
	old   *MapEnt // nil: absent (copied entry)
	nkeys int
}
type crec struct {
	c   *ChanObj
	old ChanObj
}

type side struct {
	start int64 // objects born later need no log
	log   []wrec
	mlog  []mrec
	clog  []crec
}

func (m *M) pushSide() {
	m.sides = append(m.sides, &side{start: m.birth})
}

type sideResult struct {
	pc     bdd.Node
	w      map[wkey]V
	mw     map[mkey]*MapEnt
	worder []wkey
	morder []mkey
	clog   []crec
	cnew   []ChanObj
	dead   bool
}

// popSide ends the current side: it collects the final values and rolls the
// memory back.
func (m *M) popSide() *sideResult {
	m.drainLevel(len(m.sides))
	s := m.sides[len(m.sides)-1]
	m.sides = m.sides[:len(m.sides)-1]
	r := &sideResult{pc: m.PC}
	if len(s.log) > 0 {
		r.w = make(map[wkey]V, len(s.log))
		for _, w := range s.log {
			k := wkey{w.o, w.i}
			if _, ok := r.w[k]; !ok {
				r.w[k] = w.o.Cells[w.i]
				r.worder = append(r.worder, k)
			}
		}
		for i := len(s.log) - 1; i >= 0; i-- {
			w := s.log[i]
			w.o.Cells[w.i] = w.old
		}
	}
	if len(s.mlog) > 0 {
		r.mw = map[mkey]*MapEnt{}
		for _, w := range s.mlog {
			k := mkey{w.o, w.k}
			if _, ok := r.mw[k]; !ok {
				e := w.o.M[w.k]
				if e != nil {
					c := *e
					e = &c
				}
				r.mw[k] = e
				r.morder = append(r.morder, k)
			}
		}
		for i := len(s.mlog) - 1; i >= 0; i-- {
			w := s.mlog[i]
			if w.old == nil {
				delete(w.o.M, w.k)
			} else {
				c := *w.old
				w.o.M[w.k] = &c
			}
			w.o.Keys = w.o.Keys[:w.nkeys]
		}
	}
	if len(s.clog) > 0 {
		r.clog = s.clog
		for _, c := range s.clog {
			r.cnew = append(r.cnew, *c.c)
		}
		for i := len(s.clog) - 1; i >= 0; i-- {
			*s.clog[i].c = s.clog[i].old
		}
	}
	return r
}

// reapply commits a side unconditionally.
func (m *M) reapply(r *sideResult) {
	for _, k := range r.worder {
		m.setCell(k.o, k.i, r.w[k])
	}
	for _, k := range r.morder {
		m.setMap(k.o, k.k, r.mw[k])
	}
	for i, c := range r.clog {
		m.logChan(c.c)
		*c.c = r.cnew[i]
	}
	m.PC = r.pc
}

// joinSides merges the two sides' memories under cond c.
func (m *M) joinSides(c bdd.Node, a, b *sideResult) {
	if len(a.clog) > 0 || len(b.clog) > 0 {
		m.Undecided("channel operation on one side of a symbolic branch")
	}
	for _, k := range a.worder {
		v := a.w[k]
		if w, ok := b.w[k]; ok {
			m.setCell(k.o, k.i, m.Merge(c, v, w))
		} else {
			m.setCell(k.o, k.i, m.Merge(c, v, k.o.Cells[k.i]))
		}
	}
	for _, k := range b.worder {
		if _, ok := a.w[k]; ok {
			continue
		}
		m.setCell(k.o, k.i, m.Merge(c, k.o.Cells[k.i], b.w[k]))
	}
	mergeEnt := func(x, y *MapEnt) *MapEnt {
		if x == nil && y == nil {
			return nil
		}
		if x == nil || y == nil {
			m.Undecided("map entry present under a symbolic condition")
		}
		return &MapEnt{K: x.K, V: m.Merge(c, x.V, y.V)}
	}
	for _, k := range a.morder {
		v := a.mw[k]
		w, ok := b.mw[k]
		if !ok {
			w = k.o.M[k.k]
		}
		m.setMap(k.o, k.k, mergeEnt(v, w))
	}
	for _, k := range b.morder {
		if _, ok := a.mw[k]; ok {
			continue
		}
		m.setMap(k.o, k.k, mergeEnt(k.o.M[k.k], b.mw[k]))
	}
}

func (m *M) setCell(o *Obj, i int, v V) {
	if n := len(m.sides); n > 0 {
		s := m.sides[n-1]
		if o.ID <= s.start {
			s.log = append(s.log, wrec{o, i, o.Cells[i]})
		}
	}
	o.Cells[i] = v
}

func (m *M) setMap(o *MapObj, k string, e *MapEnt) {
	if n := len(m.sides); n > 0 {
		s := m.sides[n-1]
		if o.ID <= s.start {
			old := o.M[k]
			if old != nil {
				c := *old
				old = &c
			}
			s.mlog = append(s.mlog, mrec{o, k, old, len(o.Keys)})
		}
	}
	if e == nil {
		delete(o.M, k)
		ks := make([]string, 0, len(o.Keys))
		for _, x := range o.Keys {
			if x != k {
				ks = append(ks, x)
			}
		}
		o.Keys = ks
		return
	}
	if _, ok := o.M[k]; !ok {
		o.Keys = append(o.Keys[:len(o.Keys):len(o.Keys)], k)
	}
	o.M[k] = e
}

func (m *M) logChan(c *ChanObj) {
	if n := len(m.sides); n > 0 {
		s := m.sides[n-1]
		if c.ID <= s.start {
			s.clog = append(s.clog, crec{c, *c})
		}
	}
}

// write is a store of one cell by the analysed program.
func (m *M) write(o *Obj, i int, v V) {
	if i < 0 || i >= len(o.Cells) {
		m.Undecided("store out of object %s (%d of %d)", o.Label, i, len(o.Cells))
	}
	if m.TrackWrites && o.ID < m.Epoch {
		m.Writes = append(m.Writes, WriteEvent{o, i, m.fnName(), m.posHere(), m.onceDepth > 0})
	}
	if m.frame != nil && m.ScoreAbort {
		m.noteWrite(o)
	}
	if m.RaceOn {
		m.raceAccess(&o.race, len(o.Cells), i, true, o.Label, o.ID)
	}
	if m.Prov {
		if o.prov == nil {
			o.prov = make([]token.Pos, len(o.Cells))
		}
		if m.frame != nil && i < len(o.prov) {
			o.prov[i] = m.frame.pos
		}
	}
	m.setCell(o, i, v)
}

// noteWrite records, per frame, that an object older than the frame was written.
func (m *M) noteWrite(o *Obj) {
	for fr := m.frame; fr != nil; fr = fr.caller {
		if o.ID > fr.birth {
			break // callers are older still: the object is not older than them
		}
		fr.dirty = true
	}
}

func (m *M) noteEffect() {
	m.hard++
	for fr := m.frame; fr != nil; fr = fr.caller {
		fr.dirty = true
	}
}

func (m *M) fnName() string {
	if m.frame == nil {
		return "harness"
	}
	return m.frame.fn.String()
}
func (m *M) posHere() string {
	if m.frame == nil {
		return "?"
	}
	return m.posString(m.frame.pos)
}

// ---- load / store ----

// Load reads a value of type t at p.
func (m *M) Load(p V, t types.Type) V {
	switch p.K {
	case KPtr:
		if p.X == nil {
			m.Panic("nil pointer dereference")
			return V{}
		}
		if m.Prov {
			m.LastProv = m.LastProv[:0]
			m.provOf(p.X.(*Obj), int(p.N))
		}
		return m.loadAt(p.X.(*Obj), int(p.N), t)
	case KChoice:
		var prov []token.Pos
		r := m.lift(p, func(v V) V {
			x := m.Load(v, t)
			if m.Prov {
				prov = append(prov, m.LastProv...)
			}
			return x
		})
		if m.Prov {
			m.LastProv = prov
		}
		return r
	case KOpaque:
		return m.OpaqueOf(t, "*"+p.X.(*Opaque).Label)
	}
	m.Undecided("load through %v", p)
	return V{}
}

func (m *M) loadAt(o *Obj, off int, t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fs := make([]V, u.NumFields())
		n := off
		for i := range fs {
			ft := u.Field(i).Type()
			fs[i] = m.loadAt(o, n, ft)
			n += Sizeof(ft)
		}
		return V{K: KStruct, X: fs}
	case *types.Array:
		fs := make([]V, int(u.Len()))
		s := Sizeof(u.Elem())
		for i := range fs {
			fs[i] = m.loadAt(o, off+i*s, u.Elem())
		}
		return V{K: KStruct, X: fs}
	}
	if off < 0 || off >= len(o.Cells) {
		m.Undecided("load out of object %s (%d of %d)", o.Label, off, len(o.Cells))
	}
	if m.RaceOn {
		m.raceAccess(&o.race, len(o.Cells), off, false, o.Label, o.ID)
	}
	v := o.Cells[off]
	if v.K == KChoice {
		v = m.Simplify(v)
	}
	return v
}

// Store writes v (type t) at p.
func (m *M) Store(p V, v V) {
	switch p.K {
	case KPtr:
		if p.X == nil {
			m.Panic("nil pointer dereference")
			return
		}
		m.storeAt(p.X.(*Obj), int(p.N), v)
	case KChoice:
		for _, a := range p.X.([]Alt) {
			if m.B.And(m.PC, a.C) == bdd.False {
				continue
			}
			if a.V.K != KPtr || a.V.X == nil {
				m.Undecided("store through %v", a.V)
			}
			o := a.V.X.(*Obj)
			m.storeCond(a.C, o, int(a.V.N), v)
		}
	case KOpaque:
		m.Event("store", p, v)
	default:
		m.Undecided("store through %v", p)
	}
}

func (m *M) storeCond(c bdd.Node, o *Obj, off int, v V) int {
	if v.K == KStruct {
		n := 0
		for _, x := range v.X.([]V) {
			n += m.storeCond(c, o, off+n, x)
		}
		return n
	}
	m.write(o, off, m.Merge(c, v, o.Cells[off]))
	return 1
}

func (m *M) storeAt(o *Obj, off int, v V) int {
	if v.K == KStruct {
		n := 0
		for _, x := range v.X.([]V) {
			n += m.storeAt(o, off+n, x)
		}
		return n
	}
	m.write(o, off, v)
	return 1
}

// ---- choices ----

// Simplify drops infeasible alternatives under the path condition.
func (m *M) Simplify(v V) V {
	if v.K != KChoice {
		return v
	}
	alts := v.X.([]Alt)
	var out []Alt
	for _, a := range alts {
		if m.B.And(m.PC, a.C) != bdd.False {
			out = append(out, a)
		}
	}
	if len(out) == 1 {
		return out[0].V
	}
	if len(out) == len(alts) {
		return v
	}
	return V{K: KChoice, X: out}
}

// lift applies a pure f to every feasible alternative and joins the results.
func (m *M) lift(v V, f func(V) V) V {
	v = m.Simplify(v)
	if v.K != KChoice {
		return f(v)
	}
	alts := v.X.([]Alt)
	save := m.PC
	out := make([]Alt, 0, len(alts))
	final := bdd.False
	for _, a := range alts {
		m.PC = m.B.And(save, a.C)
		if m.PC == bdd.False {
			continue
		}
		r := f(a.V)
		final = m.B.Or(final, m.PC)
		if m.PC != bdd.False {
			out = append(out, Alt{a.C, r})
		}
	}
	m.PC = final
	if len(out) == 0 {
		return V{}
	}
	r := out[len(out)-1].V
	for i := len(out) - 2; i >= 0; i-- {
		r = m.Merge(out[i].C, out[i].V, r)
	}
	return r
}

// Merge is if c then a else b.
func (m *M) Merge(c bdd.Node, a, b V) V {
	if c == bdd.True {
		return a
	}
	if c == bdd.False {
		return b
	}
	if Ident(a, b) {
		return a
	}
	if a.K == KUndef {
		return b
	}
	if b.K == KUndef {
		return a
	}
	if a.K == KBool && b.K == KBool {
		return BoolN(m.B.Ite(c, a.Node(), b.Node()))
	}
	if (a.K == KInt || a.K == KBV) && (b.K == KInt || b.K == KBV) {
		w, s := a.W, a.S
		x, y := m.Bits(a), m.Bits(b)
		z := make([]bdd.Node, w)
		for i := range z {
			z[i] = m.B.Ite(c, x[i], y[i])
		}
		return m.FromBits(z, s)
	}
	switch {
	case a.K == KStruct && b.K == KStruct && len(a.X.([]V)) == len(b.X.([]V)),
		a.K == KTuple && b.K == KTuple && len(a.X.([]V)) == len(b.X.([]V)):
		x, y := a.X.([]V), b.X.([]V)
		z := make([]V, len(x))
		for i := range z {
			z[i] = m.Merge(c, x[i], y[i])
		}
		return V{K: a.K, X: z}
	case a.K == KIface && b.K == KIface && a.X != nil && b.X != nil:
		x, y := a.X.(*IfaceV), b.X.(*IfaceV)
		if x.Host == nil && y.Host == nil && types.Identical(x.T, y.T) {
			return V{K: KIface, X: &IfaceV{T: x.T, V: m.Merge(c, x.V, y.V)}}
		}
	case a.K == KStr && b.K == KStr:
		x, y := a.X.(*Str), b.X.(*Str)
		if x.Len() == y.Len() {
			z := make([]V, x.Len())
			for i := range z {
				z[i] = m.Merge(c, x.At(i), y.At(i))
			}
			return MkSymStr(z)
		}
	}
	var alts []Alt
	add := func(cc bdd.Node, v V) {
		if v.K == KChoice {
			for _, al := range v.X.([]Alt) {
				nc := m.B.And(cc, al.C)
				if nc == bdd.False {
					continue
				}
				alts = addAlt(m, alts, nc, al.V)
			}
			return
		}
		if cc == bdd.False {
			return
		}
		alts = addAlt(m, alts, cc, v)
	}
	add(c, a)
	add(m.B.Not(c), b)
	if len(alts) == 1 {
		return alts[0].V
	}
	if len(alts) > 4096 {
		m.Undecided("choice with %d alternatives", len(alts))
	}
	return V{K: KChoice, X: alts}
}

func addAlt(m *M, alts []Alt, c bdd.Node, v V) []Alt {
	for i := range alts {
		if Ident(alts[i].V, v) {
			na := append([]Alt(nil), alts...)
			na[i].C = m.B.Or(na[i].C, c)
			return na
		}
	}
	return append(alts, Alt{c, v})
}

func (s *Str) At(i int) V {
	if s.isSy {
		return s.Sym[i]
	}
	return V{K: KInt, W: 8, N: int64(s.Con[i])}
}
func (s *Str) Slice(lo, hi int) V {
	if s.isSy {
		return MkSymStr(s.Sym[lo:hi:hi])
	}
	return MkStr(s.Con[lo:hi])
}

// ---- events and panics ----

func (m *M) Event(name string, args ...V) {
	if m.ScoreAbort {
		m.hard--
		m.noteEffect()
	}
	e := Event{Cond: m.PC, Name: name, Args: args, Fn: m.fnName()}
	if m.frame != nil {
		e.Pos = m.frame.pos
	}
	if m.cur != nil {
		e.G = m.cur.ID
	}
	m.Events = append(m.Events, e)
}

// Panic records that the current point panics; the path ends.
func (m *M) Panic(reason string) {
	if m.PC == bdd.False {
		return
	}
	m.Panics = append(m.Panics, PanicEvent{m.PC, reason, m.fnName(), m.posHere()})
	m.PC = bdd.False
}

// PanicIf records a possible panic under c and continues with its negation.
func (m *M) PanicIf(c bdd.Node, reason string) {
	c = m.B.And(m.PC, c)
	if c == bdd.False {
		return
	}
	m.Panics = append(m.Panics, PanicEvent{c, reason, m.fnName(), m.posHere()})
	m.PC = m.B.And(m.PC, m.B.Not(c))
}

// OpaqueOf is a fresh unknown value of type t.
func (m *M) OpaqueOf(t types.Type, label string) V {
	m.opqN++
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolN(m.B.NewVar(label))
		case u.Info()&types.IsInteger != 0:
			w, s := IntInfo(u)
			if w <= 16 {
				bs := make([]bdd.Node, w)
				for i := range bs {
					bs[i] = m.B.NewVar(fmt.Sprintf("%s.%d", label, i))
				}
				return m.FromBits(bs, s)
			}
			return m.NewParam(fmt.Sprintf("%s#%d", label, m.opqN), true, nil, nil)
		case u.Info()&types.IsFloat != 0:
			return m.NewParam(fmt.Sprintf("%s#%d", label, m.opqN), false, nil, nil)
		}
	case *types.Struct:
		fs := make([]V, u.NumFields())
		for i := range fs {
			fs[i] = m.OpaqueOf(u.Field(i).Type(), label+"."+u.Field(i).Name())
		}
		return V{K: KStruct, X: fs}
	case *types.Tuple:
		fs := make([]V, u.Len())
		for i := range fs {
			fs[i] = m.OpaqueOf(u.At(i).Type(), fmt.Sprintf("%s.%d", label, i))
		}
		return V{K: KTuple, X: fs}
	}
	return V{K: KOpaque, X: &Opaque{ID: m.opqN, Label: label, T: t}}
}

// NilCond is the condition under which v is a nil reference.
func (m *M) NilCond(v V) bdd.Node {
	switch v.K {
	case KPtr, KSlice, KIface, KFunc, KMap, KChan:
		return b2n(v.X == nil)
	case KChoice:
		r := bdd.False
		for _, a := range v.X.([]Alt) {
			r = m.B.Or(r, m.B.And(a.C, m.NilCond(a.V)))
		}
		return r
	case KOpaque:
		o := v.X.(*Opaque)
		if !o.nilKnown {
			o.nilKnown = true
			o.nilCond = m.B.NewVar(o.Label + "==nil")
		}
		return o.nilCond
	}
	return bdd.False
}

// NonNilOpaque marks an opaque reference as never nil.
func (m *M) NonNilOpaque(t types.Type, label string) V {
	m.opqN++
	return V{K: KOpaque, X: &Opaque{ID: m.opqN, Label: label, T: t, nilKnown: true, nilCond: bdd.False}}
}
