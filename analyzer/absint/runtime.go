package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"

	"verif/analyzer/bdd"

	"golang.org/x/tools/go/ssa"
)

func fmtInt(n int64) string { return strconv.FormatInt(n, 10) }

// FnKey names a function; instances of a generic function have its name.
func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func FnKey(fn *ssa.Function) string { return fnKey(fn) }

// ---- vector clocks ----

type vclock map[int]int

func (v vclock) copy() vclock {
	w := make(vclock, len(v))
	for k, x := range v {
		w[k] = x
	}
	return w
}

func (v vclock) join(w vclock) {
	for k, x := range w {
		if x > v[k] {
			v[k] = x
		}
	}
}

type raceCell struct {
	wg, wc int // last writer (goroutine, clock); wc == 0: none
	wpos   string
	reads  map[int]int
	rpos   map[int]string
}

func (m *M) raceAccess(r *[]raceCell, n, i int, write bool, label string, id int64) {
	if m.cur == nil || i < 0 || i >= n {
		return
	}
	if *r == nil {
		*r = make([]raceCell, n)
	}
	if i >= len(*r) {
		nr := make([]raceCell, n)
		copy(nr, *r)
		*r = nr
	}
	c := &(*r)[i]
	g := m.cur
	rep := func(kind, other string) {
		s := fmt.Sprintf("%s of %s at %s in %s is not ordered with the %s", kind, label, m.posHere(), m.fnName(), other)
		if len(m.Races) < 50 {
			for _, x := range m.Races {
				if x == s {
					return
				}
			}
			m.Races = append(m.Races, s)
		}
	}
	k := "read"
	if write {
		k = "write"
	}
	if c.wc > 0 && c.wg != g.ID && g.vc[c.wg] < c.wc {
		rep(k, "write at "+c.wpos)
	}
	if write {
		for og, oc := range c.reads {
			if og != g.ID && g.vc[og] < oc {
				rep(k, "read at "+c.rpos[og])
			}
		}
		c.wg, c.wc, c.wpos = g.ID, g.vc[g.ID], m.posHere()
		c.reads, c.rpos = nil, nil
		return
	}
	if c.reads == nil {
		c.reads, c.rpos = map[int]int{}, map[int]string{}
	}
	if _, ok := c.reads[g.ID]; !ok || c.reads[g.ID] != g.vc[g.ID] {
		c.reads[g.ID] = g.vc[g.ID]
		c.rpos[g.ID] = m.posHere()
	}
}

// SchedMode chooses the order in which abstract goroutines run.
type SchedMode int

const (
	SchedFIFO SchedMode = iota
	SchedLIFO
	SchedEager // a goroutine runs as soon as it is started
	SchedYield // FIFO, with a switch at every synchronisation operation
)

// G is an abstract goroutine.
type G struct {
	ID      int
	level   int
	body    func()
	resume  chan bool // false: kill
	yielded chan struct{}
	started bool
	done    bool
	ready   func() bool // nil: runnable
	err     any
	vc      vclock
	frame   *Frame
	depth   int
	once    int
	where   string
	main    bool
}

type killG struct{}

func (m *M) tick() {
	if m.cur != nil && m.RaceOn {
		m.cur.vc[m.cur.ID]++
	}
}

// spawn starts an abstract goroutine.
func (m *M) spawn(body func()) {
	m.hard++
	m.gsIDs++
	g := &G{ID: m.gsIDs, level: len(m.sides), body: body, resume: make(chan bool), yielded: make(chan struct{}), where: m.Where()}
	if m.cur != nil {
		g.vc = m.cur.vc.copy()
	} else {
		g.vc = vclock{}
	}
	g.vc[g.ID] = 1
	m.tick()
	m.gs = append(m.gs, g)
	m.noteSpawn()
	if m.Sched == SchedEager && m.cur.main {
		m.runG(g)
	}
}

func (m *M) noteSpawn() { m.Spawned++ }

// runG gives control to g until it blocks or ends.
func (m *M) runG(g *G) {
	sf, sd, sc, so := m.frame, m.depth, m.cur, m.onceDepth
	lvl := len(m.sides)
	m.cur = g
	m.frame, m.depth, m.onceDepth = g.frame, g.depth, g.once
	g.ready = nil
	if !g.started {
		g.started = true
		go func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(killG); !ok {
						g.err = r
					}
				}
				g.done = true
				g.yielded <- struct{}{}
			}()
			if !<-g.resume {
				panic(killG{})
			}
			g.body()
		}()
	}
	g.resume <- true
	<-g.yielded
	g.frame, g.depth, g.once = m.frame, m.depth, m.onceDepth
	m.frame, m.depth, m.cur, m.onceDepth = sf, sd, sc, so
	if g.done {
		for i, x := range m.gs {
			if x == g {
				m.gs = append(m.gs[:i:i], m.gs[i+1:]...)
				break
			}
		}
		if g.err != nil {
			panic(g.err)
		}
	}
	if len(m.sides) != lvl {
		m.Undecided("goroutine blocked inside a branch on symbolic data")
	}
}

// block suspends the current goroutine until ready() holds; it reports
// whether the path died (deadlock or panic in another goroutine).
func (m *M) block(ready func() bool, what string) bool {
	g := m.cur
	if !g.main {
		for !ready() {
			g.ready = ready
			g.yielded <- struct{}{}
			if !<-g.resume {
				panic(killG{})
			}
			if m.PC == bdd.False {
				return true
			}
		}
		return m.PC == bdd.False
	}
	for !ready() {
		n := m.pick(-1)
		if n == nil {
			m.Panic("deadlock: " + what)
			return true
		}
		if n.level != len(m.sides) && n.level != 0 {
			m.Undecided("goroutine of another branch has to run")
		}
		if n.level < len(m.sides) {
			m.Undecided("goroutine started before a symbolic branch has to run inside it")
		}
		m.runG(n)
		if m.PC == bdd.False {
			return true
		}
	}
	return false
}

// pick chooses a runnable goroutine of at least the given level.
func (m *M) pick(level int) *G {
	var c []*G
	for _, g := range m.gs {
		if g.level < level || g.started && !g.done && g.ready == nil && g.err == nil && g == m.cur {
			continue
		}
		if g.ready != nil && !g.ready() {
			continue
		}
		c = append(c, g)
	}
	if len(c) == 0 {
		return nil
	}
	if m.Sched == SchedLIFO {
		return c[len(c)-1]
	}
	if m.Sched == SchedYield {
		m.rr++
		return c[m.rr%len(c)]
	}
	return c[0]
}

// drainLevel runs the goroutines started inside the side that ends.
func (m *M) drainLevel(level int) {
	if len(m.gs) == 0 || level == 0 {
		return
	}
	any := false
	for _, g := range m.gs {
		if g.level >= level && !g.started {
			any = true
		}
	}
	if !any {
		return
	}
	if !m.cur.main {
		m.Undecided("goroutine started inside a symbolic branch of a goroutine")
	}
	m.Drain(level)
}

// Drain runs all runnable goroutines.
func (m *M) Drain(level int) {
	for m.PC != bdd.False {
		g := m.pick(level)
		if g == nil {
			break
		}
		m.runG(g)
	}
}

// Leaked lists goroutines that never finish.
func (m *M) Leaked() []string {
	var out []string
	for _, g := range m.gs {
		out = append(out, g.where)
	}
	sort.Strings(out)
	return out
}

// Close ends the host goroutines of unfinished abstract goroutines.
func (m *M) Close() {
	gs := m.gs
	m.gs = nil
	for _, g := range gs {
		if g.started && !g.done {
			g.resume <- false
			<-g.yielded
		}
	}
}

// yieldPoint lets other goroutines run (only in SchedYield mode).
func (m *M) yieldPoint() {
	if m.Sched != SchedYield || m.cur == nil || m.cur.main {
		return
	}
	g := m.cur
	g.ready = nil
	once := false
	m.block(func() bool { r := once; once = true; return r }, "yield")
}

type syncKey struct {
	o   *Obj
	off int64
}

func (m *M) syncVC(o any, off int64) vclock {
	if m.syncVCs == nil {
		m.syncVCs = map[any]vclock{}
	}
	k := any(o)
	if ob, ok := o.(*Obj); ok {
		k = syncKey{ob, off}
	}
	v := m.syncVCs[k]
	if v == nil {
		v = vclock{}
		m.syncVCs[k] = v
	}
	return v
}

func (m *M) release(o any, off int64) {
	if m.RaceOn {
		m.syncVC(o, off).join(m.cur.vc)
		m.tick()
	}
}
func (m *M) acquire(o any, off int64) {
	if m.RaceOn {
		m.cur.vc.join(m.syncVC(o, off))
	}
}

// ---- channels ----

func (m *M) chanOf(v V) *ChanObj {
	v = m.Simplify(v)
	if v.K != KChan {
		m.Undecided("channel operation on %v", v)
	}
	if v.X == nil {
		return nil
	}
	return v.X.(*ChanObj)
}

func (m *M) send(cv, v V) bool {
	c := m.chanOf(cv)
	if c == nil {
		return m.block(func() bool { return false }, "send on nil channel")
	}
	m.noteEffect()
	if m.block(func() bool { return c.Closed || len(c.Buf) < c.Cap || c.Cap == 0 && len(c.Buf) == 0 }, "send") {
		return true
	}
	if c.Closed {
		m.Panic("send on closed channel")
		return true
	}
	m.logChan(c)
	c.Buf = append(c.Buf[:len(c.Buf):len(c.Buf)], v)
	m.release(c, 0)
	if c.Cap == 0 {
		c.sent++
		my := c.sent
		if m.block(func() bool { return c.taken >= my }, "send") {
			return true
		}
		m.acquire(c, 0)
	}
	return m.PC == bdd.False
}

func (m *M) recv(cv V, commaOk bool, t types.Type) (V, bool) {
	c := m.chanOf(cv)
	if c == nil {
		return V{}, m.block(func() bool { return false }, "receive from nil channel")
	}
	m.noteEffect()
	if m.block(func() bool { return c.Closed || len(c.Buf) > 0 }, "receive") {
		return V{}, true
	}
	var v V
	ok := true
	m.logChan(c)
	if len(c.Buf) > 0 {
		v = c.Buf[0]
		c.Buf = c.Buf[1:]
		c.taken++
	} else {
		ok = false
		if commaOk {
			v = m.Zero(t.(*types.Tuple).At(0).Type())
		} else {
			v = m.Zero(t)
		}
	}
	m.acquire(c, 0)
	m.release(c, 0)
	if commaOk {
		return Tuple(v, Bool(ok)), false
	}
	return v, false
}

// selectOp models select: the first ready case in source order.
func (m *M) selectOp(fr *Frame, ci *cinstr, x *ssa.Select) (V, bool) {
	m.noteEffect()
	type cs struct {
		c    *ChanObj
		send V
		dir  types.ChanDir
	}
	var cases []cs
	k := 0
	for _, s := range x.States {
		c := cs{c: m.chanOf(m.val(fr, &ci.op[k])), dir: s.Dir}
		k++
		if s.Send != nil {
			c.send = m.val(fr, &ci.op[k])
		}
		k++
		cases = append(cases, c)
	}
	ready := func() int {
		for i, c := range cases {
			if c.c == nil {
				continue
			}
			if c.dir == types.SendOnly {
				if c.c.Closed || len(c.c.Buf) < c.c.Cap || c.c.Cap == 0 && len(c.c.Buf) == 0 {
					return i
				}
			} else if c.c.Closed || len(c.c.Buf) > 0 {
				return i
			}
		}
		return -1
	}
	if x.Blocking {
		if m.block(func() bool { return ready() >= 0 }, "select") {
			return V{}, true
		}
	}
	i := ready()
	tt := x.Type().(*types.Tuple)
	out := make([]V, tt.Len())
	out[0] = Int(int64(i))
	out[1] = Bool(false)
	for j := 2; j < tt.Len(); j++ {
		out[j] = m.Zero(tt.At(j).Type())
	}
	if i >= 0 {
		c := cases[i]
		if c.dir == types.SendOnly {
			if m.send(V{K: KChan, X: c.c}, c.send) {
				return V{}, true
			}
		} else {
			n := 2
			for j := 0; j < i; j++ {
				if cases[j].dir != types.SendOnly {
					n++
				}
			}
			v, dead := m.recv(V{K: KChan, X: c.c}, true, types.NewTuple(types.NewVar(0, nil, "", tt.At(n).Type()), types.NewVar(0, nil, "", types.Typ[types.Bool])))
			if dead {
				return V{}, true
			}
			out[n] = v.X.([]V)[0]
			out[1] = v.X.([]V)[1]
		}
	}
	return Tuple(out...), false
}

// ---- builtins ----

func (m *M) builtin(b *ssa.Builtin, args []V, call *ssa.CallCommon) (V, bool) {
	dead := func(v V) (V, bool) { return v, m.PC == bdd.False }
	switch b.Name() {
	case "len", "cap":
		return dead(m.lenOf(args[0], b.Name() == "cap"))
	case "append":
		return m.doAppend(args[0], args[1], call.Args[0].Type())
	case "copy":
		return m.doCopy(args[0], args[1])
	case "delete":
		v := m.Simplify(args[0])
		if v.K != KMap {
			m.Undecided("delete from %v", v)
		}
		if v.X == nil {
			return V{}, false
		}
		mo := v.X.(*MapObj)
		k, ok := m.mapKey(args[1])
		if !ok {
			m.Undecided("delete with symbolic key")
		}
		if m.TrackWrites && mo.ID < m.Epoch {
			m.Writes = append(m.Writes, WriteEvent{&Obj{ID: mo.ID, Label: "map " + mo.Label}, 0, m.fnName(), m.posHere(), m.onceDepth > 0})
		}
		if m.RaceOn {
			m.raceAccess(&mo.race, 1, 0, true, "map "+mo.Label, mo.ID)
		}
		if _, ok := mo.M[k]; ok {
			m.setMap(mo, k, nil)
		}
		return V{}, false
	case "clear":
		v := m.Simplify(args[0])
		switch v.K {
		case KMap:
			if v.X != nil {
				mo := v.X.(*MapObj)
				for _, k := range append([]string(nil), mo.Keys...) {
					m.setMap(mo, k, nil)
				}
			}
			return V{}, false
		case KSlice:
			if v.X != nil {
				s := v.X.(*SliceV)
				et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
				tmp := m.AllocType(et, "zero")
				for i := 0; i < s.Len; i++ {
					for j, c := range tmp.Cells {
						m.write(s.Obj, s.Off+i*s.Esz+j, c)
					}
				}
			}
			return V{}, false
		}
	case "close":
		c := m.chanOf(args[0])
		if c == nil || c.Closed {
			m.Panic("close of closed or nil channel")
			return V{}, true
		}
		m.noteEffect()
		m.logChan(c)
		c.Closed = true
		m.release(c, 0)
		return V{}, false
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			lt := m.BinOp(tokLSS, a, r, call.Args[0].Type())
			if b.Name() == "max" {
				lt = m.BinOp(tokLSS, r, a, call.Args[0].Type())
			}
			r = m.Merge(lt.Node(), a, r)
		}
		return dead(r)
	case "print", "println":
		m.Event("print", args...)
		return V{}, false
	case "recover":
		return NilIface, false
	case "String", "Slice": // of package unsafe
		p, n := m.Simplify(args[0]), m.Simplify(args[1])
		for i, v := range []V{p, n} {
			if v.K == KChoice || v.K == KBV {
				var al []Alt
				if v.K == KChoice {
					al = v.X.([]Alt)
				} else {
					al = m.Feasible(v, 64)
				}
				if al != nil {
					return m.guarded(al, func(x V) (V, bool) {
						as := append([]V(nil), args...)
						as[i] = x
						return m.builtin(b, as, call)
					})
				}
			}
		}
		if p.K == KPtr && n.K == KInt && n.N == 0 {
			if b.Name() == "String" {
				return MkStr(""), false
			}
			return V{K: KSlice}, false
		}
		if p.K == KPtr && p.X != nil && n.K == KInt {
			o, off := p.X.(*Obj), int(p.N)
			pt, _ := call.Args[0].Type().Underlying().(*types.Pointer)
			if off+int(n.N) <= len(o.Cells) && pt != nil && Sizeof(pt.Elem()) == 1 {
				v := V{K: KSlice, X: &SliceV{Obj: o, Off: off, Len: int(n.N), Cap: int(n.N), Esz: 1}}
				if b.Name() == "String" {
					v = m.Convert(v, types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String])
				}
				return v, false
			}
		}
	case "SliceData":
		v := m.Simplify(args[0])
		if v.K == KChoice {
			return m.guarded(v.X.([]Alt), func(x V) (V, bool) { return m.builtin(b, []V{x}, call) })
		}
		if v.K == KSlice {
			if v.X == nil {
				return V{K: KPtr}, false
			}
			s := v.X.(*SliceV)
			return V{K: KPtr, X: s.Obj, N: int64(s.Off)}, false
		}
	case "ssa:wrapnilchk":
		v := m.Simplify(args[0])
		m.PanicIf(m.NilCond(v), "nil receiver")
		return dead(v)
	case "ssa:deferstack":
		return V{K: KPtr}, false
	case "real", "imag":
		if args[0].K == KStruct {
			i := 0
			if b.Name() == "imag" {
				i = 1
			}
			return args[0].X.([]V)[i], false
		}
	case "complex":
		return V{K: KStruct, X: []V{args[0], args[1]}}, false
	}
	m.Undecided("builtin %s on %v", b.Name(), args)
	return V{}, true
}

func (m *M) lenOf(v V, capa bool) V {
	if v.K == KChoice {
		return m.lift(v, func(x V) V { return m.lenOf(x, capa) })
	}
	switch v.K {
	case KStr:
		return Int(int64(v.X.(*Str).Len()))
	case KSlice:
		if v.X == nil {
			return Int(0)
		}
		s := v.X.(*SliceV)
		if capa {
			return Int(int64(s.Cap))
		}
		return Int(int64(s.Len))
	case KMap:
		if v.X == nil {
			return Int(0)
		}
		mo := v.X.(*MapObj)
		if m.RaceOn {
			m.raceAccess(&mo.race, 1, 0, false, "map "+mo.Label, mo.ID)
		}
		return Int(int64(len(mo.Keys)))
	case KChan:
		if v.X == nil {
			return Int(0)
		}
		c := v.X.(*ChanObj)
		if capa {
			return Int(int64(c.Cap))
		}
		return Int(int64(len(c.Buf)))
	case KStruct:
		return Int(int64(len(v.X.([]V))))
	case KOpaque:
		op := "len"
		if capa {
			op = "cap"
		}
		a := m.AppAtom(op, true, v)
		at := m.atoms[a.X.(*Num).terms[0].mono[0]]
		at.HasLo, at.Lo = true, 0
		return a
	}
	m.Undecided("len of %v", v)
	return V{}
}

func (m *M) doAppend(s, e V, st types.Type) (V, bool) {
	s, e = m.Simplify(s), m.Simplify(e)
	if s.K == KChoice {
		return m.guarded(s.X.([]Alt), func(v V) (V, bool) { return m.doAppend(v, e, st) })
	}
	if e.K == KChoice {
		return m.guarded(e.X.([]Alt), func(v V) (V, bool) { return m.doAppend(s, v, st) })
	}
	esz := Sizeof(st.Underlying().(*types.Slice).Elem())
	var add []V
	switch e.K {
	case KSlice:
		add = append([]V(nil), m.SliceCells(e)...)
	case KStr:
		x := e.X.(*Str)
		for i := 0; i < x.Len(); i++ {
			add = append(add, x.At(i))
		}
	case KOpaque:
		return m.opaqueApp("append", st, s, e), false
	default:
		m.Undecided("append of %v", e)
	}
	if s.K == KOpaque {
		return m.opaqueApp("append", st, s, e), false
	}
	if s.K != KSlice {
		m.Undecided("append to %v", s)
	}
	if len(add) == 0 && esz > 0 {
		return s, false
	}
	n := 0
	if esz > 0 {
		n = len(add) / esz
	} else if e.X != nil {
		n = e.X.(*SliceV).Len
	}
	if s.X != nil {
		sv := s.X.(*SliceV)
		if sv.Len+n <= sv.Cap {
			for i, v := range add {
				m.write(sv.Obj, sv.Off+sv.Len*esz+i, v)
			}
			return V{K: KSlice, X: &SliceV{Obj: sv.Obj, Off: sv.Off, Len: sv.Len + n, Cap: sv.Cap, Esz: esz}}, false
		}
	}
	var old []V
	ol := 0
	if s.X != nil {
		old = m.SliceCells(s)
		ol = s.X.(*SliceV).Len
	}
	need := ol + n
	c := ol * 2
	if ol > 256 {
		c = ol + ol/4 + 192
	}
	if c < need {
		c = need
	}
	elem := st.Underlying().(*types.Slice).Elem()
	o := m.NewObj(types.NewArray(elem, int64(c)), c*esz, "append")
	copy(o.Cells, old)
	copy(o.Cells[ol*esz:], add)
	if c > need && esz > 0 {
		m.fillZero(o.Cells[need*esz:(need+1)*esz], elem)
		for i := need + 1; i < c; i++ {
			copy(o.Cells[i*esz:(i+1)*esz], o.Cells[need*esz:(need+1)*esz])
		}
	}
	return V{K: KSlice, X: &SliceV{Obj: o, Len: need, Cap: c, Esz: esz}}, false
}

func (m *M) doCopy(d, s V) (V, bool) {
	d, s = m.Simplify(d), m.Simplify(s)
	if d.K == KChoice {
		return m.guarded(d.X.([]Alt), func(v V) (V, bool) { return m.doCopy(v, s) })
	}
	if s.K == KChoice {
		return m.guarded(s.X.([]Alt), func(v V) (V, bool) { return m.doCopy(d, v) })
	}
	if d.K == KOpaque || s.K == KOpaque {
		m.Event("copy", d, s)
		return m.OpaqueOf(types.Typ[types.Int], "copied"), false
	}
	if d.K != KSlice {
		m.Undecided("copy to %v", d)
	}
	var src []V
	esz := 1
	if s.K == KStr {
		x := s.X.(*Str)
		for i := 0; i < x.Len(); i++ {
			src = append(src, x.At(i))
		}
	} else {
		src = append([]V(nil), m.SliceCells(s)...)
		if s.X != nil {
			esz = s.X.(*SliceV).Esz
		}
	}
	if d.X == nil {
		return Int(0), false
	}
	dv := d.X.(*SliceV)
	n := len(src)
	if dv.Len*dv.Esz < n {
		n = dv.Len * dv.Esz
	}
	for i := 0; i < n; i++ {
		m.write(dv.Obj, dv.Off+i, src[i])
	}
	if esz == 0 {
		esz = 1
	}
	return Int(int64(n / esz)), false
}
