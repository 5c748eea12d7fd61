package absint

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"verif/analyzer/bdd"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation.
type Frame struct {
	fn     *ssa.Function
	code   *code
	regs   []V
	caller *Frame
	pos    token.Pos
	defers []deferred
	birth  int64
	dirty  bool // wrote older objects / had effects
	nEv    int
	natoms int // atoms when it started
	probe  *probe
}

// probe is an attempt to join the sides of a branch before the function
// returns: what returns early is left out and analysed again on its own.
type probe struct {
	out    bdd.Node // condition of the early returns left out
	hard   int64    // effects seen when it started
	vars   int      // BDD variables when it started
	ev, pn int      // events and panics when it started
	off    bool     // no more early returns are left out
}

// mayDrop tells whether the side with condition c can be left out.
func (m *M) mayDrop(p *probe, c bdd.Node) bool {
	if p == nil || p.off || m.hard != p.hard {
		return false
	}
	for _, v := range m.B.Support(c) {
		if int(v) >= p.vars {
			p.off = true
			return false
		}
	}
	return true
}

// drop leaves out a side: records made for it are withdrawn.
func (m *M) drop(p *probe, c bdd.Node) {
	p.out = m.B.Or(p.out, c)
	nc := m.B.Not(c)
	k := p.ev
	for _, e := range m.Events[p.ev:] {
		if e.Cond = m.B.And(e.Cond, nc); e.Cond != bdd.False {
			m.Events[k] = e
			k++
		}
	}
	m.Events = m.Events[:k]
	k = p.pn
	for _, e := range m.Panics[p.pn:] {
		if e.Cond = m.B.And(e.Cond, nc); e.Cond != bdd.False {
			m.Panics[k] = e
			k++
		}
	}
	m.Panics = m.Panics[:k]
}

type deferred struct {
	fn   V
	args []V
	call *ssa.CallCommon
}

type okind uint8

const (
	oReach okind = iota
	oRet
	oDead
)

type outcome struct {
	kind okind
	phis []V
	ret  V
}

func constV(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		var mm M
		return mm.Zero(t)
	}
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		if tp, ok2 := t.Underlying().(*types.Interface); ok2 {
			_ = tp
		}
		return V{}
	}
	switch {
	case u.Info()&types.IsBoolean != 0:
		return Bool(constant.BoolVal(c.Value))
	case u.Info()&types.IsInteger != 0:
		w, s := IntInfo(u)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return MkInt(i, w, s)
		}
		if i, ok := constant.Uint64Val(v); ok {
			return MkInt(int64(i), w, s)
		}
		return MkInt(0, w, s)
	case u.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return Flt(f)
	case u.Info()&types.IsString != 0:
		return MkStr(constant.StringVal(c.Value))
	case u.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return V{K: KStruct, X: []V{Flt(re), Flt(im)}}
	}
	return V{}
}

func (m *M) val(fr *Frame, o *opnd) V {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.reg == -2 {
		return m.globalPtr(o.g)
	}
	return o.c
}

func (m *M) globalPtr(g *ssa.Global) V {
	o, ok := m.globals[g]
	if !ok {
		if g.Pkg != nil && !m.inited[g.Pkg] {
			m.InitPkg(g.Pkg)
			if o, ok := m.globals[g]; ok {
				return V{K: KPtr, X: o}
			}
		}
		o = m.globalObj(g)
	}
	return V{K: KPtr, X: o}
}

func (m *M) globalObj(g *ssa.Global) *Obj {
	if o, ok := m.globals[g]; ok {
		return o
	}
	n := "?"
	if g.Pkg != nil {
		n = g.Pkg.Pkg.Name() + "." + g.Name()
	}
	t := deref(g.Type())
	saveB := m.birth
	o := &Obj{ID: 0, Cells: make([]V, Sizeof(t)), Label: n, Typ: t}
	m.fillZero(o.Cells, t)
	if g.Pkg != nil && (noInit[g.Pkg.Pkg.Path()] || opaquePkg(g.Pkg.Pkg.Path())) {
		// a variable of a package that is not analysed
		switch t.Underlying().(type) {
		case *types.Interface, *types.Pointer, *types.Signature:
			o.Cells[0] = m.NonNilOpaque(t, n)
		}
	}
	m.birth = saveB
	m.globals[g] = o
	return o
}

// InitPkg runs the variable initialisers and init functions of one package
// (not of its imports, which are initialised on first use).
func (m *M) InitPkg(pkg *ssa.Package) {
	if m.inited[pkg] {
		return
	}
	m.inited[pkg] = true
	m.P.EnsureBuilt(pkg.Pkg.Path())
	if noInit[pkg.Pkg.Path()] {
		return
	}
	f := pkg.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	// initialisation is not part of the analysed effects and happens before
	// everything else
	sf, tw, sa, pc, sd, rc, cur := m.frame, m.TrackWrites, m.ScoreAbort, m.PC, m.sides, m.RaceOn, m.cur
	m.frame, m.TrackWrites, m.ScoreAbort, m.PC, m.sides, m.RaceOn = nil, false, false, bdd.True, nil, false
	ne := len(m.Events)
	m.callFn(&FuncV{Fn: f}, nil)
	m.Events = m.Events[:ne]
	m.frame, m.TrackWrites, m.ScoreAbort, m.PC, m.sides, m.RaceOn, m.cur = sf, tw, sa, pc, sd, rc, cur
}

var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/poll": true, "time": true, "log": true,
	"reflect": true, "sync": true, "internal/cpu": true, "internal/godebug": true, "net": true, "fmt": true, "internal/bytealg": true,
	"golang.org/x/text/encoding/japanese": true, "golang.org/x/text/transform": true, "image/jpeg": true, "image/png": true,
	"hash/crc32": true, "compress/flate": true, "golang.org/x/image/font": true, "github.com/fogleman/gg": true}

// Call calls a function value.
func (m *M) Call(f V, args ...V) (V, bool) {
	f = m.Simplify(f)
	switch f.K {
	case KFunc:
		if f.X == nil {
			m.Panic("call of nil function")
			return V{}, true
		}
		return m.callFn(f.X.(*FuncV), args)
	case KChoice:
		return m.guarded(f.X.([]Alt), func(v V) (V, bool) { return m.Call(v, args...) })
	case KOpaque:
		o := f.X.(*Opaque)
		m.Event("call:"+o.Label, args...)
		sig, ok := o.T.Underlying().(*types.Signature)
		if !ok {
			m.Undecided("call of %v", f)
		}
		return m.resultsOf(sig, o.Label+"()"), false
	}
	m.Undecided("call of %v", f)
	return V{}, true
}

func (m *M) resultsOf(sig *types.Signature, label string) V {
	switch sig.Results().Len() {
	case 0:
		return V{}
	case 1:
		return m.OpaqueOf(sig.Results().At(0).Type(), label)
	}
	return m.OpaqueOf(sig.Results(), label)
}

// guarded runs f on each alternative as a guarded side and joins.
func (m *M) guarded(alts []Alt, f func(V) (V, bool)) (V, bool) {
	save := m.PC
	var feas []Alt
	for _, a := range alts {
		if m.B.And(save, a.C) != bdd.False {
			feas = append(feas, a)
		}
	}
	if len(feas) == 1 {
		return f(feas[0].V)
	}
	var accR *sideResult
	var accV V
	dead := true
	var accC bdd.Node
	for _, a := range feas {
		m.PC = m.B.And(save, a.C)
		m.pushSide()
		v, d := f(a.V)
		r := m.popSide()
		if d || r.pc == bdd.False {
			continue
		}
		if dead {
			accR, accV, dead, accC = r, v, false, a.C
			continue
		}
		// combine two results into one
		m.PC = save
		m.pushSide()
		m.joinSides(a.C, r, accR)
		pc := m.B.Or(r.pc, accR.pc)
		m.PC = pc
		accR = m.popSide()
		accR.pc = pc
		accV = m.Merge(a.C, v, accV)
		accC = m.B.Or(accC, a.C)
	}
	m.PC = save
	if dead {
		m.PC = bdd.False
		return V{}, true
	}
	m.reapply(accR)
	return accV, false
}

// callFn calls an SSA function, builtin or host function.
func (m *M) callFn(f *FuncV, args []V) (V, bool) {
	if f.Host != nil {
		m.hard++
		return f.Host(m, args)
	}
	if f.Builtin != nil {
		m.Undecided("indirect call of builtin %s", f.Name)
	}
	fn := f.Fn
	fi := m.P.info(fn)
	if len(m.Intr) > 0 {
		if h, ok := m.Intr[fi.key]; ok {
			m.hard++
			return h(m, fn, args)
		}
	}
	if fi.intr != nil {
		if fi.hard {
			m.hard++
		}
		return fi.intr(m, fn, args)
	}
	if m.depth > 4000 {
		m.Undecided("recursion too deep in %s", fn)
	}
	c := m.P.codeOf(fn)
	if c == nil {
		return m.external(fn, args)
	}
	m.Fns[fn]++
	fr := &Frame{fn: fn, code: c, regs: make([]V, c.nregs), caller: m.frame, birth: m.birth, natoms: len(m.atoms), pos: fn.Pos()}
	for i, r := range c.params {
		if i < len(args) {
			fr.regs[r] = args[i]
		}
	}
	for i, r := range c.free {
		fr.regs[r] = f.Bindings[i]
	}
	m.frame = fr
	m.depth++
	if m.ScoreAbort && c.score {
		return m.runScore(fr, c)
	}
	o := m.run(fr, c.blocks[0], nil, 0, nil)
	m.depth--
	m.frame = fr.caller
	if o.kind == oDead {
		return V{}, true
	}
	return o.ret, false
}

// runScore runs an integer-valued function; when its control flow depends on
// symbolic data and it has no effects, its result becomes a fresh parameter.
func (m *M) runScore(fr *Frame, c *code) (ret V, dead bool) {
	pc, sides, depth, cur := m.PC, len(m.sides), m.depth, m.cur
	m.pushSide()
	aborted := false
	var o outcome
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(abortScore); ok && a.fr == fr {
					aborted = true
					return
				}
				panic(r)
			}
		}()
		o = m.run(fr, c.blocks[0], nil, 0, nil)
	}()
	if aborted {
		for len(m.sides) > sides+1 {
			m.popSide()
		}
	}
	r := m.popSide()
	m.depth = depth - 1
	m.frame = fr.caller
	m.cur = cur
	if aborted {
		m.PC = pc
		m.ScoreFns[fr.fn.String()]++
		m.hard++
		res := fr.fn.Signature.Results()
		mk := func(i int) V {
			b := res.At(i).Type().Underlying().(*types.Basic)
			return m.NewParam("score", b.Info()&types.IsInteger != 0, nil, nil)
		}
		if res.Len() == 1 {
			v := mk(0)
			m.Scores = append(m.Scores, v)
			return v, false
		}
		vs := make([]V, res.Len())
		for i := range vs {
			vs[i] = mk(i)
		}
		m.Scores = append(m.Scores, vs...)
		return Tuple(vs...), false
	}
	m.reapply(r)
	if o.kind == oDead {
		return V{}, true
	}
	return o.ret, false
}

// abortCandidate finds the outermost effect-free score function on the stack.
// A function that compares scores made before it was called is no score
// function, it compares them.
func (m *M) abortCandidate(cn bdd.Node) *Frame {
	oldest := len(m.atoms)
	if len(m.Scores) > 0 {
		for _, v := range m.B.Support(cn) {
			if c, ok := m.cmpMeaning[v]; ok {
				oldest = m.oldestScore(c.P, oldest)
			}
		}
	}
	var best *Frame
	for fr := m.frame; fr != nil; fr = fr.caller {
		if fr.code.score && !fr.dirty && fr.natoms <= oldest {
			best = fr
		}
	}
	return best
}

// oldestScore is the id of the oldest score in n that is older than oldest.
func (m *M) oldestScore(n *Num, oldest int) int {
	for _, t := range n.terms {
		for _, id := range t.mono {
			if id >= oldest {
				continue
			}
			a := m.atoms[id]
			if a.Name == "score" {
				oldest = id
			}
			for _, x := range a.Args {
				if q, ok := x.X.(*Num); ok {
					oldest = m.oldestScore(q, oldest)
				}
			}
		}
	}
	return oldest
}

// run executes from block b until stop is reached, the function returns or
// the path dies.
func (m *M) run(fr *Frame, b *cblock, phis []V, pred int, stop *cblock) outcome {
	first := true
	for {
		// phis
		if len(b.phis) > 0 {
			if phis == nil {
				phis = make([]V, len(b.phis))
				for i := range b.phis {
					phis[i] = m.val(fr, &b.phiOp[i][pred])
				}
			}
		}
		if b == stop && !first {
			return outcome{kind: oReach, phis: phis}
		}
		first = false
		for i, d := range b.phiD {
			fr.regs[d] = phis[i]
		}
		phis = nil
		m.Instrs += int64(len(b.ins))
		if m.StopAfter > 0 && m.Instrs > m.StopAfter {
			panic(Stop{"step limit"})
		}
		if m.Instrs > m.MaxInstrs {
			m.Undecided("analysis budget exceeded (%d abstract steps)", m.Instrs)
		}
		n := len(b.ins)
		for i := 0; i < n; i++ {
			ci := &b.ins[i]
			switch x := ci.in.(type) {
			case *ssa.If:
				c := m.val(fr, &ci.op[0])
				if c.K == KChoice {
					c = m.lift(c, func(v V) V { return v })
				}
				if c.K != KBool {
					m.Undecided("branch on %v", c)
				}
				cn := c.Node()
				if cn > 1 {
					t := m.B.And(m.PC, cn)
					if t == bdd.False {
						cn = bdd.False
					} else if m.B.And(m.PC, m.B.Not(cn)) == bdd.False {
						cn = bdd.True
					}
				}
				if cn == bdd.True {
					pred = b.predI[0]
					b = b.succs[0]
				} else if cn == bdd.False {
					pred = b.predI[1]
					b = b.succs[1]
				} else {
					fr.pos = x.Cond.Pos()
					if m.ScoreAbort {
						if f := m.abortCandidate(cn); f != nil {
							panic(abortScore{f})
						}
					}
					o, next := m.split(fr, b, cn, stop)
					if o.kind != oReach || next == nil {
						return o
					}
					if next == stop {
						return outcome{kind: oReach, phis: o.phis}
					}
					b = next
					phis = o.phis
					if phis == nil {
						phis = []V{}
					}
				}
			case *ssa.Jump:
				pred = b.predI[0]
				b = b.succs[0]
			case *ssa.Return:
				fr.pos = x.Pos()
				var r V
				switch len(ci.op) {
				case 0:
				case 1:
					r = m.val(fr, &ci.op[0])
				default:
					vs := make([]V, len(ci.op))
					for k := range ci.op {
						vs[k] = m.val(fr, &ci.op[k])
					}
					r = Tuple(vs...)
				}
				return outcome{kind: oRet, ret: r}
			case *ssa.Panic:
				fr.pos = x.Pos()
				m.Panic("panic(" + m.Pretty(m.val(fr, &ci.op[0])) + ")")
				return outcome{kind: oDead}
			default:
				if p := ci.in.Pos(); p.IsValid() {
					fr.pos = p
				}
				if m.step(fr, ci) || m.PC == bdd.False {
					return outcome{kind: oDead}
				}
				continue
			}
			break
		}
	}
}

// split analyses both sides of an undecided branch up to the block where they
// meet and joins them.
func (m *M) split(fr *Frame, b *cblock, c bdd.Node, stop *cblock) (outcome, *cblock) {
	if fr.probe != nil || b.ipdom != nil || b.joinB == nil || b.succs[0].joinB == nil && b.succs[0].ipdom == nil || b.succs[1].joinB == nil && b.succs[1].ipdom == nil {
		if fr.probe != nil {
			return m.sides2(fr, b, c, b.joinB)
		}
		return m.sides2(fr, b, c, b.ipdom)
	}
	// some paths may return early
	p := &probe{hard: m.hard, vars: m.B.NumVars(), ev: len(m.Events), pn: len(m.Panics)}
	base := m.PC
	saved := append([]V(nil), fr.regs...)
	sd := append([]deferred(nil), fr.defers...)
	m.pushSide()
	fr.probe = p
	o, next := m.sides2(fr, b, c, b.joinB)
	fr.probe = nil
	if p.out == bdd.False {
		if o.kind == oDead {
			m.PC = bdd.False
		}
		m.reapply(m.popSide())
		return o, next
	}
	// the rest of the paths that went on
	if o.kind == oReach {
		o = m.run(fr, next, o.phisOrNone(), 0, nil)
	}
	if o.kind == oDead {
		m.PC = bdd.False
	}
	r1, d1 := m.popSide(), fr.defers
	// those that returned
	fr.regs, fr.defers = saved, sd
	m.PC = m.B.And(base, p.out)
	m.pushSide()
	m.frame = fr
	var o2 outcome
	switch {
	case m.B.And(m.PC, c) == bdd.False:
		o2 = m.enter(fr, b.succs[1], b.predI[1], nil)
	case m.B.And(m.PC, m.B.Not(c)) == bdd.False:
		o2 = m.enter(fr, b.succs[0], b.predI[0], nil)
	default:
		var nx *cblock
		if o2, nx = m.split(fr, b, c, nil); o2.kind == oReach {
			o2 = m.run(fr, nx, o2.phisOrNone(), 0, nil)
		}
	}
	if o2.kind == oDead {
		m.PC = bdd.False
	}
	r2, d2 := m.popSide(), fr.defers
	m.frame = fr
	switch {
	case o.kind == oDead && o2.kind == oDead:
		m.PC = bdd.False
		return outcome{kind: oDead}, nil
	case o.kind == oDead:
		m.reapply(r2)
		return o2, nil
	case o2.kind == oDead:
		fr.defers = d1
		m.reapply(r1)
		return o, nil
	}
	if o.kind != oRet || o2.kind != oRet {
		m.Undecided("a branch with no common continuation")
	}
	if len(d1) != len(d2) {
		m.Undecided("deferred call under a symbolic condition")
	}
	m.PC = base
	m.joinSides(p.out, r2, r1)
	m.PC = m.B.Or(r1.pc, r2.pc)
	return outcome{kind: oRet, ret: m.Merge(p.out, o2.ret, o.ret)}, nil
}

func (o outcome) phisOrNone() []V {
	if o.phis == nil {
		return []V{}
	}
	return o.phis
}

// sides2 analyses both sides of a branch up to the target.
func (m *M) sides2(fr *Frame, b *cblock, c bdd.Node, target *cblock) (outcome, *cblock) {
	base := m.PC
	saved := append([]V(nil), fr.regs...)
	nd := append([]deferred(nil), fr.defers...)
	level := len(m.sides)

	m.PC = m.B.And(base, c)
	m.pushSide()
	m.frame = fr
	o1 := m.enter(fr, b.succs[0], b.predI[0], target)
	if o1.kind == oDead {
		m.PC = bdd.False
	}
	r1 := m.popSide()
	regs1, d1 := fr.regs, fr.defers

	fr.regs = saved
	fr.defers = nd
	m.PC = m.B.And(base, m.B.Not(c))
	m.pushSide()
	m.frame = fr
	o2 := m.enter(fr, b.succs[1], b.predI[1], target)
	if o2.kind == oDead {
		m.PC = bdd.False
	}
	r2 := m.popSide()
	regs2, d2 := fr.regs, fr.defers
	if len(m.sides) != level {
		m.Undecided("internal: unbalanced sides")
	}
	m.frame = fr

	if o1.kind == oDead && o2.kind == oDead {
		m.PC = bdd.False
		return outcome{kind: oDead}, nil
	}
	if o1.kind != o2.kind && o1.kind != oDead && o2.kind != oDead {
		// one side returns, the other goes on
		rr := r1
		if o2.kind == oRet {
			rr = r2
		}
		if m.mayDrop(fr.probe, rr.pc) {
			m.drop(fr.probe, rr.pc)
			if o1.kind == oRet {
				o1.kind = oDead
			} else {
				o2.kind = oDead
			}
		} else {
			// it goes on until it returns, too
			goOn := func(o outcome, r *sideResult, regs []V, d []deferred) (outcome, *sideResult, []V, []deferred) {
				fr.regs, fr.defers = regs, d
				m.PC = base
				m.pushSide()
				m.reapply(r)
				m.frame = fr
				o = m.run(fr, target, o.phisOrNone(), 0, nil)
				if o.kind == oDead {
					m.PC = bdd.False
				}
				r = m.popSide()
				m.frame = fr
				return o, r, fr.regs, fr.defers
			}
			if o1.kind == oReach {
				o1, r1, regs1, d1 = goOn(o1, r1, regs1, d1)
			} else {
				o2, r2, regs2, d2 = goOn(o2, r2, regs2, d2)
			}
			if o1.kind == oDead && o2.kind == oDead {
				m.PC = bdd.False
				return outcome{kind: oDead}, nil
			}
		}
	}
	if o1.kind == oDead {
		fr.regs, fr.defers = regs2, d2
		m.reapply(r2)
		return o2, target
	}
	if o2.kind == oDead {
		fr.regs, fr.defers = regs1, d1
		m.reapply(r1)
		return o1, target
	}
	if o1.kind != o2.kind {
		m.Undecided("a branch with no common continuation")
	}
	if len(d1) != len(d2) {
		m.Undecided("deferred call under a symbolic condition")
	}
	m.PC = base
	m.joinSides(c, r1, r2)
	m.PC = m.B.Or(r1.pc, r2.pc)
	if o1.kind == oRet {
		return outcome{kind: oRet, ret: m.Merge(c, o1.ret, o2.ret)}, nil
	}
	// registers visible at the join
	regs := regs2
	for _, r := range target.domRegs {
		if !Ident(regs1[r], regs2[r]) {
			regs[r] = m.Merge(c, regs1[r], regs2[r])
		}
	}
	fr.regs = regs
	fr.defers = d2
	ph := make([]V, len(o1.phis))
	for i := range ph {
		ph[i] = m.Merge(c, o1.phis[i], o2.phis[i])
	}
	return outcome{kind: oReach, phis: ph}, target
}

// enter runs from b, where b itself may be the stop block.
func (m *M) enter(fr *Frame, b *cblock, pred int, stop *cblock) outcome {
	if b == stop {
		ph := make([]V, len(b.phis))
		for i := range b.phis {
			ph[i] = m.val(fr, &b.phiOp[i][pred])
		}
		return outcome{kind: oReach, phis: ph}
	}
	return m.run(fr, b, nil, pred, stop)
}

// step executes one non-control instruction; true means the path died.
func (m *M) step(fr *Frame, ci *cinstr) bool {
	op := ci.op
	set := func(v V) { fr.regs[ci.dst] = v }
	switch x := ci.in.(type) {
	case *ssa.Alloc:
		t := deref(x.Type())
		lbl := x.Comment
		o := m.AllocType(t, lbl)
		set(V{K: KPtr, X: o})
	case *ssa.BinOp:
		set(m.BinOp(x.Op, m.val(fr, &op[0]), m.val(fr, &op[1]), x.X.Type()))
	case *ssa.UnOp:
		a := m.val(fr, &op[0])
		switch x.Op {
		case token.MUL:
			set(m.Load(a, x.Type()))
		case token.ARROW:
			v, dead := m.recv(a, x.CommaOk, x.Type())
			if dead {
				return true
			}
			set(v)
		default:
			set(m.UnOp(x.Op, a, x.Type()))
		}
	case *ssa.Store:
		m.Store(m.val(fr, &op[0]), m.val(fr, &op[1]))
	case *ssa.FieldAddr:
		set(m.ptrAdd(m.val(fr, &op[0]), ci.off, x.Type()))
	case *ssa.Field:
		set(m.FieldOf(m.val(fr, &op[0]), x.Field, x.Type()))
	case *ssa.IndexAddr:
		set(m.indexAddr(m.val(fr, &op[0]), m.val(fr, &op[1]), x.X.Type(), ci.off))
	case *ssa.Index:
		set(m.index(m.val(fr, &op[0]), m.val(fr, &op[1]), x.Type()))
	case *ssa.Lookup:
		set(m.lookup(m.val(fr, &op[0]), m.val(fr, &op[1]), x))
	case *ssa.Slice:
		var lo, hi, mx V
		get := func(o *opnd) V {
			if o.reg == -3 {
				return V{}
			}
			return m.val(fr, o)
		}
		lo, hi, mx = get(&op[1]), get(&op[2]), get(&op[3])
		set(m.sliceOp(m.val(fr, &op[0]), lo, hi, mx, x.X.Type()))
	case *ssa.Call:
		v, dead := m.doCall(fr, ci)
		if dead {
			return true
		}
		set(v)
	case *ssa.Defer:
		fv, args := m.prepCall(fr, ci)
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{fv, args, ci.call})
	case *ssa.RunDefers:
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			_, dead := m.invokePrepared(fr, d.call, d.fn, d.args)
			m.frame = fr
			if dead {
				return true
			}
		}
	case *ssa.Go:
		fv, args := m.prepCall(fr, ci)
		call := ci.call
		m.spawn(func() {
			m.invokePrepared(nil, call, fv, args)
		})
	case *ssa.ChangeType:
		set(m.val(fr, &op[0]))
	case *ssa.Convert:
		set(m.Convert(m.val(fr, &op[0]), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(m.Convert(m.val(fr, &op[0]), x.X.Type(), x.Type()))
	case *ssa.ChangeInterface:
		set(m.val(fr, &op[0]))
	case *ssa.MakeInterface:
		v := m.val(fr, &op[0])
		set(m.MakeIface(v, x.X.Type()))
	case *ssa.SliceToArrayPointer:
		v := m.val(fr, &op[0])
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		if v.K != KSlice || v.X == nil {
			if n == 0 {
				set(V{K: KPtr})
				return false
			}
			m.Undecided("slice to array conversion of %v", v)
		}
		s := v.X.(*SliceV)
		if s.Len < n {
			m.Panic("slice to array pointer conversion")
			return true
		}
		set(V{K: KPtr, X: s.Obj, N: int64(s.Off)})
	case *ssa.MakeClosure:
		bs := make([]V, len(x.Bindings))
		for i := range bs {
			bs[i] = m.val(fr, &op[i+1])
		}
		set(V{K: KFunc, X: &FuncV{Fn: x.Fn.(*ssa.Function), Bindings: bs}})
	case *ssa.MakeSlice:
		elem := x.Type().Underlying().(*types.Slice).Elem()
		set(m.makeSlice(elem, m.val(fr, &op[0]), m.val(fr, &op[1])))
	case *ssa.MakeMap:
		m.birth++
		set(V{K: KMap, X: &MapObj{ID: m.birth, M: map[string]*MapEnt{}}})
	case *ssa.MakeChan:
		n := m.val(fr, &op[0])
		if n.K != KInt {
			m.Undecided("channel of symbolic size")
		}
		m.birth++
		set(V{K: KChan, X: &ChanObj{ID: m.birth, Cap: int(n.N)}})
	case *ssa.MapUpdate:
		m.mapUpdate(m.val(fr, &op[0]), m.val(fr, &op[1]), m.val(fr, &op[2]))
	case *ssa.TypeAssert:
		v := m.typeAssert(m.val(fr, &op[0]), x)
		if m.PC == bdd.False {
			return true
		}
		set(v)
	case *ssa.Extract:
		t := m.val(fr, &op[0])
		set(m.extract(t, x.Index, x.Type()))
	case *ssa.Range:
		set(m.rangeOver(m.val(fr, &op[0])))
	case *ssa.Next:
		set(m.next(m.val(fr, &op[0]), x))
	case *ssa.Send:
		return m.send(m.val(fr, &op[0]), m.val(fr, &op[1]))
	case *ssa.Select:
		v, dead := m.selectOp(fr, ci, x)
		if dead {
			return true
		}
		set(v)
	default:
		m.Undecided("unsupported instruction %T", ci.in)
	}
	return false
}

func (m *M) extract(t V, i int, typ types.Type) V {
	switch t.K {
	case KTuple:
		return t.X.([]V)[i]
	case KChoice:
		return m.lift(t, func(v V) V { return m.extract(v, i, typ) })
	case KOpaque:
		return m.OpaqueOf(typ, t.X.(*Opaque).Label)
	}
	m.Undecided("extract from %v", t)
	return V{}
}

// FieldOf selects a field of a struct value.
func (m *M) FieldOf(v V, i int, t types.Type) V {
	switch v.K {
	case KStruct:
		return v.X.([]V)[i]
	case KChoice:
		return m.lift(v, func(x V) V { return m.FieldOf(x, i, t) })
	case KOpaque:
		return m.opaqueApp("field", t, v, Int(int64(i)))
	}
	m.Undecided("field of %v", v)
	return V{}
}

func (m *M) ptrAdd(p V, off int, t types.Type) V {
	switch p.K {
	case KPtr:
		if p.X == nil {
			m.Panic("nil pointer dereference")
			return V{}
		}
		return V{K: KPtr, X: p.X, N: p.N + int64(off)}
	case KChoice:
		return m.lift(p, func(v V) V { return m.ptrAdd(v, off, t) })
	case KOpaque:
		return m.opaqueApp("fieldaddr", t, p, Int(int64(off)))
	}
	m.Undecided("field address of %v", p)
	return V{}
}

// inRange splits on 0 <= i < n; returns false when the path died.
func (m *M) boundsCheck(i V, n int, what string) {
	switch i.K {
	case KInt:
		if i.N < 0 || i.N >= int64(n) {
			m.Panic(what + " out of range")
		}
	case KBV:
		x := m.Bits(i)
		if len(x) < 63 && n >= 1<<uint(len(x)) && !i.S {
			return
		}
		ok := m.bvLt(x, m.Bits(MkInt(int64(n), i.W, i.S)), i.S)
		if i.S {
			ok = m.B.And(ok, m.B.Not(x[len(x)-1]))
		}
		m.PanicIf(m.B.Not(ok), what+" out of range")
	case KNum:
		ok := m.B.And(m.NumCmp(">=", i, Int(0)), m.NumCmp("<", i, Int(int64(n))))
		m.PanicIf(m.B.Not(ok), what+" out of range")
	}
}

func (m *M) indexAddr(b, i V, bt types.Type, esz int) V {
	if b.K == KChoice {
		return m.lift(b, func(v V) V { return m.indexAddr(v, i, bt, esz) })
	}
	if b.K == KOpaque {
		return m.opaqueApp("index", nil, b, i)
	}
	var obj *Obj
	off, n := 0, 0
	if b.K == KSlice {
		if b.X != nil {
			s := b.X.(*SliceV)
			obj, off, n = s.Obj, s.Off, s.Len
		}
	} else if b.K == KPtr {
		if b.X == nil {
			m.Panic("nil pointer dereference")
			return V{}
		}
		obj, off = b.X.(*Obj), int(b.N)
		n = int(deref(bt).Underlying().(*types.Array).Len())
	} else {
		m.Undecided("index of %v", b)
	}
	if i.K == KInt {
		if i.N < 0 || i.N >= int64(n) {
			m.Panic("index out of range")
			return V{}
		}
		return V{K: KPtr, X: obj, N: int64(off + int(i.N)*esz)}
	}
	if i.K == KChoice {
		return m.lift(i, func(v V) V { return m.indexAddr(b, v, bt, esz) })
	}
	m.boundsCheck(i, n, "index")
	if m.PC == bdd.False {
		return V{}
	}
	if i.K == KNum {
		m.Undecided("index by a symbolic parameter %s", m.Pretty(i))
	}
	al := m.Feasible(i, 1024)
	if al == nil {
		m.Undecided("index with too many feasible values")
	}
	out := make([]Alt, len(al))
	for k, a := range al {
		out[k] = Alt{a.C, V{K: KPtr, X: obj, N: int64(off + int(a.V.N)*esz)}}
	}
	if len(out) == 1 {
		return out[0].V
	}
	return V{K: KChoice, X: out}
}

// index of an array value or string
func (m *M) index(b, i V, t types.Type) V {
	if b.K == KChoice {
		return m.lift(b, func(v V) V { return m.index(v, i, t) })
	}
	if i.K == KChoice {
		return m.lift(i, func(v V) V { return m.index(b, v, t) })
	}
	var at func(k int) V
	n := 0
	switch b.K {
	case KStr:
		s := b.X.(*Str)
		n = s.Len()
		at = s.At
	case KStruct:
		fs := b.X.([]V)
		n = len(fs)
		at = func(k int) V { return fs[k] }
	default:
		m.Undecided("index of %v", b)
	}
	m.boundsCheck(i, n, "index")
	if m.PC == bdd.False {
		return V{}
	}
	if i.K == KInt {
		return at(int(i.N))
	}
	al := m.Feasible(i, 1024)
	if al == nil {
		m.Undecided("index with too many feasible values")
	}
	r := at(int(al[0].V.N))
	for _, a := range al[1:] {
		r = m.Merge(a.C, at(int(a.V.N)), r)
	}
	return r
}

func (m *M) concInt(v V, what string) (int, bool) {
	if v.K == KInt {
		return int(v.N), true
	}
	return 0, false
}

func (m *M) sliceOp(b, lo, hi, mx V, bt types.Type) V {
	if b.K == KChoice {
		return m.lift(b, func(v V) V { return m.sliceOp(v, lo, hi, mx, bt) })
	}
	for idx, p := range []*V{&lo, &hi, &mx} {
		if p.K == KBV || p.K == KChoice {
			al := m.Feasible(*p, 256)
			if al == nil {
				m.Undecided("slice bound with too many values")
			}
			ch := V{K: KChoice, X: al}
			return m.lift(ch, func(v V) V {
				l, h, x := lo, hi, mx
				switch idx {
				case 0:
					l = v
				case 1:
					h = v
				case 2:
					x = v
				}
				return m.sliceOp(b, l, h, x, bt)
			})
		}
		if p.K == KNum {
			m.Undecided("slice bound is a parameter")
		}
	}
	l := 0
	if lo.K == KInt {
		l = int(lo.N)
	}
	switch b.K {
	case KStr:
		s := b.X.(*Str)
		h := s.Len()
		if hi.K == KInt {
			h = int(hi.N)
		}
		if l < 0 || h < l || h > s.Len() {
			m.Panic("slice bounds out of range")
			return V{}
		}
		return s.Slice(l, h)
	case KSlice:
		if b.X == nil {
			if l == 0 && (hi.K != KInt || hi.N == 0) {
				return b
			}
			m.Panic("slice bounds out of range")
			return V{}
		}
		s := b.X.(*SliceV)
		h, c := s.Len, s.Cap
		if hi.K == KInt {
			h = int(hi.N)
		}
		if mx.K == KInt {
			c = int(mx.N)
		}
		if l < 0 || h < l || h > c || c > s.Cap {
			m.Panic("slice bounds out of range")
			return V{}
		}
		return V{K: KSlice, X: &SliceV{Obj: s.Obj, Off: s.Off + l*s.Esz, Len: h - l, Cap: c - l, Esz: s.Esz}}
	case KPtr:
		if b.X == nil {
			m.Panic("nil pointer dereference")
			return V{}
		}
		arr := deref(bt).Underlying().(*types.Array)
		n := int(arr.Len())
		esz := Sizeof(arr.Elem())
		h, c := n, n
		if hi.K == KInt {
			h = int(hi.N)
		}
		if mx.K == KInt {
			c = int(mx.N)
		}
		if l < 0 || h < l || h > c || c > n {
			m.Panic("slice bounds out of range")
			return V{}
		}
		return V{K: KSlice, X: &SliceV{Obj: b.X.(*Obj), Off: int(b.N) + l*esz, Len: h - l, Cap: c - l, Esz: esz}}
	case KOpaque:
		return m.opaqueApp("slice", bt, b, lo, hi)
	}
	m.Undecided("slice of %v", b)
	return V{}
}

func (m *M) makeSlice(elem types.Type, ln, cp V) V {
	if ln.K == KBV {
		al := m.Feasible(ln, 256)
		if al == nil {
			m.Undecided("make with symbolic length")
		}
		return m.lift(V{K: KChoice, X: al}, func(v V) V { return m.makeSlice(elem, v, v) })
	}
	if ln.K == KChoice {
		return m.lift(ln, func(v V) V { return m.makeSlice(elem, v, v) })
	}
	if ln.K != KInt {
		m.Undecided("make with symbolic length %v", m.Pretty(ln))
	}
	n := int(ln.N)
	c := n
	if cp.K == KInt {
		c = int(cp.N)
	}
	if n < 0 || c < n {
		m.Panic("makeslice: len out of range")
		return V{}
	}
	if c > 1<<26 {
		m.Undecided("make of %d elements", c)
	}
	esz := Sizeof(elem)
	o := m.NewObj(types.NewArray(elem, int64(c)), c*esz, "make")
	if c > 0 {
		m.fillZero(o.Cells[:esz], elem)
		for i := 1; i < c; i++ {
			copy(o.Cells[i*esz:(i+1)*esz], o.Cells[:esz])
		}
	}
	return V{K: KSlice, X: &SliceV{Obj: o, Len: n, Cap: c, Esz: esz}}
}

// MakeIface wraps a value in an interface.
func (m *M) MakeIface(v V, t types.Type) V {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	if v.K == KHost {
		return V{K: KIface, X: &IfaceV{Host: v.X.(HostObj)}}
	}
	return V{K: KIface, X: &IfaceV{T: t, V: v}}
}

// ---- maps ----

func (m *M) mapKey(k V) (string, bool) {
	switch k.K {
	case KInt:
		return "i" + itoa(k.N), true
	case KStr:
		s := k.X.(*Str)
		if s.isSy {
			return "", false
		}
		return "s" + s.Con, true
	case KBool:
		if k.N <= 1 {
			return "b" + itoa(k.N), true
		}
		return "", false
	case KFloat:
		return "f" + itoa(k.N), true
	case KStruct:
		var sb strings.Builder
		sb.WriteString("{")
		for _, x := range k.X.([]V) {
			s, ok := m.mapKey(x)
			if !ok {
				return "", false
			}
			sb.WriteString(s)
			sb.WriteString("|")
		}
		return sb.String(), true
	case KIface:
		if k.X == nil {
			return "nil", true
		}
		i := k.X.(*IfaceV)
		if i.Host != nil {
			return "", false
		}
		s, ok := m.mapKey(i.V)
		return "I" + i.T.String() + ":" + s, ok
	case KPtr:
		if k.X == nil {
			return "pnil", true
		}
		return "p" + itoa(k.X.(*Obj).ID) + "." + k.X.(*Obj).Label + "+" + itoa(k.N), true
	case KOpaque:
		return "o" + itoa(int64(k.X.(*Opaque).ID)), true
	}
	return "", false
}

func itoa(n int64) string {
	return strings.TrimSpace(fmtInt(n))
}

func (m *M) lookup(b, k V, x *ssa.Lookup) V {
	if b.K == KChoice {
		return m.lift(b, func(v V) V { return m.lookup(v, k, x) })
	}
	if b.K == KStr {
		return m.index(b, k, x.Type())
	}
	if k.K == KChoice {
		return m.lift(k, func(v V) V { return m.lookup(b, v, x) })
	}
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		m.Undecided("lookup in %v", b)
	}
	ret := func(v V, ok bool) V {
		if x.CommaOk {
			return Tuple(v, Bool(ok))
		}
		return v
	}
	if b.K == KOpaque {
		return m.OpaqueOf(x.Type(), b.X.(*Opaque).Label+"[...]")
	}
	if b.K != KMap {
		m.Undecided("lookup in %v", b)
	}
	zero := m.Zero(mt.Elem())
	if b.X == nil {
		return ret(zero, false)
	}
	mo := b.X.(*MapObj)
	if m.RaceOn {
		m.raceAccess(&mo.race, 1, 0, false, "map "+mo.Label, mo.ID)
	}
	if s, ok := m.mapKey(k); ok {
		if e, ok := mo.M[s]; ok {
			return ret(e.V, true)
		}
		return ret(zero, false)
	}
	r := ret(zero, false)
	for _, s := range mo.Keys {
		e := mo.M[s]
		r = m.Merge(m.Eq(k, e.K), ret(e.V, true), r)
	}
	return r
}

func (m *M) mapUpdate(b, k, v V) {
	if b.K == KChoice {
		m.Undecided("update of one of several maps")
	}
	if b.K == KOpaque {
		m.Event("mapupdate", b, k, v)
		return
	}
	if b.X == nil {
		m.Panic("assignment to entry in nil map")
		return
	}
	mo := b.X.(*MapObj)
	if m.TrackWrites && mo.ID < m.Epoch {
		m.Writes = append(m.Writes, WriteEvent{&Obj{ID: mo.ID, Label: "map " + mo.Label}, 0, m.fnName(), m.posHere(), m.onceDepth > 0})
	}
	if m.ScoreAbort {
		m.noteWrite(&Obj{ID: mo.ID})
	}
	if m.RaceOn {
		m.raceAccess(&mo.race, 1, 0, true, "map "+mo.Label, mo.ID)
	}
	s, ok := m.mapKey(k)
	if !ok {
		al := m.Feasible(k, 256)
		if al == nil {
			m.Undecided("map update with symbolic key")
		}
		for _, a := range al {
			s, _ := m.mapKey(a.V)
			old := mo.M[s]
			if old == nil {
				m.Undecided("map entry added under a symbolic key")
			}
			m.setMap(mo, s, &MapEnt{K: a.V, V: m.Merge(a.C, v, old.V)})
		}
		return
	}
	m.setMap(mo, s, &MapEnt{K: k, V: v})
}

func (m *M) rangeOver(v V) V {
	v = m.Simplify(v)
	z := 0
	switch v.K {
	case KStr:
		return V{K: KIter, X: &iterV{str: v.X.(*Str), pos: &z}}
	case KMap:
		it := &iterV{pos: &z}
		if v.X != nil {
			mo := v.X.(*MapObj)
			it.m = mo
			it.keys = append([]string(nil), mo.Keys...)
			if m.RaceOn {
				m.raceAccess(&mo.race, 1, 0, false, "map "+mo.Label, mo.ID)
			}
			if m.MapRev {
				sort.SliceStable(it.keys, func(i, j int) bool { return i > j })
				for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
					it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
				}
			}
		}
		return V{K: KIter, X: it}
	}
	m.Undecided("range over %v", v)
	return V{}
}

// Iterators are mutable registers: the position lives in the abstract state
// so that the two sides of a branch advance independently.
func (m *M) next(v V, x *ssa.Next) V {
	it := v.X.(*iterV)
	if it.str != nil {
		if it.cell == nil {
			it.cell = m.NewObj(nil, 1, "iter")
			it.cell.ID = 0
			it.cell.Cells[0] = Int(0)
		}
		p := m.Simplify(it.cell.Cells[0])
		if p.K != KInt {
			return m.nextRune(it, p)
		}
		i := int(p.N)
		if i >= it.str.Len() {
			return Tuple(Bool(false), Int(0), MkInt(0, 32, true))
		}
		forms := m.runeForms(it.str, i)
		for _, f := range forms {
			if f.n != forms[0].n {
				return m.nextRune(it, p)
			}
		}
		r, n := m.DecodeRune(it.str, i)
		m.setCell(it.cell, 0, Int(int64(i+n)))
		return Tuple(Bool(true), Int(int64(i)), r)
	}
	if it.cell == nil {
		it.cell = m.NewObj(nil, 1, "iter")
		it.cell.ID = 0
		it.cell.Cells[0] = Int(0)
	}
	p := it.cell.Cells[0]
	if p.K != KInt {
		m.Undecided("map iterator at a symbolic position")
	}
	i := int(p.N)
	tt := x.Type().(*types.Tuple)
	for i < len(it.keys) {
		e := it.m.M[it.keys[i]]
		i++
		if e == nil {
			continue
		}
		m.setCell(it.cell, 0, Int(int64(i)))
		return Tuple(Bool(true), e.K, e.V)
	}
	return Tuple(Bool(false), m.Zero2(tt.At(1).Type()), m.Zero2(tt.At(2).Type()))
}

// nextRune is a step over a string whose characters have undetermined
// lengths: the place of the iterator is a number that depends on the bytes.
func (m *M) nextRune(it *iterV, p V) V {
	n := it.str.Len()
	if n > 24 {
		m.Undecided(charLen+": a text of %d bytes", n)
	}
	save := m.PC
	ok := bdd.False
	idx, r, next := Int(0), MkInt(0, 32, true), Int(int64(n))
	for i := 0; i < n; i++ {
		at := m.Eq(p, Int(int64(i)))
		m.PC = m.B.And(save, at)
		if m.PC == bdd.False {
			continue
		}
		ok = m.B.Or(ok, at)
		idx = m.Merge(at, Int(int64(i)), idx)
		for _, f := range m.runeForms(it.str, i) {
			c := m.B.And(at, f.c)
			r = m.Merge(c, f.r, r)
			next = m.Merge(c, Int(int64(i+f.n)), next)
		}
	}
	m.PC = save
	m.setCell(it.cell, 0, next)
	return Tuple(BoolN(ok), idx, r)
}

func (m *M) Zero2(t types.Type) V {
	if t == nil {
		return V{}
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return V{}
	}
	return m.Zero(t)
}

// ---- type assertions ----

func (m *M) typeAssert(v V, x *ssa.TypeAssert) V {
	if v.K == KChoice {
		return m.lift(v, func(y V) V { return m.typeAssert(y, x) })
	}
	ret := func(r V, ok bool) V {
		if x.CommaOk {
			return Tuple(r, Bool(ok))
		}
		if !ok {
			m.Panic("interface conversion to " + x.AssertedType.String())
		}
		return r
	}
	it, toIface := x.AssertedType.Underlying().(*types.Interface)
	switch v.K {
	case KIface:
		if v.X == nil {
			return ret(m.Zero(x.AssertedType), false)
		}
		i := v.X.(*IfaceV)
		if i.Host != nil {
			if toIface {
				ok := i.Host.Implements(m, it)
				if ok {
					return ret(v, true)
				}
			}
			return ret(m.Zero(x.AssertedType), false)
		}
		if toIface {
			if types.Implements(i.T, it) {
				return ret(v, true)
			}
			return ret(m.Zero(x.AssertedType), false)
		}
		if types.Identical(i.T, x.AssertedType) {
			return ret(i.V, true)
		}
		return ret(m.Zero(x.AssertedType), false)
	case KOpaque:
		if x.CommaOk {
			ok := m.eqAtom("is:"+x.AssertedType.String(), v, v)
			r := v
			if !toIface {
				r = m.OpaqueOf(x.AssertedType, v.X.(*Opaque).Label)
			}
			return Tuple(r, BoolN(ok))
		}
		if toIface {
			return v
		}
		ok := m.eqAtom("is:"+x.AssertedType.String(), v, v)
		m.PanicIf(m.B.Not(ok), "interface conversion to "+x.AssertedType.String())
		return m.OpaqueOf(x.AssertedType, v.X.(*Opaque).Label)
	}
	m.Undecided("type assertion on %v", v)
	return V{}
}

// ---- calls ----

func (m *M) prepCall(fr *Frame, ci *cinstr) (V, []V) {
	fv := m.val(fr, &ci.op[0])
	n := len(ci.call.Args)
	args := make([]V, n)
	for i := range args {
		args[i] = m.val(fr, &ci.op[i+1])
	}
	return fv, args
}

func (m *M) doCall(fr *Frame, ci *cinstr) (V, bool) {
	fv, args := m.prepCall(fr, ci)
	v, dead := m.invokePrepared(fr, ci.call, fv, args)
	m.frame = fr
	return v, dead
}

func (m *M) invokePrepared(fr *Frame, call *ssa.CallCommon, fv V, args []V) (V, bool) {
	if call.IsInvoke() {
		return m.Invoke(fv, call.Method, args)
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return m.builtin(b, args, call)
	}
	return m.Call(fv, args...)
}

// Invoke calls an interface method.
func (m *M) Invoke(recv V, meth *types.Func, args []V) (V, bool) {
	recv = m.Simplify(recv)
	switch recv.K {
	case KIface:
		if recv.X == nil {
			m.Panic("method call on nil interface " + meth.Name())
			return V{}, true
		}
		i := recv.X.(*IfaceV)
		if i.Host != nil {
			if _, ok := i.Host.(*ErrVal); !ok {
				m.hard++
			}
			return i.Host.CallMethod(m, meth.Name(), args)
		}
		if i.V.K == KOpaque {
			return m.extMethod(i.V, i.T, meth, args)
		}
		fn := m.Prog.LookupMethod(i.T, meth.Pkg(), meth.Name())
		if fn == nil {
			m.Undecided("no method %s on %s", meth.Name(), i.T)
		}
		return m.callFn(&FuncV{Fn: fn}, append([]V{i.V}, args...))
	case KChoice:
		return m.guarded(recv.X.([]Alt), func(v V) (V, bool) { return m.Invoke(v, meth, args) })
	case KOpaque:
		nc := m.NilCond(recv)
		m.PanicIf(nc, "method call on nil interface "+meth.Name())
		if m.PC == bdd.False {
			return V{}, true
		}
		return m.extMethod(recv, recv.X.(*Opaque).T, meth, args)
	}
	m.Undecided("invoke %s on %v", meth.Name(), recv)
	return V{}, true
}

// extMethod is a call on an unknown implementation.
func (m *M) extMethod(recv V, t types.Type, meth *types.Func, args []V) (V, bool) {
	label := ""
	if recv.K == KOpaque {
		label = recv.X.(*Opaque).Label
	}
	m.Event("invoke:"+meth.Name(), append([]V{recv}, args...)...)
	return m.resultsOf(meth.Type().(*types.Signature), label+"."+meth.Name()+"()"), false
}

var _ = math.Pi
