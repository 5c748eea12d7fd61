package checks

import (
	"fmt"
	"go/ast"
	"go/token"
	"path/filepath"
	"sort"
	"strings"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"
	"verif/analyzer/harness"
	"verif/analyzer/oracle"
)

const (
	corePath = "github.com/yeqown/go-qrcode/v2"
	coreHarn = corePath + "/zzvp"
	none     = -999
)

// Core loads the main module with the harness.
func (c *Ctx) Core() *absint.Program {
	return c.LoadProg("core", absint.LoadConfig{Dir: c.Repo, Patterns: []string{".", "./zzvp"},
		Overlay: map[string][]byte{filepath.Join(c.Repo, "zzvp", "h.go"): []byte(harness.Core)}})
}

func (c *Ctx) LoadProg(key string, lc absint.LoadConfig) *absint.Program {
	c.mu.Lock()
	defer c.mu.Unlock()
	if p, ok := c.progs[key]; ok {
		return p
	}
	p, err := absint.Load(lc)
	if err != nil {
		panic(loadError{err})
	}
	p.ByteForm = c.form
	c.progs[key] = p
	for _, r := range p.Roots {
		c.units["packages type-checked"]++
		_ = r
	}
	return p
}

func fnOf(p *absint.Program, pkg, name string) absint.V {
	sp := p.EnsureBuilt(pkg)
	if sp == nil {
		panic(loadError{fmt.Errorf("package %s is not loaded", pkg)})
	}
	f := sp.Func(name)
	if f == nil {
		panic(loadError{fmt.Errorf("%s.%s not found", pkg, name)})
	}
	return absint.V{K: absint.KFunc, X: &absint.FuncV{Fn: f}}
}

func hostFn(name string, f func(m *absint.M, a []absint.V) (absint.V, bool)) absint.V {
	return absint.V{K: absint.KFunc, X: &absint.FuncV{Host: f, Name: name}}
}

// call runs a harness function; dead means no path returns.
func call(m *absint.M, p *absint.Program, name string, args ...absint.V) (absint.V, bool) {
	return m.Call(fnOf(p, coreHarn, name), args...)
}

func tup(v absint.V, i int) absint.V { return v.X.([]absint.V)[i] }

// SymRun is the analysed construction of one symbol.
type SymRun struct {
	M        *absint.M
	P        *absint.Program
	Ver, Lvl int
	Mode     int
	In       []absint.V
	N        int
	QR       absint.V
	Mat      absint.V
	Bits     [][]bdd.Node // [y][x]
	Types    [][]absint.V
	Prov     map[[2]int][]token.Pos
	NilErr   bdd.Node
	lay      *oracle.Layout
}

func (r *SymRun) Name() string {
	return fmt.Sprintf("version %d level %s", r.Ver, oracle.LevelName[r.Lvl])
}

func symBytes(m *absint.M, n int) []absint.V {
	bs := make([]absint.V, n)
	for i := range bs {
		bs[i] = m.FreeByte(fmt.Sprintf("b%d", i), i)
	}
	return bs
}

// build analyses New/NewWith and Save and reads the matrix the writer gets.
func build(c *Ctx, m *absint.M, p *absint.Program, in []absint.V, mode, ver, lvl, minv int) *SymRun {
	r := &SymRun{M: m, P: p, Ver: ver, Lvl: lvl, Mode: mode, In: in}
	t, dead := call(m, p, "New", absint.MkSymStr(in), absint.Int(int64(mode)), absint.Int(int64(ver)), absint.Int(int64(lvl)), absint.Int(int64(minv)))
	if dead {
		return r
	}
	r.QR = tup(t, 0)
	r.NilErr = m.NilCond(tup(t, 1))
	if r.NilErr == bdd.False {
		return r
	}
	m.PC = m.B.And(m.PC, r.NilErr)
	t, dead = call(m, p, "Saved", r.QR)
	if dead {
		return r
	}
	r.Mat = tup(t, 0)
	r.read()
	return r
}

// read visits every module.
func (r *SymRun) read() {
	m := r.M
	t, dead := call(m, r.P, "Size", r.Mat)
	if dead {
		return
	}
	w := tup(t, 0)
	if w.K != absint.KInt {
		m.Undecided("the width of the matrix is not a constant: %v", w)
	}
	r.N = int(w.N)
	r.Bits = make([][]bdd.Node, r.N)
	r.Types = make([][]absint.V, r.N)
	for y := range r.Bits {
		r.Bits[y] = make([]bdd.Node, r.N)
		r.Types[y] = make([]absint.V, r.N)
		for x := range r.Bits[y] {
			r.Bits[y][x] = -1
		}
	}
	if m.Prov {
		r.Prov = map[[2]int][]token.Pos{}
	}
	visit := hostFn("visit", func(m *absint.M, a []absint.V) (absint.V, bool) {
		if a[0].K != absint.KInt || a[1].K != absint.KInt {
			m.Undecided("Iterate with coordinates that are not constants")
		}
		x, y := int(a[0].N), int(a[1].N)
		if x < 0 || y < 0 || x >= r.N || y >= r.N {
			return absint.V{}, false
		}
		if m.Prov {
			r.Prov[[2]int{x, y}] = append([]token.Pos(nil), m.LastProv...)
		}
		v := a[2]
		bits := m.Bits(v)
		r.Bits[y][x] = bits[0]
		tb := append([]bdd.Node{bdd.False}, bits[1:]...)
		r.Types[y][x] = m.FromBits(tb, false)
		return absint.V{}, false
	})
	call(m, r.P, "Visit", r.Mat, absint.Bool(true), visit)
}

func (r *SymRun) layout() *oracle.Layout {
	if r.lay == nil {
		r.lay = oracle.NewLayout(r.Ver)
	}
	return r.lay
}

// where lists the statements that wrote a module last (needs Prov).
func (r *SymRun) where(x, y int) string {
	ps := r.Prov[[2]int{x, y}]
	seen := map[string]bool{}
	var out []string
	for _, p := range ps {
		s := r.P.FuncAt(p) + " (" + r.M.PosString(p) + ")"
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// symbol analyses the construction at byte capacity with all payload bits
// symbolic; prov adds the origin of every module.
func symbol(c *Ctx, ver, lvl int, prov bool, f func(r *SymRun)) {
	p := c.Core()
	m := absint.NewM(p)
	m.ScoreAbort = true
	m.Prov = prov
	unit := fmt.Sprintf("version %d level %s", ver, oracle.LevelName[lvl])
	c.Guard(unit, m, func() {
		defer m.Close()
		n := oracle.Cap(ver, lvl, oracle.Byte)
		r := build(c, m, p, symBytes(m, n), 4, ver, lvl, none)
		if r.N == 0 {
			c.Fail("constructs", unit, "", "no path of the construction yields a matrix (panics: %v)", m.Panics)
			return
		}
		f(r)
		c.Unit("symbol constructions (all payload bits symbolic)", 1)
		c.Unit("modules", r.N*r.N)
	})
}

// scenarios makes one valuation of the mask scores per mask, with that score
// the unique minimum.
func (r *SymRun) scenarios() []*absint.Scenario {
	gs := r.M.ScoreGroups(r.M.Scores)
	var out []*absint.Scenario
	for i := range gs {
		v := make([]float64, len(gs))
		for j := range v {
			v[j] = 500 + float64((j*37)%len(gs))
		}
		v[i] = 100
		out = append(out, r.scenario(gs, v))
	}
	return out
}

// scenario gives every group of scores a total.
func (r *SymRun) scenario(gs [][]absint.V, tot []float64) *absint.Scenario {
	ps, vs := spread(gs, tot)
	return r.M.NewScenario(ps, vs)
}

func spread(gs [][]absint.V, tot []float64) (ps []absint.V, vs []float64) {
	for i, g := range gs {
		for k, p := range g {
			x := 0.0
			if k == 0 {
				x = tot[i]
			}
			ps, vs = append(ps, p), append(vs, x)
		}
	}
	return
}

var _ = ast.Print

// allSymbols runs f on the given (version, level) pairs. When a unit reports a
// violation it is analysed again with the origins of the modules recorded.
func allSymbols(c *Ctx, pairs [][2]int, f func(r *SymRun)) {
	// big versions first
	ps := append([][2]int(nil), pairs...)
	sort.SliceStable(ps, func(i, j int) bool { return ps[i][0] > ps[j][0] })
	c.Core()
	c.Par(len(ps), func(i int) {
		before := c.numViol()
		symbol(c, ps[i][0], ps[i][1], false, f)
		if c.numViol() > before && c.numViol() < 40 {
			c.mu.Lock()
			done := c.sites["prov"]
			c.sites["prov"] = true
			c.mu.Unlock()
			if !done {
				c.forget()
				symbol(c, ps[i][0], ps[i][1], true, f)
			}
		}
	})
}

func (c *Ctx) numViol() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viols)
}

// forget drops the recorded violations so that a second analysis can report
// them with their origin.
func (c *Ctx) forget() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for k := range c.viols {
		if c.viols[k].Where == "" && c.viols[k].Rule != "decidable" {
			c.obl[c.viols[k].Rule]--
			delete(c.viols, k)
			for i, o := range c.order {
				if o == k {
					c.order = append(c.order[:i], c.order[i+1:]...)
					break
				}
			}
		}
	}
}

func pairsAll() [][2]int {
	var out [][2]int
	for v := 1; v <= 40; v++ {
		for l := 0; l < 4; l++ {
			out = append(out, [2]int{v, l})
		}
	}
	return out
}

// pairsRot is one level per version.
func pairsRot() [][2]int {
	var out [][2]int
	for v := 1; v <= 40; v++ {
		out = append(out, [2]int{v, v % 4})
	}
	return out
}
