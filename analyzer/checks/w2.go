package checks

import (
	"fmt"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"

	"golang.org/x/tools/go/ssa"
)

// note is one call of a shape.
type note struct {
	c      bdd.Node
	finder bool
	x, y   float64
	w, h   int
	col    rgb
	n      []bdd.Node
}

// notes collects what the recording shape is asked to draw.
func (e *stdEnv) notes() *[]note {
	var l []note
	out := &l
	if e.m.Intr == nil {
		e.m.Intr = map[string]absint.Intrinsic{}
	}
	e.m.Intr[stdHarn+".Note"] = func(m *absint.M, fn *ssa.Function, a []absint.V) (absint.V, bool) {
		a = append([]absint.V(nil), a...)
		for i := range a {
			a[i] = m.Simplify(a[i])
		}
		if a[0].K != absint.KBool || a[1].K != absint.KFloat || a[2].K != absint.KFloat || a[3].K != absint.KInt || a[4].K != absint.KInt {
			m.Undecided("a shape is drawn at %v", a)
		}
		f := a[0].Node()
		if f != bdd.True && f != bdd.False {
			m.Undecided("a shape is drawn at %v", a)
		}
		col, ok := m.ColorBytes(a[5])
		if !ok {
			return absint.V{}, true
		}
		*out = append(*out, note{m.PC, f == bdd.True, a[1].Float(), a[2].Float(), int(a[3].N), int(a[4].N), rgb(col), m.Bits(a[6])})
		return absint.V{}, false
	}
	return out
}

// moduleOf is the module a shape call is for.
func (g geo) moduleOf(k note, n int) (x, y int, ok bool) {
	fx, fy := (k.x-float64(g.l))/float64(g.bw), (k.y-float64(g.t))/float64(g.bw)
	x, y = int(fx), int(fy)
	return x, y, fx == float64(x) && fy == float64(y) && x >= 0 && y >= 0 && x < n && y < n
}

func (e *stdEnv) neighFlags() []uint16 {
	v := e.m.Simplify(e.must("Neigh"))
	vs := e.m.SliceElems(v)
	var out []uint16
	for _, x := range vs {
		if x.K != absint.KInt {
			e.m.Undecided("neighbour flag %v", x)
		}
		out = append(out, uint16(x.N))
	}
	return out
}

// checkCalls compares the shape calls with the modules. shown tells which
// modules are drawn as set (all set ones without a safe zone).
func (e *stdEnv) checkCalls(l []note, g geo, fg, bg rgb, zone func(x, y int) bool) bool {
	m := e.m
	got := make([][]bdd.Node, e.n)
	for y := range got {
		got[y] = make([]bdd.Node, e.n)
		for x := range got[y] {
			got[y][x] = bdd.False
		}
	}
	n := 0
	for _, k := range l {
		x, y, ok := g.moduleOf(k, e.n)
		if !ok || k.w != g.bw || k.h != g.bw {
			e.fail("shape-geometry", "a shape is asked for at (%v,%v) of %d x %d, which is no module's square (block %d, left %d, top %d)", k.x, k.y, k.w, k.h, g.bw, g.l, g.t)
			return false
		}
		in := m.B.And(k.c, m.PC)
		if in == bdd.False {
			continue
		}
		if m.B.And(got[y][x], in) != bdd.False {
			e.fail("shape-once", "module (%d,%d) may be drawn twice", x, y)
			return false
		}
		got[y][x] = m.B.Or(got[y][x], in)
		if k.finder != (e.typ[y][x] == e.find) {
			e.fail("shape-role", "module (%d,%d) of type %d is drawn by DrawFinder=%v", x, y, e.typ[y][x], k.finder)
			return false
		}
		save := m.PC
		for _, s := range []bool{true, false} {
			c, w := e.set[y][x], fg
			if !s {
				c, w = m.B.Not(c), bg
			}
			if m.PC = m.B.And(in, c); m.PC == bdd.False {
				continue
			}
			if s && zone != nil && zone(x, y) {
				m.PC = save
				e.fail("safe-zone", "module (%d,%d) overlaps the logo and may be drawn although it is set", x, y)
				return false
			}
			if !e.same(k.col, w) {
				m.PC = save
				e.fail("shape-colour", "module (%d,%d) is drawn in %s instead of %s when set=%v", x, y, e.show(k.col), e.show(w), s)
				return false
			}
			n++
		}
		m.PC = save
	}
	for y := range got {
		for x := range got[y] {
			if zone != nil && zone(x, y) {
				continue
			}
			if m.B.And(m.PC, m.B.And(e.set[y][x], m.B.Not(got[y][x]))) != bdd.False {
				e.fail("shape-once", "module (%d,%d) may be set and not drawn", x, y)
				return false
			}
			n++
		}
	}
	e.c.Ok("shape-calls", n)
	return true
}

// checkNeigh compares the neighbour masks.
func (e *stdEnv) checkNeigh(l []note, g geo, fl []uint16, zone func(x, y int) bool) bool {
	m := e.m
	n := 0
	for _, k := range l {
		x, y, ok := g.moduleOf(k, e.n)
		if !ok {
			continue
		}
		in := m.B.And(k.c, m.PC)
		if in == bdd.False {
			continue
		}
		var want [16]bdd.Node
		for i := range want {
			want[i] = bdd.False
		}
		for i, f := range fl {
			nx, ny := x+i%3-1, y+i/3-1
			c := bdd.False
			if nx >= 0 && ny >= 0 && nx < e.n && ny < e.n && !(zone != nil && zone(nx, ny)) {
				c = e.set[ny][nx]
			}
			for b := range want {
				if f>>b&1 == 1 {
					want[b] = m.B.Or(want[b], c)
				}
			}
		}
		for b := range want {
			if b < len(k.n) && m.B.And(in, m.B.Xor(want[b], k.n[b])) == bdd.False {
				n++
				continue
			}
			e.fail("neighbours", "bit %d of the neighbour mask of module (%d,%d) is not the state of that neighbour", b, x, y)
			return false
		}
	}
	e.c.Ok("neighbours", n)
	return true
}

func (e *stdEnv) rec() absint.V { return e.opt("OShape", e.must("NewRec")) }

// frame sets block width and borders.
func (e *stdEnv) frame(g geo) []absint.V {
	return []absint.V{e.opt("OWidth", u8(g.bw)), e.opt("OBorder", e.ints(g.t, g.r, g.b, g.l))}
}

func (e *stdEnv) rgbArgs(c rgb) []absint.V { return []absint.V{c[0], c[1], c[2], c[3]} }

func (e *stdEnv) pic(name string, x0, y0, w, h int) (absint.V, [][]rgb) {
	return e.pics("Pic", name, x0, y0, w, h)
}

// pics makes a picture of free opaque pixels.
func (e *stdEnv) pics(fn, name string, x0, y0, w, h int, extra ...absint.V) (absint.V, [][]rgb) {
	var bs []absint.V
	px := make([][]rgb, h)
	for y := range px {
		px[y] = make([]rgb, w)
		for x := range px[y] {
			c := e.symColor(fmt.Sprintf("%s(%d,%d)", name, x, y))
			px[y][x] = c
			bs = append(bs, c[0], c[1], c[2])
		}
	}
	args := append([]absint.V{absint.Int(int64(x0)), absint.Int(int64(y0)), absint.Int(int64(w)), absint.Int(int64(h))}, extra...)
	return e.must(fn, append(args, e.bytes(bs))...), px
}

func isTransparent(c rgb) bool { return c[3].K == absint.KInt && c[3].N == 0 }

func init() {
	register(&Check{ID: "W02", Title: "Each set module is drawn once by the right shape method",
		Rule: "A recording shape (client code of IShape) is given to the standard writer; for symbols of free data modules, every set module leads to exactly one call, of DrawFinder for finder modules and Draw otherwise, whose context holds the module's exact square and the foreground colour; every other call is for an unset module, at most once, with the background colour; there are no calls off the grid.",
		Min:  5_000, Run: func(c *Ctx) {
			type job struct {
				ver  int
				g    geo
				cfg  int
				logo bool
			}
			jobs := []job{{1, geo{3, 0, 0, 0, 0}, 0, false}, {1, geo{20, 40, 40, 40, 40}, 1, false}, {2, geo{1, 1, 2, 3, 4}, 2, false}, {7, geo{4, 5, 0, 0, 9}, 0, false}, {1, geo{4, 5, 0, 0, 9}, 5, true}, {1, geo{5, 1, 0, 3, 2}, 3, true}, {5, geo{2, 0, 3, 7, 0}, 3, false}, {1, geo{50, 0, 0, 0, 1}, 4, false}, {2, geo{6, 1, 2, 3, 4}, 0, true}}
			for v := 1; v <= 24; v++ {
				jobs = append(jobs, job{v, geo{1 + v%9, v % 7, v % 5, v % 3, v % 11}, v % 5, v%3 == 0})
			}
			jobs = append(jobs, job{1, geo{70, 1, 2, 3, 4}, 1, false}, job{40, geo{2, 0, 1, 2, 3}, 2, false}, job{2, geo{129, 300, 0, 0, 260}, 0, false})
			if c.Thorough() {
				for v := 25; v < 80; v++ {
					jobs = append(jobs, job{1 + v%40, geo{1 + v%9, v % 7, v % 5, v % 3, v % 11}, v % 5, v%3 == 0})
				}
			}
			c.Std()
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				withStd(c, fmt.Sprintf("version %d, block %d, borders %d %d %d %d, colours %d, logo %v", j.ver, j.g.bw, j.g.t, j.g.r, j.g.b, j.g.l, j.cfg, j.logo), j.ver, func(e *stdEnv) {
					os := e.frame(j.g)
					fg, bg := black, white
					if j.cfg >= 1 && j.cfg < 5 {
						fg = e.symColor("fg")
						os = append(os, e.opt("OFg", e.rgbArgs(fg)...))
					}
					if j.cfg >= 2 && j.cfg < 5 {
						bg = e.symColor("bg")
						os = append(os, e.opt("OBg", e.rgbArgs(bg)...))
					}
					if j.cfg == 3 {
						os = append(os, e.opt("OTransparent"))
						bg[3] = u8(0)
					}
					if j.cfg == 5 {
						fg, bg = conCol(1, 2, 3, 255), conCol(200, 100, 50, 255)
						os = append(os, e.opt("OFg", e.rgbArgs(fg)...), e.opt("OBg", e.rgbArgs(bg)...))
						os = append(os, e.gradient())
					}
					if j.logo {
						im, _ := e.pic("logo", 0, 0, 13, 9)
						os = append(os, e.opt("OLogo", im))
					}
					os = append(os, e.rec())
					l := e.notes()
					t := e.must("Draw", e.mat, e.opts(os...))
					if b, ok := e.m.ImageBounds(tup(t, 0)); ok {
						e.checkSize(b, j.g)
					}
					e.checkCalls(*l, j.g, fg, bg, nil)
				})
			})
		}})

	register(&Check{ID: "W07", Title: "Shapes are told the state of all eight neighbours",
		Rule: "For every module of symbols with free data modules, the neighbour mask its DrawContext carries has, bit for bit, the named flag of each direction exactly when that neighbour (or the module itself) is set; positions outside the symbol count as unset.",
		Min:  5_000, Run: func(c *Ctx) {
			vers := []int{1, 2, 3, 5, 6, 7, 10, 14, 20, 31, 40}
			if c.Thorough() {
				vers = nil
				for v := 1; v <= 40; v++ {
					vers = append(vers, v)
				}
			}
			c.Std()
			c.Par(2*len(vers), func(i int) {
				j := logoJob{vers[i/2], geo{4, 1, 2, 3, 5}, picture{0, 0, 9, 14, false, false}, none, i%2 == 1, false}
				unit := fmt.Sprintf("version %d", j.ver)
				if j.safe {
					unit = j.String()
				}
				withStd(c, unit, j.ver, func(e *stdEnv) {
					fl := e.neighFlags()
					seen := map[uint16]bool{}
					for k, f := range fl {
						if f == 0 || f&(f-1) != 0 || seen[f] {
							e.fail("flags", "neighbour flag %d is %d: not a bit of its own", k, f)
							return
						}
						seen[f] = true
					}
					e.c.Ok("flags", len(fl))
					g := j.g
					l := e.notes()
					os := e.frame(g)
					zone := func(x, y int) bool { return false }
					if j.safe {
						os, _, _ = e.logo(j)
						zone = e.zone(j)
					}
					e.must("Draw", e.mat, e.opts(append(os, e.rec())...))
					e.checkNeigh(*l, g, fl, zone)
					n := 0
					for _, k := range *l {
						if _, _, ok := g.moduleOf(k, e.n); ok {
							n++
						}
					}
					if n == 0 {
						e.fail("neighbours", "no module is drawn")
					}
				})
			})
		}})
}
