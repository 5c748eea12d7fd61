package checks

import (
	"fmt"
	"path/filepath"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"
	"verif/analyzer/harness"
	"verif/analyzer/oracle"
)

const (
	stdPath = "github.com/yeqown/go-qrcode/writer/standard"
	stdHarn = stdPath + "/zzvp"
)

const ggAssume = "github.com/fogleman/gg fills the pixels whose centre lies inside the path with the current colour, over what is there (antialiased borders are not modelled), and DrawImage puts a pixel of the source at its own coordinates plus the given position"

// Std loads the standard writer with its harness.
func (c *Ctx) Std() *absint.Program {
	d := filepath.Join(c.Repo, "writer", "standard")
	return c.LoadProg("std", absint.LoadConfig{Dir: d, Patterns: []string{".", "./imgkit", "./shapes", "./zzvp"},
		Overlay: map[string][]byte{filepath.Join(d, "zzvp", "h.go"): []byte(harness.Standard)}})
}

// rgb is a pixel or colour.
type rgb [4]absint.V

// stdEnv is one symbol and the standard writer on it.
type stdEnv struct {
	c    *Ctx
	m    *absint.M
	p    *absint.Program
	harn string // the harness package
	unit string
	mat  absint.V
	n    int
	set  [][]bdd.Node
	typ  [][]int
	find int
	data int
	// free chooses the modules that stay symbolic (default: all)
	free func(k int) (keep, val bool)
}

func (e *stdEnv) fail(rule, detail string, a ...any) { e.c.Fail(rule, e.unit, "", detail, a...) }

func (e *stdEnv) call(name string, args ...absint.V) (absint.V, bool) {
	return e.m.Call(fnOf(e.p, e.harn, name), args...)
}

// must calls a harness function that has to return.
func (e *stdEnv) must(name string, args ...absint.V) absint.V {
	v, dead := e.call(name, args...)
	if dead {
		panic(noReturn{name})
	}
	return v
}

type noReturn struct{ name string }

// withStd runs f on a fresh machine with a symbol of the version whose data
// modules are all free.
func withStd(c *Ctx, unit string, ver int, f func(e *stdEnv)) {
	withEnv(c, c.Std(), stdHarn, unit, ver, f)
}

// small loads one of the small writers with its harness.
func (c *Ctx) small(name, src string) (*absint.Program, string) {
	d := filepath.Join(c.Repo, "writer", name)
	return c.LoadProg(name, absint.LoadConfig{Dir: d, Patterns: []string{".", "./zzvp"},
			Overlay: map[string][]byte{filepath.Join(d, "zzvp", "common.go"): []byte(harness.Common), filepath.Join(d, "zzvp", "h.go"): []byte(src)}}),
		"github.com/yeqown/go-qrcode/writer/" + name + "/zzvp"
}

// withSmall is withStd for one of the small writers.
func withSmall(c *Ctx, name, src, unit string, ver int, f func(e *stdEnv)) {
	p, h := c.small(name, src)
	withEnv(c, p, h, unit, ver, f)
}

func withEnv(c *Ctx, p *absint.Program, harn, unit string, ver int, f func(e *stdEnv)) {
	m := absint.NewM(p)
	c.Guard(unit, m, func() {
		defer m.Close()
		e := &stdEnv{c: c, m: m, p: p, harn: harn, unit: unit}
		defer func() {
			if r := recover(); r != nil {
				if n, ok := r.(noReturn); ok {
					d := "no path returns"
					w := ""
					if len(m.Panics) > 0 {
						d = "panics: " + m.Panics[0].Reason
						w = m.Panics[0].Pos
					}
					c.Fail("returns", unit, w, "%s: %s", n.name, d)
					return
				}
				panic(r)
			}
		}()
		if ver > 0 {
			e.symbol(ver)
		}
		f(e)
		if len(m.Panics) > 0 {
			c.Fail("no-panic", unit, m.Panics[0].Pos, "may panic: %s in %s", m.Panics[0].Reason, m.Panics[0].Fn)
			return
		}
		c.Ok("no-panic", 1)
		c.Unit("analyses", 1)
	})
}

func (e *stdEnv) symbol(ver int) {
	m := e.m
	m.ScoreAbort = true
	t := e.must("Symbol", absint.MkSymStr(symBytes(m, oracle.Cap(ver, 0, oracle.Byte))), absint.Int(int64(ver)))
	m.ScoreAbort = false
	if m.PC = m.B.And(m.PC, m.NilCond(tup(t, 1))); m.PC != bdd.True {
		panic(noReturn{"Symbol"})
	}
	e.mat = tup(t, 0)
	e.mat = m.FreshenSome(e.mat, e.free)
	ty := e.must("Types")
	e.find, e.data = int(tup(ty, 0).N), int(tup(ty, 1).N)
	e.n = 4*ver + 17
	e.set = make([][]bdd.Node, e.n)
	e.typ = make([][]int, e.n)
	for y := range e.set {
		e.set[y] = make([]bdd.Node, e.n)
		e.typ[y] = make([]int, e.n)
	}
	e.must("Modules", e.mat, hostFn("modules", func(m *absint.M, a []absint.V) (absint.V, bool) {
		x, y := int(a[0].N), int(a[1].N)
		if x >= e.n || y >= e.n || a[3].K != absint.KInt {
			m.Undecided("module (%d,%d)", x, y)
		}
		e.set[y][x], e.typ[y][x] = a[2].Node(), int(a[3].N)
		return absint.V{}, false
	}))
}

func u8(n int) absint.V { return absint.MkInt(int64(n), 8, false) }

func (e *stdEnv) symColor(name string) rgb {
	return rgb{e.m.SymInt(name+".r", 8, false, 8), e.m.SymInt(name+".g", 8, false, 8), e.m.SymInt(name+".b", 8, false, 8), u8(255)}
}

func conCol(r, g, b, a int) rgb { return rgb{u8(r), u8(g), u8(b), u8(a)} }

var white, black = conCol(255, 255, 255, 255), conCol(0, 0, 0, 255)

func (e *stdEnv) opt(name string, args ...absint.V) absint.V { return e.must(name, args...) }

func (e *stdEnv) opts(os ...absint.V) absint.V {
	l := e.must("None")
	for _, o := range os {
		l = e.must("Add", l, o)
	}
	return l
}

func (e *stdEnv) ints(xs ...int) absint.V {
	return e.m.NewSlice(intType, ints(xs...), "ints")
}

func (e *stdEnv) bytes(bs []absint.V) absint.V { return e.m.NewSlice(byteType, bs, "bytes") }

// draw writes the symbol and reads the image.
func (e *stdEnv) draw(o absint.V) (b [4]int, px [][]rgb) {
	t := e.must("Draw", e.mat, o)
	return e.image(t)
}

func (e *stdEnv) image(t absint.V) (b [4]int, px [][]rgb) {
	m := e.m
	if nc := m.NilCond(tup(t, 2)); m.B.And(m.PC, m.B.Not(nc)) != bdd.False {
		e.fail("writes", "Write may return an error although the encoder does not")
		return
	}
	if k := tup(t, 1); k.K != absint.KInt || k.N != 1 {
		e.fail("writes", "the image is encoded %v times", k)
		return
	}
	e.c.Ok("writes", 1)
	return e.pixels(tup(t, 0))
}

func (e *stdEnv) pixels(img absint.V) (b [4]int, px [][]rgb) {
	b, raw, ok := e.m.Pixels(img)
	if !ok {
		panic(noReturn{"At"})
	}
	for _, r := range raw {
		row := make([]rgb, len(r))
		for i := range r {
			row[i] = rgb(r[i])
		}
		px = append(px, row)
	}
	return b, px
}

// same decides that two colours are equal whenever the program gets there.
func (e *stdEnv) same(a, b rgb) bool {
	m := e.m
	if isTransparent(b) {
		return m.B.And(m.PC, m.B.Not(m.Eq(a[3], b[3]))) == bdd.False
	}
	pc := m.PC
	if b[3].K != absint.KInt {
		// the colour of transparent pixels does not matter
		if pc = m.B.And(pc, m.B.Not(m.Eq(b[3], u8(0)))); m.B.And(m.PC, m.B.Not(m.Eq(a[3], b[3]))) != bdd.False {
			return false
		}
	}
	for i := range a {
		if absint.Ident(a[i], b[i]) {
			continue
		}
		if m.B.And(pc, m.B.Not(m.Eq(a[i], b[i]))) != bdd.False {
			return false
		}
	}
	return true
}

func (e *stdEnv) merge(c bdd.Node, a, b rgb) rgb {
	var o rgb
	for i := range o {
		o[i] = e.m.Merge(c, a[i], b[i])
	}
	return o
}

// con is a value where the program is now.
func (e *stdEnv) con(v absint.V) absint.V {
	m := e.m
	v = m.Simplify(v)
	if v.K != absint.KBV {
		return v
	}
	bs := append([]bdd.Node(nil), m.Bits(v)...)
	for i, b := range bs {
		if m.B.And(m.PC, b) == bdd.False {
			bs[i] = bdd.False
		} else if m.B.And(m.PC, m.B.Not(b)) == bdd.False {
			bs[i] = bdd.True
		}
	}
	return m.FromBits(bs, v.S)
}

func (c rgb) String() string { return fmt.Sprint([4]absint.V(c)) }

func (e *stdEnv) show(c rgb) string {
	s := ""
	for i := range c {
		s += e.m.Pretty(c[i]) + " "
	}
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// geo is the expected geometry of an image.
type geo struct{ bw, t, r, b, l int }

func (g geo) size(n int) (int, int) { return n*g.bw + g.l + g.r, n*g.bw + g.t + g.b }

// at gives the module under a pixel, or false on the border.
func (g geo) at(px, py, n int) (x, y int, ok bool) {
	px, py = px-g.l, py-g.t
	if px < 0 || py < 0 || px >= n*g.bw || py >= n*g.bw {
		return 0, 0, false
	}
	return px / g.bw, py / g.bw, true
}

// checkSize compares the image's bounds.
func (e *stdEnv) checkSize(b [4]int, g geo) bool {
	w, h := g.size(e.n)
	if b != [4]int{0, 0, w, h} {
		e.fail("image-size", "the image is %v instead of %d x %d", b, w, h)
		return false
	}
	e.c.Ok("image-size", 1)
	return true
}

// checkImage compares every pixel with want.
func (e *stdEnv) checkImage(rule string, px [][]rgb, want func(x, y int) (rgb, bool)) bool {
	n := 0
	for y := range px {
		for x := range px[y] {
			w, ok := want(x, y)
			if !ok {
				continue
			}
			n++
			if !e.same(px[y][x], w) {
				e.fail(rule, "pixel (%d,%d) is %s instead of %s", x, y, e.show(px[y][x]), e.show(w))
				return false
			}
		}
	}
	e.c.Ok(rule, n)
	return true
}

// plain is the image without decoration.
func (e *stdEnv) plain(g geo, fg, bg rgb) func(x, y int) (rgb, bool) {
	cache := make(map[[2]int]rgb)
	return func(px, py int) (rgb, bool) {
		x, y, ok := g.at(px, py, e.n)
		if !ok {
			return bg, true
		}
		if c, ok := cache[[2]int{x, y}]; ok {
			return c, true
		}
		c := e.merge(e.set[y][x], fg, bg)
		cache[[2]int{x, y}] = c
		return c, true
	}
}

func init() {
	register(&Check{ID: "W01", Title: "The standard image is the module grid: size, borders, colours",
		Rule: "Abstract interpretation of the standard writer on symbols whose data modules are all free bits, for block widths and border arguments of every form: the encoder gets one image of exactly the expected size, every border pixel has the background colour, and every pixel of every module's square has the foreground colour exactly when the module is set.",
		Min:  200_000, Run: func(c *Ctx) {
			c.Assume(ggAssume)
			type job struct {
				ver, width int
				border     []int
			}
			var jobs []job
			for _, w := range []int{none, 0, 1, 2, 3, 4, 5, 7, 8, 13, 20} {
				jobs = append(jobs, job{1, w, []int{3, 5, 7, 2}})
			}
			for _, b := range [][]int{nil, {}, {0}, {6}, {4, 9}, {1, 2, 3}, {1, 2, 3, 4}, {9, 8, 7, 6}, {0, 0, 0, 11}, {0, 5, 0, 0}, {1, 2, 3, 4, 5}} {
				jobs = append(jobs, job{1, 3, b})
			}
			jobs = append(jobs, job{2, 2, []int{0, 1, 2, 3}}, job{5, 1, []int{2}}, job{7, 1, []int{1, 0}}, job{14, 1, []int{0}})
			jobs = append(jobs, job{1, 1, []int{300, 0, 0, 700}}, job{1, 2, []int{1000}})
			for v := 25; v <= 40; v += 5 {
				jobs = append(jobs, job{v, 1 + v%2, []int{v % 3, v % 5, v % 2, v % 7}})
			}
			for v := 3; v <= 20; v++ {
				jobs = append(jobs, job{v, 1 + v%4, []int{v % 3, v % 5, v % 2, v % 7}})
			}
			for w := 9; w <= 60; w += 3 {
				jobs = append(jobs, job{1, w, []int{w % 3, w % 5, w % 2, w % 7}})
			}
			if c.Thorough() {
				for v := 21; v <= 40; v++ {
					jobs = append(jobs, job{v, 1 + v%4, []int{v % 3, v % 5, v % 2, v % 7}})
				}
				for w := 64; w <= 100; w += 9 {
					jobs = append(jobs, job{1, w, []int{w % 3, w % 5, w % 2, w % 7}})
				}
			}
			c.Std()
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				withStd(c, fmt.Sprintf("version %d, block width %s, borders %v", j.ver, optInt(j.width), j.border), j.ver, func(e *stdEnv) {
					g := geo{bw: j.width, t: 40, r: 40, b: 40, l: 40}
					var os []absint.V
					if j.width == none || j.width == 0 {
						g.bw = 20
					}
					if j.width != none {
						os = append(os, e.opt("OWidth", u8(j.width)))
					}
					if j.border != nil {
						os = append(os, e.opt("OBorder", e.ints(j.border...)))
					}
					switch b := j.border; {
					case len(b) == 1:
						g.t, g.r, g.b, g.l = b[0], b[0], b[0], b[0]
					case len(b) == 2 || len(b) == 3:
						g.t, g.r, g.b, g.l = b[0], b[1], b[0], b[1]
					case len(b) >= 4:
						g.t, g.r, g.b, g.l = b[0], b[1], b[2], b[3]
					}
					b, px := e.draw(e.opts(os...))
					if px == nil || !e.checkSize(b, g) {
						return
					}
					e.checkImage("module-grid", px, e.plain(g, black, white))
				})
			})
		}})
}

func optInt(n int) string {
	if n == none {
		return "not set"
	}
	return fmt.Sprint(n)
}
