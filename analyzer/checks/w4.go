package checks

import (
	"fmt"
	"go/token"
	"math"
	"strings"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"
)

// bitGray makes a pixel that is white when n holds and black otherwise.
func (e *stdEnv) bitGray(n bdd.Node) [4]absint.V {
	v := e.m.FromBits([]bdd.Node{n, n, n, n, n, n, n, n}, false)
	return [4]absint.V{v, v, v, u8(255)}
}

// halftoneBits supplies a free black or white pixel at every place of the scaled picture.
func (e *stdEnv) halftoneBits() func(x, y int) bdd.Node {
	bits := map[[2]int]bdd.Node{}
	at := func(x, y int) bdd.Node {
		k := [2]int{x, y}
		if n, ok := bits[k]; ok {
			return n
		}
		n := e.m.B.NewVar(fmt.Sprintf("halftone(%d,%d)", x, y))
		bits[k] = n
		return n
	}
	e.m.ScaleHook = func(x, y int) [4]absint.V { return e.bitGray(at(x, y)) }
	return at
}

// shaped is a built-in or shipped shape.
type shaped struct {
	name string
	opt  func(e *stdEnv) []absint.V
}

func blockShape(name string, k int, v float64) shaped {
	return shaped{name, func(e *stdEnv) []absint.V {
		return e.list("OShape", []absint.V{e.must("Shape", absint.Int(9), absint.Flt(0), absint.Int(int64(k)), absint.Flt(v))})
	}}
}

func finderShape(name string, k int) shaped {
	return shaped{name, func(e *stdEnv) []absint.V {
		return e.list("OShape", []absint.V{e.must("Shape", absint.Int(int64(k)), absint.Flt(0), absint.Int(6), absint.Flt(1))})
	}}
}

var shapesAll = []shaped{
	{"default", func(e *stdEnv) []absint.V { return nil }},
	{"nil shape", func(e *stdEnv) []absint.V { return []absint.V{e.opt("OShapeNil")} }},
	{"circle", func(e *stdEnv) []absint.V { return []absint.V{e.opt("OCircle")} }},
	blockShape("LiquidBlock", 0, 0), blockShape("HStripeBlock(0.85)", 1, 0.85), blockShape("HStripeBlock(0.6)", 1, 0.6), blockShape("VStripeBlock(0.85)", 2, 0.85), blockShape("VStripeBlock(1)", 2, 1),
	blockShape("ChainBlock", 3, 0), blockShape("VChainBlock", 4, 0), blockShape("HChainBlock", 5, 0),
	blockShape("SquareBlocks(0.5)", 6, 0.5), blockShape("SquareBlocks(1)", 6, 1), blockShape("CircleBlocks(0.5)", 7, 0.5), blockShape("CircleBlocks(1)", 7, 1),
	finderShape("RoundedFinder", 8), finderShape("SquareFinder", 9),
}

// maskGrids draws one module with a shipped shape for all 512 states of its
// neighbourhood: grid[mask][y][x] with a margin of half a block.
func (e *stdEnv) maskGrids(k int, v float64, bw int) (grids [512][][]bool, ok bool) {
	m := e.m
	const mx, my = 13, 13
	g := geo{bw, bw, bw, bw, bw}
	x0, y0 := mx*bw+g.l, my*bw+g.t
	o := e.opts(append(e.frame(g), e.opt("OShape", e.must("OneShape", absint.Flt(float64(x0)), absint.Flt(float64(y0)), absint.Int(int64(k)), absint.Flt(v))))...)
	b, px := e.draw(o)
	if px == nil || !e.checkSize(b, g) {
		return grids, false
	}
	for y := range px {
		for x := range px[y] {
			if x >= x0-bw && x < x0+2*bw && y >= y0-bw && y < y0+2*bw {
				continue
			}
			if !e.same(px[y][x], white) {
				e.fail("shape-area", "one module's shape reaches pixel (%d,%d), more than a module away", x-x0, y-y0)
				return grids, false
			}
		}
	}
	e.c.Ok("shape-area", 1)
	for mask := range grids {
		c := bdd.True
		for i := 0; i < 9; i++ {
			n := e.set[my+i/3-1][mx+i%3-1]
			if mask>>i&1 == 0 {
				n = m.B.Not(n)
			}
			c = m.B.And(c, n)
		}
		gr := make([][]bool, 3*bw)
		bad := !e.under(c, func() {
			for y := range gr {
				gr[y] = make([]bool, 3*bw)
				for x := range gr[y] {
					p := px[y0-bw+y][x0-bw+x]
					switch {
					case e.same(p, black):
						gr[y][x] = true
					case !e.same(p, white):
						e.fail("shape-colour", "pixel (%d,%d) of the shape is %s", x-bw, y-bw, e.show(p))
						ok = false
						return
					}
				}
			}
		})
		if bad {
			e.m.Undecided("the neighbourhood %09b is impossible", mask)
		}
		grids[mask] = gr
	}
	return grids, true
}

func transpose(g [][]bool) [][]bool {
	o := make([][]bool, len(g))
	for y := range o {
		o[y] = make([]bool, len(g))
		for x := range o[y] {
			o[y][x] = g[x][y]
		}
	}
	return o
}

// own blanks the squares of set neighbours.
func own(g [][]bool, mask, bw int) [][]bool {
	o := make([][]bool, len(g))
	for y := range g {
		o[y] = append([]bool(nil), g[y]...)
		for x := range o[y] {
			if k := y/bw*3 + x/bw; k != 4 && mask>>k&1 == 1 {
				o[y][x] = false
			}
		}
	}
	return o
}

func transMask(m int) int {
	o := 0
	for i := 0; i < 9; i++ {
		if m>>i&1 == 1 {
			o |= 1 << (i%3*3 + i/3)
		}
	}
	return o
}

// gridDiff compares two drawings; single pixels whose centre may lie exactly
// on a curve are not counted.
func gridDiff(a, b [][]bool) string {
	n, s := 0, ""
	for y := range a {
		for x := range a[y] {
			if a[y][x] != b[y][x] {
				if n++; n == 1 {
					s = fmt.Sprintf("pixel (%d,%d)", x, y)
				}
			}
		}
	}
	if n <= 2 {
		return ""
	}
	return s
}

func maskName(m int) string {
	var s []string
	for i, n := range []string{"top-left", "top", "top-right", "left", "self", "right", "bottom-left", "bottom", "bottom-right"} {
		if m>>i&1 == 1 {
			s = append(s, n)
		}
	}
	if s == nil {
		return "none"
	}
	return strings.Join(s, "+")
}

// gradient is an option with a gradient of two colours.
func (e *stdEnv) gradient() absint.V {
	t := e.must("Gradient", absint.Flt(30), e.m.NewSlice(fltType, []absint.V{absint.Flt(0.9), absint.Flt(0)}, "stops"), e.bytes([]absint.V{u8(1), u8(200), u8(3), u8(250), u8(9), u8(90)}))
	return e.opt("OGradient", tup(t, 0))
}

func init() {
	register(&Check{ID: "W09", Title: "Writing does not change the writer; writers are independent",
		Rule: "A writer with many options writes one symbol, another and the first again: equal symbols give pixel-equal images, a fresh writer gives the same, Attribute is unchanged, an image handed out earlier keeps its pixels, a default writer made in between is a default writer; two writers made from the same option values writing at the same time touch no memory without ordering (happens-before analysis) and give the images they give alone.",
		Min:  30_000, Run: func(c *Ctx) {
			c.Assume(ggAssume)
			type cfg struct {
				name string
				f    func(e *stdEnv) []absint.V
			}
			logo := func(e *stdEnv) absint.V { im, _ := e.pic("logo", 0, 0, 7, 6); return e.opt("OLogo", im) }
			half := func(e *stdEnv) absint.V {
				e.halftoneBits()
				im, _ := e.pic("half", 0, 0, 2, 2)
				return e.opt("OHalftone", im)
			}
			grad := func(e *stdEnv) absint.V { return e.gradient() }
			colours := func(e *stdEnv) []absint.V {
				return []absint.V{e.opt("OFg", e.rgbArgs(e.symColor("fg"))...), e.opt("OBg", e.rgbArgs(e.symColor("bg"))...)}
			}
			safe := func(e *stdEnv) absint.V { return e.opt("OSafeZone") }
			trans := func(e *stdEnv) absint.V { return e.opt("OTransparent") }
			circle := func(e *stdEnv) absint.V { return e.opt("OCircle") }
			cfgs := []cfg{
				{"default", func(e *stdEnv) []absint.V { return nil }},
				{"colours", func(e *stdEnv) []absint.V {
					return []absint.V{e.opt("OFg", e.rgbArgs(e.symColor("fg"))...), e.opt("OBg", e.rgbArgs(e.symColor("bg"))...)}
				}},
				{"transparent, colours", func(e *stdEnv) []absint.V {
					return []absint.V{e.opt("OFg", e.rgbArgs(e.symColor("fg"))...), e.opt("OBg", e.rgbArgs(e.symColor("bg"))...), e.opt("OTransparent")}
				}},
				{"logo, safe zone", func(e *stdEnv) []absint.V { return []absint.V{logo(e), e.opt("OSafeZone")} }},
				{"circle, logo", func(e *stdEnv) []absint.V { return []absint.V{e.opt("OCircle"), logo(e)} }},
				{"halftone", func(e *stdEnv) []absint.V { return []absint.V{half(e)} }},
				{"gradient, logo", func(e *stdEnv) []absint.V { return []absint.V{grad(e), logo(e)} }},
				{"liquid shape", func(e *stdEnv) []absint.V {
					return e.list("OShape", []absint.V{e.must("Shape", absint.Int(8), absint.Flt(0), absint.Int(0), absint.Flt(0))})
				}},
			}
			pairs := []cfg{
				{"transparent, logo, safe zone", func(e *stdEnv) []absint.V { return []absint.V{trans(e), logo(e), safe(e)} }},
				{"transparent, halftone, logo", func(e *stdEnv) []absint.V { return []absint.V{trans(e), half(e), logo(e)} }},
				{"transparent, gradient, circle", func(e *stdEnv) []absint.V { return []absint.V{trans(e), grad(e), circle(e)} }},
				{"gradient, logo, safe zone, colours", func(e *stdEnv) []absint.V {
					return append([]absint.V{grad(e), logo(e), safe(e), e.opt("OBg", u8(9), u8(80), u8(99), u8(255))})
				}},
				{"halftone, colours, logo, safe zone", func(e *stdEnv) []absint.V {
					return append(colours(e), half(e), logo(e), safe(e))
				}},
				{"transparent, circle, logo, safe zone, colours", func(e *stdEnv) []absint.V {
					return append(colours(e), trans(e), circle(e), logo(e), safe(e))
				}},
				{"halftone, circle", func(e *stdEnv) []absint.V { return []absint.V{half(e), circle(e)} }},
			}
			eqImg := func(e *stdEnv, what string, a, b [][]rgb) bool {
				if len(a) != len(b) || len(a) == 0 || len(a[0]) != len(b[0]) {
					e.fail("same-image", "%s: the images differ in size", what)
					return false
				}
				for y := range a {
					for x := range a[y] {
						if !e.same(a[y][x], b[y][x]) {
							e.fail("same-image", "%s: pixel (%d,%d) is %s and %s", what, x, y, e.show(a[y][x]), e.show(b[y][x]))
							return false
						}
					}
				}
				e.c.Ok("same-image", len(a)*len(a[0]))
				return true
			}
			write := func(e *stdEnv, w absint.V, mat absint.V) (absint.V, [][]rgb) {
				t := e.must("WriteWith", tup(w, 0), tup(w, 1), mat)
				_, px := e.image(t)
				return t, px
			}
			attr := func(e *stdEnv, o absint.V) []absint.V { return e.must("AttrOf", o, absint.Int(29)).X.([]absint.V) }
			c.Std()
			c.Par(2*len(cfgs)+len(pairs), func(i int) {
				var j cfg
				if i < 2*len(cfgs) {
					j = cfgs[i/2]
				} else {
					j = pairs[i-2*len(cfgs)]
				}
				if i%2 == 0 || i >= 2*len(cfgs) {
					withStd(c, "in turn, "+j.name, 1, func(e *stdEnv) {
						g := geo{3, 1, 2, 3, 4}
						mat1, set1 := e.mat, e.set
						e.symbol(2)
						mat2 := e.mat
						_ = set1
						dw := e.must("Writer", e.opts())
						d0 := attr(e, tup(dw, 0))
						o := e.opts(append(e.frame(g), j.f(e)...)...)
						w := e.must("Writer", o)
						a0 := attr(e, tup(w, 0))
						t1, p1 := write(e, w, mat1)
						if p1 == nil {
							return
						}
						a1 := attr(e, tup(w, 0))
						for k := range a0 {
							if !absint.Ident(a0[k], a1[k]) {
								e.fail("attribute", "Attribute changes from %v to %v by writing", a0, a1)
								return
							}
						}
						d1 := attr(e, tup(e.must("Writer", e.opts()), 0))
						for k := range d0 {
							if !absint.Ident(d0[k], d1[k]) {
								e.fail("attribute", "the defaults change from %v to %v by writing", d0, d1)
								return
							}
						}
						_, p2 := write(e, w, mat2)
						_, p3 := write(e, w, mat1)
						if p2 == nil || p3 == nil || !eqImg(e, "the same symbol again", p1, p3) {
							return
						}
						// the image handed out first
						_, p1b := e.image(t1)
						if !eqImg(e, "the first image after later writes", p1, p1b) {
							return
						}
						w2 := e.must("Writer", o)
						_, q2 := write(e, w2, mat2)
						if q2 == nil || !eqImg(e, "a fresh writer with the same options", p2, q2) {
							return
						}
						dwr := e.must("Writer", e.opts(e.frame(g)...))
						_, r := write(e, dwr, mat2)
						if r != nil {
							e.checkImage("defaults", r, e.plain(g, black, white))
						}
					})
					return
				}
				for _, s := range []absint.SchedMode{absint.SchedFIFO, absint.SchedLIFO, absint.SchedEager, absint.SchedYield} {
					s := s
					withStd(c, "at the same time, "+j.name+", order "+schedName[s], 1, func(e *stdEnv) {
						m := e.m
						m.Sched = s
						g := geo{2, 1, 2, 3, 4}
						o := e.opts(append(e.frame(g), j.f(e)...)...)
						w0 := e.must("Writer", o)
						_, p0 := write(e, w0, e.mat)
						w1, w2 := e.must("Writer", o), e.must("Writer", o)
						m.RaceOn = true
						t := e.must("WriteTwo", tup(w1, 0), tup(w2, 0), e.mat, e.mat)
						m.RaceOn = false
						m.Drain(0)
						for _, r := range m.Races {
							e.fail("race", "%s", r)
							return
						}
						for k := 0; k < 2; k++ {
							if m.B.And(m.PC, m.B.Not(m.NilCond(tup(t, k)))) != bdd.False {
								e.fail("writes", "a concurrent write fails")
								return
							}
						}
						e.c.Ok("race", 1)
						for _, w := range []absint.V{w1, w2} {
							_, px := e.pixels(e.must("ImgOf", tup(w, 1)))
							if p0 == nil || !eqImg(e, "two writers at once", p0, px) {
								return
							}
						}
					})
				}
			})
		}})

	register(&Check{ID: "W10", Title: "Halftone images keep every module's middle",
		Rule: "With a halftone picture and a block width that is a multiple of three, for free modules and a scaled picture of free black and white pixels: the middle ninth of every data module has the module's colour, each of its other eight ninths is black or white (transparent with a transparent background) as the picture is there, modules of other types are drawn as without halftone; the whole picture is scaled onto three by three points per module.",
		Min:  10_000, Run: func(c *Ctx) {
			c.Assume(ggAssume)
			c.Assume("golang.org/x/image/draw scalers give any pixels (free black or white here)")
			type job struct {
				ver int
				g   geo
				cfg int
			}
			jobs := []job{{40, geo{3, 0, 1, 2, 0}, 1}, {25, geo{3, 1, 0, 0, 2}, 2}, {1, geo{3, 1, 2, 3, 4}, 0}, {1, geo{6, 0, 0, 0, 0}, 1}, {2, geo{3, 2, 1, 0, 3}, 2}, {1, geo{9, 0, 1, 1, 0}, 3}, {7, geo{3, 1, 1, 1, 1}, 0}}
			for v := 2; v < 12; v++ {
				jobs = append(jobs, job{v, geo{3 * (1 + v%2), v % 3, v % 4, v % 5, v % 6}, v % 4})
			}
			if c.Thorough() {
				for v := 12; v < 40; v++ {
					jobs = append(jobs, job{v, geo{3 * (1 + v%2), v % 3, v % 4, v % 5, v % 6}, v % 4})
				}
			}
			c.Std()
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				withStd(c, fmt.Sprintf("version %d, block %d, variant %d", j.ver, j.g.bw, j.cfg), j.ver, func(e *stdEnv) {
					m := e.m
					at := e.halftoneBits()
					im, _ := e.pic("half", 2, -1, 5, 4)
					os := e.frame(j.g)
					fg, bg := black, white
					light := white
					if j.cfg >= 1 {
						fg, bg = e.symColor("fg"), e.symColor("bg")
						os = append(os, e.opt("OFg", e.rgbArgs(fg)...), e.opt("OBg", e.rgbArgs(bg)...))
					}
					if j.cfg >= 2 {
						os = append(os, e.opt("OTransparent"))
						bg = conCol(0, 0, 0, 0)
						light = bg
					}
					os = append(os, e.opt("OHalftone", im))
					b, px := e.draw(e.opts(os...))
					if px == nil || !e.checkSize(b, j.g) {
						return
					}
					n := 0
					for _, ev := range m.Events {
						if !strings.HasSuffix(ev.Name, ".Scale") {
							continue
						}
						n++
						src, _ := m.ImageBounds(ev.Args[3])
						if src != [4]int{2, -1, 7, 3} || m.RectOf(ev.Args[4]) != src || m.RectOf(ev.Args[2]) != [4]int{0, 0, 3 * e.n, 3 * e.n} {
							e.fail("scale", "the rectangle %v of the picture is scaled onto %v; the picture is %v and there are %d x %d points", m.RectOf(ev.Args[4]), m.RectOf(ev.Args[2]), src, 3*e.n, 3*e.n)
							return
						}
					}
					if n == 0 {
						e.fail("scale", "the picture is not scaled")
						return
					}
					c.Ok("scale", n)
					plain := e.plain(j.g, fg, bg)
					e.checkImage("halftone", px, func(x, y int) (rgb, bool) {
						mx, my, ok := j.g.at(x, y, e.n)
						if !ok || e.typ[my][mx] != e.data {
							return plain(x, y)
						}
						i, k := (x-j.g.l)%j.g.bw*3/j.g.bw, (y-j.g.t)%j.g.bw*3/j.g.bw
						if i == 1 && k == 1 {
							return plain(x, y)
						}
						return e.merge(at(3*mx+i, 3*my+k), light, black), true
					})
				})
			})
		}})

	register(&Check{ID: "W17", Title: "Shipped shapes keep modules readable and keep their parameters",
		Rule: "For every shape and its parameters: in whole images with free data modules the pixels at the middle of each module have its colour; and from the drawing of one module in all 512 states of its neighbourhood: an unset module draws nothing, stripes and chains reach the middle of exactly the edges shared with set neighbours in their directions, the liquid block those of all four, vertical stripes and chains are the transposed horizontal ones, stripe width and block size are the given ratio (defaults outside the documented range), rounded finders are symmetric, Assemble gives each function its role, and a shape used for images of several sizes draws each as a fresh one does.",
		Min:  40_000, Run: func(c *Ctx) {
			c.Assume(ggAssume)
			c.Std()
			bws := []int{3, 4, 5, 7, 8, 10, 20}
			vers := []int{1, 2}
			if c.Thorough() {
				bws = []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 20, 25, 33, 50}
			}
			type job struct {
				s       shaped
				bw, ver int
			}
			var jobs []job
			for _, s := range shapesAll {
				for k, b := range bws {
					jobs = append(jobs, job{s, b, vers[k%len(vers)]})
				}
			}
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				withStd(c, fmt.Sprintf("%s, block %d, version %d", j.s.name, j.bw, j.ver), j.ver, func(e *stdEnv) {
					g := geo{j.bw, j.bw, j.bw, j.bw, j.bw}
					fg, bg := conCol(10, 20, 30, 255), conCol(200, 210, 220, 255)
					os := append(e.frame(g), e.opt("OFg", e.rgbArgs(fg)...), e.opt("OBg", e.rgbArgs(bg)...))
					b, px := e.draw(e.opts(append(os, j.s.opt(e)...)...))
					if px == nil || !e.checkSize(b, g) {
						return
					}
					plain := e.plain(g, fg, bg)
					e.checkImage("middle", px, func(x, y int) (rgb, bool) {
						_, _, ok := g.at(x, y, e.n)
						dx, dy := (x-g.l)%g.bw, (y-g.t)%g.bw
						mid := func(d int) bool { return d == g.bw/2 || d == (g.bw-1)/2 }
						if !ok || !mid(dx) || !mid(dy) {
							return rgb{}, false
						}
						return plain(x, y)
					})
					// with odd widths no pixel centre lies on the curve itself
					if j.s.name == "RoundedFinder" && j.bw%2 == 1 {
						for _, f := range [][2]int{{0, 0}, {e.n - 7, 0}, {0, e.n - 7}} {
							w := 7 * g.bw
							x0, y0 := f[0]*g.bw+g.l, f[1]*g.bw+g.t
							for y := 0; y < w; y++ {
								for x := 0; x < w; x++ {
									p := px[y0+y][x0+x]
									if !e.same(p, px[y0+y][x0+w-1-x]) || !e.same(p, px[y0+w-1-y][x0+x]) || !e.same(p, px[g.t+y][g.l+x]) {
										e.fail("finder-symmetry", "pixel (%d,%d) of the finder at module (%d,%d) differs from its mirror image or from the first finder", x, y, f[0], f[1])
										return
									}
								}
							}
							c.Ok("finder-symmetry", w*w)
						}
					}
				})
			})
			// a shape used for images of different sizes
			c.Par(len(shapesAll), func(i int) {
				s := shapesAll[i]
				withStd(c, s.name+" used again", 1, func(e *stdEnv) {
					fg, bg := conCol(10, 20, 30, 255), conCol(200, 210, 220, 255)
					again := s.opt(e)
					img := func(bw int, o []absint.V) ([4]int, [][]rgb) {
						os := append(e.frame(geo{bw, 1, 2, 3, 4}), e.opt("OFg", e.rgbArgs(fg)...), e.opt("OBg", e.rgbArgs(bg)...))
						return e.draw(e.opts(append(os, o...)...))
					}
					for _, bw := range []int{5, 11, 3, 5} {
						b1, p1 := img(bw, again)
						b2, p2 := img(bw, s.opt(e))
						if p1 == nil || p2 == nil {
							return
						}
						if b1 != b2 {
							e.fail("shape-reused", "the image of block width %d is %v with a shape used before and %v with a fresh one", bw, b1, b2)
							return
						}
						for y := range p1 {
							for x := range p1[y] {
								if !e.same(p1[y][x], p2[y][x]) {
									e.fail("shape-reused", "pixel (%d,%d) of the image of block width %d is %s with a shape used before and %s with a fresh one", x, y, bw, e.show(p1[y][x]), e.show(p2[y][x]))
									return
								}
							}
						}
						c.Ok("shape-reused", len(p1)*len(p1[0]))
					}
				})
			})
			const bw = 20
			type one struct {
				name    string
				k       int
				v       float64
				dirs    string // where it connects
				exact   bool
				like    float64 // same as this parameter
				half    float64 // half width of the connection, in modules
				square  float64
				radius  float64
				isBlock bool
			}
			no := math.NaN()
			ones := []one{
				{"LiquidBlock", 0, 0, "trbl", false, no, no, no, no, false},
				{"ChainBlock", 3, 0, "trbl", true, no, no, no, 0.45, false},
				{"VChainBlock", 4, 0, "tb", true, no, no, no, 0.425, false},
				{"HChainBlock", 5, 0, "lr", true, no, no, no, 0.425, false},
			}
			for _, v := range []float64{0.6, 0.7, 0.85, 0.95, 1} {
				ones = append(ones, one{"HStripeBlock", 1, v, "lr", v < 0.9, no, v / 2, no, v / 2, false}, one{"VStripeBlock", 2, v, "tb", v < 0.9, no, v / 2, no, v / 2, false})
			}
			for _, v := range []float64{0.59, 0.5, 1.01, 1.5, 0, -1, 7} {
				ones = append(ones, one{"HStripeBlock", 1, v, "lr", true, 0.85, 0.425, no, 0.425, false}, one{"VStripeBlock", 2, v, "tb", true, 0.85, 0.425, no, 0.425, false})
			}
			for _, v := range []float64{0.1, 0.35, 0.5, 0.8, 1} {
				ones = append(ones, one{"SquareBlocks", 6, v, "", false, no, no, v / 2, no, true}, one{"CircleBlocks", 7, v, "", false, no, no, no, v / 2, true})
			}
			for _, v := range []float64{0.09, 1.2, 0, -3} {
				ones = append(ones, one{"SquareBlocks", 6, v, "", false, 1, no, 0.5, no, true}, one{"CircleBlocks", 7, v, "", false, 1, no, no, 0.5, true})
			}
			ones = append(ones, one{"SquareFinder", 9, 0, "", false, no, no, 0.5, no, true}, one{"RoundedFinder", 8, 0, "", false, no, no, no, no, false})
			grids := make([][512][][]bool, len(ones))
			have := make([]bool, len(ones))
			c.Par(len(ones), func(i int) {
				o := ones[i]
				withStd(c, fmt.Sprintf("%s(%v) in all neighbourhoods", o.name, o.v), 1, func(e *stdEnv) {
					gs, ok := e.maskGrids(o.k, o.v, bw)
					if !ok {
						return
					}
					n := 0
					for mask, g := range gs {
						on := func(x, y int) bool { return g[bw+y][bw+x] }
						any := false
						for y := range g {
							for x := range g[y] {
								any = any || g[y][x]
							}
						}
						if mask>>4&1 == 0 {
							if any {
								e.fail("unset-draws", "an unset module draws foreground pixels (neighbours %s)", maskName(mask))
								return
							}
							n++
							continue
						}
						if !on(bw/2, bw/2) || !on(bw/2-1, bw/2-1) {
							e.fail("set-middle", "the middle of a set module is empty (neighbours %s)", maskName(mask))
							return
						}
						n++
						for d, dir := range "tlrb" {
							bit := []int{1, 3, 5, 7}[d]
							p := [][2]int{{bw / 2, 0}, {0, bw / 2}, {bw - 1, bw / 2}, {bw / 2, bw - 1}}[d]
							if o.dirs == "" {
								continue
							}
							want := mask>>bit&1 == 1 && strings.ContainsRune(o.dirs, dir)
							if got := on(p[0], p[1]); got != want && (want || o.exact) {
								e.fail("connection", "with neighbours %s the middle of the edge %q is drawn=%v instead of %v", maskName(mask), string(dir), got, want)
								return
							}
							if want && !math.IsNaN(o.half) {
								// the stripe's width along that edge
								k := 0
								for q := 0; q < bw; q++ {
									x, y := p[0], q
									if dir == 't' || dir == 'b' {
										x, y = q, p[1]
									}
									if on(x, y) {
										k++
									}
								}
								if math.Abs(float64(k)-2*o.half*bw) > 1 {
									e.fail("stripe-width", "with neighbours %s the stripe is %d of %d pixels wide instead of %v", maskName(mask), k, bw, 2*o.half*bw)
									return
								}
								n++
							}
							n++
						}
						for y := -bw; y < 2*bw; y++ {
							for x := -bw; x < 2*bw; x++ {
								ex, ey := math.Abs(float64(x)+0.5-bw/2), math.Abs(float64(y)+0.5-bw/2)
								got := on(x, y)
								bad := ""
								switch {
								case !math.IsNaN(o.square):
									lim := o.square * bw
									if math.Abs(math.Max(ex, ey)-lim) > 0.5 && got != (math.Max(ex, ey) < lim) {
										bad = "a centred square"
									}
								case !math.IsNaN(o.radius):
									r := math.Hypot(ex, ey)
									if r < o.radius*bw-0.5 && !got {
										bad = "at least a centred disc"
									}
									if o.isBlock && r > o.radius*bw+0.5 && got {
										bad = "a centred disc"
									}
								}
								if bad != "" {
									e.fail("shape-size", "with neighbours %s pixel (%d,%d) is drawn=%v: the shape is not %s of the given size", maskName(mask), x, y, got, bad)
									return
								}
							}
						}
						n++
					}
					c.Ok("neighbourhoods", n)
					grids[i], have[i] = gs, true
				})
			})
			find := func(name string, v float64) int {
				for i, o := range ones {
					if o.name == name && o.v == v && have[i] {
						return i
					}
				}
				return -1
			}
			pair := func(rule, what string, i, k int, tr bool) {
				if i < 0 || k < 0 {
					return
				}
				for mask := 0; mask < 512; mask++ {
					a, m2 := grids[i][mask], mask
					b := grids[k][m2]
					if tr {
						b = transpose(grids[k][transMask(mask)])
					}
					if rule == "transposed" && i == k {
						// what lies on set neighbours is theirs to draw
						a, b = own(a, mask, bw), own(b, mask, bw)
					}
					if d := gridDiff(a, b); d != "" {
						c.Fail(rule, what, "", "with neighbours %s %s differs", maskName(mask), d)
						return
					}
				}
				c.Ok(rule, 512)
			}
			for i, o := range ones {
				if !math.IsNaN(o.like) && have[i] {
					pair("default-parameter", fmt.Sprintf("%s(%v) and %s(%v)", o.name, o.v, o.name, o.like), i, find(o.name, o.like), false)
				}
				if o.name == "HStripeBlock" && have[i] {
					pair("transposed", fmt.Sprintf("HStripeBlock(%v) and VStripeBlock(%v)", o.v, o.v), i, find("VStripeBlock", o.v), true)
				}
			}
			pair("transposed", "HChainBlock and VChainBlock", find("HChainBlock", 0), find("VChainBlock", 0), true)
			if i := find("LiquidBlock", 0); i >= 0 {
				pair("transposed", "LiquidBlock and itself", i, i, true)
			}
			if i := find("ChainBlock", 0); i >= 0 {
				pair("transposed", "ChainBlock and itself", i, i, true)
			}
			withStd(c, "Assemble", 2, func(e *stdEnv) {
				g := geo{2, 0, 0, 0, 0}
				l := e.notes()
				e.must("Draw", e.mat, e.opts(append(e.frame(g), e.opt("OShape", e.must("RoleShape")))...))
				n := 0
				for _, k := range *l {
					x, y, ok := g.moduleOf(k, e.n)
					if !ok {
						e.fail("assemble", "a shape is drawn at (%v,%v)", k.x, k.y)
						return
					}
					if k.finder != (e.typ[y][x] == e.find) {
						e.fail("assemble", "module (%d,%d) of type %d is drawn by the finder function=%v", x, y, e.typ[y][x], k.finder)
						return
					}
					n++
				}
				if n == 0 {
					e.fail("assemble", "nothing is drawn")
				}
				c.Ok("assemble", n)
			})
		}})

	register(&Check{ID: "W18", Title: "imgkit.Gray and Binaryzation work pixel by pixel",
		Rule: "For pictures with any bounds, free gray pixels, a free threshold and sample colours: the result has the picture's bounds, Gray gives each pixel its own luminance, Binaryzation white exactly where the luminance is above the threshold and black elsewhere, and the source is not changed.",
		Min:  250, Run: func(c *Ctx) {
			c.Std()
			type job struct{ x0, y0, w, h int }
			jobs := []job{{0, 0, 4, 3}, {5, 2, 3, 4}, {-3, -7, 4, 2}, {10, 0, 1, 5}, {0, 0, 1, 1}, {0, 9, 6, 1}}
			c.Par(2*len(jobs), func(i int) {
				j := jobs[i/2]
				withStd(c, fmt.Sprintf("%d x %d at (%d,%d), free gray=%v", j.w, j.h, j.x0, j.y0, i%2 == 0), 0, func(e *stdEnv) {
					m := e.m
					lum := make([][]absint.V, j.h)
					var im absint.V
					if i%2 == 0 {
						var bs []absint.V
						for y := range lum {
							for x := 0; x < j.w; x++ {
								v := m.SymInt(fmt.Sprintf("g(%d,%d)", x, y), 8, false, 8)
								lum[y] = append(lum[y], v)
								bs = append(bs, v)
							}
						}
						im = e.must("Grays", append(e.nums(j.x0, j.y0, j.w, j.h), e.bytes(bs))...)
					} else {
						var bs []absint.V
						k := 0
						for y := range lum {
							for x := 0; x < j.w; x++ {
								r, g, b := k*37%256, (k*91+13)%256, (k*53+200)%256
								k++
								bs = append(bs, u8(r), u8(g), u8(b))
								lum[y] = append(lum[y], u8((19595*r*257+38470*g*257+7471*b*257+1<<15)>>24))
							}
						}
						im = e.must("Pic", append(e.nums(j.x0, j.y0, j.w, j.h), e.bytes(bs))...)
					}
					_, before := e.pixels(im)
					want := [4]int{j.x0, j.y0, j.x0 + j.w, j.y0 + j.h}
					b, px := e.pixels(e.must("Gray", im))
					if b != want {
						e.fail("bounds", "Gray gives %v for %v", b, want)
						return
					}
					e.checkImage("gray", px, func(x, y int) (rgb, bool) { l := lum[y][x]; return rgb{l, l, l, u8(255)}, true })
					th := m.SymInt("threshold", 8, false, 8)
					b, px = e.pixels(e.must("Bin", im, th))
					if b != want {
						e.fail("bounds", "Binaryzation gives %v for %v", b, want)
						return
					}
					c.Ok("bounds", 2)
					e.checkImage("threshold", px, func(x, y int) (rgb, bool) {
						gt := e.lt(th, lum[y][x])
						return e.merge(gt, white, black), true
					})
					_, after := e.pixels(im)
					e.checkImage("source", after, func(x, y int) (rgb, bool) { return before[y][x], true })
				})
			})
		}})

	register(&Check{ID: "W19", Title: "Hex colours: #rrggbb and #rgb",
		Rule: "For colour strings of free hexadecimal digits (either case), the foreground and background drawn are exactly the colour the digits denote: two digits per channel, or one digit doubled; the colour is opaque.",
		Min:  500, Run: func(c *Ctx) {
			c.Std()
			type job struct {
				fg    bool
				short bool
				class int
			}
			var jobs []job
			for k := 0; k < 2; k++ {
				for s := 0; s < 2; s++ {
					for cl := 0; cl < 3; cl++ {
						jobs = append(jobs, job{k == 0, s == 0, cl})
					}
				}
			}
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				withStd(c, fmt.Sprintf("foreground=%v, short=%v, digits %s", j.fg, j.short, []string{"0-9", "a-f", "A-F"}[j.class]), 1, func(e *stdEnv) {
					m := e.m
					n := 6
					if j.short {
						n = 3
					}
					bs := []absint.V{u8('#')}
					var dig []absint.V
					for k := 0; k < n; k++ {
						d := m.SymInt(fmt.Sprintf("digit%d", k), 8, false, 4)
						lim := 9
						base := '0'
						if j.class > 0 {
							lim = 5
							base = []rune{0, 'a', 'A'}[j.class]
						}
						m.PC = m.B.And(m.PC, m.B.Not(e.lt(u8(lim), d)))
						bs = append(bs, m.BinOp(token.ADD, d, u8(int(base)), byteType))
						v := d
						if j.class > 0 {
							v = m.BinOp(token.ADD, d, u8(10), byteType)
						}
						dig = append(dig, v)
					}
					var want rgb
					for k := 0; k < 3; k++ {
						hi, lo := dig[k%n], dig[k%n]
						if !j.short {
							hi, lo = dig[2*k], dig[2*k+1]
						}
						want[k] = m.BinOp(token.ADD, m.BinOp(token.MUL, hi, u8(16), byteType), lo, byteType)
					}
					want[3] = u8(255)
					g := geo{1, 1, 0, 0, 1}
					fg, bg := want, white
					name := "OFgHex"
					if !j.fg {
						fg, bg, name = black, want, "OBgHex"
					}
					_, px := e.draw(e.opts(append(e.frame(g), e.opt(name, absint.MkSymStr(bs)))...))
					if px != nil {
						e.checkImage("hex-colour", px, e.plain(g, fg, bg))
					}
				})
			})
		}})
}

// lt compares two unsigned bytes.
func (e *stdEnv) lt(a, b absint.V) bdd.Node {
	return e.m.BinOp(token.LSS, a, b, byteType).Node()
}
