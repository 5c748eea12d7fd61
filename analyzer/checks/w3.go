package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"
)

// set makes the given values equal for the rest of the analysis.
func (e *stdEnv) under(c bdd.Node, f func()) bool {
	save := e.m.PC
	defer func() { e.m.PC = save }()
	if e.m.PC = e.m.B.And(e.m.PC, c); e.m.PC == bdd.False {
		return false
	}
	f()
	return true
}

type picture struct {
	x0, y0, w, h int
	sub          bool
	gray         bool
}

// softLogo analyses logos with partly transparent pixels.
var softLogo func(c *Ctx)

type logoJob struct {
	ver  int
	g    geo
	pic  picture
	mult int
	safe bool
	neg  bool
}

func (j logoJob) String() string {
	s := fmt.Sprintf("version %d, block %d, borders %d %d %d %d, logo %d x %d at (%d,%d)", j.ver, j.g.bw, j.g.t, j.g.r, j.g.b, j.g.l, j.pic.w, j.pic.h, j.pic.x0, j.pic.y0)
	if j.pic.sub {
		s += " of a larger picture"
	}
	if j.mult != none {
		s += fmt.Sprintf(", multiplier %d", j.mult)
	}
	if j.safe {
		s += ", safe zone"
	}
	return s
}

// logo makes the options of the job, the logo's pixels and whether it fits.
func (e *stdEnv) logo(j logoJob) (os []absint.V, px [][]rgb, fits bool) {
	os = e.frame(j.g)
	var im absint.V
	switch {
	case j.pic.sub:
		im, px = e.pics("Sub", "logo", j.pic.x0, j.pic.y0, j.pic.w, j.pic.h, absint.Int(3), absint.Int(2))
	default:
		im, px = e.pic("logo", j.pic.x0, j.pic.y0, j.pic.w, j.pic.h)
	}
	os = append(os, e.opt("OLogo", im))
	m := 5
	if j.mult != none {
		m = j.mult
		os = append(os, e.opt("OMultiplier", absint.Int(int64(m))))
	}
	if j.safe {
		os = append(os, e.opt("OSafeZone"))
	}
	w, h := j.g.size(e.n)
	return os, px, w >= m*j.pic.w && h >= m*j.pic.h
}

// deco is one of four colour settings, with the colours they give.
func (e *stdEnv) deco(k int) (os []absint.V, fg, bg rgb) {
	fg, bg = black, white
	if k&1 != 0 {
		fg, bg = e.symColor("fg"), e.symColor("bg")
		os = append(os, e.opt("OFg", e.rgbArgs(fg)...), e.opt("OBg", e.rgbArgs(bg)...))
	}
	if k&2 != 0 {
		os = append(os, e.opt("OTransparent"))
		bg = conCol(0, 0, 0, 0)
	}
	return os, fg, bg
}

var decoName = [4]string{"default colours", "free colours", "transparent", "transparent, free colours"}

// logoAt is the logo's rectangle in the image.
func (e *stdEnv) logoAt(j logoJob) (x0, y0, x1, y1 int) {
	w, h := j.g.size(e.n)
	x0, y0 = (w-j.pic.w)/2, (h-j.pic.h)/2
	return x0, y0, x0 + j.pic.w, y0 + j.pic.h
}

func init() {
	register(&Check{ID: "W03", Title: "Foreground and background colours come from the options",
		Rule: "Every pixel of the image is compared, for symbols with free data modules, with the foreground and background colours the option list gives: free RGBA, gray and NRGBA colours and #rrggbb/#rgb strings, the last option of a kind wins, nil and empty arguments are ignored, and with the transparent option everything but the set modules has alpha 0.",
		Min:  20_000, Run: func(c *Ctx) {
			c.Assume(ggAssume)
			type job struct {
				name string
				f    func(e *stdEnv) (os []absint.V, fg, bg rgb)
			}
			hex := func(s string) absint.V { return absint.MkStr(s) }
			var jobs []job
			add := func(n string, f func(e *stdEnv) ([]absint.V, rgb, rgb)) { jobs = append(jobs, job{n, f}) }
			add("foreground RGBA", func(e *stdEnv) ([]absint.V, rgb, rgb) {
				f := e.symColor("fg")
				return e.list("OFg", e.rgbArgs(f)), f, white
			})
			add("background RGBA", func(e *stdEnv) ([]absint.V, rgb, rgb) {
				f := e.symColor("bg")
				return e.list("OBg", e.rgbArgs(f)), black, f
			})
			add("both RGBA", func(e *stdEnv) ([]absint.V, rgb, rgb) {
				f, b := e.symColor("fg"), e.symColor("bg")
				return append(e.list("OFg", e.rgbArgs(f)), e.opt("OBg", e.rgbArgs(b)...)), f, b
			})
			add("both RGBA, background first", func(e *stdEnv) ([]absint.V, rgb, rgb) {
				f, b := e.symColor("fg"), e.symColor("bg")
				return append(e.list("OBg", e.rgbArgs(b)), e.opt("OFg", e.rgbArgs(f)...)), f, b
			})
			add("gray", func(e *stdEnv) ([]absint.V, rgb, rgb) {
				f, b := e.symColor("fg"), e.symColor("bg")
				f[1], f[2], b[1], b[2] = f[0], f[0], b[0], b[0]
				return append(e.list("OFgGray", f[:1]), e.opt("OBgGray", b[0])), f, b
			})
			add("NRGBA", func(e *stdEnv) ([]absint.V, rgb, rgb) {
				f, b := conCol(1, 128, 254, 255), conCol(255, 77, 3, 255)
				return append(e.list("OFgNRGBA", f[:3]), e.opt("OBgNRGBA", b[:3]...)), f, b
			})
			add("hex strings", func(e *stdEnv) ([]absint.V, rgb, rgb) {
				return []absint.V{e.opt("OFgHex", hex("#0a80fF")), e.opt("OBgHex", hex("#cdeFA9"))}, conCol(10, 128, 255, 255), conCol(0xcd, 0xef, 0xa9, 255)
			})
			add("short hex strings", func(e *stdEnv) ([]absint.V, rgb, rgb) {
				return []absint.V{e.opt("OFgHex", hex("#08f")), e.opt("OBgHex", hex("#E1c"))}, conCol(0, 0x88, 255, 255), conCol(0xee, 0x11, 0xcc, 255)
			})
			add("the last option wins", func(e *stdEnv) ([]absint.V, rgb, rgb) {
				f, b := e.symColor("fg"), e.symColor("bg")
				f0, b0 := e.symColor("fg0"), e.symColor("bg0")
				return []absint.V{e.opt("OFg", e.rgbArgs(f0)...), e.opt("OBgHex", hex("#123456")), e.opt("OBg", e.rgbArgs(b0)...), e.opt("OFgHex", hex("#fedcba")), e.opt("OBg", e.rgbArgs(b)...), e.opt("OFg", e.rgbArgs(f)...)}, f, b
			})
			add("nil and empty colours after set ones", func(e *stdEnv) ([]absint.V, rgb, rgb) {
				f, b := e.symColor("fg"), e.symColor("bg")
				return []absint.V{e.opt("OFg", e.rgbArgs(f)...), e.opt("OBg", e.rgbArgs(b)...), e.opt("OFgNil"), e.opt("OBgNil"), e.opt("OFgHex", hex("")), e.opt("OBgHex", hex(""))}, f, b
			})
			add("nil and empty colours alone", func(e *stdEnv) ([]absint.V, rgb, rgb) {
				return []absint.V{e.opt("OFgNil"), e.opt("OBgNil"), e.opt("OFgHex", hex("")), e.opt("OBgHex", hex(""))}, black, white
			})
			for k, n := range []string{"transparent", "transparent after the background colour", "transparent before the background colour", "transparent with hex background", "transparent, foreground white"} {
				k := k
				add(n, func(e *stdEnv) ([]absint.V, rgb, rgb) {
					tr := e.opt("OTransparent")
					b := conCol(0, 0, 0, 0)
					f := e.symColor("fg")
					o := e.list("OFg", e.rgbArgs(f))
					bg := e.symColor("bg")
					switch k {
					case 0:
						o = append(o, tr)
					case 1:
						o = append(o, e.opt("OBg", e.rgbArgs(bg)...), tr)
					case 2:
						o = append(o, tr, e.opt("OBg", e.rgbArgs(bg)...))
					case 3:
						o = append(o, e.opt("OBgHex", hex("#8040c0")), tr)
					case 4:
						return []absint.V{e.opt("OFgHex", hex("#ffffff")), tr}, white, b
					}
					return o, f, b
				})
			}
			vers := []int{1, 7}
			if c.Thorough() {
				vers = []int{1, 2, 6, 7, 12, 20}
			}
			type rest struct {
				name               string
				logo, safe, circle bool
				g                  geo
			}
			rests := []rest{{"", false, false, false, geo{2, 1, 2, 3, 1}}, {"with a logo", true, false, false, geo{3, 1, 2, 3, 1}}, {"with a logo and a safe zone", true, true, false, geo{3, 0, 2, 3, 1}}, {"with a logo and circles", true, false, true, geo{5, 1, 2, 0, 1}}}
			c.Std()
			c.Par(len(jobs)*len(vers)*len(rests), func(i int) {
				k := rests[i%len(rests)]
				i /= len(rests)
				j, v := jobs[i/len(vers)], vers[i%len(vers)]
				if v != 1 && k.name != "" && !c.Thorough() {
					return
				}
				withStd(c, fmt.Sprintf("version %d, %s %s", v, j.name, k.name), v, func(e *stdEnv) {
					os, fg, bg := j.f(e)
					lj := logoJob{v, k.g, picture{0, 0, 10, 7, false, false}, none, k.safe, false}
					if k.logo {
						lo, _, fits := e.logo(lj)
						if !fits {
							panic("the logo must fit")
						}
						if i%2 == 0 {
							os = append(lo, os...)
						} else {
							os = append(os, lo...)
						}
					} else {
						os = append(e.frame(k.g), os...)
					}
					if k.circle {
						os = append(os, e.opt("OCircle"))
					}
					b, px := e.draw(e.opts(os...))
					if px == nil || !e.checkSize(b, k.g) {
						return
					}
					plain := e.plain(k.g, fg, bg)
					x0, y0, x1, y1 := e.logoAt(lj)
					zone := e.zone(lj)
					e.checkImage("colour", px, func(x, y int) (rgb, bool) {
						if k.logo && x >= x0 && x < x1 && y >= y0 && y < y1 {
							return rgb{}, false // W05
						}
						mx, my, in := k.g.at(x, y, e.n)
						if k.safe && in && zone(mx, my) {
							return bg, true
						}
						if k.circle && in && ((x-k.g.l)%k.g.bw != k.g.bw/2 || (y-k.g.t)%k.g.bw != k.g.bw/2) {
							return rgb{}, false // W17
						}
						return plain(x, y)
					})
				})
			})
		}})

	register(&Check{ID: "W04", Title: "Attribute promises the geometry of the image",
		Rule: "For every symbol dimension, every block width and free border widths (all forms of the option), Attribute reports the width, height, borders and block width by the formula that W01 proves of the image.",
		Min:  15_000, Run: func(c *Ctx) {
			c.Std()
			withStd(c, "Attribute", 0, func(e *stdEnv) {
				m := e.m
				var dims []int
				for v := 1; v <= 40; v++ {
					dims = append(dims, 4*v+17)
				}
				var sy [5]absint.V
				for i := range sy {
					sy[i] = m.BinOp(token.AND, m.SymInt(fmt.Sprintf("border%d", i), 64, true, 10), absint.Int(1023), intType)
				}
				forms := [][]int{nil, {0}, {0, 1}, {0, 1, 2}, {0, 1, 2, 3}, {0, 1, 2, 3, 4}}
				pos := [][4]int{{-1, -1, -1, -1}, {0, 0, 0, 0}, {0, 1, 0, 1}, {0, 1, 0, 1}, {0, 1, 2, 3}, {0, 1, 2, 3}}
				for w := -1; w < 256; w++ {
					for fi, f := range forms {
						var os []absint.V
						bw := w
						if w >= 0 {
							os = append(os, e.opt("OWidth", u8(w)))
						}
						if w <= 0 {
							bw = 20
						}
						var args []absint.V
						for _, k := range f {
							args = append(args, sy[k])
						}
						if !(fi == 0 && w%2 == 0) {
							os = append(os, e.opt("OBorder", m.NewSlice(intType, args, "borders")))
						}
						o := e.opts(os...)
						for _, d := range dims {
							t := e.must("Attr", absint.Int(int64(d)), o)
							bd := func(i int) absint.V {
								if pos[fi][i] < 0 {
									return absint.Int(40)
								}
								return sy[pos[fi][i]]
							}
							sum := func(a, b absint.V) absint.V {
								return m.BinOp(token.ADD, m.BinOp(token.ADD, absint.Int(int64(d*bw)), a, intType), b, intType)
							}
							want := []absint.V{sum(bd(3), bd(1)), sum(bd(0), bd(2)), bd(0), bd(1), bd(2), bd(3), absint.Int(int64(bw))}
							for k, name := range []string{"width", "height", "top border", "right border", "bottom border", "left border", "block width"} {
								if m.B.And(m.PC, m.B.Not(m.Eq(tup(t, k), want[k]))) != bdd.False {
									c.Fail("attribute", fmt.Sprintf("dimension %d, block width %d, %d border values", d, w, len(f)), "", "the %s is %s instead of %s", name, m.Pretty(tup(t, k)), m.Pretty(want[k]))
									return
								}
							}
							c.Ok("attribute", 7)
						}
					}
				}
			})
		}})

	register(&Check{ID: "W05", Title: "The logo is centred, whole and on top, if it fits",
		Rule: "With a logo of free pixels that is at most 1/multiplier of the image wide and high (multiplier 5 by default), the pixels of the centred rectangle are the logo's and all others those of the image without it; a larger logo leaves the image as without it and is no error. Logos whose bounds start anywhere, sub-images, exact fits and misses by one pixel in either direction are analysed.",
		Min:  50_000, Run: func(c *Ctx) {
			c.Assume(ggAssume)
			g := geo{4, 3, 4, 5, 6} // 94 x 92 for version 1
			var jobs []logoJob
			for _, p := range []picture{{0, 0, 18, 18, false, false}, {0, 0, 18, 1, false, false}, {0, 0, 1, 18, false, false}, {0, 0, 19, 4, false, false}, {0, 0, 4, 19, false, false}, {7, 3, 10, 12, false, false}, {-4, -5, 11, 8, false, false}, {20, 30, 9, 9, true, false}, {1, 1, 15, 16, true, false}} {
				jobs = append(jobs, logoJob{1, g, p, none, false, false})
			}
			for _, mu := range []int{1, 2, 3, 4, 10} {
				w, h := g.size(21)
				for _, d := range [][2]int{{0, 0}, {1, 0}, {0, 1}} {
					lw, lh := w/mu+d[0], h/mu+d[1]
					if lw > w || lh > h {
						continue
					}
					jobs = append(jobs, logoJob{1, g, picture{0, 0, lw, lh, false, false}, mu, false, false})
				}
			}
			jobs = append(jobs, logoJob{40, geo{2, 1, 0, 3, 5}, picture{0, 0, 71, 50, false, false}, none, false, false}, logoJob{2, geo{3, 0, 0, 0, 0}, picture{2, 0, 13, 11, false, false}, none, true, false}, logoJob{7, geo{1, 1, 1, 1, 1}, picture{0, 0, 9, 8, false, false}, 3, false, false},
				logoJob{1, geo{3, 0, 50, 0, 0}, picture{0, 0, 22, 12, false, false}, none, false, false}, logoJob{1, geo{3, 0, 50, 0, 0}, picture{0, 0, 22, 13, false, false}, none, false, false})
			for k := 1; k <= 30; k++ {
				jobs = append(jobs, logoJob{1 + k%4, geo{2 + k%3, k % 7, k % 5, k % 3, k % 4}, picture{k - 10, 5 - k, 3 + k%9, 2 + k%7, k%2 == 0, false}, none, k%3 == 0, false})
			}
			if c.Thorough() {
				for k := 31; k <= 130; k++ {
					jobs = append(jobs, logoJob{1 + k%4, geo{2 + k%3, k % 7, k % 5, k % 3, k % 4}, picture{k - 10, 5 - k, 3 + k%9, 2 + k%7, k%2 == 0, false}, none, k%3 == 0, false})
				}
			}
			c.Std()
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				withStd(c, j.String()+", "+decoName[i%4], j.ver, func(e *stdEnv) {
					os, lp, fits := e.logo(j)
					do, fg, bg := e.deco(i % 4)
					if i%3 == 0 {
						os = append(do, os...)
					} else {
						os = append(os, do...)
					}
					b, px := e.draw(e.opts(os...))
					if px == nil || !e.checkSize(b, j.g) {
						return
					}
					plain := e.plain(j.g, fg, bg)
					x0, y0, x1, y1 := e.logoAt(j)
					zone := func(x, y int) bool { return false }
					if j.safe && fits {
						zone = e.zone(j)
					}
					e.checkImage("logo", px, func(x, y int) (rgb, bool) {
						if fits && x >= x0 && x < x1 && y >= y0 && y < y1 {
							return lp[y-y0][x-x0], true
						}
						if mx, my, ok := j.g.at(x, y, e.n); ok && zone(mx, my) {
							return bg, true
						}
						return plain(x, y)
					})
				})
			})
			softLogo(c)
		}})

	softLogo = func(c *Ctx) {
		type job struct {
			j    logoJob
			conf int
		}
		jobs := []job{{logoJob{1, geo{3, 0, 2, 5, 1}, picture{0, 0, 13, 12, false, false}, none, false, false}, 0}, {logoJob{1, geo{4, 3, 4, 5, 6}, picture{-3, 2, 11, 14, false, false}, none, false, false}, 1}, {logoJob{1, geo{4, 3, 4, 5, 6}, picture{0, 0, 17, 9, false, false}, none, true, false}, 1}}
		c.Par(len(jobs), func(i int) {
			j := jobs[i].j
			withStd(c, "partly transparent "+j.String(), j.ver, func(e *stdEnv) {
				os := e.frame(j.g)
				fg, bg := black, white
				if jobs[i].conf == 1 {
					fg, bg = conCol(13, 120, 77, 255), conCol(240, 201, 99, 255)
					os = append(os, e.opt("OFg", e.rgbArgs(fg)...), e.opt("OBg", e.rgbArgs(bg)...))
				}
				var bs []absint.V
				alpha := func(x, y int) [4]int {
					a := []int{0, 1, 64, 127, 128, 200, 254, 255}[(x*3+y*5+x*y)%8]
					return [4]int{a * (x * 17 % 256) / 255, a * (y * 29 % 256) / 255, a * ((x + y) % 2), a}
				}
				for y := 0; y < j.pic.h; y++ {
					for x := 0; x < j.pic.w; x++ {
						p := alpha(x, y)
						bs = append(bs, u8(p[0]), u8(p[1]), u8(p[2]), u8(p[3]))
					}
				}
				os = append(os, e.opt("OLogo", e.must("PicA", append(e.nums(j.pic.x0, j.pic.y0, j.pic.w, j.pic.h), e.bytes(bs))...)))
				if j.safe {
					os = append(os, e.opt("OSafeZone"))
				}
				b, px := e.draw(e.opts(os...))
				if px == nil || !e.checkSize(b, j.g) {
					return
				}
				plain := e.plain(j.g, fg, bg)
				x0, y0, x1, y1 := e.logoAt(j)
				n := 0
				for y := range px {
					for x := range px[y] {
						mx, my, in := j.g.at(x, y, e.n)
						base := func() rgb {
							if j.safe && in && e.zone(j)(mx, my) {
								return bg
							}
							w, _ := plain(x, y)
							return w
						}
						if x < x0 || x >= x1 || y < y0 || y >= y1 {
							if !e.same(px[y][x], base()) {
								e.fail("soft-logo", "pixel (%d,%d) outside the logo is %s", x, y, e.show(px[y][x]))
								return
							}
							continue
						}
						set := bdd.False
						if in {
							set = e.set[my][mx]
						}
						p := alpha(x-x0, y-y0)
						for _, s := range []bool{true, false} {
							cond, under := set, fg
							if !s {
								cond, under = e.m.B.Not(set), bg
							}
							if s && j.safe && in && e.zone(j)(mx, my) {
								under = bg
							}
							bad := ""
							e.under(cond, func() {
								for k := 0; k < 4; k++ {
									v := e.con(px[y][x][k])
									w := float64(p[k]) + float64(under[k].N)*float64(255-p[3])/255
									if v.K != absint.KInt || math.Abs(float64(v.N)-w) > 1.5 {
										bad = fmt.Sprintf("channel %d is %s instead of %.1f", k, e.m.Pretty(v), w)
									}
								}
							})
							if bad != "" {
								e.fail("soft-logo", "pixel (%d,%d) of the logo is not its pixel over what is beneath: %s", x, y, bad)
								return
							}
							n++
						}
					}
				}
				c.Ok("soft-logo", n)
			})
		})
	}

	register(&Check{ID: "W06", Title: "The logo safe zone clears exactly the modules under the logo",
		Rule: "With the safe zone option and a logo that fits, a recording shape is called for no set module whose square meets the logo's rectangle and for every other set module, and the neighbour masks count exactly the modules of that zone as unset; in the image the zone around the logo has the background colour and all other modules are as without it. A logo that does not fit, or no logo, clears nothing.",
		Min:  20_000, Run: func(c *Ctx) {
			c.Assume(ggAssume)
			g := geo{4, 3, 4, 5, 6}
			var jobs []logoJob
			for _, p := range []picture{{0, 0, 18, 18, false, false}, {0, 0, 18, 3, false, false}, {0, 0, 3, 17, false, false}, {0, 0, 19, 4, false, false}, {5, 9, 16, 12, false, false}, {0, 0, 1, 1, false, false}} {
				jobs = append(jobs, logoJob{1, g, p, none, true, false})
			}
			for d := 0; d < 8; d++ { // every alignment of the logo's edges to the grid
				jobs = append(jobs, logoJob{1, geo{4, 0, d, d / 2, 8}, picture{0, 0, 8 + d, 12 - d, false, false}, 4, true, false})
			}
			jobs = append(jobs, logoJob{2, geo{3, 0, 0, 0, 0}, picture{0, 0, 13, 11, false, false}, none, true, false}, logoJob{7, geo{3, 40, 0, 0, 70}, picture{0, 0, 20, 30, false, false}, none, true, false},
				logoJob{1, geo{4, 40, 2, 4, 80}, picture{0, 0, 24, 20, false, false}, none, true, false}, logoJob{1, geo{4, 1, 60, 90, 4}, picture{0, 0, 30, 30, false, false}, none, true, false})
			for k := 1; k <= 40; k++ {
				jobs = append(jobs, logoJob{1 + k%3, geo{2 + k%5, k % 17, k % 15, k % 13, k % 11}, picture{0, 0, 3 + k%12, 2 + k%11, false, false}, none, true, false})
			}
			jobs = append(jobs, logoJob{40, geo{2, 1, 0, 3, 5}, picture{0, 0, 60, 41, false, false}, none, true, false}, logoJob{14, geo{2, 1, 2, 3, 5}, picture{0, 0, 30, 21, false, false}, none, true, false}, logoJob{1, geo{20, 300, 0, 0, 270}, picture{0, 0, 120, 100, false, false}, none, true, false})
			if c.Thorough() {
				for k := 41; k <= 160; k++ {
					jobs = append(jobs, logoJob{1 + k%3, geo{2 + k%5, k % 17, k % 15, k % 13, k % 11}, picture{0, 0, 3 + k%12, 2 + k%11, false, false}, none, true, false})
				}
			}
			c.Std()
			c.Par(2*len(jobs), func(i int) {
				j := jobs[i/2]
				if i%2 == 0 {
					withStd(c, "shapes: "+j.String()+", "+decoName[i/2%4], j.ver, func(e *stdEnv) {
						os, _, fits := e.logo(j)
						do, fg, bg := e.deco(i / 2 % 4)
						l := e.notes()
						e.must("Draw", e.mat, e.opts(append(append(os, do...), e.rec())...))
						zone := func(x, y int) bool { return false }
						if fits {
							zone = e.zone(j)
						}
						if e.checkCalls(*l, j.g, fg, bg, zone) {
							e.checkNeigh(*l, j.g, e.neighFlags(), zone)
						}
					})
					return
				}
				withStd(c, "image: "+j.String()+", "+decoName[(i/2+2)%4], j.ver, func(e *stdEnv) {
					os, _, fits := e.logo(j)
					do, fg, bg := e.deco((i/2 + 2) % 4)
					b, px := e.draw(e.opts(append(do, os...)...))
					if px == nil || !e.checkSize(b, j.g) {
						return
					}
					plain := e.plain(j.g, fg, bg)
					x0, y0, x1, y1 := e.logoAt(j)
					zone := e.zone(j)
					e.checkImage("safe-zone-image", px, func(x, y int) (rgb, bool) {
						if fits && x >= x0 && x < x1 && y >= y0 && y < y1 {
							return rgb{}, false
						}
						if mx, my, ok := j.g.at(x, y, e.n); ok && fits && zone(mx, my) {
							return bg, true
						}
						return plain(x, y)
					})
				})
			})
			withStd(c, "no logo", 1, func(e *stdEnv) {
				l := e.notes()
				g := geo{3, 1, 2, 3, 4}
				e.must("Draw", e.mat, e.opts(append(e.frame(g), e.opt("OSafeZone"), e.rec())...))
				if e.checkCalls(*l, g, black, white, nil) {
					e.checkNeigh(*l, g, e.neighFlags(), nil)
				}
			})
		}})

	register(&Check{ID: "W08", Title: "The gradient colours the set modules by projection",
		Rule: "For angles in all quadrants and several stop lists (in any order, beginning and ending anywhere, also a single stop), every pixel of a set module has, up to one unit per channel, the colour interpolated between the neighbouring stops at the pixel's projection onto the gradient's direction, normalised over the image's corners; other pixels keep the background colour and a logo keeps its own; NewGradient's stops are sorted and the caller's slice keeps its order.",
		Min:  20_000, Run: func(c *Ctx) {
			c.Assume(ggAssume)
			type stop struct {
				t       float64
				r, g, b int
			}
			type job struct {
				angle float64
				stops []stop
				g     geo
				cfg   int
			}
			lists := [][]stop{
				{{0, 255, 0, 0}, {1, 0, 0, 255}},
				{{1, 0, 0, 255}, {0, 255, 10, 0}},
				{{0.2, 10, 200, 30}, {0.5, 250, 20, 130}, {0.8, 0, 0, 90}},
				{{0.9, 10, 200, 30}, {0, 250, 20, 130}, {0.4, 0, 0, 90}, {0.6, 99, 98, 97}},
				{{0.3, 17, 34, 51}},
				{{0.1, 200, 100, 0}, {0.1, 0, 100, 200}},
				{{0.7, 1, 90, 30}, {0.05, 250, 20, 130}, {0.3, 70, 0, 90}, {0.55, 99, 98, 97}, {0.2, 0, 200, 9}, {0.95, 31, 41, 59}, {0.85, 240, 250, 5}},
			}
			var jobs []job
			for k, a := range []float64{0, 30, 45, 90, 135, 180, 225, 270, 300, 360, -60, 400, 10.75, -33.5, 359.625, 0.5} {
				jobs = append(jobs, job{a, lists[k%len(lists)], geo{2, 1, 2, 3, 4}, k % 5})
			}
			for _, l := range lists {
				jobs = append(jobs, job{20, l, geo{3, 0, 9, 2, 0}, 0})
			}
			for a := -360.0; a < 720; a += 15 {
				jobs = append(jobs, job{a, lists[int(a+360)/15%len(lists)], geo{2, 1, 5, 3, 0}, int(a+360) / 15 % 5})
			}
			if c.Thorough() {
				for a := -355.0; a < 720; a += 5 {
					jobs = append(jobs, job{a, lists[int(a+360)/15%len(lists)], geo{2, 1, 5, 3, 0}, int(a+360) / 15 % 5})
				}
			}
			c.Std()
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				withStd(c, fmt.Sprintf("angle %v, stops %v, variant %d", j.angle, j.stops, j.cfg), 1+j.cfg%3, func(e *stdEnv) {
					m := e.m
					fg, bg := black, white
					var os []absint.V
					if j.cfg >= 1 {
						fg, bg = conCol(12, 99, 201, 255), conCol(250, 240, 13, 255)
						os = append(os, e.opt("OFg", e.rgbArgs(fg)...), e.opt("OBg", e.rgbArgs(bg)...))
					}
					var lg [][]rgb
					lj := logoJob{1, j.g, picture{0, 0, 6, 5, false, false}, none, false, false}
					if j.cfg >= 3 {
						os = append(os, e.opt("OTransparent"))
						bg = conCol(0, 0, 0, 0)
					}
					if j.cfg == 2 || j.cfg == 4 {
						var bs []absint.V
						for y := 0; y < 5; y++ {
							var r []rgb
							for x := 0; x < 6; x++ {
								p := fg
								if (x+y)%2 == 0 {
									p = conCol(x, y, 7, 255)
								}
								r = append(r, p)
								bs = append(bs, p[:3]...)
							}
							lg = append(lg, r)
						}
						os = append(os, e.opt("OLogo", e.must("Pic", append(e.nums(0, 0, 6, 5), e.bytes(bs))...)))
					}
					var ts, bs []absint.V
					for _, s := range j.stops {
						ts = append(ts, absint.Flt(s.t))
						bs = append(bs, u8(s.r), u8(s.g), u8(s.b))
					}
					t := e.must("Gradient", absint.Flt(j.angle), m.NewSlice(types.Typ[types.Float64], ts, "stops"), e.bytes(bs))
					got := m.SliceElems(tup(t, 1))
					for k := range ts {
						if len(got) != len(ts) || !absint.Ident(got[k], ts[k]) {
							e.fail("caller-slice", "NewGradient reorders the caller's stops: %v", got)
							return
						}
					}
					sorted := append([]stop(nil), j.stops...)
					sort.SliceStable(sorted, func(a, b int) bool { return sorted[a].t < sorted[b].t })
					got = m.SliceElems(e.must("GStops", tup(t, 0)))
					for k := range sorted {
						if len(got) != len(ts) || got[k].K != absint.KFloat || got[k].Float() != sorted[k].t {
							e.fail("sorted", "the stops of the gradient are %v", got)
							return
						}
					}
					c.Ok("stops", 2*len(ts))
					os = append(os, e.opt("OGradient", tup(t, 0)))
					b, px := e.draw(e.opts(append(e.frame(j.g), os...)...))
					if px == nil || !e.checkSize(b, j.g) {
						return
					}
					// the colour at a point of the unit interval
					at := func(t float64) [3]float64 {
						col := func(s stop) [3]float64 { return [3]float64{float64(s.r), float64(s.g), float64(s.b)} }
						for k, s := range sorted {
							if t <= s.t {
								if k == 0 {
									return col(s)
								}
								p := sorted[k-1]
								f := (t - p.t) / (s.t - p.t)
								a, z := col(p), col(s)
								for i := range a {
									a[i] = a[i]*(1-f) + z[i]*f
								}
								return a
							}
						}
						return col(sorted[len(sorted)-1])
					}
					dx, dy := math.Cos(j.angle*math.Pi/180), -math.Sin(j.angle*math.Pi/180)
					w, h := j.g.size(e.n)
					lo, hi := math.Inf(1), math.Inf(-1)
					for _, p := range [][2]int{{0, 0}, {w, 0}, {0, h}, {w, h}} {
						v := float64(p[0])*dx + float64(p[1])*dy
						lo, hi = math.Min(lo, v), math.Max(hi, v)
					}
					plain := e.plain(j.g, fg, bg)
					x0, y0, x1, y1 := e.logoAt(lj)
					n := 0
					for y := range px {
						for x := range px[y] {
							if lg != nil && x >= x0 && x < x1 && y >= y0 && y < y1 {
								if !e.same(px[y][x], lg[y-y0][x-x0]) {
									e.fail("gradient-logo", "pixel (%d,%d) of the logo is %s instead of %s", x, y, e.show(px[y][x]), e.show(lg[y-y0][x-x0]))
									return
								}
								n++
								continue
							}
							mx, my, in := j.g.at(x, y, e.n)
							set := bdd.False
							if in {
								set = e.set[my][mx]
							}
							bad := false
							e.under(m.B.Not(set), func() {
								w, _ := plain(x, y)
								if !e.same(px[y][x], w) {
									e.fail("gradient-background", "pixel (%d,%d) is %s although its module is not set", x, y, e.show(px[y][x]))
									bad = true
								}
							})
							e.under(set, func() {
								t := (float64(x)*dx + float64(y)*dy - lo) / (hi - lo)
								a, z := at(t-1e-7), at(t+1e-7)
								for k := 0; k < 4; k++ {
									v := e.con(px[y][x][k])
									if v.K != absint.KInt {
										e.fail("gradient-colour", "pixel (%d,%d) of a set module is %s, which is not one colour", x, y, e.show(px[y][x]))
										bad = true
										return
									}
									f := float64(v.N)
									if k == 3 {
										bad = bad || v.N != 255
									} else {
										bad = bad || f < math.Min(a[k], z[k])-1.001 || f > math.Max(a[k], z[k])+1.001
									}
								}
								if bad {
									e.fail("gradient-colour", "pixel (%d,%d) of a set module is %s, the gradient at %.4f is %.1f", x, y, e.show(px[y][x]), t, at(t))
								}
							})
							if bad {
								return
							}
							n++
						}
					}
					c.Ok("gradient", n)
				})
			})
			withStd(c, "no gradient and a gradient without stops", 1, func(e *stdEnv) {
				for _, o := range []string{"OGradientNil", "OGradientEmpty"} {
					var op absint.V
					if o == "OGradientEmpty" {
						op = e.opt(o, absint.Flt(30))
					} else {
						op = e.opt(o)
					}
					g := geo{2, 1, 1, 1, 1}
					_, px := e.draw(e.opts(append(e.frame(g), op)...))
					if px != nil {
						e.checkImage("gradient-none", px, e.plain(g, black, white))
					}
				}
			})
		}})
}

func (e *stdEnv) nums(xs ...int) []absint.V { return ints(xs...) }

func (e *stdEnv) list(name string, args []absint.V) []absint.V {
	return []absint.V{e.opt(name, args...)}
}

// zone tells the modules whose squares meet the logo's rectangle.
func (e *stdEnv) zone(j logoJob) func(x, y int) bool {
	x0, y0, x1, y1 := e.logoAt(j)
	return func(x, y int) bool {
		l, t := x*j.g.bw+j.g.l, y*j.g.bw+j.g.t
		return l < x1 && l+j.g.bw > x0 && t < y1 && t+j.g.bw > y0
	}
}
