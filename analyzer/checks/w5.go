package checks

import (
	"fmt"
	"strings"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"
)

// someFree keeps a few modules free and gives the others fixed values.
func (e *stdEnv) someFree(step int) {
	e.free = func(k int) (bool, bool) { return k%step == 1, (k*k+k/3)%5 < 2 }
}

// scaleBySource makes scaled pictures depend on the picture.
func (e *stdEnv) scaleBySource() {
	e.m.ScaleHook = func(x, y int) [4]absint.V {
		_, px, ok := e.m.Pixels(e.m.ScaleSrc)
		if !ok || len(px) == 0 || px[0][0][0].K != absint.KInt {
			e.m.Undecided("the picture that is scaled")
		}
		s := int(px[0][0][0].N)
		n := bdd.False
		if (x*s+y*7+x*y)%5 < 2 {
			n = bdd.True
		}
		return e.bitGray(n)
	}
}

func sameImage(a, b [][]rgb, e *stdEnv) string {
	if len(a) != len(b) || len(a) == 0 || len(a[0]) != len(b[0]) {
		return "the images differ in size"
	}
	for y := range a {
		for x := range a[y] {
			if !e.same(a[y][x], b[y][x]) {
				return fmt.Sprintf("pixel (%d,%d) is %s instead of %s", x, y, e.show(a[y][x]), e.show(b[y][x]))
			}
		}
	}
	return ""
}

// optKind is an option with two settings and settings that change nothing.
type optKind struct {
	name string
	make func(e *stdEnv, k int) absint.V
	null []string // options without an effect
}

func optKinds() []optKind {
	pic := func(e *stdEnv, s, w, h int) absint.V {
		var bs []absint.V
		for i := 0; i < 3*w*h; i++ {
			bs = append(bs, u8((s+i*29)%251))
		}
		return e.must("Pic", absint.Int(0), absint.Int(0), absint.Int(int64(w)), absint.Int(int64(h)), e.bytes(bs))
	}
	col := func(n string, a, b [3]int) func(e *stdEnv, k int) absint.V {
		return func(e *stdEnv, k int) absint.V {
			c := [][3]int{a, b}[k]
			if k == 1 {
				return e.opt(n+"Hex", absint.MkStr(fmt.Sprintf("#%02x%02X%02x", c[0], c[1], c[2])))
			}
			return e.opt(n, u8(c[0]), u8(c[1]), u8(c[2]), u8(255))
		}
	}
	return []optKind{
		{"width", func(e *stdEnv, k int) absint.V { return e.opt("OWidth", u8([]int{6, 3}[k])) }, nil},
		{"border", func(e *stdEnv, k int) absint.V {
			return e.opt("OBorder", e.ints([][]int{{5, 0, 2, 9}, {4}}[k]...))
		}, nil},
		{"transparent", func(e *stdEnv, k int) absint.V { return e.opt("OTransparent") }, nil},
		{"background", col("OBg", [3]int{201, 13, 77}, [3]int{12, 190, 34}), []string{"OBgNil", "OBgHex"}},
		{"foreground", col("OFg", [3]int{17, 99, 211}, [3]int{90, 21, 3}), []string{"OFgNil", "OFgHex"}},
		{"gradient", func(e *stdEnv, k int) absint.V {
			t := e.must("Gradient", absint.Flt([]float64{30, 200}[k]), e.m.NewSlice(fltType, []absint.V{absint.Flt(0.9), absint.Flt(0)}, "stops"),
				e.bytes([]absint.V{u8(1 + k), u8(200), u8(3), u8(250), u8(9), u8(90)}))
			return e.opt("OGradient", tup(t, 0))
		}, []string{"OGradientNil", "OGradientEmpty"}},
		{"logo", func(e *stdEnv, k int) absint.V { return e.opt("OLogo", pic(e, 40+k, 9-k, 8+k)) }, []string{"OLogoNil"}},
		{"logo size", func(e *stdEnv, k int) absint.V { return e.opt("OMultiplier", absint.Int(int64([]int{30, 2}[k]))) }, nil},
		{"safe zone", func(e *stdEnv, k int) absint.V { return e.opt("OSafeZone") }, nil},
		{"halftone", func(e *stdEnv, k int) absint.V { return e.opt("OHalftone", pic(e, 3+8*k, 2, 2)) }, nil},
		{"shape", func(e *stdEnv, k int) absint.V {
			if k == 0 {
				return e.opt("OCircle")
			}
			return e.opt("OShape", e.must("Shape", absint.Int(9), absint.Flt(0), absint.Int(1), absint.Flt(0.5)))
		}, nil},
	}
}

func init() {
	register(&Check{ID: "W20", Title: "Image options: the last of a kind wins, different kinds commute",
		Rule: "The standard writer on a symbol with some free modules, with options in all orders: for every pair of kinds of options, and for all kinds at once in several orders, the images are pixel-equal whatever the order; a second option of a kind makes the first one irrelevant, options that set nothing (nil, empty) leave everything as it was. Encoders on a recording output: JPEG by default, otherwise the last builtin or custom encoder given; it alone is called, once, with the image and the writer's output.",
		Min:  300_000, Run: func(c *Ctx) {
			c.Assume(ggAssume)
			ks := optKinds()
			type job struct {
				name string
				f    func(e *stdEnv, base []absint.V)
			}
			var jobs []job
			cmp := func(e *stdEnv, rule, what string, a, b []absint.V) {
				_, p := e.draw(e.opts(a...))
				_, q := e.draw(e.opts(b...))
				if p == nil || q == nil {
					return
				}
				if d := sameImage(p, q, e); d != "" {
					e.fail(rule, "%s: %s", what, d)
					return
				}
				e.c.Ok(rule, len(p)*len(p[0]))
			}
			cat := func(b []absint.V, os ...absint.V) []absint.V { return append(append([]absint.V(nil), b...), os...) }
			for i := range ks {
				for j := range ks[:i] {
					a, b := ks[i], ks[j]
					jobs = append(jobs, job{a.name + " and " + b.name, func(e *stdEnv, base []absint.V) {
						x, y := a.make(e, 0), b.make(e, 0)
						if a.name == "logo size" || a.name == "safe zone" {
							base = cat(base, ks[6].make(e, 0))
						}
						cmp(e, "kinds-commute", a.name+" after or before "+b.name, cat(base, x, y), cat(base, y, x))
					}})
				}
			}
			for s := 1; s <= 4; s++ {
				s := s
				jobs = append(jobs, job{fmt.Sprintf("all options, order %d", s), func(e *stdEnv, base []absint.V) {
					var a, b []absint.V
					for i := range ks {
						k := ks[i]
						if (i+s)%4 == 0 { // leave one out now and then
							continue
						}
						a = append(a, k.make(e, s%2))
					}
					n := len(a)
					for i := range a {
						b = append(b, a[(i*[]int{1, n - 1, n + 2, n + 1, 1}[s]+s)%n])
					}
					seen := map[int]bool{}
					for i := range a {
						seen[(i*[]int{1, n - 1, n + 2, n + 1, 1}[s]+s)%n] = true
					}
					if len(seen) != n { // not a permutation: reverse
						b = nil
						for i := range a {
							b = append(b, a[n-1-i])
						}
					}
					cmp(e, "kinds-commute", "all options in two orders", cat(base, a...), cat(base, b...))
				}})
			}
			for i := range ks {
				k := ks[i]
				jobs = append(jobs, job{k.name + " twice", func(e *stdEnv, base []absint.V) {
					if k.name == "logo size" || k.name == "safe zone" {
						base = cat(base, ks[6].make(e, 1))
					}
					x, y := k.make(e, 0), k.make(e, 1)
					cmp(e, "last-wins", "a second "+k.name, cat(base, x, y), cat(base, y))
					cmp(e, "last-wins", "a second "+k.name+", the other way round", cat(base, y, x), cat(base, x))
				}})
				for _, n := range k.null {
					n := n
					jobs = append(jobs, job{k.name + " and " + n, func(e *stdEnv, base []absint.V) {
						var z absint.V
						switch {
						case strings.HasSuffix(n, "Hex"):
							z = e.opt(n, absint.MkStr(""))
						case strings.HasSuffix(n, "Empty"):
							z = e.opt(n, absint.Flt(10))
						default:
							z = e.opt(n)
						}
						x := k.make(e, 0)
						cmp(e, "nothing-set", k.name+" and then "+n, cat(base, x, z), cat(base, x))
						cmp(e, "nothing-set", n+" alone", cat(base, z), base)
					}})
				}
			}
			jobs = append(jobs, job{"no shape", func(e *stdEnv, base []absint.V) {
				cmp(e, "nothing-set", "a nil shape alone", cat(base, e.opt("OShapeNil")), base)
			}}, job{"no halftone", func(e *stdEnv, base []absint.V) {
				cmp(e, "nothing-set", "a nil halftone image alone", cat(base, e.opt("OHalftoneNil")), base)
			}})
			c.Std()
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				withStd(c, j.name, 0, func(e *stdEnv) {
					e.someFree(37)
					e.symbol(1)
					e.scaleBySource()
					j.f(e, e.frame(geo{3, 1, 2, 3, 4}))
				})
			})

			// encoders
			encs := [][]string{nil, {"jpeg"}, {"png"}, {"png", "jpeg"}, {"jpeg", "png"}, {"a"}, {"png", "a"}, {"a", "png"}, {"a", "b"}, {"b", "a", "b"},
				{"nil"}, {"png", "nil"}, {"a", "nil"}, {"nil", "a", "jpeg", "nil"}, {"a", "jpeg", "png"}}
			c.Par(len(encs), func(i int) {
				l := encs[i]
				withStd(c, "encoders "+strings.Join(l, ", "), 0, func(e *stdEnv) {
					e.someFree(37)
					e.symbol(1)
					w := e.m.NewWorld()
					w.CanFail = func(o *absint.WOp) bool { return false }
					base := e.frame(geo{2, 1, 0, 2, 3})
					_, want := e.draw(e.opts(base...))
					if want == nil {
						return
					}
					var os []absint.V
					exp := "jpeg"
					hosts := map[string]absint.V{}
					for _, n := range l {
						switch n {
						case "jpeg", "png":
							os = append(os, e.opt("O"+strings.ToUpper(n)))
							exp = n
						case "nil":
							os = append(os, e.opt("OEncNil"))
						default:
							if _, ok := hosts[n]; !ok {
								hosts[n] = absint.V{K: absint.KIface, X: &absint.IfaceV{Host: &encHost{w: w, name: n}}}
							}
							os = append(os, e.opt("OCustom", hosts[n]))
							exp = n
						}
					}
					for _, list := range [][]absint.V{cat(base, os...), cat(os, base...)} {
						n0 := len(w.Log)
						var encd []*absint.WOp
						w.OnEncode = func(o *absint.WOp) {
							encd = append(encd, o)
							if o.Cond != bdd.True {
								e.fail("right-encoder", "the image is encoded only on some paths")
							}
							_, px := e.pixels(o.Img)
							if d := sameImage(px, want, e); d != "" {
								e.fail("same-image", "the encoder gets another image: %s", d)
							} else {
								e.c.Ok("same-image", 1)
							}
						}
						sink := w.NewSink("output")
						err := e.must("WriteW", e.must("AsWriter", e.must("On", sink.Val, e.opts(list...))), e.mat)
						e.c.Check(e.m.NilCond(err) == bdd.True, "right-encoder", e.unit, "", "Write fails")
						if !e.c.Check(len(encd) == 1, "right-encoder", e.unit, "", "the image is encoded %d times", len(encd)) {
							return
						}
						e.c.Check(encd[0].Fmt == exp, "right-encoder", e.unit, encd[0].Where, "the image is encoded by %s instead of %s", encd[0].Fmt, exp)
						ops := 0
						for _, o := range w.Log[n0:] {
							if o.Kind == "write" {
								ops++
								e.c.Check(o.File == sink, "own-output", e.unit, o.Where, "something is written elsewhere")
							}
						}
						e.c.Check(ops > 0, "own-output", e.unit, "", "nothing is written to the output")
					}
				})
			})
		}})
}
