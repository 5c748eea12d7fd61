package checks

import (
	"fmt"
	"strings"

	"verif/analyzer/absint"
)

func init() {
	register(&Check{ID: "W22", Title: "imgkit.Scale renders the whole picture onto the rectangle",
		Rule: "For pictures and target rectangles of several sizes and origins, free pixels, a scaler written by the client (nearest pixel) and none: the result has exactly the rectangle as bounds and each of its pixels is what the scaler makes of the whole picture there, the scaler is called once, nil is the approximate bilinear scaler, and the source keeps its pixels.",
		Min:  1000, Run: func(c *Ctx) {
			c.Assume("golang.org/x/image/draw scalers give any pixels (free here)")
			c.Std()
			type job struct{ src, dst [4]int }
			srcs := [][4]int{{0, 0, 4, 3}, {5, 2, 3, 5}, {-3, -7, 2, 2}, {1, 0, 1, 1}, {0, 9, 6, 1}}
			dsts := [][4]int{{0, 0, 8, 6}, {0, 0, 3, 3}, {2, 5, 4, 4}, {-4, -1, 5, 2}, {0, 0, 1, 1}, {7, 0, 4, 3}, {0, 0, 20, 9}}
			if c.Thorough() {
				srcs = append(srcs, [4]int{100, -50, 9, 7}, [4]int{0, 0, 21, 21})
				dsts = append(dsts, [4]int{0, 0, 63, 63}, [4]int{-30, 40, 31, 2})
			}
			var jobs []job
			for _, s := range srcs {
				for _, d := range dsts {
					jobs = append(jobs, job{s, d})
				}
				jobs = append(jobs, job{s, s})
			}
			c.Par(2*len(jobs), func(i int) {
				j, own := jobs[i/2], i%2 == 0
				withStd(c, fmt.Sprintf("%d x %d at (%d,%d) onto %d x %d at (%d,%d), own scaler=%v", j.src[2], j.src[3], j.src[0], j.src[1], j.dst[2], j.dst[3], j.dst[0], j.dst[1], own), 0, func(e *stdEnv) {
					m := e.m
					var bs []absint.V
					for k := 0; k < 3*j.src[2]*j.src[3]; k++ {
						bs = append(bs, m.SymInt(fmt.Sprintf("s%d", k), 8, false, 8))
					}
					im := e.must("Pic", append(e.nums(j.src[0], j.src[1], j.src[2], j.src[3]), e.bytes(bs))...)
					_, before := e.pixels(im)
					free := map[[2]int][4]absint.V{}
					m.ScaleHook = func(x, y int) [4]absint.V {
						k := [2]int{x, y}
						if _, ok := free[k]; !ok {
							var p [4]absint.V
							for q := range p {
								p[q] = m.SymInt(fmt.Sprintf("scaled(%d,%d,%d)", x, y, q), 8, false, 8)
							}
							p[3] = u8(255)
							free[k] = p
						}
						return free[k]
					}
					want := [4]int{j.dst[0], j.dst[1], j.dst[0] + j.dst[2], j.dst[1] + j.dst[3]}
					t := e.must("ScaleTo", append([]absint.V{im}, append(e.nums(want[0], want[1], want[2], want[3]), absint.Bool(own))...)...)
					b, px := e.pixels(tup(t, 0))
					if b != want {
						e.fail("bounds", "the result has the bounds %v instead of %v", b, want)
						return
					}
					c.Ok("bounds", 1)
					if own {
						if !isInt(tup(t, 1), 1) {
							e.fail("scaler-called", "the given scaler is called %s times", m.Pretty(tup(t, 1)))
							return
						}
						e.checkImage("scaled", px, func(x, y int) (rgb, bool) {
							return before[y*j.src[3]/j.dst[3]][x*j.src[2]/j.dst[2]], true
						})
					} else {
						n := 0
						for _, ev := range m.Events {
							if !strings.HasSuffix(ev.Name, ".Scale") {
								continue
							}
							n++
							src, _ := m.ImageBounds(ev.Args[3])
							all := [4]int{j.src[0], j.src[1], j.src[0] + j.src[2], j.src[1] + j.src[3]}
							if !strings.Contains(ev.Name, "ablInterpolator") {
								e.fail("default-scaler", "without a scaler %s is used instead of the approximate bilinear one", ev.Name)
								return
							}
							if src != all || m.RectOf(ev.Args[4]) != all {
								e.fail("whole-picture", "the rectangle %v of a picture with bounds %v is scaled; the source has %v", m.RectOf(ev.Args[4]), src, all)
								return
							}
						}
						if n == 0 {
							e.fail("default-scaler", "without a scaler nothing is scaled")
							return
						}
						c.Ok("default-scaler", n)
						e.checkImage("scaled", px, func(x, y int) (rgb, bool) { p, ok := free[[2]int{x, y}]; return rgb(p), ok })
						if len(free) != j.dst[2]*j.dst[3] {
							e.fail("scaled", "%d of %d pixels are scaled", len(free), j.dst[2]*j.dst[3])
							return
						}
					}
					_, after := e.pixels(im)
					e.checkImage("source", after, func(x, y int) (rgb, bool) { return before[y][x], true })
				})
			})
		}})
}
