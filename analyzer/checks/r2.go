package checks

import (
	"fmt"
	"strings"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"

	"golang.org/x/tools/go/ssa"
)

// quietDebug models what debug mode does outside the symbol: log lines vanish,
// files can fail, the pixels of draft images are not tracked.
func quietDebug(m *absint.M, fail bool) *absint.World {
	w := m.NewWorld()
	w.CanFail = func(o *absint.WOp) bool { return fail }
	nop := func(m *absint.M, fn *ssa.Function, a []absint.V) (absint.V, bool) { return absint.V{}, false }
	for _, n := range []string{"Printf", "Println", "Print"} {
		m.Intr["log."+n] = nop
		m.Intr["(*log.Logger)."+n] = nop
	}
	for _, t := range []string{"Gray16", "Gray", "RGBA", "NRGBA", "Paletted"} {
		m.Intr["(*image."+t+").Set"+t] = nop
		m.Intr["(*image."+t+").Set"] = nop
	}
	m.Intr["image/draw.Draw"] = nop
	w.OnEncode = func(o *absint.WOp) {}
	return w
}

func init() {
	register(&Check{ID: "R09", Title: "Debug mode changes no symbol",
		Rule: "On one abstract heap a text is built with debug mode off, then again after SetDebugMode (texts with symbolic bytes and fixed texts, draft files that may fail to open, to be written and to be closed), and on fresh heaps with QRCODE_DEBUG unset, set to a value that enables debug mode, and to another: the matrix of modules, the refusal of the text and the outcome of Save are the same each time, and no path panics.",
		Min:  60, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			c.Assume("Log output always succeeds; the pixels of the draft images are not looked at.")
			c.Core()
			type cfg struct{ n, mode, ver, lvl, minv int }
			cfgs := []cfg{{5, 4, none, 0, none}, {9, 4, 2, 1, none}, {6, 1, none, 3, none}, {7, 2, none, none, none}, {2, 3, none, 0, none}, {40, 4, 1, 0, none}, {3, 4, 41, 0, none}, {30, 4, none, 3, none}}
			if c.Thorough() {
				cfgs = append(cfgs, cfg{9, 4, 7, 2, none}, cfg{60, 4, 10, 0, none}, cfg{120, 1, none, 2, none})
			}
			c.Par(len(cfgs), func(i int) {
				k := cfgs[len(cfgs)-1-i]
				unit := fmt.Sprintf("%d characters %s, SetDebugMode", k.n, cfgName(k.mode, k.ver, k.lvl, k.minv))
				unitM(c, unit, func(m *absint.M, p *absint.Program) {
					fixedEC(m)
					quietDebug(m, i%2 == 0)
					t := symBytes(m, k.n)
					if k.mode != 4 {
						t = mkText(m, k.mode, k.n).bytes
					}
					type res struct {
						err bdd.Node
						sc  []absint.V
						g   *grid
					}
					one := func() (r res, dead bool) {
						m.RSCalls, m.Scores, m.PC = nil, nil, bdd.True
						v, dead := call(m, p, "New", append([]absint.V{absint.MkSymStr(t)}, ints(k.mode, k.ver, k.lvl, k.minv)...)...)
						if dead {
							return r, true
						}
						r.err, r.sc = m.B.Not(m.NilCond(tup(v, 1))), m.Scores
						if r.err == bdd.False {
							r.g = saved(m, p, tup(v, 0))
						}
						return r, false
					}
					r1, d1 := one()
					m.PC = bdd.True
					call(m, p, "Debug")
					r2, d2 := one()
					if d1 || d2 || len(m.Panics) > 0 {
						c.Fail("no-panic", unit, panicPos(m), "the construction does not return: %v", m.Panics)
						return
					}
					c.Ok("no-panic", 1)
					if !c.Check(r1.err == r2.err, "same-error", unit, "", "the text is refused under other conditions in debug mode") || r1.g == nil {
						return
					}
					if !c.Check(r2.g != nil, "same-matrix", unit, "", "no matrix in debug mode") {
						return
					}
					s1, s2 := outcomes(m, r1.sc), outcomes(m, r2.sc)
					if len(s1) != len(s2) || len(s1) == 0 {
						c.Fail("same-matrix", unit, "", "%d and %d mask outcomes", len(s1), len(s2))
						return
					}
					for k := range s1 {
						for y := range r1.g.bits {
							for x := range r1.g.bits[y] {
								if r2.g.n != r1.g.n || s1[k].Node(r1.g.bits[y][x]) != s2[k].Node(r2.g.bits[y][x]) {
									c.Fail("same-matrix", unit, "", "module (%d,%d) differs in debug mode", x, y)
									return
								}
							}
						}
						c.Ok("same-matrix", 1)
					}
				})
			})

			// fixed texts with real scores
			type fixed struct {
				text                 string
				mode, ver, lvl, minv int
			}
			texts := []fixed{{"DEBUG 1", none, none, none, none}, {"0123456789", 1, none, 3, none}, {"漢字", 3, none, 1, none}, {"x", 4, 2, 2, none},
				{strings.Repeat("y", 18), 4, 1, 0, none}, {"A", 1, none, 1, none}, {"é\xff", none, none, 0, none}, {"z", 4, none, 2, 3}}
			envs := []string{"", "1", "true", "TRUE", "enabled", "ENABLED", "0", "false", "set"}
			run := func(f fixed, unit, env string, set bool) (out string) {
				unitM(c, unit, func(m *absint.M, p *absint.Program) {
					m.ScoreAbort = false
					constEC(m, 11)
					quietDebug(m, true)
					m.Getenv = func(m *absint.M, name absint.V) absint.V {
						if str(name) == "QRCODE_DEBUG" {
							return absint.MkStr(env)
						}
						return absint.MkStr("")
					}
					if set {
						call(m, p, "Debug")
					}
					v, dead := call(m, p, "New", append([]absint.V{absint.MkSymStr(constBytes(f.text))}, ints(f.mode, f.ver, f.lvl, f.minv)...)...)
					if dead || len(m.Panics) > 0 {
						c.Fail("no-panic", unit, panicPos(m), "the construction does not return: %v", m.Panics)
						return
					}
					n := m.NilCond(tup(v, 1))
					if n != bdd.True {
						if n != bdd.False {
							c.Fail("same-error", unit, "", "whether the text is refused depends on the draft files or the log")
							return
						}
						out = "refused"
						return
					}
					g := saved(m, p, tup(v, 0))
					if g == nil || len(m.Panics) > 0 {
						c.Fail("no-panic", unit, panicPos(m), "the symbol cannot be saved: %v", m.Panics)
						return
					}
					var sb strings.Builder
					for y := range g.bits {
						for x := range g.bits[y] {
							if g.bits[y][x] > 1 {
								c.Fail("same-matrix", unit, "", "module (%d,%d) depends on the draft files or the log", x, y)
								return
							}
							fmt.Fprint(&sb, g.bits[y][x])
						}
					}
					out = sb.String()
				})
				return
			}
			type job struct {
				f   fixed
				env string
				set bool
			}
			var jobs []job
			for i, f := range texts {
				jobs = append(jobs, job{f, "", true})
				for k, e := range envs {
					if e != "" && (i == 0 || k == i) {
						jobs = append(jobs, job{f, e, false})
					}
				}
			}
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				unit := fmt.Sprintf("%q %s, QRCODE_DEBUG=%q, SetDebugMode %v", j.f.text, cfgName(j.f.mode, j.f.ver, j.f.lvl, j.f.minv), j.env, j.set)
				a := run(j.f, unit+" (without)", "", false)
				b := run(j.f, unit, j.env, j.set)
				if a == "" || b == "" {
					return // already reported
				}
				c.Check(a == b, "same-symbol", unit, "", "the symbol or its refusal differs from the one without debug mode")
			})
		}})
}

func panicPos(m *absint.M) string {
	if len(m.Panics) > 0 {
		return m.Panics[0].Pos
	}
	return ""
}
