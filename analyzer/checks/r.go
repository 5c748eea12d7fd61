package checks

import (
	"fmt"
	"go/types"
	"strings"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"
	"verif/analyzer/oracle"
)

// fixedEC makes the Reed-Solomon model a function of its arguments: equal data
// give equal error correction bits, within one machine.
func fixedEC(m *absint.M) {
	memo := map[string][]bdd.Node{}
	m.RSHook = func(m *absint.M, a []absint.V) (absint.V, bool) {
		var sb strings.Builder
		for _, b := range m.BinaryBits(a[0]) {
			fmt.Fprintf(&sb, "%d.", b)
		}
		k := fmt.Sprint(a[1].N) + ":" + sb.String()
		v, dead := m.RSDefault(a)
		if dead {
			return v, dead
		}
		call := &m.RSCalls[len(m.RSCalls)-1]
		ec, ok := memo[k]
		if !ok {
			memo[k] = call.EC
			return v, false
		}
		call.EC = ec
		o := m.Simplify(a[0]).X.(*absint.Obj)
		return m.MkBinary(o.Typ, append(append([]bdd.Node(nil), call.Data...), ec...)), false
	}
}

// constEC replaces the error correction by fixed bits.
func constEC(m *absint.M, seed uint32) {
	m.RSHook = func(m *absint.M, a []absint.V) (absint.V, bool) {
		v, dead := m.RSDefault(a)
		if dead {
			return v, dead
		}
		call := &m.RSCalls[len(m.RSCalls)-1]
		s := seed*2654435761 + 12345
		for i := range call.EC {
			s = s*1664525 + 1013904223
			call.EC[i] = bdd.Node(s >> 28 & 1)
		}
		o := m.Simplify(a[0]).X.(*absint.Obj)
		return m.MkBinary(o.Typ, append(append([]bdd.Node(nil), call.Data...), call.EC...)), false
	}
}

// grid is a matrix read through Iterate.
type grid struct {
	n    int
	bits [][]bdd.Node
	typ  [][]absint.V
}

func readGrid(m *absint.M, p *absint.Program, mat absint.V) *grid {
	r := &SymRun{M: m, P: p, Mat: mat}
	r.read()
	return &grid{r.N, r.Bits, r.Types}
}

func (g *grid) diff(h *grid) string {
	if g.n != h.n {
		return fmt.Sprintf("%d modules wide instead of %d", h.n, g.n)
	}
	for y := range g.bits {
		for x := range g.bits[y] {
			if g.bits[y][x] != h.bits[y][x] {
				return fmt.Sprintf("module (%d,%d) differs", x, y)
			}
			if !absint.Ident(g.typ[y][x], h.typ[y][x]) {
				return fmt.Sprintf("the type of module (%d,%d) differs", x, y)
			}
		}
	}
	return ""
}

// saved is the matrix a writer gets; nil when there is none.
func saved(m *absint.M, p *absint.Program, qr absint.V) *grid {
	t, dead := call(m, p, "Saved", qr)
	if dead {
		return nil
	}
	return readGrid(m, p, tup(t, 0))
}

// unitM runs f on a fresh machine.
func unitM(c *Ctx, unit string, f func(m *absint.M, p *absint.Program)) {
	p := c.Core()
	m := absint.NewM(p)
	m.ScoreAbort = true
	c.Guard(unit, m, func() {
		defer m.Close()
		f(m, p)
		c.Unit("analyses", 1)
	})
}

func constBytes(s string) []absint.V {
	var out []absint.V
	for i := 0; i < len(s); i++ {
		out = append(out, absint.MkInt(int64(s[i]), 8, false))
	}
	return out
}

func ints(xs ...int) []absint.V {
	var out []absint.V
	for _, x := range xs {
		out = append(out, absint.Int(int64(x)))
	}
	return out
}

func noPanic(c *Ctx, rule, unit string, m *absint.M) bool {
	if len(m.Panics) == 0 {
		c.Ok(rule, 1)
		return true
	}
	p := m.Panics[0]
	c.Fail(rule, unit, p.Pos, "may panic: %s in %s", p.Reason, p.Fn)
	return false
}

var modeReq = []string{"automatic", "numeric", "alphanumeric", "kanji", "byte", "none", "3", "64", "JP"}

func cfgName(mode, ver, lvl, minv int) string {
	s := ""
	if mode != none {
		s += "mode " + modeReq[mode] + " "
	}
	return s + optName(ver, lvl, minv)
}

func init() {
	register(&Check{ID: "R01", Title: "Construction and saving never panic, and give a symbol or an error",
		Rule: "Abstract interpretation of construction, Save and every matrix accessor, for every mode request, version, level and minimum version out of valid, border and nonsense values, and texts over the nine character classes (symbolic characters) up to beyond the capacity of the largest symbol: no path panics or loops, and every path returns either a symbol and no error or an error and no symbol.",
		Min:  1500, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			type job struct {
				s                    []int
				mode, ver, lvl, minv int
			}
			var jobs []job
			seqs := append(sequences(1), []int{0, 3}, []int{3, 1}, []int{8, 8}, []int{3, 7, 0}, []int{4, 5, 6})
			for _, s := range seqs {
				for _, mode := range []int{none, 0, 1, 2, 3, 4, 5, 6, 7} {
					for i, o := range [][3]int{{none, none, none}, {0, 4, 0}, {1, 5, 41}, {41, 6, -1}, {-1, 0, 40}, {2, 3, 1}, {40, 1, 7}, {none, 5, 9}} {
						if o[0] == 40 && (mode != 4 || len(s) > 1) || o[2] == 40 && mode != 0 {
							continue
						}
						_ = i
						jobs = append(jobs, job{s, mode, o[0], o[1], o[2]})
					}
				}
			}
			rep := func(k, n int) []int {
				s := make([]int, n)
				for i := range s {
					s[i] = k
				}
				return s
			}
			for _, k := range []int{0, 1, 2, 3, 4, 8} {
				for _, n := range []int{20, 300, 1300, 1900, 3000, 7100, 9000} {
					jobs = append(jobs, job{rep(k, n), 0, none, n % 4, none}, job{rep(k, n), none, 5, none, none})
				}
			}
			c.Core()
			c.Par(len(jobs), func(i int) {
				j := jobs[len(jobs)-1-i]
				unit := clsName(j.s) + ", " + cfgName(j.mode, j.ver, j.lvl, j.minv)
				unitM(c, unit, func(m *absint.M, p *absint.Program) {
					t := mkCls(m, j.s, oracle.Byte, func(i int) bool { return len(j.s) <= 3 || i == 0 || i == len(j.s)-1 })
					r, dead := call(m, p, "New", append([]absint.V{absint.MkSymStr(t.bytes)}, ints(j.mode, j.ver, j.lvl, j.minv)...)...)
					if !noPanic(c, "no-panic", unit, m) || dead {
						if dead {
							c.Fail("returns", unit, "", "no path returns")
						}
						return
					}
					qn, en := m.NilCond(tup(r, 0)), m.NilCond(tup(r, 1))
					if m.B.And(m.PC, m.B.Not(m.B.Xor(qn, en))) != bdd.False {
						c.Fail("symbol-or-error", unit, "", "when %s the result is both or neither of a symbol and an error", m.PrettyCond(m.B.And(m.PC, m.B.Not(m.B.Xor(qn, en)))))
						return
					}
					c.Ok("symbol-or-error", 1)
					if en == bdd.False {
						return
					}
					m.PC = m.B.And(m.PC, en)
					s, dead := call(m, p, "Saved", tup(r, 0))
					if dead {
						c.Fail("returns", unit, "", "Save does not return (%v)", m.Panics)
						return
					}
					call(m, p, "Views", tup(s, 0))
					call(m, p, "SaveNil", tup(r, 0))
					call(m, p, "Dim", tup(r, 0))
					if !noPanic(c, "no-panic (use of the symbol)", unit, m) {
						return
					}
					if l := m.Leaked(); len(l) > 0 {
						m.Drain(0)
						if l = m.Leaked(); len(l) > 0 {
							c.Fail("returns", unit, l[0], "a goroutine started there never ends")
						}
					}
				})
			})
		}})

	register(&Check{ID: "R02", Title: "The mask has the lowest penalty; the lowest number wins ties",
		Rule: "The eight penalties are free values; at small penalties and at those of a random symbol of the size, for every mask and every assignment of 'equal' or 'greater' to the penalties of the masks after it ('greater' for those before it), with all other comparisons left open, and for four orders of running the concurrent evaluations: the declared mask is that one, and for the smallest symbols the whole matrix is the one of that mask. Without abstraction, on symbols with free bits, versions 1 to 9 and 40: the declared mask has the lowest documented penalty of the finished symbols (version information included).",
		Min:  8000, Run: func(c *Ctx) {
			c.Assume("That a penalty belongs to the candidate it is computed from is decided by the penalty rule check.")
			type job struct {
				ver, lvl int
				s        absint.SchedMode
			}
			var jobs []job
			for _, s := range []absint.SchedMode{absint.SchedFIFO, absint.SchedLIFO, absint.SchedEager, absint.SchedYield} {
				for _, v := range []int{1, 2, 7, 14, 40} {
					jobs = append(jobs, job{v, (v + int(s)) % 4, s})
				}
			}
			c.Par(len(jobs), func(i int) {
				j := jobs[len(jobs)-1-i]
				unit := fmt.Sprintf("version %d level %s, order %s", j.ver, oracle.LevelName[j.lvl], schedName[j.s])
				p := c.Core()
				m := absint.NewM(p)
				m.ScoreAbort = true
				m.Sched = j.s
				c.Guard(unit, m, func() {
					defer m.Close()
					n := 8
					if j.ver == 1 {
						n = 5
					}
					r := build(c, m, p, symBytes(m, n), 4, j.ver, j.lvl, none)
					if r.N == 0 || !r.sizeOK(c) {
						c.Fail("constructs", unit, "", "no matrix is produced (panics: %v)", m.Panics)
						return
					}
					gs := m.ScoreGroups(m.Scores)
					sc := r.scen(c)
					ms := r.masks(c, sc)
					if ms == nil {
						return
					}
					grp := map[int]int{}
					for g, mk := range ms {
						if o, ok := grp[mk]; ok {
							c.Fail("mask-choice", unit, "", "penalties %d and %d both lead to mask %d", o, g, mk)
							return
						}
						grp[mk] = g
					}
					if len(grp) != 8 {
						c.Fail("mask-choice", unit, "", "%d masks are compared, want 8", len(grp))
						return
					}
					for a := 0; a < 8; a++ {
						for bits := 0; bits < 2<<(7-a); bits++ {
							// small penalties, and those of a random symbol of this size (about 0.7 per module)
							base := 100.0
							if bits>>(7-a) == 1 {
								base = float64(r.N * r.N * 13 / 20)
							}
							tot := make([]float64, 8)
							desc := ""
							for k := 0; k < 8; k++ {
								g := grp[k]
								switch {
								case k == a:
									tot[g] = base
								case k > a && bits>>(k-a-1)&1 == 0:
									tot[g] = base
									desc += fmt.Sprintf(" %d", k)
								default:
									tot[g] = base + 400 + float64(k)
								}
							}
							ps, vs := spread(gs, tot)
							s := m.NewPartial(ps, vs, gs[grp[a]])
							f, _, ok := r.format(s, 0)
							if !ok {
								// the choice looks at more comparisons: order them all
								s = m.NewScenario(ps, vs)
								f, _, ok = r.format(s, 0)
							}
							if got := (f ^ 0x5412) >> 10 & 7; !ok || got != a {
								c.Fail("mask-choice", fmt.Sprintf("%s, lowest penalty %v at mask %d (tied with%s)", unit, base, a, desc), "", "mask %d must be declared, got %d (decided: %v)", a, got, ok)
								return
							}
							c.Ok("mask-choice", 1)
							if j.ver <= 2 && bits == 0 {
								u := sc[grp[a]]
								for y := range r.Bits {
									for x := range r.Bits[y] {
										if s.Node(r.Bits[y][x]) != u.Node(r.Bits[y][x]) {
											c.Fail("mask-matrix", fmt.Sprintf("%s mask %d", unit, a), "", "with a tie module (%d,%d) is not the one of mask %d", x, y, a)
											return
										}
									}
								}
								c.Ok("mask-matrix", r.N*r.N)
							}
						}
					}
					c.Unit("constructions with open penalties", 1)
				})
			})
			// the penalties that are compared are those of the finished symbols
			c.Assume("Valuations in which the share of dark modules is an exact multiple of five percent are skipped.")
			var pj []penJob
			N := 1
			if c.Thorough() {
				N = 4
			}
			for i := 0; i < 4*N; i++ {
				pj = append(pj, penJob{1 + i%6, 5 + i%4, 10, 3000 + i, i%2 == 1})
			}
			for i := 0; i < 4*N; i++ {
				pj = append(pj, penJob{7 + i%3, 30, 10, 4000 + i, i%2 == 1})
			}
			pj = append(pj, penJob{40, 60, 4, 5000, true})
			penalties(c, pj)
		}})

	register(&Check{ID: "R03", Title: "Mask penalties follow the four documented rules",
		Rule: "The penalty computation is analysed without abstraction on symbols whose payload has 10 to 13 free bits (placed in the data or the error correction codewords): for every valuation of the free bits the declared mask is the one whose candidate matrix has the lowest sum of the four documented penalties (runs of five and more, 2x2 blocks, finder-like patterns with four light modules, share of dark modules), the lowest mask number among equals.",
		Min:  100_000, Run: func(c *Ctx) {
			c.Assume("Reed-Solomon codewords are fixed or free bits; the candidates are derived from the resulting matrix by the standard's masks. Valuations in which the share of dark modules is an exact multiple of five percent are skipped.")
			var jobs []penJob
			N := 40
			if c.Thorough() {
				N = 200
			}
			for i := 0; i < N; i++ {
				jobs = append(jobs, penJob{1, 4 + i%4, 12, i, i%3 != 0})
			}
			for i := 0; i < N/4; i++ {
				jobs = append(jobs, penJob{2 + i%3, 5 + i%20, 11, 1000 + i, i%2 == 1})
			}
			for i := 0; i < N/10; i++ {
				jobs = append(jobs, penJob{[]int{7, 5, 9}[i%3], 30, 10, 2000 + i, i%2 == 1})
			}
			jobs = append(jobs, penJob{21, 60, 5, 6000, true}, penJob{40, 60, 5, 6001, false})
			penalties(c, jobs)
		}})

	register(&Check{ID: "R04", Title: "Concurrent constructions and saves are free of data races",
		Rule: "Happens-before analysis (vector clocks over every memory cell) of one construction, of two concurrent constructions (with their own and with one shared list of options), and of two concurrent saves and uses of one symbol, with debug mode off and on, for four scheduling orders: no two accesses of one cell, one of them a write, are unordered; every goroutine ends; and both results are those of the same calls made one after the other.",
		Min:  100, Run: func(c *Ctx) {
			c.Assume("One happens-before relation per scheduling order is analysed; races that need another control path are not covered.")
			type job struct {
				kind, a, b     string
				mode, ver, lvl int
				s              absint.SchedMode
				abort          bool
				debug          bool
			}
			var jobs []job
			for _, s := range []absint.SchedMode{absint.SchedFIFO, absint.SchedLIFO, absint.SchedEager, absint.SchedYield} {
				for _, k := range []string{"one", "two", "opts", "save", "use"} {
					jobs = append(jobs,
						job{k, "HELLO", "12345", 0, none, 0, s, false, false}, job{k, "hello world", "hello earth", 4, 1, 1, s, true, false},
						job{k, "12", "AB-", 0, 7, 1, s, true, false})
					if c.Thorough() || k != "opts" && k != "use" {
						jobs = append(jobs, job{k, "x", "\u4e00", 0, 2, 2, s, true, false},
							job{k, "\u6f22\u5b57", "", 0, none, 3, s, true, false}, job{k, "too long for a small symbol", "x", 4, 1, 3, s, true, false})
					}
					if k == "two" && s != absint.SchedYield || c.Thorough() {
						jobs = append(jobs, job{k, "HELLO", "12345", 0, none, 2, s, false, true})
					}
				}
				if s == absint.SchedEager || c.Thorough() {
					jobs = append(jobs, job{"one", "0123456789", "0", 1, 7, 0, s, true, true})
				}
				if c.Thorough() {
					for v := 1; v <= 40; v++ {
						for _, k := range []string{"two", "opts", "use"} {
							jobs = append(jobs, job{k, "HELLO", "WORLD!", 0, v, v % 4, s, true, v%3 == 0})
						}
					}
				}
			}
			c.Core()
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				unit := fmt.Sprintf("%s(%q, %q) %s, order %s, debug mode %v", j.kind, j.a, j.b, cfgName(j.mode, j.ver, j.lvl, none), schedName[j.s], j.debug)
				unitM(c, unit, func(m *absint.M, p *absint.Program) {
					m.ScoreAbort = j.abort
					m.Sched = j.s
					if j.debug {
						quietDebug(m, false)
						if _, dead := call(m, p, "Debug"); dead {
							c.Fail("no-panic", unit, "", "debug mode cannot be set")
							return
						}
					}
					m.RaceOn = true
					if j.abort {
						fixedEC(m)
					} else {
						constEC(m, 7)
					}
					var got []*grid
					switch j.kind {
					case "one":
						r, dead := call(m, p, "New", append([]absint.V{absint.MkStr(j.a)}, ints(j.mode, j.ver, j.lvl, none)...)...)
						if dead {
							break
						}
						if m.NilCond(tup(r, 1)) == bdd.True {
							saved(m, p, tup(r, 0))
						}
					case "two", "opts":
						r, dead := call(m, p, map[string]string{"two": "Conc", "opts": "ConcReuse"}[j.kind], append([]absint.V{absint.MkStr(j.a), absint.MkStr(j.b)}, ints(j.mode, j.ver, j.lvl)...)...)
						if dead {
							break
						}
						for k := 0; k < 2; k++ {
							got = append(got, nil)
							if m.NilCond(tup(r, k+2)) == bdd.True {
								got[k] = saved(m, p, tup(r, k))
							}
						}
					case "save", "use":
						r, dead := call(m, p, "New", append([]absint.V{absint.MkStr(j.a)}, ints(j.mode, j.ver, j.lvl, none)...)...)
						if dead || m.NilCond(tup(r, 1)) != bdd.True {
							break
						}
						s, dead := call(m, p, map[string]string{"save": "ConcSave", "use": "ConcUse"}[j.kind], tup(r, 0))
						if dead {
							break
						}
						x, y := readGrid(m, p, tup(s, 0)), readGrid(m, p, tup(s, 1))
						if d := x.diff(y); d != "" {
							c.Fail("same-result", unit, "", "two concurrent saves receive different matrices: %s", d)
						}
						c.Ok("same-result", 1)
					}
					m.Drain(0)
					noPanic(c, "no-panic", unit, m)
					if l := m.Leaked(); len(l) > 0 {
						c.Fail("goroutines-end", unit, l[0], "a goroutine started there never ends")
					} else {
						c.Ok("goroutines-end", 1)
					}
					if len(m.Races) > 0 {
						c.Fail("no-race", unit, "", "%s", m.Races[0])
						return
					}
					c.Ok("no-race", 1)
					if len(got) == 2 && !j.abort {
						m.RaceOn = false
						for k, tx := range []string{j.a, j.b} {
							r, dead := call(m, p, "New", append([]absint.V{absint.MkStr(tx)}, ints(j.mode, j.ver, j.lvl, none)...)...)
							if dead {
								continue
							}
							ok := m.NilCond(tup(r, 1)) == bdd.True
							if ok != (got[k] != nil) {
								c.Fail("same-result", unit, "", "alone and concurrently the construction of %q does not agree on success", tx)
								return
							}
							if ok {
								if d := saved(m, p, tup(r, 0)).diff(got[k]); d != "" {
									c.Fail("same-result", unit, "", "the symbol of %q built concurrently differs from the one built alone: %s", tx, d)
									return
								}
							}
							c.Ok("same-result", 1)
						}
					}
				})
			})
		}})

	register(&Check{ID: "R05", Title: "A symbol does not depend on earlier or later work",
		Rule: "On one abstract heap: a symbol is built, other symbols (other texts, modes, versions, levels, refused texts, one shared list of options) are built and saved, then the first is built again. All texts have symbolic bytes. The second result has the same message, matrix and error as boolean functions of the text, and the first symbol's matrix, saved again, has not changed.",
		Min:  300, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			type cfg struct{ n, mode, ver, lvl, minv int }
			cfgs := []cfg{{5, 4, none, 0, none}, {5, 4, none, 2, none}, {9, 4, 2, 1, none}, {3, 4, 7, 3, none}, {12, 4, none, none, 4}, {30, 4, 1, 0, none}, {40, 4, none, 3, none}, {0, none, none, none, none}, {6, 1, none, 1, none}, {7, 2, none, none, none}, {2, 3, none, 0, none}, {6, 1, 1, 1, none}, {0, 3, 2, 0, none}}
			mk := func(m *absint.M, k cfg) []absint.V {
				switch k.mode {
				case 1, 2, 3:
					return mkText(m, k.mode, k.n).bytes
				}
				return symBytes(m, k.n)
			}
			type job struct{ a, b int }
			var jobs []job
			for a := range cfgs {
				for b := range cfgs {
					jobs = append(jobs, job{a, b})
				}
			}
			c.Core()
			c.Par(len(jobs), func(i int) {
				A, B := cfgs[jobs[i].a], cfgs[jobs[i].b]
				unit := fmt.Sprintf("%d characters %s around %d characters %s", A.n, cfgName(A.mode, A.ver, A.lvl, A.minv), B.n, cfgName(B.mode, B.ver, B.lvl, B.minv))
				unitM(c, unit, func(m *absint.M, p *absint.Program) {
					fixedEC(m)
					ta, tb := mk(m, A), mk(m, B)
					type res struct {
						qr    absint.V
						err   bdd.Node
						calls []absint.RSCall
						sc    []absint.V
						g     *grid
						pc    bdd.Node
					}
					one := func(t []absint.V, k cfg) (r res, dead bool) {
						m.RSCalls, m.Scores = nil, nil
						m.PC = bdd.True
						v, dead := call(m, p, "New", append([]absint.V{absint.MkSymStr(t)}, ints(k.mode, k.ver, k.lvl, k.minv)...)...)
						if dead {
							return r, true
						}
						r.qr, r.err, r.calls, r.sc = tup(v, 0), m.B.Not(m.NilCond(tup(v, 1))), m.RSCalls, m.Scores
						if r.err == bdd.False {
							r.g = saved(m, p, r.qr)
						}
						r.pc = m.PC
						return r, false
					}
					r1, d1 := one(ta, A)
					one(tb, B)
					r2, d2 := one(ta, A)
					if d1 || d2 || len(m.Panics) > 0 {
						c.Fail("no-panic", unit, "", "the construction does not return: %v", m.Panics)
						return
					}
					if !c.Check(r1.err == r2.err, "same-error", unit, "", "the text is refused under other conditions the second time") {
						return
					}
					if len(r1.calls) != len(r2.calls) {
						c.Fail("same-message", unit, "", "%d blocks the first time, %d the second", len(r1.calls), len(r2.calls))
						return
					}
					for k := range r1.calls {
						x, y := r1.calls[k], r2.calls[k]
						same := len(x.Data) == len(y.Data) && len(x.EC) == len(y.EC)
						for b := 0; same && b < len(x.Data); b++ {
							same = x.Data[b] == y.Data[b]
						}
						if !same {
							c.Fail("same-message", unit, x.Where, "data block %d differs when the text is encoded again after other work", k)
							return
						}
					}
					c.Ok("same-message", len(r1.calls)+1)
					if r1.g == nil {
						return
					}
					if !c.Check(r2.g != nil, "same-matrix", unit, "", "no matrix the second time") {
						return
					}
					// equal penalties for equal candidates: compare outcome by outcome
					s1, s2 := outcomes(m, r1.sc), outcomes(m, r2.sc)
					if len(s1) != len(s2) || len(s1) == 0 {
						c.Fail("same-matrix", unit, "", "%d and %d mask outcomes", len(s1), len(s2))
						return
					}
					for k := range s1 {
						for y := range r1.g.bits {
							for x := range r1.g.bits[y] {
								if r2.g.n != r1.g.n || s1[k].Node(r1.g.bits[y][x]) != s2[k].Node(r2.g.bits[y][x]) {
									c.Fail("same-matrix", unit, "", "module (%d,%d) differs when the text is built again after other work", x, y)
									return
								}
							}
						}
					}
					c.Ok("same-matrix", 1)
					m.PC = bdd.True
					g3 := saved(m, p, r1.qr)
					if g3 == nil {
						c.Fail("kept", unit, "", "the first symbol cannot be saved again: %v", m.Panics)
						return
					}
					d := r1.g.diff(g3)
					c.Check(d == "", "kept", unit, "", "the first symbol changed while others were built: %s", d)
				})
			})
			// one list of options for two texts
			c.Par(len(cfgs), func(i int) {
				k := cfgs[i]
				if k.mode == 1 || k.mode == 2 || k.mode == 3 {
					return
				}
				for _, o := range []int{none, 0} {
					if k.mode == 4 && o == 0 {
						continue
					}
					k := k
					if k.mode == none {
						k.mode = o
					}
					unit := fmt.Sprintf("one list of options %s for two texts", cfgName(k.mode, k.ver, k.lvl, k.minv))
					unitM(c, unit, func(m *absint.M, p *absint.Program) {
						fixedEC(m)
						long := absint.MkSymStr(constBytes(strings.Repeat("long text ", 8)))
						short := absint.MkSymStr(constBytes("7"))
						r, dead := call(m, p, "Reuse", append([]absint.V{long, short}, ints(k.mode, k.ver, k.lvl, k.minv)...)...)
						if dead {
							c.Fail("options-reusable", unit, "", "no path returns: %v", m.Panics)
							return
						}
						s, dead := call(m, p, "New", append([]absint.V{short}, ints(k.mode, k.ver, k.lvl, k.minv)...)...)
						if dead {
							c.Fail("options-reusable", unit, "", "no path returns: %v", m.Panics)
							return
						}
						e1, e2 := m.NilCond(tup(r, 3)), m.NilCond(tup(s, 1))
						if !c.Check(e1 == e2, "options-reusable", unit, "", "the second text is refused only after the first") || e1 != bdd.True {
							return
						}
						d1, _ := call(m, p, "Dim", tup(r, 1))
						d2, _ := call(m, p, "Dim", tup(s, 0))
						c.Check(absint.Ident(d1, d2), "options-reusable", unit, "", "the dimension of the second symbol is %v, %v with fresh options", d1, d2)
					})
				}
			})
			// many fixed symbols in one order on one heap and in the reverse
			// order on another
			type fixed struct {
				text                 string
				mode, ver, lvl, minv int
			}
			var hist [3][]fixed
			k := 0
			for _, v := range []int{27, 12, 3, none, 9, 10, 26} {
				for mode := 1; mode <= 4; mode++ {
					k++
					f := fixed{[]string{"", "012345678", "AB 12/$", "漢字世", "m: é\xff"}[mode], mode, v, k % 4, none}
					if v == none {
						f.minv = []int{none, none, 11, 28, none}[mode]
					}
					if k%5 == 0 {
						f.text += f.text
					}
					h := 0
					switch {
					case v == 9 || v == 10 || v == 26:
						h = 1
					case v == none:
						h = 2
					}
					hist[h] = append(hist[h], f)
				}
			}
			hist[2] = append(hist[2], fixed{"", 4, none, 1, none}, fixed{"A", 1, none, 1, none}, fixed{strings.Repeat("x", 18), 4, 1, 0, none}, fixed{"7", none, none, none, none}, fixed{"A7", 0, none, none, none}, fixed{"a7", 0, none, none, none}, fixed{"漢", 0, 7, none, none}, fixed{"7", 2, none, 3, none}, fixed{"7", 4, 2, 3, none})
			for h := range hist {
				for i := range hist[h] { // mix the order
					j := (i*7 + 3) % len(hist[h])
					hist[h][i], hist[h][j] = hist[h][j], hist[h][i]
				}
			}
			type out struct {
				s    string
				done bool
			}
			var outs [3][2][]out
			c.Par(6, func(i int) {
				h, rev := i/2, i%2 == 1
				list := hist[h]
				outs[h][i%2] = make([]out, len(list))
				unit := fmt.Sprintf("history %d, reversed %v", h, rev)
				unitM(c, unit, func(m *absint.M, p *absint.Program) {
					m.ScoreAbort = false
					constEC(m, 7)
					for k := range list {
						if rev {
							k = len(list) - 1 - k
						}
						f := list[k]
						m.PC, m.RSCalls = bdd.True, nil
						v, dead := call(m, p, "New", append([]absint.V{absint.MkSymStr(constBytes(f.text))}, ints(f.mode, f.ver, f.lvl, f.minv)...)...)
						if dead || len(m.Panics) > 0 {
							c.Fail("no-panic", unit, "", "the construction does not return: %v", m.Panics)
							return
						}
						o := out{done: true}
						if n := m.NilCond(tup(v, 1)); n != bdd.True {
							o.s = "refused"
							if n != bdd.False {
								m.Undecided("the outcome of a fixed text is not determined")
							}
						} else {
							g := saved(m, p, tup(v, 0))
							if g == nil {
								c.Fail("no-panic", unit, "", "a symbol cannot be saved: %v", m.Panics)
								return
							}
							var sb strings.Builder
							for y := range g.bits {
								for x := range g.bits[y] {
									if g.bits[y][x] > 1 {
										m.Undecided("a module of a fixed text is not determined")
									}
									fmt.Fprint(&sb, g.bits[y][x])
								}
							}
							o.s = sb.String()
						}
						outs[h][i%2][k] = o
					}
				})
			})
			for h := range hist {
				for k, f := range hist[h] {
					a, b := outs[h][0][k], outs[h][1][k]
					if !a.done || !b.done {
						continue // already reported
					}
					unit := fmt.Sprintf("%q %s after other symbols", f.text, cfgName(f.mode, f.ver, f.lvl, f.minv))
					c.Check(a.s == b.s, "order-independent", unit, "", "the symbol or its refusal differs between two orders of construction")
				}
			}
		}})

	register(&Check{ID: "R06", Title: "The symbol is independent of the caller's buffer",
		Rule: "Construction from a byte slice with symbolic bytes (a window of a larger buffer), after which the caller overwrites every byte: message and matrix are the same boolean functions of the original bytes as without overwriting; and no write to the caller's cells occurs during construction and saving.",
		Min:  60, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			type job struct{ n, mode, ver, lvl int }
			var jobs []job
			for _, n := range []int{1, 2, 5, 17} {
				for l := 0; l < 4; l++ {
					jobs = append(jobs, job{n, 4, none, l}, job{n, 4, 3, l}, job{n, 0, none, l}, job{n, 1, none, l})
				}
			}
			c.Core()
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				unit := fmt.Sprintf("%d bytes, %s", j.n, cfgName(j.mode, j.ver, j.lvl, none))
				unitM(c, unit, func(m *absint.M, p *absint.Program) {
					fixedEC(m)
					var bs []absint.V
					switch j.mode {
					case 0:
						bs = constBytes(strings.Repeat("aZ9 ", 5)[:j.n])
					case 1:
						bs = mkText(m, 1, j.n).bytes
					default:
						bs = symBytes(m, j.n)
					}
					// the slice is a window of a larger buffer
					const lead, tail = 3, 5
					buf := append(append(constBytes("xyz"), bs...), constBytes("after")...)
					sl := m.NewSlice(byteT, append([]absint.V(nil), buf...), "the caller's bytes")
					win := sl.X.(*absint.SliceV)
					win.Off, win.Len, win.Cap = lead, len(bs), len(bs)+tail
					if i%3 == 2 {
						win.Cap = len(bs)
					}
					obj := win.Obj
					v, dead := call(m, p, "MutAfter", append([]absint.V{sl}, ints(j.mode, j.ver, j.lvl)...)...)
					if dead || len(m.Panics) > 0 {
						c.Fail("no-panic", unit, "", "the construction does not return: %v", m.Panics)
						return
					}
					calls1, sc1 := m.RSCalls, m.Scores
					g1 := saved(m, p, tup(v, 0))
					for k := range obj.Cells {
						obj.Cells[k] = buf[k]
					}
					m.RSCalls, m.Scores = nil, nil
					m.TrackWrites, m.Epoch = true, obj.ID+1
					w, dead := call(m, p, "Bytes", append([]absint.V{sl}, ints(j.mode, j.ver, j.lvl, none)...)...)
					if dead {
						return
					}
					g2 := saved(m, p, tup(w, 0))
					m.TrackWrites = false
					bad := ""
					for _, e := range m.Writes {
						if e.Obj == obj {
							bad = e.Fn + " (" + e.Pos + ")"
						}
					}
					c.Check(bad == "", "input-not-written", unit, bad, "the caller's buffer is written")
					if g1 == nil || g2 == nil || len(calls1) != len(m.RSCalls) {
						c.Fail("same-message", unit, "", "overwriting the input changes the result")
						return
					}
					for k := range calls1 {
						x, y := calls1[k], m.RSCalls[k]
						for b := range x.Data {
							if len(x.Data) != len(y.Data) || x.Data[b] != y.Data[b] {
								c.Fail("same-message", unit, x.Where, "data block %d depends on what the caller writes afterwards", k)
								return
							}
						}
					}
					c.Ok("same-message", 1)
					s1, s2 := outcomes(m, sc1), outcomes(m, m.Scores)
					for k := range s1 {
						for y := range g1.bits {
							for x := range g1.bits[y] {
								if g1.n != g2.n || s1[k].Node(g1.bits[y][x]) != s2[k].Node(g2.bits[y][x]) {
									c.Fail("same-matrix", unit, "", "module (%d,%d) depends on what the caller writes afterwards", x, y)
									return
								}
							}
						}
					}
					c.Ok("same-matrix", 1)
				})
			})
		}})

	register(&Check{ID: "R07", Title: "Building a symbol has no side effects",
		Rule: "Effect analysis of every construction and save of R01's kind, with the debug switch off: no call with an effect outside the process memory (files, standard streams, log, environment changes, network, process exit, sleeping) is reachable on any path that accepts the text.",
		Min:  200, Run: func(c *Ctx) {
			c.Assume("Reading the environment for the debug switch is allowed; the switch is off.")
			type job struct {
				s                    []int
				mode, ver, lvl, minv int
			}
			var jobs []job
			for _, s := range append(sequences(1), []int{0, 3}, []int{3, 3}, []int{1, 7}, []int{8, 0}) {
				for _, mode := range []int{none, 0, 1, 2, 3, 4} {
					for _, o := range [][3]int{{none, none, none}, {1, 3, none}, {7, 2, none}, {none, 0, 10}} {
						jobs = append(jobs, job{s, mode, o[0], o[1], o[2]})
					}
				}
			}
			// long texts, up to the largest that fits
			for k := 0; k < 9; k++ {
				w := len(classes[k].tab[0])
				mode := narrowest([]int{k})
				for x, n := range []int{16, 60, 130, 260, 400, 700, 1001, 1600, 2300, 99999} {
					if !c.Thorough() && x > 1 && x < 9 && (x+k)%2 == 0 {
						continue
					}
					max := oracle.Cap(40, 0, mode)
					if mode == oracle.Byte {
						max /= w
					}
					if n > max {
						n = max
					}
					s := make([]int, n)
					for q := range s {
						s[q] = k
					}
					jobs = append(jobs, job{s, none, none, 0, none})
					if x%4 == 1 || c.Thorough() {
						jobs = append(jobs, job{s[:n*2/3], mode, none, 1, 5})
					}
				}
			}
			c.Core()
			c.Par(len(jobs), func(i int) {
				j := jobs[len(jobs)-1-i]
				unit := clsName(j.s) + ", " + cfgName(j.mode, j.ver, j.lvl, j.minv)
				unitM(c, unit, func(m *absint.M, p *absint.Program) {
					var sym func(int) bool
					if len(j.s) > 4 {
						sym = func(q int) bool { return q == 0 || q == len(j.s)-1 }
					}
					t := mkCls(m, j.s, oracle.Byte, sym)
					r, dead := call(m, p, "New", append([]absint.V{absint.MkSymStr(t.bytes)}, ints(j.mode, j.ver, j.lvl, j.minv)...)...)
					ok := bdd.False
					if !dead {
						ok = m.B.And(m.PC, m.NilCond(tup(r, 1)))
						if ok != bdd.False {
							m.PC = ok
							call(m, p, "Saved", tup(r, 0))
							call(m, p, "Dim", tup(r, 0))
						}
					}
					for _, e := range m.Events {
						if m.B.And(e.Cond, ok) == bdd.False || pureEvent(e.Name) {
							continue
						}
						c.Fail("no-effect", e.Fn+" calls "+e.Name, m.PosString(e.Pos), "%s: reachable without debug mode", unit)
						return
					}
					c.Ok("no-effect", 1)
				})
			})
		}})

	register(&Check{ID: "R08", Title: "Save writes once, closes once and returns the writer's error",
		Rule: "For a writer that succeeds or fails in Write and in Close (all four combinations, error values distinguished): Save hands it the matrix exactly once, closes it exactly once after Write has returned, returns exactly Write's error, and can be repeated; a nil writer is accepted.",
		Min:  30, Run: func(c *Ctx) {
			for _, tx := range []string{"HELLO", "12", "x\xff"} {
				for k := 0; k < 4; k++ {
					unit := fmt.Sprintf("%q, Write error %v, Close error %v", tx, k&1 == 1, k&2 == 2)
					unitM(c, unit, func(m *absint.M, p *absint.Program) {
						r, dead := call(m, p, "New", append([]absint.V{absint.MkStr(tx)}, ints(0, none, 1, none)...)...)
						if dead {
							c.Fail("constructs", unit, "", "no path returns: %v", m.Panics)
							return
						}
						we, ce := absint.NilIface, absint.NilIface
						if k&1 == 1 {
							we, _ = call(m, p, "Err")
						}
						if k&2 == 2 {
							ce, _ = call(m, p, "Err2")
						}
						for round := 0; round < 2; round++ {
							s, dead := call(m, p, "SaveTo", tup(r, 0), we, ce)
							if dead {
								c.Fail("save-returns", unit, "", "Save does not return: %v", m.Panics)
								return
							}
							c.Check(isInt(tup(s, 1), 1), "writes-once", unit, "", "Write is called %v times", tup(s, 1))
							c.Check(isInt(tup(s, 2), 1), "closes-once", unit, "", "Close is called %v times", tup(s, 2))
							c.Check(isInt(tup(s, 3), 0), "close-after-write", unit, "", "Close is called before Write")
							eq, _ := call(m, p, "Same", tup(s, 0), we)
							c.Check(absint.Ident(eq, absint.Bool(true)), "returns-write-error", unit, "", "Save returns %s instead of the result of Write", m.Pretty(tup(s, 0)))
						}
						s, dead := call(m, p, "SaveNil", tup(r, 0))
						c.Check(!dead && m.NilCond(s) == bdd.True, "nil-writer", unit, "", "Save(nil) fails or panics")
					})
				}
			}
		}})

	register(&Check{ID: "X01", Title: "All views of a matrix agree",
		Rule: "For symbols of ten versions with symbolic payload: row-wise and column-wise iteration visit every module exactly once in their order with the same values, Row, Col and Bitmap hold the same values at the same places, a copy equals the original, and rows and columns outside the matrix are nil.",
		Min:  20000, Run: func(c *Ctx) {
			vers := []int{1, 2, 3, 5, 7, 10, 14, 22, 30, 40}
			c.Core()
			c.Par(len(vers), func(i int) {
				v := vers[len(vers)-1-i]
				unit := fmt.Sprintf("version %d", v)
				unitM(c, unit, func(m *absint.M, p *absint.Program) {
					r := build(c, m, p, symBytes(m, 7), 4, v, 0, none)
					if r.N == 0 || !r.sizeOK(c) {
						c.Fail("constructs", unit, "", "no matrix is produced: %v", m.Panics)
						return
					}
					viewsAgree(c, unit, r, r.Mat)
					cp, dead := call(m, p, "Copy", r.Mat)
					if dead {
						c.Fail("copy", unit, "", "Copy does not return: %v", m.Panics)
						return
					}
					d := (&grid{r.N, r.Bits, r.Types}).diff(readGrid(m, p, cp))
					c.Check(d == "", "copy", unit, "", "the copy differs from the original: %s", d)
					noPanic(c, "no-panic", unit, m)
				})
			})
		}})

	register(&Check{ID: "X02", Title: "Views of a matrix are copies",
		Rule: "After a client overwrites everything that Row, Col and Bitmap returned, for every row and column, the matrix, its copies and the symbol it came from still have all their modules; and the cells of a copy are not those of the original.",
		Min:  2000, Run: func(c *Ctx) {
			vers := []int{1, 2, 4, 7}
			c.Core()
			c.Par(len(vers), func(i int) {
				v := vers[len(vers)-1-i]
				unit := fmt.Sprintf("version %d", v)
				unitM(c, unit, func(m *absint.M, p *absint.Program) {
					r := build(c, m, p, symBytes(m, 7), 4, v, 1, none)
					if r.N == 0 || !r.sizeOK(c) {
						c.Fail("constructs", unit, "", "no matrix is produced: %v", m.Panics)
						return
					}
					base := &grid{r.N, r.Bits, r.Types}
					cp, dead := call(m, p, "Copy", r.Mat)
					if dead {
						c.Fail("copy", unit, "", "Copy does not return: %v", m.Panics)
						return
					}
					for k := 0; k < r.N; k++ {
						call(m, p, "Scribble", r.Mat, absint.Int(int64(k)))
						if d := base.diff(readGrid(m, p, r.Mat)); d != "" {
							c.Fail("matrix-unchanged", unit, "", "overwriting the row, column or bitmap %d returned by the matrix changes it: %s", k, d)
							return
						}
						call(m, p, "Scribble", cp, absint.Int(int64(k)))
					}
					c.Ok("matrix-unchanged", r.N*r.N)
					if d := base.diff(readGrid(m, p, r.Mat)); d != "" {
						c.Fail("matrix-unchanged", unit, "", "overwriting the views of a copy changes the original: %s", d)
						return
					}
					if d := base.diff(readGrid(m, p, cp)); d != "" {
						c.Fail("copy-unchanged", unit, "", "overwriting the views of a copy changes it: %s", d)
						return
					}
					c.Ok("copy-unchanged", r.N*r.N)
					viewsAgree(c, unit+", original after overwriting", r, r.Mat)
					viewsAgree(c, unit+", copy after overwriting", r, cp)
					// views taken together
					t, dead := call(m, p, "Saved", r.QR)
					if dead {
						c.Fail("views-separate", unit, "", "the symbol cannot be saved again: %v", m.Panics)
						return
					}
					for vi, other := range []absint.V{r.Mat, cp, tup(t, 0)} {
						for _, first := range []bool{false, true} {
							for _, k := range []int{0, 6, r.N - 1} {
								t, dead := call(m, p, "Hold", r.Mat, other, absint.Int(int64(k)), absint.Bool(first))
								if dead {
									c.Fail("views-separate", unit, "", "the views cannot be taken: %v", m.Panics)
									return
								}
								what := []string{"the same matrix", "a copy", "the matrix of another Save"}[vi]
								row, col, bm := m.SliceCells(tup(t, 0)), m.SliceCells(tup(t, 1)), m.SliceCells(tup(t, 2))
								if len(row) != r.N || len(col) != r.N || len(bm) != r.N {
									c.Fail("views-separate", unit, "", "a view has the wrong size")
									return
								}
								for i := 0; i < r.N; i++ {
									if row[i].Node() != r.Bits[k][i] || col[i].Node() != r.Bits[i][k] {
										c.Fail("views-separate", unit, "", "overwriting the row or column of %s changes one already handed out", what)
										return
									}
									line := m.SliceCells(bm[i])
									for x := range line {
										if line[x].Node() != r.Bits[i][x] {
											c.Fail("views-separate", unit, "", "overwriting the bitmap of %s changes one already handed out", what)
											return
										}
									}
								}
								c.Ok("views-separate", r.N*r.N)
							}
						}
					}
					g := saved(m, p, r.QR)
					d := base.diff(g)
					c.Check(d == "", "symbol-unchanged", unit, "", "the symbol changed: %s", d)
					// separate storage
					shared := ""
					a, b := reach(r.Mat), reach(cp)
					for o := range a {
						if b[o] && len(o.Cells) > 0 && !immutableLabel(o.Label) {
							shared = o.Label
						}
					}
					c.Check(shared == "", "copy-separate", unit, "", "the copy shares %s with the original", shared)
				})
			})
		}})
}

var byteT = types.Typ[types.Uint8]

var schedName = []string{"first come first run", "last started first run", "run when started", "switch at every synchronisation"}

func isInt(v absint.V, n int64) bool { return v.K == absint.KInt && v.N == n }

// outcomes is one scenario per group of scores.
func outcomes(m *absint.M, scores []absint.V) []*absint.Scenario {
	r := &SymRun{M: m}
	gs := m.ScoreGroups(scores)
	var out []*absint.Scenario
	for i := range gs {
		v := make([]float64, len(gs))
		for j := range v {
			v[j] = 500 + float64((j*37)%len(gs))
		}
		v[i] = 100
		out = append(out, r.scenario(gs, v))
	}
	return out
}

// pureEvent: recorded calls without an outside effect.
func pureEvent(n string) bool {
	return strings.HasPrefix(n, "invoke:") || n == "os.Getenv" || n == "os.LookupEnv"
}

// viewsAgree compares the accessors with column-wise iteration.
func viewsAgree(c *Ctx, unit string, r *SymRun, mat absint.V) {
	m := r.M
	// row-wise iteration
	seen := map[[2]int]int{}
	last := [2]int{-1, -1}
	order := true
	bad := ""
	visit := hostFn("visit", func(m *absint.M, a []absint.V) (absint.V, bool) {
		x, y := int(a[0].N), int(a[1].N)
		if x < 0 || y < 0 || x >= r.N || y >= r.N {
			bad = fmt.Sprintf("(%d,%d) is outside", x, y)
			return absint.V{}, false
		}
		seen[[2]int{x, y}]++
		if y < last[1] || y == last[1] && x <= last[0] {
			order = false
		}
		last = [2]int{x, y}
		bits := m.Bits(a[2])
		if bits[0] != r.Bits[y][x] {
			bad = fmt.Sprintf("module (%d,%d) differs", x, y)
		}
		return absint.V{}, false
	})
	call(m, r.P, "Visit", mat, absint.Bool(false), visit)
	c.Check(bad == "", "iteration", unit, "", "row-wise iteration: %s", bad)
	c.Check(order, "iteration", unit, "", "row-wise iteration is not in row order")
	c.Check(len(seen) == r.N*r.N, "iteration", unit, "", "row-wise iteration visits %d of %d modules", len(seen), r.N*r.N)
	// column order
	last = [2]int{-1, -1}
	order = true
	cnt := 0
	visit = hostFn("visit", func(m *absint.M, a []absint.V) (absint.V, bool) {
		x, y := int(a[0].N), int(a[1].N)
		if x < last[0] || x == last[0] && y <= last[1] {
			order = false
		}
		last = [2]int{x, y}
		cnt++
		return absint.V{}, false
	})
	call(m, r.P, "Visit", mat, absint.Bool(true), visit)
	c.Check(order, "iteration", unit, "", "column-wise iteration is not in column order")
	c.Check(cnt == r.N*r.N, "iteration", unit, "", "column-wise iteration makes %d visits, want %d", cnt, r.N*r.N)
	// rows, columns
	for _, h := range []string{"Row", "Col"} {
		for k := 0; k < r.N; k++ {
			t, dead := call(m, r.P, h, mat, absint.Int(int64(k)))
			if dead {
				c.Fail("views", unit, "", "%s(%d) does not return: %v", h, k, m.Panics)
				return
			}
			bs, ts := m.SliceCells(tup(t, 0)), m.SliceCells(tup(t, 1))
			if len(bs) != r.N {
				c.Fail("views", unit, "", "%s(%d) has %d modules, want %d", h, k, len(bs), r.N)
				return
			}
			for i := range bs {
				x, y := i, k
				if h == "Col" {
					x, y = k, i
				}
				if bs[i].Node() != r.Bits[y][x] {
					c.Fail("views", unit, "", "%s(%d)[%d] is not module (%d,%d)", h, k, i, x, y)
					return
				}
				want := m.Bits(r.Types[y][x])
				for b, n := range m.Bits(ts[i]) {
					w := bdd.False
					if b < len(want) {
						w = want[b]
					}
					if n != w {
						c.Fail("views", unit, "", "the type of %s(%d)[%d] is not that of module (%d,%d)", h, k, i, x, y)
						return
					}
				}
			}
			c.Ok("views", r.N)
		}
		for _, k := range []int{-1, r.N, r.N + 3, 1 << 40} {
			t, dead := call(m, r.P, h, mat, absint.Int(int64(k)))
			c.Check(!dead && absint.Ident(tup(t, 2), absint.Bool(true)), "outside", fmt.Sprintf("%s, %s(%d)", unit, h, k), "", "%s outside the matrix is not nil", h)
		}
	}
	b, dead := call(m, r.P, "Bitmap", mat)
	if dead {
		c.Fail("views", unit, "", "Bitmap does not return: %v", m.Panics)
		return
	}
	rows := m.SliceCells(b)
	if len(rows) != r.N {
		c.Fail("views", unit, "", "Bitmap has %d rows", len(rows))
		return
	}
	for y := range rows {
		row := m.SliceCells(rows[y])
		if len(row) != r.N {
			c.Fail("views", unit, "", "row %d of Bitmap has %d modules", y, len(row))
			return
		}
		for x := range row {
			if row[x].Node() != r.Bits[y][x] {
				c.Fail("views", unit, "", "Bitmap()[%d][%d] is not module (%d,%d)", y, x, x, y)
				return
			}
		}
	}
	c.Ok("views", r.N*r.N)
}

func immutableLabel(string) bool { return false }

// reach is the set of objects reachable from a value.
func reach(v absint.V) map[*absint.Obj]bool {
	out := map[*absint.Obj]bool{}
	var rec func(v absint.V)
	obj := func(o *absint.Obj) {
		if o == nil || out[o] {
			return
		}
		out[o] = true
		for _, x := range o.Cells {
			rec(x)
		}
	}
	rec = func(v absint.V) {
		switch x := v.X.(type) {
		case *absint.Obj:
			obj(x)
		case *absint.SliceV:
			if x != nil {
				obj(x.Obj)
			}
		case []absint.V:
			for _, y := range x {
				rec(y)
			}
		case []absint.Alt:
			for _, y := range x {
				rec(y.V)
			}
		}
	}
	rec(v)
	return out
}

// penJob is one analysis without abstraction of the penalty computation.
type penJob struct {
	ver, n, k, seed int
	ec              bool
}

// penalties decides, for every valuation of the free bits of each job, that
// the declared mask has the lowest sum of the documented penalties.
func penalties(c *Ctx, jobs []penJob) {
	c.Core()
	c.Par(len(jobs), func(i int) {
		j := jobs[len(jobs)-1-i]
		unit := fmt.Sprintf("version %d, %d bytes, %d free bits, base %d", j.ver, j.n, j.k, j.seed)
		unitM(c, unit, func(m *absint.M, p *absint.Program) {
			m.ScoreAbort = false
			s := uint32(j.seed)*2654435761 + 99
			rnd := func(n int) int {
				s = s*1664525 + 1013904223
				return int(s>>12) % n
			}
			free := make([]bdd.Node, j.k)
			for i := range free {
				free[i] = m.B.NewVar(fmt.Sprintf("f%d", i))
			}
			constEC(m, uint32(j.seed))
			if j.ec {
				at := rnd(20)
				inner := m.RSHook
				m.RSHook = func(m *absint.M, a []absint.V) (absint.V, bool) {
					v, dead := inner(m, a)
					if dead || len(m.RSCalls) > 1 {
						return v, dead
					}
					ca := &m.RSCalls[len(m.RSCalls)-1]
					for i, f := range free {
						if at+i < len(ca.EC) {
							ca.EC[at+i] = f
						}
					}
					o := m.Simplify(a[0]).X.(*absint.Obj)
					return m.MkBinary(o.Typ, append(append([]bdd.Node(nil), ca.Data...), ca.EC...)), false
				}
			}
			bs := make([]absint.V, j.n)
			for i := range bs {
				bs[i] = absint.MkInt(int64(rnd(256)), 8, false)
			}
			if !j.ec {
				at := rnd(j.n*8 - j.k)
				for i, f := range free {
					q := at + i
					bits := append([]bdd.Node(nil), m.Bits(bs[q/8])...)
					bits[7-q%8] = f
					bs[q/8] = m.FromBits(bits, false)
				}
			}
			for i := range bs {
				bs[i] = m.FormByte(bs[i], i)
			}
			r := build(c, m, p, bs, 4, j.ver, j.seed%4, none)
			if r.N == 0 || !r.sizeOK(c) {
				c.Fail("constructs", unit, "", "no matrix is produced (panics: %v)", m.Panics)
				return
			}
			lay := r.layout()
			g := make([][]bool, r.N)
			h := make([][]bool, r.N)
			for y := range g {
				g[y] = make([]bool, r.N)
				h[y] = make([]bool, r.N)
			}
			for w := 0; w < 1<<j.k; w++ {
				val := map[int32]bool{}
				for i, f := range free {
					val[m.B.Var(f)] = w>>i&1 == 1
				}
				ev := func(v int32) bool { return val[v] }
				for y := range g {
					for x := range g[y] {
						b := r.Bits[y][x]
						g[y][x] = b == bdd.True || b > 1 && m.B.Eval(b, ev)
					}
				}
				fm := 0
				for i := 0; i < 15; i++ {
					q := lay.Fmt[0][i]
					if g[q[1]][q[0]] {
						fm |= 1 << i
					}
				}
				got := (fm ^ 0x5412) >> 10 & 7
				best, bestS, skip := -1, 0, false
				var all [8]int
				for k := 0; k < 8; k++ {
					fb := oracle.FormatBits(r.Lvl, k)
					for y := range g {
						for x := range g[y] {
							h[y][x] = g[y][x]
							if lay.Region[y][x] == oracle.Data && oracle.Mask(got, x, y) != oracle.Mask(k, x, y) {
								h[y][x] = !h[y][x]
							}
						}
					}
					for cp := 0; cp < 2; cp++ {
						for i := 0; i < 15; i++ {
							q := lay.Fmt[cp][i]
							h[q[1]][q[0]] = fb>>i&1 == 1
						}
					}
					sc, ex := oracle.Penalty(h)
					all[k] = sc
					skip = skip || ex
					if best < 0 || sc < bestS {
						best, bestS = k, sc
					}
				}
				if skip {
					continue
				}
				if got != best {
					c.Fail("lowest-penalty", unit, "", "for valuation %b of the free bits mask %d is declared (penalty %d), mask %d has penalty %d (all: %v)", w, got, all[got], best, bestS, all)
					return
				}
				c.Ok("lowest-penalty", 1)
			}
		})
	})
}
