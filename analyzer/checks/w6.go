package checks

import (
	"fmt"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"
	"verif/analyzer/harness"
)

// sym is a symbol a writer gets.
type sym struct {
	mat absint.V
	n   int
	set [][]bdd.Node
	typ [][]int
}

func (e *stdEnv) newSym(ver int) *sym {
	e.symbol(ver)
	return &sym{e.mat, e.n, e.set, e.typ}
}

func (e *stdEnv) use(s *sym) { e.mat, e.n, e.set, e.typ = s.mat, s.n, s.set, s.typ }

// unchanged reads a symbol again after it was written.
func (e *stdEnv) unchanged(s *sym) {
	save := &sym{e.mat, e.n, e.set, e.typ}
	defer e.use(save)
	bad, n := false, 0
	e.must("Modules", s.mat, hostFn("modules", func(m *absint.M, a []absint.V) (absint.V, bool) {
		x, y := int(a[0].N), int(a[1].N)
		n++
		if !bad && (x >= s.n || y >= s.n || a[2].Node() != s.set[y][x] || a[3].K != absint.KInt || int(a[3].N) != s.typ[y][x]) {
			bad = true
			e.fail("symbol-unchanged", "module (%d,%d) of the symbol changes when it is written", x, y)
		}
		return absint.V{}, false
	}))
	if !bad && e.c.Check(n == s.n*s.n, "symbol-unchanged", e.unit, "", "the symbol has %d modules after it is written", n) {
		e.c.Ok("symbol-unchanged", n)
	}
}

func init() {
	register(&Check{ID: "W21", Title: "All writers can be reused and leave the symbol as it is",
		Rule: "Each of the four writers writes several symbols in turn, interleaved with a second writer of its kind that has other settings: every output (image, text, terminal cells) is that of the symbol and the settings of the writer, as from a fresh writer, and no module of a written symbol changes. Two compressed and two file writers writing at once touch no memory without ordering (happens-before analysis) and give the same outputs under four scheduling orders.",
		Min:  20_000, Run: func(c *Ctx) {
			c.Assume(ggAssume)
			c.Assume(pngAssume)
			c.small("compressed", harness.Compressed)
			c.small("file", harness.File)
			c.small("terminal", harness.Terminal)
			c.Std()
			seqs := [][]int{{1, 2, 1}, {2, 1, 2}, {1, 1, 3, 1}, {7, 1}}
			orders := []absint.SchedMode{absint.SchedFIFO, absint.SchedLIFO, absint.SchedEager, absint.SchedYield}
			var jobs []func()
			add := func(f func()) { jobs = append(jobs, f) }
			// picture compares what the compressed writer encodes.
			picture := func(e *stdEnv, o *absint.WOp, s *sym, g geo) {
				e.use(s)
				b, px := e.pixels(o.Img)
				if e.checkSize(b, g) {
					e.checkImage("own-output", px, e.plain(g, black, white))
				}
			}
			okErr := func(e *stdEnv, err absint.V) {
				e.c.Check(e.m.B.And(e.m.PC, e.m.B.Not(e.m.NilCond(err))) == bdd.False, "no-spurious-error", e.unit, "", "Write fails although nothing fails")
			}
			sq := func(pad, block int) geo { return geo{bw: block, t: pad, r: pad, b: pad, l: pad} }
			for i := range seqs {
				q := seqs[i]
				add(func() {
					withSmall(c, "compressed", harness.Compressed, fmt.Sprintf("compressed writer, versions %v", q), 0, func(e *stdEnv) {
						w := e.m.NewWorld()
						w.CanFail = func(o *absint.WOp) bool { return false }
						type wr struct {
							v    absint.V
							sink *absint.WFile
							g    geo
						}
						mk := func(pad, block int) wr {
							s := w.NewSink("output")
							return wr{e.must("NewWith", s.Val, absint.Int(int64(pad)), absint.Int(int64(block))), s, sq(pad, block)}
						}
						ws := []wr{mk(1, 2), mk(0, 3)}
						var syms []*sym
						for k, ver := range q {
							syms = append(syms, e.newSym(ver))
							for _, x := range []int{k, k + 1} {
								if k%2 == 1 && x == k+1 {
									continue
								}
								u := ws[x%2]
								n0, n := len(w.Log), 0
								w.OnEncode = func(o *absint.WOp) { n++; picture(e, o, syms[k], u.g) }
								okErr(e, e.must("WriteW", u.v, syms[k].mat))
								e.c.Check(n == 1, "own-output", e.unit, "", "the image is encoded %d times", n)
								for _, o := range w.Log[n0:] {
									if o.Kind == "write" {
										e.c.Check(o.File == u.sink, "own-output", e.unit, o.Where, "the image is written to another writer's output")
									}
								}
							}
						}
						w.OnEncode = func(o *absint.WOp) { picture(e, o, syms[0], ws[0].g) }
						okErr(e, e.must("WriteW", ws[0].v, syms[0].mat))
						for _, s := range syms {
							e.unchanged(s)
						}
					})
				})
				add(func() {
					withSmall(c, "file", harness.File, fmt.Sprintf("file writer, versions %v", q), 0, func(e *stdEnv) {
						e.free = fewFree(i, 0)
						w := e.m.NewWorld()
						w.CanFail = func(o *absint.WOp) bool { return false }
						fs := []*absint.WFile{w.NewFile("first"), w.NewFile("second")}
						ws := []absint.V{e.must("New", fs[0].Val), e.must("New", fs[1].Val)}
						var syms []*sym
						one := func(x int, s *sym) {
							e.use(s)
							n0 := len(w.Log)
							okErr(e, e.must("WriteW", ws[x], s.mat))
							e.c.Check(e.textOf(w, n0, fs[x]), "own-output", e.unit, "", "something else is done than writing to the writer's file")
						}
						for k, ver := range q {
							e.free = fewFree(10*i+k, 0)
							syms = append(syms, e.newSym(ver))
							one(k%2, syms[k])
							if k%2 == 0 {
								one(1-k%2, syms[k])
							}
						}
						one(0, syms[0])
						for _, s := range syms {
							e.unchanged(s)
						}
					})
				})
				if q[0] > q[len(q)-1] || i == 2 {
					continue // a smaller symbol after a larger one: what is left beside it is not specified
				}
				add(func() {
					withSmall(c, "terminal", harness.Terminal, fmt.Sprintf("terminal writer, versions %v", []int{1, 1, 2, 2}), 0, func(e *stdEnv) {
						w := e.m.NewWorld()
						w.CanFail = func(o *absint.WOp) bool { return false }
						wr := e.must("New")
						var syms []*sym
						for _, ver := range []int{1, 1, 2, 2} {
							s := e.newSym(ver)
							syms = append(syms, s)
							okErr(e, e.must("WriteW", wr, s.mat))
							e.checkCells(w)
						}
						okErr(e, e.must("WriteW", wr, syms[2].mat))
						e.use(syms[2])
						e.checkCells(w)
						for _, s := range syms {
							e.unchanged(s)
						}
					})
				})
			}
			for i := range orders {
				s := orders[i]
				add(func() {
					withSmall(c, "compressed", harness.Compressed, "two compressed writers at once, order "+schedName[s], 0, func(e *stdEnv) {
						m := e.m
						m.Sched = s
						w := m.NewWorld()
						w.CanFail = func(o *absint.WOp) bool { return false }
						a, b := e.newSym(1), e.newSym(2)
						sa, sb := w.NewSink("output"), w.NewSink("second output")
						wa := e.must("NewWith", sa.Val, absint.Int(1), absint.Int(2))
						wb := e.must("NewWith", sb.Val, absint.Int(2), absint.Int(1))
						var encd []*absint.WOp
						w.OnEncode = func(o *absint.WOp) { encd = append(encd, o) }
						m.RaceOn = true
						t := e.must("WriteBoth", wa, wb, a.mat, b.mat)
						m.RaceOn = false
						m.Drain(0)
						for _, r := range m.Races {
							e.fail("race", "%s", r)
							return
						}
						e.c.Ok("race", 1)
						okErr(e, tup(t, 0))
						okErr(e, tup(t, 1))
						if !e.c.Check(len(encd) == 2, "own-output", e.unit, "", "%d images are encoded", len(encd)) {
							return
						}
						for _, o := range encd {
							if bd, _ := e.pixels(o.Img); bd[2]-bd[0] == 2*21+2 {
								picture(e, o, a, sq(1, 2))
							} else {
								picture(e, o, b, sq(2, 1))
							}
						}
					})
				})
				add(func() {
					withSmall(c, "file", harness.File, "two file writers at once, order "+schedName[s], 0, func(e *stdEnv) {
						m := e.m
						m.Sched = s
						e.free = fewFree(i+40, 0)
						w := m.NewWorld()
						w.CanFail = func(o *absint.WOp) bool { return false }
						a := e.newSym(1)
						e.free = fewFree(i+50, 0)
						b := e.newSym(2)
						fa, fb := w.NewFile("first"), w.NewFile("second")
						wa, wb := e.must("New", fa.Val), e.must("New", fb.Val)
						n0 := len(w.Log)
						m.RaceOn = true
						t := e.must("WriteBoth", wa, wb, a.mat, b.mat)
						m.RaceOn = false
						m.Drain(0)
						for _, r := range m.Races {
							e.fail("race", "%s", r)
							return
						}
						e.c.Ok("race", 1)
						okErr(e, tup(t, 0))
						okErr(e, tup(t, 1))
						e.use(a)
						e.textOf(w, n0, fa)
						e.use(b)
						e.textOf(w, n0, fb)
					})
				})
			}
			// the standard writer leaves the symbol alone
			for k := 0; k < 4; k++ {
				add(func() {
					withStd(c, fmt.Sprintf("standard writer, options %d", k), 0, func(e *stdEnv) {
						e.someFree(5)
						s := e.newSym(1 + k%2)
						e.scaleBySource()
						ks := optKinds()
						os := e.frame(geo{3, 1, 2, 3, 4})
						for i := range ks {
							if i > 1 && (k == 3 || i%3 == k) {
								os = append(os, ks[i].make(e, k%2))
							}
						}
						w := e.must("Writer", e.opts(os...))
						for r := 0; r < 2; r++ {
							e.image(e.must("WriteWith", tup(w, 0), tup(w, 1), s.mat))
						}
						e.unchanged(s)
					})
				})
			}
			c.Par(len(jobs), func(i int) { jobs[i]() })
		}})
}

// textOf compares the text written to a file since n0 with the symbol; false
// if anything but that file is touched.
func (e *stdEnv) textOf(w *absint.World, n0 int, f *absint.WFile) bool {
	m, only := e.m, true
	w.Traces(m.PC, maxTraces, func(cd bdd.Node, ops []absint.TOp) {
		var mine []absint.TOp
		for _, o := range ops {
			switch {
			case o.ID < n0:
			case o.File == f && o.Kind == "write":
				mine = append(mine, o)
			case o.File == f && o.Kind == "sync":
			default:
				only = false
			}
		}
		e.checkHalfBlocks(mine)
	})
	return only
}
