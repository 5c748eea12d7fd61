package checks

import (
	"fmt"
	"go/types"
	"strings"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"
	"verif/analyzer/harness"
)

const pngAssume = "image/png and image/jpeg write a complete encoding to the given writer in one or more pieces, stop at the writer's first error and return it, and may fail on their own"

// fewFree leaves few modules free; the others are fixed.
func fewFree(seed, mod int) func(k int) (bool, bool) {
	return func(k int) (bool, bool) {
		h := uint32(k*2654435761) ^ uint32(seed*40503)
		h ^= h >> 13
		h *= 0x5bd1e995
		h ^= h >> 15
		return mod > 0 && int(h>>8)%mod == 0, h&1 == 1
	}
}

// errCases splits a condition on an error being nil.
func (e *stdEnv) errCases(c bdd.Node, err absint.V, f func(c bdd.Node, isNil bool)) {
	m := e.m
	pc := m.PC
	defer func() { m.PC = pc }()
	nc := m.NilCond(err)
	if x := m.B.And(c, nc); x != bdd.False {
		m.PC = x
		f(x, true)
	}
	if x := m.B.And(c, m.B.Not(nc)); x != bdd.False {
		m.PC = x
		f(x, false)
	}
}

// ofile is a file as the operations leave it.
type ofile struct {
	data   []absint.V // written pieces
	old    bool       // still has what it held before
	closed int
}

// replayOps gives the files after a sequence of operations.
func replayOps(ops []absint.TOp) (byName map[string]*ofile, byFile map[*absint.WFile]*ofile) {
	byName, byFile = map[string]*ofile{}, map[*absint.WFile]*ofile{}
	get := func(f *absint.WFile) *ofile {
		if byFile[f] == nil {
			byFile[f] = &ofile{}
		}
		return byFile[f]
	}
	for _, o := range ops {
		if o.Failed {
			if o.Kind == "close" {
				get(o.File).closed++
			}
			continue
		}
		switch o.Kind {
		case "open":
			n := str(o.Name)
			x := byName[n]
			if x == nil || o.Fmt == "CreateTemp" {
				x = &ofile{old: o.Fmt != "CreateTemp"}
				byName[n] = x
			}
			if o.Flag.K == absint.KInt && o.Flag.N&0x200 != 0 {
				x.old, x.data = false, nil
			}
			byFile[o.File] = x
		case "write":
			x := get(o.File)
			x.data = append(x.data, o.Data)
		case "close":
			get(o.File).closed++
		case "rename":
			if x := byName[str(o.Name)]; x != nil {
				byName[str(o.Name2)] = x
				delete(byName, str(o.Name))
			}
		case "remove", "removeall":
			delete(byName, str(o.Name))
		case "truncate":
			if o.File != nil {
				get(o.File).data, get(o.File).old = nil, false
			}
		}
	}
	return
}

func str(v absint.V) string {
	s, ok := absint.ConcStr(v)
	if !ok {
		return "?"
	}
	return s
}

// pieces concatenates written data.
func (e *stdEnv) pieces(w *absint.World, ds []absint.V) ([]absint.V, bool) {
	var out []absint.V
	for _, d := range ds {
		b, ok := w.TextOf(d)
		if !ok {
			return nil, false
		}
		out = append(out, b...)
	}
	return out, true
}

func (e *stdEnv) sameBytes(a, b []absint.V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !absint.Ident(a[i], b[i]) && e.m.B.And(e.m.PC, e.m.B.Not(e.m.Eq(a[i], b[i]))) != bdd.False {
			return false
		}
	}
	return true
}

func opsText(ops []absint.TOp) string {
	var s []string
	for _, o := range ops {
		t := o.Kind
		if o.Kind == "open" || o.Kind == "stat" || o.Kind == "decode" {
			t += " " + str(o.Name)
		}
		if o.Kind == "encode" {
			t += " " + o.Fmt
		}
		if o.Failed {
			t += " (fails)"
		}
		s = append(s, t)
	}
	if len(s) > 14 {
		s = append(append(s[:6:6], "..."), s[len(s)-6:]...)
	}
	return strings.Join(s, ", ")
}

// encoded checks one trace of a Write of an image: a nil error means that the
// whole encoding reached the output, an error that something failed.
func (e *stdEnv) encoded(w *absint.World, ops []absint.TOp, okErr bool, format string, out func() *ofile) bool {
	rule := "reports-failures"
	where := ""
	failed := false
	var enc []absint.TOp
	for _, o := range ops {
		switch o.Kind {
		case "write", "encode", "open", "sync", "rename", "decode", "custom":
			if o.Failed {
				failed = true
				where = o.Where
			}
		}
		if o.Kind == "encode" || o.Kind == "custom" {
			enc = append(enc, o)
		}
		if o.Kind == "close" && o.Failed && !okErr {
			failed = true // whether a failing close is reported is left open
		}
	}
	if okErr && failed {
		e.c.Fail(rule, e.unit, where, "no error is returned although an operation fails: %s", opsText(ops))
		return false
	}
	if !okErr && !failed {
		e.c.Fail("no-spurious-error", e.unit, "", "an error is returned although nothing fails: %s", opsText(ops))
		return false
	}
	e.c.Ok(rule, 1)
	if !okErr {
		return true
	}
	if len(enc) != 1 || enc[0].Fmt != format {
		e.c.Fail("encodes-once", e.unit, "", "the image is not encoded once as %s: %s", format, opsText(ops))
		return false
	}
	f := out()
	if f == nil {
		e.c.Fail("reaches-output", e.unit, enc[0].Where, "nothing is written to the output: %s", opsText(ops))
		return false
	}
	got, ok := e.pieces(w, f.data)
	if f.old || !ok || !e.sameBytes(got, enc[0].Bytes) {
		e.c.Fail("reaches-output", e.unit, enc[0].Where, "the output does not hold exactly the encoded image: %s", opsText(ops))
		return false
	}
	e.c.Ok("reaches-output", 1)
	return true
}

const maxTraces = 3000

// encHost is an image encoder of the caller.
type encHost struct {
	w    *absint.World
	n    int
	name string // "" is custom
}

func (h *encHost) Implements(m *absint.M, i *types.Interface) bool {
	return i.NumMethods() == 1 && i.Method(0).Name() == "Encode"
}
func (h *encHost) CallMethod(m *absint.M, name string, a []absint.V) (absint.V, bool) {
	if name != "Encode" {
		m.Undecided("method %s on the caller's encoder", name)
	}
	n := "custom"
	if h.name != "" {
		n = h.name
	}
	return h.w.EncodeAs(n, a[0], a[1])
}

func init() {
	register(&Check{ID: "W11", Title: "Writers report every I/O error and close their output once",
		Rule: "Write of the standard writer (both built-in encoders and a caller's encoder) and of the compressed writer is analysed with a caller's output whose Write and Close may fail at every call and with encoders that may fail: on every feasible sequence of operations Write returns nil exactly when no operation fails, and then the output holds exactly the encoded bytes; Close closes the output exactly once and returns its error (an already closed file is no error for the standard writer).",
		Min:  40, Run: func(c *Ctx) {
			c.Assume(pngAssume)
			writeClose := func(e *stdEnv, w *absint.World, sink *absint.WFile, wr absint.V, format string) {
				m := e.m
				n0 := len(w.Log)
				werr := e.must("WriteW", wr, e.mat)
				w.Traces(m.PC, maxTraces, func(cd bdd.Node, ops []absint.TOp) {
					e.errCases(cd, werr, func(_ bdd.Node, ok bool) {
						e.encoded(w, ops, ok, format, func() *ofile { _, f := replayOps(ops); return f[sink] })
					})
				})
				_ = n0
				n1 := len(w.Log)
				cerr := e.must("CloseW", wr)
				for _, o := range w.Log[:n1] {
					e.c.Check(o.Kind != "close", "closes-once", e.unit, o.Where, "Write closes the output")
				}
				w.Traces(m.PC, maxTraces, func(cd bdd.Node, ops []absint.TOp) {
					closes, failed := 0, false
					for _, o := range ops {
						if o.Kind == "close" && o.File == sink {
							closes++
							failed = o.Failed
						}
						if o.ID >= n1 && o.Kind == "write" {
							e.c.Fail("closes-once", e.unit, o.Where, "Close writes to the output")
						}
					}
					e.c.Check(closes == 1, "closes-once", e.unit, "", "Close closes the output %d times: %s", closes, opsText(ops))
					e.errCases(cd, cerr, func(_ bdd.Node, ok bool) {
						e.c.Check(ok == !failed, "close-error", e.unit, "", "Close returns a nil error: %v, although closing the output fails: %v", ok, failed)
					})
				})
			}
			for _, f := range []string{"jpeg", "png", "default", "custom"} {
				for _, extra := range []string{"", "transparent"} {
					withStd(c, "standard writer, "+f+" "+extra, 1, func(e *stdEnv) {
						w := e.m.NewWorld()
						sink := w.NewSink("output")
						os := []absint.V{e.opt("OWidth", u8(1)), e.opt("OBorder", e.ints(1))}
						want := f
						switch f {
						case "jpeg":
							os = append(os, e.opt("OJPEG"))
						case "png":
							os = append(os, e.opt("OPNG"))
						case "default":
							want = "jpeg"
						case "custom":
							os = append(os, e.opt("OCustom", absint.V{K: absint.KIface, X: &absint.IfaceV{Host: &encHost{w: w}}}))
						}
						if extra != "" {
							os = append(os, e.opt("OTransparent"))
						}
						wr := e.must("AsWriter", e.must("On", sink.Val, e.opts(os...)))
						writeClose(e, w, sink, wr, want)
					})
				}
			}
			for _, g := range [][2]int{{0, 1}, {2, 2}} {
				withSmall(c, "compressed", harness.Compressed, fmt.Sprintf("compressed writer, padding %d, block size %d", g[0], g[1]), 1, func(e *stdEnv) {
					w := e.m.NewWorld()
					sink := w.NewSink("output")
					wr := e.must("NewWith", sink.Val, absint.Int(int64(g[0])), absint.Int(int64(g[1])))
					writeClose(e, w, sink, wr, "png")
				})
			}
			// closing a closed file
			withStd(c, "standard writer on a file, closed twice", 1, func(e *stdEnv) {
				w := e.m.NewWorld()
				w.CanFail = func(o *absint.WOp) bool { return false }
				t := e.must("NewFile", absint.MkStr("out.png"), e.opts())
				wr := e.must("AsWriter", tup(t, 0))
				e1 := e.must("CloseW", wr)
				e2 := e.must("CloseW", wr)
				e.c.Check(e.m.NilCond(e1) == bdd.True, "close-error", e.unit, "", "the first Close fails")
				e.c.Check(e.m.NilCond(e2) == bdd.True, "close-closed", e.unit, "", "closing the closed file is reported as an error")
			})
		}})

	register(&Check{ID: "W13", Title: "The compressed image is the module grid in two colours",
		Rule: "For free symbols, several block sizes and paddings: the writer encodes one PNG, its image is paletted with at most two colours, has the size modules*BlockSize + 2*Padding, and every pixel is black exactly when it lies in the square of a set module and white otherwise.",
		Min:  50_000, Run: func(c *Ctx) {
			c.Assume(pngAssume)
			type job struct{ ver, pad, block int }
			jobs := []job{{1, 0, 1}, {1, 4, 1}, {1, 1, 2}, {1, 3, 5}, {1, 10, 3}, {2, 4, 1}, {3, 0, 4}, {7, 2, 1}, {1, 0, 9}, {10, 1, 1}}
			step := 3
			if c.Thorough() {
				step = 1
			}
			for v := 1; v <= 40; v += step {
				jobs = append(jobs, job{v, v % 6, 1 + v%3})
			}
			jobs = append(jobs, job{1, 300, 1}, job{1, 2, 40})
			c.small("compressed", harness.Compressed)
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				withSmall(c, "compressed", harness.Compressed, fmt.Sprintf("version %d, padding %d, block size %d", j.ver, j.pad, j.block), j.ver, func(e *stdEnv) {
					w := e.m.NewWorld()
					w.CanFail = func(o *absint.WOp) bool { return false }
					n := 0
					w.OnEncode = func(o *absint.WOp) {
						n++
						if o.Fmt != "png" {
							e.fail("png", "the image is encoded as %s", o.Fmt)
						}
						if o.Cond != bdd.True {
							e.fail("png", "the image is encoded only on some paths")
						}
						e.c.Check(twoTone(e, o.Img), "two-tone", e.unit, o.Where, "the image does not use a palette of at most two colours")
						b, px := e.pixels(o.Img)
						g := geo{bw: j.block, t: j.pad, r: j.pad, b: j.pad, l: j.pad}
						if e.checkSize(b, g) {
							e.checkImage("module-grid", px, e.plain(g, black, white))
						}
					}
					wr := e.must("NewWith", w.NewSink("output").Val, absint.Int(int64(j.pad)), absint.Int(int64(j.block)))
					err := e.must("WriteW", wr, e.mat)
					e.c.Check(n == 1, "encodes-once", e.unit, "", "the image is encoded %d times", n)
					e.c.Check(e.m.NilCond(err) == bdd.True, "no-spurious-error", e.unit, "", "Write fails although nothing fails")
				})
			})
		}})

	register(&Check{ID: "W14", Title: "The file writer prints the symbol in half blocks",
		Rule: "Symbols with fixed and with free modules are printed to a file whose writes may fail at every call: what is written is ceil(n/2) lines of n characters and a line feed, each character showing the two modules above each other (space, upper, lower, full block), nothing else; every failing write ends Write with an error, a nil file is an error, and the file is never closed.",
		Min:  300, Run: func(c *Ctx) {
			type job struct{ ver, seed, mod int }
			var jobs []job
			for s := 0; s < 12; s++ {
				jobs = append(jobs, job{1, s, 100})
			}
			jobs = append(jobs, job{2, 1, 200}, job{3, 2, 0}, job{4, 3, 400}, job{7, 4, 0}, job{1, 20, 0}, job{2, 21, 0})
			jobs = append(jobs, job{5, 5, 0}, job{10, 6, 0}, job{14, 7, 0}, job{21, 8, 0}, job{30, 9, 0}, job{40, 10, 0})
			if c.Thorough() {
				for v := 6; v <= 40; v += 2 {
					jobs = append(jobs, job{v, v % 20, 0})
				}
			}
			c.small("file", harness.File)
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				unit := fmt.Sprintf("version %d, module pattern %d", j.ver, j.seed)
				p, h := c.small("file", harness.File)
				withEnv(c, p, h, unit, 0, func(e *stdEnv) {
					m := e.m
					e.free = fewFree(j.seed, j.mod)
					e.symbol(j.ver)
					w := m.NewWorld()
					fails := j.seed >= 20
					w.CanFail = func(o *absint.WOp) bool { return fails }
					f := w.NewFile("given")
					wr := e.must("New", f.Val)
					err := e.must("WriteW", wr, e.mat)
					var free []bdd.Node
					seen := map[bdd.Node]bool{}
					for _, r := range e.set {
						for _, b := range r {
							if b > 1 && !seen[b] && !seen[m.B.Not(b)] {
								seen[b] = true
								free = append(free, b)
							}
						}
					}
					w.Traces(m.PC, maxTraces, func(cd bdd.Node, ops []absint.TOp) {
						failed := ""
						for _, o := range ops {
							if o.Failed {
								failed = o.Where
							}
							if o.Kind != "write" && o.Kind != "sync" || o.File != f {
								e.c.Fail("only-writes", e.unit, o.Where, "the writer also does: %s", o.Kind)
							}
						}
						e.errCases(cd, err, func(cd bdd.Node, ok bool) {
							if ok != (failed == "") {
								e.c.Fail("reports-failures", e.unit, failed, "Write returns a nil error: %v, although a write fails: %v", ok, failed != "")
								return
							}
							e.c.Ok("reports-failures", 1)
							if !ok {
								return
							}
							e.valuations(cd, free, func() {
								e.checkHalfBlocks(ops)
							})
						})
					})
					cerr := e.must("CloseW", wr)
					e.c.Check(m.NilCond(cerr) == bdd.True, "close", e.unit, "", "Close may fail")
					for _, o := range w.Log {
						e.c.Check(o.Kind != "close", "close", e.unit, o.Where, "the caller's file is closed")
					}
				})
			})
			withSmall(c, "file", harness.File, "nil file", 1, func(e *stdEnv) {
				e.m.NewWorld()
				wr := e.must("New", absint.V{K: absint.KPtr})
				err := e.must("WriteW", wr, e.mat)
				e.c.Check(e.m.NilCond(err) == bdd.False, "nil-file", e.unit, "", "no error for a nil file")
			})
		}})

	register(&Check{ID: "W15", Title: "The terminal shows the symbol with a white border",
		Rule: "Free symbols are drawn on a modelled terminal: before the first flush module (x,y) fills cells 2(x+1) and 2(x+1)+1 of line y+1 with black or white exactly as the module, the ring around the symbol is white, the message lies below it; a failing flush is returned, events other than keys do not end the wait, and Close gives the terminal back.",
		Min:  3000, Run: func(c *Ctx) {
			c.Assume("termbox shows the cells set by SetCell after Flush; a full block shows the foreground colour, a space the background")
			vers := []int{1, 2, 3, 7, 10, 14, 20, 31, 40}
			if c.Thorough() {
				vers = nil
				for v := 1; v <= 40; v++ {
					vers = append(vers, v)
				}
			}
			c.small("terminal", harness.Terminal)
			c.Par(len(vers), func(i int) {
				withSmall(c, "terminal", harness.Terminal, fmt.Sprintf("version %d", vers[i]), vers[i], terminalCheck)
			})
		}})

	w12()
}

func twoTone(e *stdEnv, img absint.V) bool {
	img = e.m.Simplify(img)
	if img.K != absint.KIface || img.X == nil || img.X.(*absint.IfaceV).Host != nil {
		return false
	}
	i := img.X.(*absint.IfaceV)
	if !strings.HasSuffix(i.T.String(), "image.Paletted") {
		return false
	}
	st, ok := i.T.(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	v := e.m.Load(i.V, i.T.(*types.Pointer).Elem())
	for k := 0; k < st.NumFields(); k++ {
		if st.Field(k).Name() == "Palette" {
			return len(e.m.SliceElems(e.m.FieldOf(v, k, st.Field(k).Type()))) <= 2
		}
	}
	return false
}

// valuations fixes the free modules in every way.
func (e *stdEnv) valuations(c bdd.Node, free []bdd.Node, f func()) {
	m := e.m
	if len(free) > 8 {
		m.Undecided("%d free modules", len(free))
	}
	save := m.PC
	for k := 0; k < 1<<len(free); k++ {
		pc := c
		for i, b := range free {
			if k>>i&1 == 1 {
				pc = m.B.And(pc, b)
			} else {
				pc = m.B.And(pc, m.B.Not(b))
			}
		}
		if pc == bdd.False {
			continue
		}
		m.PC = pc
		f()
	}
	m.PC = save
}

func (e *stdEnv) checkHalfBlocks(ops []absint.TOp) {
	m := e.m
	var got strings.Builder
	for _, o := range ops {
		v := m.Simplify(o.Data)
		if v.K == absint.KStr {
			st := v.X.(*absint.Str)
			for i := 0; i < st.Len(); i++ {
				b := e.con(st.At(i))
				if b.K != absint.KInt {
					e.c.Fail("decidable", e.unit, o.Where, "the written text is not determined")
					return
				}
				got.WriteByte(byte(b.N))
			}
			continue
		}
		e.c.Fail("decidable", e.unit, o.Where, "the written text is not determined: %v", v)
		return
	}
	is := func(x, y int) bool {
		return y < e.n && m.B.And(m.PC, m.B.Not(e.set[y][x])) == bdd.False
	}
	var want strings.Builder
	for y := 0; y < e.n; y += 2 {
		for x := 0; x < e.n; x++ {
			switch u, d := is(x, y), is(x, y+1); {
			case u && d:
				want.WriteString("█")
			case u:
				want.WriteString("▀")
			case d:
				want.WriteString("▄")
			default:
				want.WriteString(" ")
			}
		}
		want.WriteString("\n")
	}
	if got.String() != want.String() {
		g, w := strings.Split(got.String(), "\n"), strings.Split(want.String(), "\n")
		for i := range w {
			if i >= len(g) || g[i] != w[i] {
				e.fail("half-blocks", "line %d of the output is wrong (%d lines instead of %d)", i+1, len(g)-1, len(w)-1)
				return
			}
		}
		e.fail("half-blocks", "more than the symbol is written")
		return
	}
	e.c.Ok("half-blocks", len(want.String()))
}

func terminalCheck(e *stdEnv) {
	m := e.m
	w := m.NewWorld()
	w.CanFail = func(o *absint.WOp) bool { return o.Kind == "termbox.Flush" }
	wr := e.must("New")
	inits := 0
	for _, o := range w.Log {
		if o.Kind == "termbox.Init" {
			inits++
		}
	}
	e.c.Check(inits == 1, "init", e.unit, "", "the terminal is initialised %d times", inits)
	n0 := len(w.Log)
	err := e.must("WriteW", wr, e.mat)
	e.checkCells(w)
	w.Traces(m.PC, 200, func(c bdd.Node, ops []absint.TOp) {
		flushed, bad, key, events, drawn := 0, false, 0, 0, false
		for _, o := range ops {
			if o.ID < n0 {
				continue
			}
			switch o.Kind {
			case "termbox.SetCell":
				if flushed > 0 {
					drawn = true
				}
			case "termbox.Flush":
				flushed++
				bad = bad || o.Failed
			case "termbox.PollEvent":
				events++
				if flushed == 0 {
					drawn = true
				}
				if o.Fmt == "EventKey" {
					key++
				}
			case "termbox.Close", "exit":
				e.c.Fail("stays", e.unit, o.Where, "Write ends the terminal: %s", o.Kind)
			}
		}
		e.errCases(c, err, func(_ bdd.Node, ok bool) {
			e.c.Check(ok == !bad, "flush-error", e.unit, "", "Write returns a nil error: %v, although the flush fails: %v", ok, bad)
			if ok {
				e.c.Check(flushed > 0 && !drawn, "flush", e.unit, "", "the cells are not flushed before the program waits")
				e.c.Check(key == 1, "waits", e.unit, "", "Write returns after %d events, %d of them keys", events, key)
			}
		})
	})
	n1 := len(w.Log)
	cerr := e.must("CloseW", wr)
	closes := 0
	for _, o := range w.Log[n1:] {
		if o.Kind == "termbox.Close" {
			closes++
		}
	}
	e.c.Check(closes == 1 && m.NilCond(cerr) == bdd.True, "close", e.unit, "", "Close closes the terminal %d times", closes)
}

// checkCells compares the screen with the symbol.
func (e *stdEnv) checkCells(w *absint.World) {
	m := e.m
	attr := func(name string) absint.V {
		return absint.MkInt(m.P.ConstInt("github.com/nsf/termbox-go", name), 64, false)
	}
	bk, wh := attr("ColorBlack"), attr("ColorWhite")
	// colour of a cell: (is black, is white)
	tone := func(x, y int) (bdd.Node, bdd.Node) {
		c, ok := w.Term.Cells[[2]int{x, y}]
		if !ok {
			return bdd.False, bdd.False
		}
		full := m.Eq(c[0], absint.MkInt('█', 32, true))
		space := m.Eq(c[0], absint.MkInt(' ', 32, true))
		is := func(a absint.V) bdd.Node {
			a.W = c[1].W
			a.S = c[1].S
			return m.B.Or(m.B.And(full, m.Eq(c[1], a)), m.B.And(space, m.Eq(c[2], a)))
		}
		return is(bk), is(wh)
	}
	for y := -1; y <= e.n; y++ {
		for x := -1; x <= e.n; x++ {
			for k := 0; k < 2; k++ {
				b, wt := tone(2*(x+1)+k, y+1)
				set := bdd.False
				if x >= 0 && y >= 0 && x < e.n && y < e.n {
					set = e.set[y][x]
				}
				if b != set || wt != m.B.Not(set) {
					e.fail("cells", "cell (%d,%d) does not show module (%d,%d) (-1 and %d: the border)", 2*(x+1)+k, y+1, x, y, e.n)
					return
				}
				e.c.Ok("cells", 1)
			}
		}
	}
	// the message and everything else is below the border
	for _, y := range w.Term.Loose {
		e.c.Check(y > e.n+1, "cells", e.unit, "", "cells of line %d are drawn at undetermined columns", y)
	}
	for k := range w.Term.Cells {
		if k[1] <= e.n+1 && (k[0] < 0 || k[0] > 2*e.n+3 || k[1] < 0) {
			e.fail("cells", "cell (%d,%d) beside the symbol is drawn", k[0], k[1])
		}
	}
}
