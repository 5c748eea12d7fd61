package checks

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"
	"verif/analyzer/harness"
)

const (
	cliMain = "github.com/yeqown/go-qrcode/cmd/qrcode"
	cliHarn = cliMain + "/zzvp"
)

// CLI loads the command with the standard writer's harness.
func (c *Ctx) CLI() *absint.Program {
	d := filepath.Join(c.Repo, "cmd", "qrcode")
	return c.LoadProg("cli", absint.LoadConfig{Dir: d, Patterns: []string{".", "./zzvp"},
		Overlay: map[string][]byte{filepath.Join(d, "zzvp", "h.go"): []byte(harness.Standard)}})
}

// cliJob is one command line and what is expected of it.
type cliJob struct {
	args []string
	bad  string // why the command has to fail
	info bool   // only prints something (help, version)
	file string // the output file
	fmt  string
	opts func(e *stdEnv) []absint.V
	term bool
	half string // halftone file
}

func (j cliJob) unit() string {
	var a []string
	for _, s := range j.args {
		if len(s) > 20 {
			s = fmt.Sprintf("%s... (%d bytes)", s[:20], len(s))
		}
		a = append(a, fmt.Sprintf("%q", s))
	}
	return "qrcode " + strings.Join(a, " ")
}

func (j cliJob) text() string {
	if len(j.args) == 0 {
		return ""
	}
	return j.args[len(j.args)-1]
}

// outcome of one sequence of operations
type outcome struct {
	c    bdd.Node
	ops  []absint.TOp
	code int64 // exit status
	how  string
}

// cliRun analyses main with the arguments.
type cliRun struct {
	*stdEnv
	w    *absint.World
	pc   bdd.Node // condition of a normal end
	encs []cliEnc
}

type cliEnc struct {
	op *absint.WOp
	b  [4]int
	px [][]rgb
}

func withCLI(c *Ctx, j cliJob, fail func(o *absint.WOp) bool, f func(e *cliRun)) {
	p := c.CLI()
	m := absint.NewM(p)
	unit := j.unit()
	c.Guard(unit, m, func() {
		defer m.Close()
		e := &stdEnv{c: c, m: m, p: p, harn: cliHarn, unit: unit}
		defer func() {
			if r := recover(); r != nil {
				if n, ok := r.(noReturn); ok {
					c.Fail("returns", unit, "", "%s: no path returns", n.name)
					return
				}
				panic(r)
			}
		}()
		constEC(m, 7)
		m.ScaleHook = func(x, y int) [4]absint.V {
			return [4]absint.V(conCol((x*7+y*13)%256, (x*5)%256, (y*3)%256, 255))
		}
		r := &cliRun{stdEnv: e, w: m.NewWorld()}
		r.w.CanFail = fail
		pic := func() absint.V {
			return e.must("Pic", absint.Int(0), absint.Int(0), absint.Int(2), absint.Int(2), e.bytes(cbytes(1, 200, 3, 90, 5, 66, 7, 8, 9, 100, 11, 255)))
		}
		if j.half != "" {
			x := pic()
			r.w.Picture = func(n string) (absint.V, bool) { return x, n == j.half }
		}
		r.w.OnEncode = func(o *absint.WOp) {
			b, px := e.pixels(o.Img)
			r.encs = append(r.encs, cliEnc{o, b, px})
		}
		var as []absint.V
		for _, a := range append([]string{"qrcode"}, j.args...) {
			as = append(as, absint.MkStr(a))
		}
		m.SetGlobal("os", "Args", m.NewSlice(types.Typ[types.String], as, "os.Args"))
		m.Call(fnOf(p, cliMain, "main"))
		r.pc = m.PC
		for _, o := range r.w.Log {
			if o.Kind == "exit" && o.Data.K == absint.KInt && o.Data.N&0xff == 0 {
				r.pc = m.B.Or(r.pc, o.Cond)
			}
		}
		f(r)
		c.Unit("command lines", 1)
	})
}

// outcomes lists every possible course of the command.
func (r *cliRun) outcomes(f func(o outcome)) {
	m := r.m
	r.w.Traces(bdd.True, maxTraces, func(c bdd.Node, ops []absint.TOp) {
		left := c
		emit := func(x bdd.Node, code int64, how string) {
			x = m.B.And(left, x)
			if x == bdd.False {
				return
			}
			left = m.B.And(left, m.B.Not(x))
			f(outcome{x, ops, code, how})
		}
		for _, o := range ops {
			if o.Kind == "exit" {
				code := int64(-1)
				if o.Data.K == absint.KInt {
					code = o.Data.N & 0xff
				}
				emit(o.Cond, code, "exits")
			}
		}
		for _, p := range m.Panics {
			emit(p.Cond, 2, "panics: "+p.Reason)
		}
		emit(r.pc, 0, "ends")
		if left != bdd.False {
			r.c.Fail("ends", r.unit, "", "the command does not end: %s", opsText(ops))
		}
	})
}

func optsOf(block int, b [4]int, more ...string) func(e *stdEnv) []absint.V {
	return func(e *stdEnv) []absint.V {
		os := []absint.V{e.opt("OWidth", u8(block)), e.opt("OBorder", e.ints(b[0], b[1], b[2], b[3]))}
		for _, o := range more {
			os = append(os, e.opt(o))
		}
		return os
	}
}

func cliGood() []cliJob {
	z := [4]int{}
	long := "https://example.org/a/long/path?with=query&and=values#0123456789"
	return []cliJob{
		{args: []string{"abc"}, file: "qrcode.jpg", fmt: "jpeg", opts: optsOf(5, z)},
		{args: []string{long}, file: "qrcode.jpg", fmt: "jpeg", opts: optsOf(5, z)},
		{args: []string{"--", "-x"}, file: "qrcode.jpg", fmt: "jpeg", opts: optsOf(5, z)},
		{args: []string{" 漢字 "}, file: "qrcode.jpg", fmt: "jpeg", opts: optsOf(5, z)},
		{args: []string{"-o", "out.png", "12345"}, file: "out.png", fmt: "png", opts: optsOf(5, z)},
		{args: []string{"--output=dir/a.jpeg", "ABC"}, file: "dir/a.jpeg", fmt: "jpeg", opts: optsOf(5, z)},
		{args: []string{"--output", "x.png.jpg", "ABC"}, file: "x.png.jpg", fmt: "jpeg", opts: optsOf(5, z)},
		{args: []string{"--output", "x.jpg.png", "ABC"}, file: "x.jpg.png", fmt: "png", opts: optsOf(5, z)},
		{args: []string{"-o", "noext", "ABC"}, file: "noext", fmt: "jpeg", opts: optsOf(5, z)},
		{args: []string{"-o", "png", "ABC"}, file: "png", fmt: "jpeg", opts: optsOf(5, z)},
		{args: []string{"-s", "1", "t"}, file: "qrcode.jpg", fmt: "jpeg", opts: optsOf(1, z)},
		{args: []string{"--block=2", "t"}, file: "qrcode.jpg", fmt: "jpeg", opts: optsOf(2, z)},
		{args: []string{"-s", "12", "t"}, file: "qrcode.jpg", fmt: "jpeg", opts: optsOf(12, z)},
		{args: []string{"--borders", "1,2,3,4", "t"}, file: "qrcode.jpg", fmt: "jpeg", opts: optsOf(5, [4]int{1, 2, 3, 4})},
		{args: []string{"-b", "0,0,0,17", "-s", "3", "-o", "p.png", "t"}, file: "p.png", fmt: "png", opts: optsOf(3, [4]int{0, 0, 0, 17})},
		{args: []string{"-b=255,0,0,0", "t"}, file: "qrcode.jpg", fmt: "jpeg", opts: optsOf(5, [4]int{255, 0, 0, 0})},
		{args: []string{"--circle", "-s", "6", "t"}, file: "qrcode.jpg", fmt: "jpeg", opts: optsOf(6, z, "OCircle")},
		{args: []string{"--circle=false", "-s", "4", "t"}, file: "qrcode.jpg", fmt: "jpeg", opts: optsOf(4, z)},
		{args: []string{"--transparent", "-o", "p.png", "-b", "2,2,2,2", "t"}, file: "p.png", fmt: "png", opts: optsOf(5, [4]int{2, 2, 2, 2}, "OTransparent")},
		{args: []string{"--circle", "--transparent", "-s", "7", "--output=q.png", "t"}, file: "q.png", fmt: "png", opts: optsOf(7, z, "OCircle", "OTransparent")},
		{args: []string{"--halftone", "h.png", "-s", "3", "t"}, half: "h.png", file: "qrcode.jpg", fmt: "jpeg", opts: func(e *stdEnv) []absint.V {
			return append(optsOf(3, z)(e), e.opt("OHalftoneFile", absint.MkStr("h.png")))
		}},
		{args: []string{"--halftone=h.png", "--transparent", "-s", "6", "-o", "o.png", "t"}, half: "h.png", file: "o.png", fmt: "png", opts: func(e *stdEnv) []absint.V {
			return append(optsOf(6, z, "OTransparent")(e), e.opt("OHalftoneFile", absint.MkStr("h.png")))
		}},
		{file: "qrcode.jpg", fmt: "jpeg", opts: optsOf(5, z)},
		{args: []string{"-o", "e.png", ""}, file: "e.png", fmt: "png", opts: optsOf(5, z)},
		{args: []string{"--terminal", ""}, term: true},
		{args: []string{"--terminal", "abc"}, term: true},
		{args: []string{"--terminal=true", "-o", "x.png", "-s", "9", long}, term: true},
		{args: []string{"--terminal=false", "abc"}, file: "qrcode.jpg", fmt: "jpeg", opts: optsOf(5, z)},
	}
}

func cliBad() []cliJob {
	long := strings.Repeat("x", 3000)
	return []cliJob{
		{args: []string{long}, bad: "a text that is too long"},
		{args: []string{"--terminal", long}, bad: "a text that is too long"},
		{args: []string{"-o", "a.png", long}, bad: "a text that is too long"},
		{args: []string{"--nope", "t"}, bad: "an unknown flag"},
		{args: []string{"-s", "x", "t"}, bad: "a block size that is no number"},
		{args: []string{"-s", "-1", "t"}, bad: "a negative block size"},
		{args: []string{"-s", "256", "t"}, bad: "a block size above 255"},
		{args: []string{"--block=300", "-o", "x.png", "t"}, bad: "a block size above 255"},
		{args: []string{"-b", "1,2,3", "t"}, bad: "three borders"},
		{args: []string{"-b", "1,2,3,4,5", "t"}, bad: "five borders"},
		{args: []string{"-b", "1,2,3,x", "t"}, bad: "a border that is no number"},
		{args: []string{"-b", "1,2,3,256", "t"}, bad: "a border above 255"},
		{args: []string{"-b", "-1,2,3,4", "t"}, bad: "a negative border"},
		{args: []string{"-b", "", "t"}, bad: "empty borders"},
		{args: []string{"-o"}, bad: "a flag without its value"},
		{args: []string{"--help"}, info: true},
		{args: []string{"-v"}, info: true},
	}
}

// failing operations that the command has to report
func cliFailed(ops []absint.TOp) string {
	for _, o := range ops {
		if !o.Failed {
			continue
		}
		switch o.Kind {
		case "open":
			if o.Flag.K == absint.KInt && o.Flag.N&3 == 0 {
				continue // an input
			}
			return "opening " + str(o.Name)
		case "write", "encode", "sync", "rename", "termbox.Init", "termbox.Flush":
			return o.Kind
		}
	}
	return ""
}

func touches(kind string) bool {
	switch kind {
	case "open", "write", "encode", "remove", "removeall", "rename", "mkdir", "mkdirall", "truncate", "link", "symlink", "chmod":
		return true
	}
	return strings.HasPrefix(kind, "termbox.")
}

func init() {
	register(&Check{ID: "L01", Title: "The command's exit status tells whether the code was made",
		Rule: "cmd/qrcode's main is analysed on sample command lines with failures at every operation of the output: it ends with status 0 exactly when the arguments are valid, the text can be encoded and no operation on the output fails; otherwise the status is not 0.",
		Min:  200, Run: func(c *Ctx) {
			c.Assume("urfave/cli parses arguments as package flag does and returns the action's error from Run")
			c.Assume(pngAssume)
			c.CLI()
			js := append(cliGood(), cliBad()...)
			c.Par(len(js), func(i int) {
				j := js[i]
				withCLI(c, j, func(o *absint.WOp) bool { return o.Kind != "decode" && o.Kind != "stat" }, func(r *cliRun) {
					r.outcomes(func(o outcome) {
						why := j.bad
						if why == "" {
							why = cliFailed(o.ops)
						}
						if why == "" {
							closed := false
							for _, p := range o.ops {
								closed = closed || p.Kind == "close" && p.Failed && p.File != nil && str(p.File.Name) == j.file
							}
							if closed {
								return // either is right
							}
						}
						if (o.code == 0) != (why == "") {
							if why == "" {
								why = "nothing"
							}
							c.Fail("exit-status", r.unit, "", "the command %s with status %d although %s is wrong: %s", o.how, o.code, why, opsText(o.ops))
							return
						}
						c.Ok("exit-status", 1)
					})
				})
			})
		}})

	register(&Check{ID: "L02", Title: "A command that cannot make the code leaves the output alone",
		Rule: "cmd/qrcode's main on command lines without a text, with a text that is too long, with wrong flags or borders and with help or version: no file is opened, created, emptied or removed and the terminal is not taken.",
		Min:  15, Run: func(c *Ctx) {
			c.Assume("urfave/cli parses arguments as package flag does and returns the action's error from Run")
			c.CLI()
			js := cliBad()
			c.Par(len(js), func(i int) {
				j := js[i]
				withCLI(c, j, func(o *absint.WOp) bool { return false }, func(r *cliRun) {
					ok := true
					for _, o := range r.w.Log {
						if touches(o.Kind) {
							why := j.bad
							if j.info {
								why = "a question for help or the version"
							}
							c.Fail("leaves-output", r.unit, o.Where, "%s: %s %s", why, o.Kind, str(o.Name))
							ok = false
							break
						}
					}
					if ok {
						c.Ok("leaves-output", 1)
					}
				})
			})
		}})

	register(&Check{ID: "L03", Title: "The command's flags give the image they name",
		Rule: "cmd/qrcode's main on sample command lines: exactly one image is encoded, into the named file (default qrcode.jpg) and nowhere else, as PNG for the extension .png and as JPEG otherwise, and it equals pixel by pixel the image of the standard writer for the same text with the options the flags name; with --terminal the terminal shows the symbol and no file is touched.",
		Min:  5000, Run: func(c *Ctx) {
			c.Assume("urfave/cli parses arguments as package flag does and returns the action's error from Run")
			c.Assume(ggAssume)
			c.CLI()
			js := cliGood()
			c.Par(len(js), func(i int) {
				j := js[i]
				withCLI(c, j, func(o *absint.WOp) bool { return false }, func(r *cliRun) {
					m := r.m
					if r.pc == bdd.False {
						c.Fail("makes-image", r.unit, "", "the command fails: %s", failText(m))
						return
					}
					m.PC = r.pc
					n := len(r.w.Log)
					t := r.must("DefaultSymbol", absint.MkStr(j.text()))
					if m.NilCond(tup(t, 1)) != bdd.True {
						c.Fail("makes-image", r.unit, "", "the text cannot be encoded")
						return
					}
					r.mat = tup(t, 0)
					log := r.w.Log[:n:n]
					if j.term {
						r.cliTerm(log)
						return
					}
					for _, o := range log {
						switch {
						case strings.HasPrefix(o.Kind, "termbox."):
							c.Fail("only-named-file", r.unit, o.Where, "the terminal is used")
						case o.Kind == "open" && str(o.Name) != j.file && str(o.Name) != j.half,
							o.Kind == "remove" || o.Kind == "rename":
							c.Fail("only-named-file", r.unit, o.Where, "%s %s", o.Kind, str(o.Name))
						}
					}
					if len(r.encs) != 1 {
						c.Fail("makes-image", r.unit, "", "%d images are encoded", len(r.encs))
						return
					}
					x := r.encs[0]
					c.Check(x.op.Fmt == j.fmt, "format", r.unit, x.op.Where, "the image is encoded as %s", x.op.Fmt)
					r.w.Traces(r.pc, 10, func(_ bdd.Node, ops []absint.TOp) {
						byName, _ := replayOps(ops)
						f := byName[j.file]
						if f == nil || f.old {
							c.Fail("only-named-file", r.unit, "", "%q is not written: %s", j.file, opsText(ops))
							return
						}
						got, ok := r.pieces(r.w, f.data)
						c.Check(ok && r.sameBytes(got, x.op.Bytes), "only-named-file", r.unit, "", "%q does not hold exactly the image: %s", j.file, opsText(ops))
					})
					b, px := r.draw(r.opts(j.opts(r.stdEnv)...))
					if px == nil {
						return
					}
					if b != x.b {
						c.Fail("same-image", r.unit, x.op.Where, "the image is %v instead of %v", x.b, b)
						return
					}
					r.checkImage("same-image", x.px, func(x, y int) (rgb, bool) { return px[y][x], true })
				})
			})
		}})
}

func failText(m *absint.M) string {
	if len(m.Panics) > 0 {
		return m.Panics[0].Reason
	}
	return "it exits"
}

func (r *cliRun) cliTerm(log []*absint.WOp) {
	e, m := r.stdEnv, r.m
	for _, o := range log {
		switch o.Kind {
		case "open", "encode", "write":
			if o.File == nil || !strings.HasPrefix(str(o.File.Name), "os.Std") {
				e.c.Fail("only-terminal", e.unit, o.Where, "%s %s", o.Kind, str(o.Name))
			}
		}
	}
	// the symbol's size
	n := 0
	set := map[[2]int]bdd.Node{}
	e.must("Modules", e.mat, hostFn("modules", func(m *absint.M, a []absint.V) (absint.V, bool) {
		x, y := int(a[0].N), int(a[1].N)
		set[[2]int{x, y}] = a[2].Node()
		if x >= n {
			n = x + 1
		}
		return absint.V{}, false
	}))
	e.n = n
	e.set = make([][]bdd.Node, n)
	for y := range e.set {
		e.set[y] = make([]bdd.Node, n)
		for x := range e.set[y] {
			e.set[y][x] = set[[2]int{x, y}]
		}
	}
	e.checkCells(r.w)
	closes := 0
	for _, o := range log {
		if o.Kind == "termbox.Close" && m.B.And(o.Cond, r.pc) != bdd.False {
			closes++
		}
	}
	e.c.Check(closes >= 1, "gives-back", e.unit, "", "the terminal is not given back")
}
