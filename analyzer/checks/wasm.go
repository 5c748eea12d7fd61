package checks

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"
	"verif/analyzer/harness"
)

const jsAssume = "syscall/js gives the fields of JavaScript objects, panics where its documentation says so, and a panic in a callback ends the program"

// Wasm loads the WebAssembly command with the standard writer's harness.
func (c *Ctx) Wasm() *absint.Program {
	d := filepath.Join(c.Repo, "cmd", "wasm")
	return c.LoadProg("wasm", absint.LoadConfig{Dir: d, Env: []string{"GOOS=js", "GOARCH=wasm"}, Patterns: []string{".", "./zzvp"},
		Overlay: map[string][]byte{filepath.Join(d, "zzvp", "h.go"): []byte(harness.Standard)}})
}

// jsJob is one call of generateQRCode.
type jsJob struct {
	args  []*absint.JS
	bad   string         // why it has to fail
	fails bool           // the encoder may fail
	pre   [][]*absint.JS // earlier calls
	text  string
	ver   int
	mode  string
	level string
	fmt   string
	opts  func(e *stdEnv) []absint.V
}

func jsText(j *absint.JS) string {
	switch j.Kind {
	case "string":
		s := str(j.V)
		if len(s) > 20 {
			s = fmt.Sprintf("%s... (%d bytes)", s[:20], len(s))
		}
		return fmt.Sprintf("%q", s)
	case "number":
		return fmt.Sprint(j.V.Float())
	case "boolean":
		return fmt.Sprint(j.V.N == 1)
	case "object":
		var ks, out []string
		for k := range j.Props {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, k+": "+jsText(j.Props[k]))
		}
		return "{" + strings.Join(out, ", ") + "}"
	}
	return j.Kind
}

func (j jsJob) unit() string {
	var a []string
	for _, x := range j.args {
		a = append(a, jsText(x))
	}
	s := "generateQRCode(" + strings.Join(a, ", ") + ")"
	for i := range j.pre {
		if i == 0 {
			s += " after"
		}
		s += " " + jsJob{args: j.pre[i]}.unit()
	}
	if j.fails {
		s += " with a failing encoder"
	}
	return s
}

// one option and what it stands for
type jsOpt struct {
	key string
	val *absint.JS
	set func(j *jsJob)
}

func jsImg(name string, args ...absint.V) func(j *jsJob) {
	return func(j *jsJob) {
		old := j.opts
		j.opts = func(e *stdEnv) []absint.V {
			var os []absint.V
			if old != nil {
				os = old(e)
			}
			as := append([]absint.V(nil), args...)
			if name == "OBorder" {
				as = []absint.V{e.ints(int(args[0].N))}
			}
			return append(os, e.opt(name, as...))
		}
	}
}

func jsOpts() (full []jsOpt, more []jsOpt) {
	s, n, b := absint.JSStr, absint.JSNum, absint.JSBool
	nop := func(*jsJob) {}
	full = []jsOpt{
		{"encodeVersion", n(4), func(j *jsJob) { j.ver = 4 }},
		{"encodeMode", n(0), nop},
		{"encodeECLevel", s("H"), func(j *jsJob) { j.level = "H" }},
		{"outputBgColor", s("#ffeedd"), jsImg("OBgHex", absint.MkStr("#ffeedd"))},
		{"outputBgTransparent", b(false), nop},
		{"outputQrColor", s("#123456"), jsImg("OFgHex", absint.MkStr("#123456"))},
		{"outputQrWidth", n(3), jsImg("OWidth", u8(3))},
		{"outputCircleShape", b(true), jsImg("OCircle")},
		{"outputImageEncoder", s("jpg"), func(j *jsJob) { j.fmt = "jpeg" }},
		{"outputMargin", n(2), jsImg("OBorder", absint.Int(2))},
	}
	more = []jsOpt{
		{"encodeVersion", n(0), nop},
		{"encodeVersion", n(7), func(j *jsJob) { j.ver = 7 }},
		{"encodeECLevel", s("L"), func(j *jsJob) { j.level = "L" }},
		{"encodeECLevel", s("M"), func(j *jsJob) { j.level = "M" }},
		{"encodeECLevel", s("Q"), func(j *jsJob) { j.level = "Q" }},
		{"encodeECLevel", s(""), nop},
		{"outputBgColor", s(""), nop},
		{"outputQrColor", s(""), nop},
		{"outputBgTransparent", b(true), jsImg("OTransparent")},
		{"outputQrWidth", n(0), nop},
		{"outputQrWidth", n(1), jsImg("OWidth", u8(1))},
		{"outputQrWidth", n(9), jsImg("OWidth", u8(9))},
		{"outputCircleShape", b(false), nop},
		{"outputImageEncoder", s("png"), nop},
		{"outputImageEncoder", s("jpeg"), func(j *jsJob) { j.fmt = "jpeg" }},
		{"outputImageEncoder", s(""), nop},
		{"outputMargin", n(0), nop},
		{"outputMargin", n(11), jsImg("OBorder", absint.Int(11))},
	}
	return
}

func jsJobs() []jsJob {
	s := absint.JSStr
	// narrow options keep the images small
	small := jsOpt{"outputQrWidth", absint.JSNum(2), jsImg("OWidth", u8(2))}
	build := func(text string, os ...jsOpt) jsJob {
		p := map[string]*absint.JS{}
		j := jsJob{text: text, fmt: "png"}
		for _, o := range os {
			p[o.key] = o.val
			o.set(&j)
		}
		j.args = []*absint.JS{s(text), absint.JSObj(p)}
		return j
	}
	full, more := jsOpts()
	js := []jsJob{
		{bad: "there is no content"},
		{args: []*absint.JS{s("abc")}, text: "abc", fmt: "png"},
		{args: []*absint.JS{s(" 漢字 ")}, text: " 漢字 ", fmt: "png"},
		{args: []*absint.JS{s("abc"), absint.JSUndef()}, text: "abc", fmt: "png"},
		{args: []*absint.JS{s("abc"), absint.JSNull()}, text: "abc", fmt: "png"},
		{args: []*absint.JS{s("abc"), absint.JSNum(5)}, text: "abc", fmt: "png"},
		{args: []*absint.JS{s("abc"), s("x")}, text: "abc", fmt: "png"},
		{args: []*absint.JS{s(strings.Repeat("x", 3000))}, bad: "the content is too long"},
		{args: []*absint.JS{s("abc")}, text: "abc", fmt: "png", fails: true},
		build("12345"),
		build("https://example.org/?a=b", full...),
		build("x"),
	}
	x := build("abc", small)
	x.args = append(x.args, s("more"))
	js = append(js, x)
	x = build("abc", full...)
	x.fails = true
	js = append(js, x)
	x = build(strings.Repeat("x", 60), jsOpt{"encodeVersion", absint.JSNum(1), func(*jsJob) {}})
	x.bad = "the content is too long for the version"
	js = append(js, x)
	for i := range full {
		var rest []jsOpt
		for k, o := range full {
			if k != i {
				rest = append(rest, o)
			}
		}
		js = append(js, build("ABC", rest...))
		if full[i].key == "outputQrWidth" {
			js = append(js, build("ABC", full[i]))
		} else {
			js = append(js, build("ABC", full[i], small))
		}
		// explicitly undefined is missing
		x := build("ABC", rest...)
		x.args[1].Props[full[i].key] = absint.JSUndef()
		js = append(js, x)
	}
	// calls do not depend on earlier ones
	undef, null := absint.JSUndef(), absint.JSNull()
	all := build("12345", append(append([]jsOpt(nil), full...), more[8])...).args
	for _, y := range []jsJob{
		{args: []*absint.JS{s("abc")}, text: "abc", fmt: "png"},
		{args: []*absint.JS{s("abc"), undef}, text: "abc", fmt: "png"},
		{args: []*absint.JS{s("abc"), null}, text: "abc", fmt: "png"},
		{bad: "there is no content"},
		{args: []*absint.JS{s(strings.Repeat("x", 3000))}, bad: "the content is too long"},
		build("abc"),
		build("abc", small),
	} {
		y.pre = [][]*absint.JS{all}
		js = append(js, y)
	}
	x = build("abc", full...)
	x.pre = [][]*absint.JS{all, {s(strings.Repeat("x", 3000))}, nil, {s("abc"), null}}
	js = append(js, x)
	x = build("12345", full...)
	x.pre = [][]*absint.JS{{s("12345")}, {s("12345"), absint.JSObj(map[string]*absint.JS{"outputQrWidth": absint.JSNum(5), "outputImageEncoder": s("png")})}}
	js = append(js, x)
	x = build("abc", small)
	x.pre, x.fails = [][]*absint.JS{all}, true
	js = append(js, x)
	for _, o := range more {
		if o.key == "outputQrWidth" {
			js = append(js, build("ABC", o))
		} else {
			js = append(js, build("ABC", small, o))
		}
	}
	return js
}

func init() {
	register(&Check{ID: "L04", Title: "generateQRCode gives the image its options name, or an error",
		Rule: "cmd/wasm's main registers generateQRCode; its calls with missing, partial and full option objects never panic and give a plain object: success true, an empty error and the base64 form of exactly the bytes of one encoded image, which equals pixel by pixel the standard writer's image for the content and options named (PNG unless jpg or jpeg is asked for); or success false, an error and no image when there is no content, it cannot be encoded or the image encoder fails.",
		Min:  5000, Run: func(c *Ctx) {
			c.Assume(jsAssume)
			c.Assume(ggAssume)
			c.Wasm()
			js := jsJobs()
			c.Par(len(js), func(i int) { wasmJob(c, js[i]) })
		}})
}

const wasmMain = "wasm"

func wasmJob(c *Ctx, j jsJob) {
	p := c.Wasm()
	m := absint.NewM(p)
	unit := j.unit()
	c.Guard(unit, m, func() {
		defer m.Close()
		e := &stdEnv{c: c, m: m, p: p, harn: wasmMain + "/zzvp", unit: unit}
		defer func() {
			if r := recover(); r != nil {
				if n, ok := r.(noReturn); ok {
					c.Fail("returns", unit, "", "%s: no path returns", n.name)
					return
				}
				panic(r)
			}
		}()
		constEC(m, 7)
		r := &cliRun{stdEnv: e, w: m.NewWorld()}
		last := false
		r.w.CanFail = func(o *absint.WOp) bool { return last && j.fails && o.Kind == "encode" }
		r.w.OnEncode = func(o *absint.WOp) {
			b, px := e.pixels(o.Img)
			r.encs = append(r.encs, cliEnc{o, b, px})
		}
		w := m.NewJS()
		m.Call(fnOf(p, wasmMain, "main"))
		// main never ends
		m.PC = bdd.True
		m.Panics = nil
		f := w.Global.Props["generateQRCode"]
		if f == nil || f.Kind != "function" {
			c.Fail("registered", unit, "", "main does not register generateQRCode")
			return
		}
		for _, a := range j.pre {
			w.Invoke(f, a...)
		}
		r.encs, last = nil, true
		done := len(r.w.Log)
		res, _ := w.Invoke(f, j.args...)
		if len(m.Panics) > 0 {
			c.Fail("no-panic", unit, m.Panics[0].Pos, "may panic: %s in %s", m.Panics[0].Reason, m.Panics[0].Fn)
			return
		}
		c.Ok("no-panic", 1)
		if m.PC != bdd.True {
			c.Fail("returns", unit, "", "the call may not return")
			return
		}
		good := bdd.True
		if j.bad != "" {
			good = bdd.False
		}
		for _, x := range r.w.Log[done:] {
			if x.Kind == "encode" {
				good = m.B.And(good, m.B.Not(m.B.And(x.Cond, x.Fail)))
			}
		}
		why := j.bad
		if why == "" {
			why = "the encoder failing"
		}
		// each outcome
		empty := func(v absint.V) (bdd.Node, bool) {
			n := bdd.False
			k := true
			v = m.Simplify(v)
			as := []absint.Alt{{C: bdd.True, V: v}}
			if v.K == absint.KChoice {
				as = v.X.([]absint.Alt)
			}
			for _, a := range as {
				if s, ok := absint.ConcStr(a.V); ok && s == "" {
					n = m.B.Or(n, a.C)
				} else if a.V.K != absint.KStr && a.V.K != absint.KOpaque {
					k = false
				}
			}
			return n, k
		}
		var img absint.V
		for _, al := range w.Alts(res) {
			o := al.V
			if o.Kind != "object" {
				c.Fail("result", unit, "", "the result is no object")
				return
			}
			suc, er, im := o.Props["success"], o.Props["error"], o.Props["base64EncodedImage"]
			if suc == nil || er == nil || im == nil || suc.Kind != "boolean" || er.Kind != "string" || im.Kind != "string" {
				c.Fail("result", unit, "", "the result lacks success, error or base64EncodedImage")
				return
			}
			differ := func(a, b bdd.Node) bool { return m.B.And(al.C, m.B.Xor(a, b)) != bdd.False }
			if !c.Check(!differ(m.Simplify(suc.V).Node(), good), "success", unit, "", "success does not tell whether the image was made (%s)", why) {
				return
			}
			ee, k1 := empty(er.V)
			ie, k2 := empty(im.V)
			if !k1 || !k2 {
				m.Undecided("result %v %v", er.V, im.V)
			}
			c.Check(!differ(ee, good), "error-text", unit, "", "the error is not empty exactly on success")
			c.Check(!differ(ie, m.B.Not(good)), "image-text", unit, "", "the image is not empty exactly on failure")
			if m.B.And(al.C, good) == good {
				img = im.V
			}
		}
		c.Unit("calls", 1)
		if good == bdd.False {
			return
		}
		if len(r.encs) != 1 {
			c.Fail("one-image", unit, "", "%d images are encoded", len(r.encs))
			return
		}
		x := r.encs[0]
		if j.fails {
			return
		}
		iv := m.Simplify(img)
		if iv.K == absint.KChoice {
			for _, a := range iv.X.([]absint.Alt) {
				if m.B.And(a.C, good) == good {
					iv = a.V
				}
			}
		}
		want := e.must("B64", e.bytes(x.op.Bytes))
		a, ok1 := r.w.TextOf(iv)
		b, ok2 := r.w.TextOf(want)
		c.Check(ok1 && ok2 && r.sameBytes(a, b), "image-bytes", unit, x.op.Where, "base64EncodedImage is not the base64 form of the encoded image")
		c.Check(x.op.Fmt == j.fmt, "format", unit, x.op.Where, "the image is encoded as %s", x.op.Fmt)
		t := e.must("SymOpts", absint.MkStr(j.text), absint.Int(int64(j.ver)), absint.MkStr(j.mode), absint.MkStr(j.level))
		if m.NilCond(tup(t, 1)) != bdd.True {
			c.Fail("makes-image", unit, "", "the text cannot be encoded")
			return
		}
		e.mat = tup(t, 0)
		var os []absint.V
		if j.opts != nil {
			os = j.opts(e)
		}
		bb, px := e.draw(e.opts(os...))
		if px == nil {
			return
		}
		if bb != x.b {
			c.Fail("same-image", unit, x.op.Where, "the image is %v instead of %v", x.b, bb)
			return
		}
		e.checkImage("same-image", x.px, func(x, y int) (rgb, bool) { return px[y][x], true })
	})
}
