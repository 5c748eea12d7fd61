package checks

import (
	"fmt"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"
	"verif/analyzer/harness"
)

// newFile checks the opening of the named file; it returns the writer and goes
// on where that succeeded.
func (e *stdEnv) newFile(w *absint.World, name string, t absint.V) (absint.V, bool) {
	m := e.m
	wr, err := tup(t, 0), tup(t, 1)
	good := true
	w.Traces(m.PC, maxTraces, func(c bdd.Node, ops []absint.TOp) {
		opens, failed := 0, false
		for _, o := range ops {
			switch o.Kind {
			case "open":
				opens++
				failed = failed || o.Failed
				const wronly, rdwr, create, trunc = 1, 2, 0x40, 0x200
				f := o.Flag
				if str(o.Name) != name {
					e.c.Fail("opens-named-file", e.unit, o.Where, "opens %v instead of %q", o.Name, name)
					good = false
				} else if f.K != absint.KInt || f.N&3 != wronly && f.N&3 != rdwr || f.N&create == 0 || f.N&trunc == 0 || f.N&^(3|create|trunc|0x80000) != 0 {
					e.c.Fail("opens-named-file", e.unit, o.Where, "%q is opened with flags %v: the file must be writable, created when missing and emptied", name, f)
					good = false
				} else {
					e.c.Ok("opens-named-file", 1)
				}
			case "stat", "print", "log":
			default:
				e.c.Fail("opens-named-file", e.unit, o.Where, "opening the writer also does: %s", o.Kind)
				good = false
			}
		}
		if opens != 1 {
			e.c.Fail("opens-named-file", e.unit, "", "%d files are opened: %s", opens, opsText(ops))
			good = false
		}
		e.errCases(c, err, func(c bdd.Node, ok bool) {
			e.c.Check(ok == !failed, "open-error", e.unit, "", "a nil error is returned: %v, although opening the file fails: %v", ok, failed)
			if !ok {
				e.c.Check(m.B.And(c, m.B.Not(m.NilCond(wr))) == bdd.False, "no-writer", e.unit, "", "a writer is returned with the error")
			}
		})
	})
	m.PC = m.B.And(m.PC, m.NilCond(err))
	return wr, good && m.PC != bdd.False
}

func (e *stdEnv) fileWrite(w *absint.World, name, format string, wr absint.V) {
	m := e.m
	err := e.must("WriteW", wr, e.mat)
	w.Traces(m.PC, maxTraces, func(c bdd.Node, ops []absint.TOp) {
		e.errCases(c, err, func(_ bdd.Node, ok bool) {
			e.encoded(w, ops, ok, format, func() *ofile { f, _ := replayOps(ops); return f[name] })
		})
		f, _ := replayOps(ops)
		for n := range f {
			e.c.Check(n == name, "only-named-file", e.unit, "", "the file %q is written as well", n)
		}
	})
	e.must("CloseW", wr)
	w.Traces(m.PC, maxTraces, func(c bdd.Node, ops []absint.TOp) {
		_, f := replayOps(ops)
		for h, x := range f {
			e.c.Check(x.closed == 1, "closes-file", e.unit, "", "after Close the file %v was closed %d times: %s", h.Name, x.closed, opsText(ops))
		}
	})
}

func w12() {
	register(&Check{ID: "W12", Title: "The image goes to the named file",
		Rule: "standard.New, compressed.New and imgkit.Save with failures at every operation: exactly the named file is opened, for writing, created when missing and emptied; a failure to open it is returned and no writer is made; a Write that returns nil leaves exactly the encoded image in that file and nowhere else; Close closes it; Save chooses the format by the extension (.jpg, .jpeg, .png), rejects others, returns every failure and leaves the file closed.",
		Min:  60, Run: func(c *Ctx) {
			c.Assume(pngAssume)
			for _, name := range []string{"out.png", "dir/sub dir/qr.jpeg", "noext", "default.jpeg", "/tmp/x/二维码.png"} {
				for _, f := range []string{"default", "png"} {
					withStd(c, fmt.Sprintf("standard.New(%q), encoder %s", name, f), 1, func(e *stdEnv) {
						w := e.m.NewWorld()
						os := []absint.V{e.opt("OWidth", u8(1)), e.opt("OBorder", e.ints(0))}
						format := "jpeg"
						if f == "png" {
							os = append(os, e.opt("OPNG"))
							format = "png"
						}
						wr, ok := e.newFile(w, name, e.must("NewFile", absint.MkStr(name), e.opts(os...)))
						if ok {
							e.fileWrite(w, name, format, e.must("AsWriter", wr))
						}
					})
				}
				withSmall(c, "compressed", harness.Compressed, fmt.Sprintf("compressed.New(%q)", name), 1, func(e *stdEnv) {
					w := e.m.NewWorld()
					wr, ok := e.newFile(w, name, e.must("NewFile", absint.MkStr(name), absint.Int(1), absint.Int(1)))
					if ok {
						e.fileWrite(w, name, "png", wr)
					}
				})
			}
			for _, s := range [][2]string{{"a.jpg", "jpeg"}, {"dir/a.jpeg", "jpeg"}, {"a.png", "png"}, {"a.b.png", "png"}, {"x.png/a.jpg", "jpeg"}, {"a.gif", ""}, {"png", ""}, {"a.", ""}} {
				withStd(c, fmt.Sprintf("imgkit.Save to %q", s[0]), 0, func(e *stdEnv) {
					m := e.m
					w := m.NewWorld()
					pic := e.must("Pic", absint.Int(0), absint.Int(0), absint.Int(2), absint.Int(1), e.bytes(cbytes(1, 2, 3, 4, 5, 6)))
					w.OnEncode = func(o *absint.WOp) {
						b, px := e.pixels(o.Img)
						e.c.Check(b == [4]int{0, 0, 2, 1} && e.same(px[0][0], conCol(1, 2, 3, 255)) && e.same(px[0][1], conCol(4, 5, 6, 255)), "same-image", e.unit, o.Where, "another image is encoded")
					}
					err := e.must("SaveImg", pic, absint.MkStr(s[0]))
					w.Traces(m.PC, maxTraces, func(cd bdd.Node, ops []absint.TOp) {
						byName, byFile := replayOps(ops)
						for h, x := range byFile {
							e.c.Check(x.closed == 1, "closes-file", e.unit, "", "the file %v is closed %d times: %s", h.Name, x.closed, opsText(ops))
						}
						for n := range byName {
							e.c.Check(n == s[0], "only-named-file", e.unit, "", "the file %q is written", n)
						}
						e.errCases(cd, err, func(_ bdd.Node, ok bool) {
							if s[1] == "" {
								e.c.Check(!ok, "format-by-extension", e.unit, "", "no error for an unknown extension")
								for _, o := range ops {
									e.c.Check(o.Kind != "encode", "format-by-extension", e.unit, o.Where, "an image is encoded for an unknown extension")
								}
								return
							}
							e.encoded(w, ops, ok, s[1], func() *ofile { return byName[s[0]] })
						})
					})
				})
			}
		}})

	register(&Check{ID: "W16", Title: "Images loaded from files behave like images given directly",
		Rule: "WithLogoImageFilePNG, WithLogoImageFileJPEG and WithHalftone on a file that can be read, that cannot be opened and that does not decode: in the first case the written image equals, pixel by pixel, the one with the decoded picture given directly; otherwise it equals the one without the option (an earlier setting stays), nothing panics and the writer still works; the named file is read with the right decoder and closed on every path. imgkit.Read returns the picture or an error.",
		Min:  5000, Run: func(c *Ctx) {
			c.Assume(ggAssume)
			c.Assume(pngAssume)
			type job struct {
				opt, direct, format string
				earlier             bool
				fail                string
			}
			var jobs []job
			for _, o := range [][3]string{{"OLogoPNG", "OLogo", "png"}, {"OLogoJPEG", "OLogo", "jpeg"}, {"OHalftoneFile", "OHalftone", "any"}} {
				for _, earlier := range []bool{false, true} {
					for _, f := range []string{"", "open", "decode"} {
						jobs = append(jobs, job{o[0], o[1], o[2], earlier, f})
					}
				}
			}
			c.Std()
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				unit := fmt.Sprintf("%s, earlier setting %v, failure %q", j.opt, j.earlier, j.fail)
				withStd(c, unit, 1, func(e *stdEnv) {
					m := e.m
					if j.direct == "OHalftone" {
						m.ScaleHook = func(x, y int) [4]absint.V {
							return [4]absint.V(conCol((x*7+y*13)%256, (x*5)%256, (y*3)%256, 255))
						}
					}
					w := m.NewWorld()
					w.CanFail = func(o *absint.WOp) bool { return false }
					w.MustFail = func(o *absint.WOp) bool { return o.Kind == j.fail || o.Kind == "read" && j.fail == "open" }
					mk := func(k int) absint.V {
						var px []int
						for n := 0; n < 9; n++ {
							px = append(px, (k+n*20)%256, (k*3+n)%256, n*9)
						}
						return e.must("Pic", absint.Int(0), absint.Int(0), absint.Int(3), absint.Int(3), e.bytes(cbytes(px...)))
					}
					pic, old := mk(40), mk(111)
					w.Picture = func(n string) (absint.V, bool) { return pic, n == "pic.file" }
					base := []absint.V{e.opt("OWidth", u8(3)), e.opt("OBorder", e.ints(2))}
					if j.earlier {
						base = append(base, e.opt(j.direct, old))
					}
					with := append(append([]absint.V(nil), base...), e.opt(j.opt, absint.MkStr("pic.file")))
					want := base
					if j.fail == "" {
						want = append(append([]absint.V(nil), base...), e.opt(j.direct, pic))
					}
					wb, wpx := e.draw(e.opts(want...))
					gb, gpx := e.draw(e.opts(with...))
					if wpx == nil || gpx == nil {
						return
					}
					if wb != gb {
						e.fail("same-image", "the image is %v instead of %v", gb, wb)
						return
					}
					e.checkImage("same-image", gpx, func(x, y int) (rgb, bool) { return wpx[y][x], true })
					e.loads(w, j.format, "pic.file", j.fail)
				})
			})
			for _, f := range []string{"", "open", "decode"} {
				withStd(c, fmt.Sprintf("imgkit.Read, failure %q", f), 0, func(e *stdEnv) {
					m := e.m
					w := m.NewWorld()
					w.CanFail = func(o *absint.WOp) bool { return false }
					w.MustFail = func(o *absint.WOp) bool { return o.Kind == f || o.Kind == "read" && f == "open" }
					pic := e.must("Pic", absint.Int(0), absint.Int(0), absint.Int(1), absint.Int(1), e.bytes(cbytes(1, 2, 3)))
					w.Picture = func(n string) (absint.V, bool) { return pic, n == "pic.file" }
					t := e.must("ReadImg", absint.MkStr("pic.file"))
					e.c.Check((m.NilCond(tup(t, 1)) == bdd.True) == (f == ""), "read-error", e.unit, "", "wrong error result")
					if f == "" {
						_, px := e.pixels(tup(t, 0))
						e.c.Check(e.same(px[0][0], conCol(1, 2, 3, 255)), "same-image", e.unit, "", "another image is returned")
					} else {
						e.c.Check(m.NilCond(tup(t, 0)) == bdd.True, "read-error", e.unit, "", "an image is returned with the error")
					}
					e.loads(w, "any", "pic.file", f)
				})
			}
		}})
}

// loads checks how a picture was read.
func (e *stdEnv) loads(w *absint.World, format, name, fail string) {
	w.Traces(e.m.PC, 10, func(c bdd.Node, ops []absint.TOp) {
		opens, dec := 0, 0
		for _, o := range ops {
			switch o.Kind {
			case "open", "read":
				opens++
				e.c.Check(str(o.Name) == name, "named-file", e.unit, o.Where, "reads %v", o.Name)
				if o.Kind == "open" {
					e.c.Check(o.Flag.K == absint.KInt && o.Flag.N&(3|0x200|0x40) == 0, "read-only", e.unit, o.Where, "the file is opened with flags %v", o.Flag)
				}
			case "decode":
				dec++
				e.c.Check(format == "any" || o.Fmt == format || o.Fmt == "any", "decoder", e.unit, o.Where, "the file is decoded as %s", o.Fmt)
			case "write", "remove", "rename", "exit":
				e.c.Fail("read-only", e.unit, o.Where, "loading does: %s", o.Kind)
			}
		}
		e.c.Check(opens >= 1, "named-file", e.unit, "", "the file is not read")
		if fail != "open" {
			e.c.Check(dec >= 1, "decoder", e.unit, "", "the file is not decoded")
		}
		_, byFile := replayOps(ops)
		for _, o := range ops {
			if o.Kind == "open" && !o.Failed {
				x := byFile[o.File]
				e.c.Check(x != nil && x.closed == 1, "closes-file", e.unit, o.Where, "the file is not closed once: %s", opsText(ops))
			}
		}
	})
}

func cbytes(xs ...int) (out []absint.V) {
	for _, x := range xs {
		out = append(out, u8(x))
	}
	return
}
