package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"verif/analyzer/bdd"

	"golang.org/x/tools/go/ssa"
)

// World models what lies outside the program: files, the standard streams,
// image codecs and the terminal. Every operation can fail under a free
// condition and is logged with the condition under which it happens.
type World struct {
	M    *M
	Log  []*WOp
	Term *Terminal
	// CanFail tells whether an operation may fail (default: every one may).
	CanFail func(op *WOp) bool
	// MustFail makes an operation fail for certain.
	MustFail func(op *WOp) bool
	// Picture is the image a file decodes to.
	Picture func(name string) (V, bool)
	// OnEncode is called when an image is encoded.
	OnEncode func(op *WOp)
	// Content of the files that can be read, by name.
	content map[string][]V
	files   map[*Obj]*WFile
	std     map[string]V
	cli     map[*Obj]*cliCtx
	seq     int
}

// WFile is one opened file or one sink.
type WFile struct {
	ID   int
	Name V
	Sink bool
	Val  V // the value the program holds
	obj  *Obj
}

// WOp is one operation.
type WOp struct {
	ID         int
	Kind       string
	File       *WFile
	Name       V
	Name2      V
	Flag, Perm V
	Data       V // what is written
	Img        V
	Fmt        string
	Extra      V
	Args       []V
	Bytes      []V // what the encoder produces
	Cond, Fail bdd.Node
	Err        V
	Where      string
	Pos        token.Pos
}

// Terminal is the screen of termbox.
type Terminal struct {
	Cells map[[2]int][3]V // character, foreground, background
	Order [][2]int
	Loose []int // lines with cells at unknown columns
	polls int
}

// cells of a modelled *os.File
const (
	fHandle = iota
	fPos
	fClosed
	fCells
)

func (w *World) op(kind string) *WOp {
	m := w.M
	o := &WOp{ID: len(w.Log), Kind: kind, Cond: m.PC, Fail: bdd.False, Err: NilIface, Where: m.Where()}
	if m.frame != nil {
		o.Pos = m.frame.pos
	}
	w.Log = append(w.Log, o)
	m.hard++
	if m.ScoreAbort {
		m.noteEffect()
	}
	return o
}

// mayFail gives the operation a free failure.
func (w *World) mayFail(o *WOp) V {
	if w.MustFail != nil && w.MustFail(o) {
		return w.failIf(o, bdd.True)
	}
	if w.CanFail != nil && !w.CanFail(o) {
		return o.Err
	}
	return w.failIf(o, w.M.B.NewVar(fmt.Sprintf("%s %d fails", o.Kind, o.ID)))
}

func (w *World) failIf(o *WOp, c bdd.Node, wraps ...V) V {
	m := w.M
	e := m.NewErr(MkStr(fmt.Sprintf("%s %d failed", o.Kind, o.ID)), wraps...)
	o.Err = m.Merge(c, e, o.Err)
	o.Fail = m.B.Or(o.Fail, c)
	return o.Err
}

func (m *M) globalOf(pkg, name string) (*Obj, bool) {
	sp := m.P.EnsureBuilt(pkg)
	if sp == nil || sp.Var(name) == nil {
		return nil, false
	}
	return m.globalPtr(sp.Var(name)).X.(*Obj), true
}

// Global reads a package variable.
func (m *M) Global(pkg, name string) (V, bool) {
	o, ok := m.globalOf(pkg, name)
	if !ok {
		return V{}, false
	}
	return o.Cells[0], true
}

// SetGlobal sets a package variable of one cell.
func (m *M) SetGlobal(pkg, name string, v V) bool {
	o, ok := m.globalOf(pkg, name)
	if ok {
		o.Cells[0] = v
	}
	return ok
}

// NamedType is a type of a loaded package.
func (m *M) NamedType(pkg, name string) types.Type { return m.namedType(pkg, name) }

// NewWorld attaches a world to the machine.
func (m *M) NewWorld() *World {
	w := &World{M: m, Term: &Terminal{Cells: map[[2]int][3]V{}}, content: map[string][]V{}, files: map[*Obj]*WFile{}, std: map[string]V{}, cli: map[*Obj]*cliCtx{}}
	w.install()
	w.installCLI()
	for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
		v := m.NewErr(MkStr(n))
		m.SetGlobal("os", n, v)
		m.SetGlobal("io/fs", n, v)
	}
	for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
		if _, ok := m.globalOf("os", n); ok {
			f := w.newFile(MkStr("os." + n))
			m.SetGlobal("os", n, f.Val)
			w.std[n] = f.Val
		}
	}
	return w
}

func (w *World) newFile(name V) *WFile {
	m := w.M
	t := m.namedType("os", "File")
	o := m.NewObj(t, fCells, "file")
	o.Cells[fHandle] = m.NonNilOpaque(types.NewPointer(t), "fd")
	o.Cells[fPos] = Int(0)
	o.Cells[fClosed] = Bool(false)
	f := &WFile{ID: len(w.files), Name: name, obj: o}
	f.Val = V{K: KPtr, X: o}
	w.files[o] = f
	return f
}

// NewFile is a file the program is given.
func (w *World) NewFile(name string) *WFile { return w.newFile(MkStr(name)) }

// Sink is an io.WriteCloser of the caller.
type sinkHost struct {
	w *World
	f *WFile
}

// NewSink makes a sink; its value is an interface value.
func (w *World) NewSink(name string) *WFile {
	f := &WFile{ID: 1000 + len(w.Log), Name: MkStr(name), Sink: true}
	f.Val = V{K: KIface, X: &IfaceV{Host: &sinkHost{w, f}}}
	return f
}

func (s *sinkHost) Implements(m *M, i *types.Interface) bool {
	for k := 0; k < i.NumMethods(); k++ {
		if n := i.Method(k).Name(); n != "Write" && n != "Close" {
			return false
		}
	}
	return true
}

func (s *sinkHost) CallMethod(m *M, name string, a []V) (V, bool) {
	switch name {
	case "Write":
		return s.w.write(s.f, s.w.bytesStr(a[0]))
	case "Close":
		o := s.w.op("close")
		o.File = s.f
		return s.w.mayFail(o), false
	}
	m.Undecided("method %s on the caller's writer", name)
	return V{}, true
}

// bytesStr is a byte slice as a string.
func (w *World) bytesStr(p V) V {
	m := w.M
	return m.lift(m.Simplify(p), func(v V) V {
		if v.K == KSlice {
			if v.X == nil {
				return MkStr("")
			}
			return MkSymStr(append([]V(nil), m.SliceCells(v)...))
		}
		return v
	})
}

func (w *World) write(f *WFile, s V) (V, bool) {
	m := w.M
	o := w.op("write")
	o.File, o.Data = f, s
	if f.obj != nil {
		if c := f.obj.Cells[fClosed].Node(); m.B.And(m.PC, c) != bdd.False {
			w.failIf(o, c, w.sentinel("ErrClosed"))
		}
	}
	err := w.mayFail(o)
	var n V
	if s.K == KOpaque {
		n = m.OpaqueOf(types.Typ[types.Int], "n")
	} else {
		n = m.lenOf(s, false)
	}
	return Tuple(m.Merge(o.Fail, Int(0), n), err), m.PC == bdd.False
}

func (w *World) sentinel(name string) V {
	if v, ok := w.M.Global("os", name); ok {
		return v
	}
	return w.M.NewErr(MkStr(name))
}

// file resolves a *os.File.
func (w *World) file(recv V, args []V, f func(f *WFile, a []V) (V, bool), null func() V) (V, bool) {
	m := w.M
	one := func(v V) (V, bool) {
		if v.K != KPtr {
			m.Undecided("operation on the file %v", v)
		}
		if v.X == nil {
			return null(), false
		}
		x, ok := w.files[v.X.(*Obj)]
		if !ok {
			m.Undecided("operation on a file that is not opened by os.Open or the like")
		}
		return f(x, args)
	}
	recv = m.Simplify(recv)
	if recv.K == KChoice {
		return m.guarded(recv.X.([]Alt), one)
	}
	return one(recv)
}

// token makes bytes that stand for an unknown content.
func (w *World) token(label string, n int) []V {
	bs := make([]V, n)
	for i := range bs {
		bs[i] = w.M.SymInt(fmt.Sprintf("%s.%d", label, i), 8, false, 8)
	}
	return bs
}

// Content is the content of an input file.
func (w *World) Content(name string) []V {
	c, ok := w.content[name]
	if !ok {
		c = w.token("content of "+name, 6)
		w.content[name] = c
	}
	return c
}

func (m *M) ifaceMethod(pkg, typ, name string) *types.Func {
	it := m.namedType(pkg, typ).Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return it.Method(i)
		}
	}
	return nil
}

// sendTo calls Write of an io.Writer; ok is the condition of success.
func (w *World) sendTo(wr V, bs []V) (err V, dead bool) {
	m := w.M
	p := m.NewSlice(types.Typ[types.Uint8], append([]V(nil), bs...), "encoded")
	r, dead := m.Invoke(wr, m.ifaceMethod("io", "Writer", "Write"), []V{p})
	if dead {
		return V{}, true
	}
	return m.extract(r, 1, types.Universe.Lookup("error").Type()), false
}

// encode models an image encoder: it writes the encoded image in two pieces
// and stops at the first error.
func (w *World) encode(format string, wr, img, extra V) (V, bool) {
	m := w.M
	o := w.op("encode")
	o.Fmt, o.Img, o.Extra = format, img, extra
	o.Bytes = w.token(fmt.Sprintf("%s %d", format, o.ID), 7)
	if w.OnEncode != nil {
		w.OnEncode(o)
	}
	own := w.mayFail(o)
	type st struct {
		c   bdd.Node
		err V
	}
	err := own
	for i := 0; i < 2; i++ {
		nc := m.NilCond(err)
		v, dead := m.guarded([]Alt{{nc, Int(0)}, {m.B.Not(nc), Int(1)}}, func(k V) (V, bool) {
			if k.N == 1 {
				return err, false
			}
			return w.sendTo(wr, o.Bytes[3*i:3+4*i])
		})
		if dead {
			return V{}, true
		}
		err = v
	}
	return err, false
}

func (w *World) install() {
	m := w.M
	errT := types.Universe.Lookup("error").Type()
	_ = errT
	def := func(n string, f func(a []V) (V, bool)) {
		m.Intr[n] = func(m *M, fn *ssa.Function, a []V) (V, bool) {
			m.Event("call:"+fnKey(fn), a...)
			return f(a)
		}
	}
	open := func(kind string, name, flag, perm V) (V, bool) {
		o := w.op("open")
		o.Name, o.Flag, o.Perm, o.Fmt = m.Simplify(name), m.Simplify(flag), perm, kind
		f := w.newFile(o.Name)
		o.File = f
		err := w.mayFail(o)
		return Tuple(m.Merge(o.Fail, V{K: KPtr}, f.Val), err), false
	}
	def("os.OpenFile", func(a []V) (V, bool) { return open("OpenFile", a[0], a[1], a[2]) })
	def("os.Create", func(a []V) (V, bool) { return open("Create", a[0], Int(oRDWR|oCREATE|oTRUNC), Int(0o666)) })
	def("os.Open", func(a []V) (V, bool) { return open("Open", a[0], Int(0), Int(0)) })
	def("os.WriteFile", func(a []V) (V, bool) {
		t, dead := open("OpenFile", a[0], Int(oWRONLY|oCREATE|oTRUNC), a[2])
		if dead {
			return t, dead
		}
		f := w.Log[len(w.Log)-1].File
		err := t.X.([]V)[1]
		nc := m.NilCond(err)
		return m.guarded([]Alt{{nc, Int(0)}, {m.B.Not(nc), Int(1)}}, func(k V) (V, bool) {
			if k.N == 1 {
				return err, false
			}
			r, dead := w.write(f, w.bytesStr(a[1]))
			if dead {
				return r, dead
			}
			c := w.op("close")
			c.File = f
			ce := w.mayFail(c)
			we := r.X.([]V)[1]
			return m.Merge(m.NilCond(we), ce, we), false
		})
	})
	def("os.ReadFile", func(a []V) (V, bool) {
		o := w.op("read")
		o.Name = m.Simplify(a[0])
		err := w.mayFail(o)
		n, ok := concStr(o.Name)
		if !ok {
			m.Undecided("reading the file %v", o.Name)
		}
		d := m.NewSlice(types.Typ[types.Uint8], append([]V(nil), w.Content(n)...), "content")
		return Tuple(m.Merge(o.Fail, V{K: KSlice}, d), err), false
	})
	if m.Intr["io/ioutil.ReadFile"] == nil {
		m.Intr["io/ioutil.ReadFile"] = m.Intr["os.ReadFile"]
		m.Intr["io/ioutil.WriteFile"] = m.Intr["os.WriteFile"]
	}
	name1 := func(kind string) func(a []V) (V, bool) {
		return func(a []V) (V, bool) {
			o := w.op(kind)
			o.Name = m.Simplify(a[0])
			if len(a) > 1 {
				o.Name2 = m.Simplify(a[1])
			}
			return w.mayFail(o), false
		}
	}
	for _, n := range []string{"Remove", "RemoveAll", "Rename", "MkdirAll", "Mkdir", "Chmod", "Truncate", "Symlink", "Link"} {
		def("os."+n, name1(strings.ToLower(n)))
	}
	def("os.CreateTemp", func(a []V) (V, bool) {
		w.seq++
		d, _ := concStr(m.Simplify(a[0]))
		return open("CreateTemp", MkStr(fmt.Sprintf("%s/tmp%d", d, w.seq)), Int(oRDWR|oCREATE|oEXCL), Int(0o600))
	})
	stat := func(a []V) (V, bool) {
		o := w.op("stat")
		o.Name = m.Simplify(a[0])
		err := w.mayFail(o)
		fi := m.NonNilOpaque(m.namedType("io/fs", "FileInfo"), "FileInfo")
		return Tuple(m.Merge(o.Fail, NilIface, fi), err), false
	}
	def("os.Stat", stat)
	def("os.Lstat", stat)
	// what an error of the world is: decided per error
	is := func(what string) func(a []V) (V, bool) {
		return func(a []V) (V, bool) {
			e := m.Simplify(a[0])
			k := what + "|" + m.valKey(e)
			n, ok := m.strEq[k]
			if !ok {
				n = m.B.NewVar(what)
				m.strEq[k] = n
			}
			return BoolN(m.B.And(n, m.B.Not(m.NilCond(e)))), false
		}
	}
	// no system call that looks at a file reports that it exists
	def("os.IsExist", func(a []V) (V, bool) {
		e := m.Simplify(a[0])
		all := true
		for _, o := range w.Log {
			if o.Kind != "stat" && o.Kind != "open" && w.sameErr(e, o.Err) {
				all = false
			}
		}
		if all {
			return Bool(false), false
		}
		return is("IsExist")(a)
	})
	def("os.IsNotExist", is("IsNotExist"))
	def("os.IsPermission", is("IsPermission"))

	// files
	badFd := func() V { return w.sentinel("ErrInvalid") }
	meth := func(n string, f func(f *WFile, a []V) (V, bool), null func() V) {
		def("(*os.File)."+n, func(a []V) (V, bool) { return w.file(a[0], a[1:], f, null) })
	}
	n0 := func() V { return Tuple(Int(0), badFd()) }
	meth("Write", func(f *WFile, a []V) (V, bool) { return w.write(f, w.bytesStr(a[0])) }, n0)
	meth("WriteString", func(f *WFile, a []V) (V, bool) { return w.write(f, m.Simplify(a[0])) }, n0)
	meth("Close", func(f *WFile, a []V) (V, bool) {
		o := w.op("close")
		o.File = f
		c := f.obj.Cells[fClosed].Node()
		m.setCell(f.obj, fClosed, Bool(true))
		if m.B.And(m.PC, c) != bdd.False {
			w.failIf(o, c, w.sentinel("ErrClosed"))
			if m.B.And(m.PC, m.B.Not(c)) == bdd.False {
				return o.Err, false
			}
		}
		return w.mayFail(o), false
	}, badFd)
	for _, n := range []string{"Sync", "Truncate", "Chmod", "SetDeadline", "SetWriteDeadline"} {
		k := strings.ToLower(n)
		meth(n, func(f *WFile, a []V) (V, bool) {
			o := w.op(k)
			o.File, o.Args = f, a
			return w.mayFail(o), false
		}, badFd)
	}
	meth("Seek", func(f *WFile, a []V) (V, bool) {
		o := w.op("seek")
		o.File, o.Args = f, a
		if m.Simplify(a[0]).K == KInt && m.Simplify(a[0]).N == 0 && m.Simplify(a[1]).K == KInt && m.Simplify(a[1]).N == 0 {
			m.setCell(f.obj, fPos, Int(0))
		} else {
			m.Undecided("seeking in a file")
		}
		return Tuple(MkInt(0, 64, true), w.mayFail(o)), false
	}, n0)
	meth("Name", func(f *WFile, a []V) (V, bool) { return f.Name, false }, func() V { return MkStr("") })
	meth("Fd", func(f *WFile, a []V) (V, bool) { return m.OpaqueOf(types.Typ[types.Uintptr], "fd"), false }, func() V { return MkInt(-1, 64, false) })
	meth("Stat", func(f *WFile, a []V) (V, bool) { return stat([]V{f.Name}) }, func() V { return Tuple(NilIface, badFd()) })
	meth("Read", func(f *WFile, a []V) (V, bool) { return w.read(f, a[0]) }, n0)
	meth("ReadFrom", func(f *WFile, a []V) (V, bool) {
		// io.Copy into a file: the bytes of the reader
		if io := m.pkgFunc("io", "ReadAll"); true {
			r, dead := m.Call(io, a[0])
			if dead {
				return r, dead
			}
			return w.write(f, w.bytesStr(r.X.([]V)[0]))
		}
		return V{}, true
	}, n0)

	// encoders and decoders
	def("image/png.Encode", func(a []V) (V, bool) { return w.encode("png", a[0], a[1], V{}) })
	def("(*image/png.Encoder).Encode", func(a []V) (V, bool) { return w.encode("png", a[1], a[2], a[0]) })
	def("image/jpeg.Encode", func(a []V) (V, bool) { return w.encode("jpeg", a[0], a[1], a[2]) })
	def("image/gif.Encode", func(a []V) (V, bool) { return w.encode("gif", a[0], a[1], a[2]) })
	def("image/png.Decode", func(a []V) (V, bool) { return w.decode("png", a[0]) })
	def("image/jpeg.Decode", func(a []V) (V, bool) { return w.decode("jpeg", a[0]) })
	def("image.Decode", func(a []V) (V, bool) {
		r, dead := w.decode("any", a[0])
		if dead {
			return r, dead
		}
		t := r.X.([]V)
		return Tuple(t[0], MkStr("png"), t[1]), false
	})

	// text to the standard streams and to writers
	stdout := func(ln bool) func(a []V) (V, bool) {
		return func(a []V) (V, bool) {
			o := w.op("print")
			o.Args = a
			return Tuple(Int(0), NilIface), false
		}
	}
	for _, n := range []string{"Print", "Println", "Printf"} {
		def("fmt."+n, stdout(n == "Println"))
	}
	fpr := func(name string) {
		old := intrinsics["fmt."+name]
		m.Intr["fmt."+name] = func(m *M, fn *ssa.Function, a []V) (V, bool) {
			wr := m.Simplify(a[0])
			if wr.K == KIface && wr.X != nil && wr.X.(*IfaceV).Host != nil {
				return old(m, fn, a)
			}
			if wr.K == KIface && wr.X == nil {
				m.Panic("nil writer")
				return V{}, true
			}
			// reuse the formatting by writing to a collecting host
			col := &collector{}
			b := append([]V(nil), a...)
			b[0] = V{K: KIface, X: &IfaceV{Host: col}}
			if r, dead := old(m, fn, b); dead {
				return r, dead
			}
			return m.Invoke(wr, m.ifaceMethod("io", "Writer", "Write"), []V{col.data})
		}
	}
	fpr("Fprint")
	fpr("Fprintln")
	fpr("Fprintf")
	exit := func(code V) (V, bool) {
		o := w.op("exit")
		o.Data = code
		m.Event("exit", code)
		m.PC = bdd.False
		return V{}, true
	}
	def("os.Exit", func(a []V) (V, bool) {
		if c := m.Simplify(a[0]); c.K == KInt {
			return exit(c)
		}
		al := m.Feasible(a[0], 16)
		if al == nil {
			return exit(a[0])
		}
		return m.guarded(al, exit)
	})
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		h := func(a []V) (V, bool) {
			o := w.op("exit")
			o.Data = Int(1)
			m.Event("exit", Int(1))
			m.PC = bdd.False
			return V{}, true
		}
		def("log."+n, h)
		def("(*log.Logger)."+n, h)
	}

	// the terminal
	const tb = "github.com/nsf/termbox-go."
	ev := func(n string, fail bool) {
		def(tb+n, func(a []V) (V, bool) {
			o := w.op("termbox." + n)
			o.Args = a
			if fail {
				return w.mayFail(o), false
			}
			return V{}, false
		})
	}
	ev("Init", true)
	ev("Flush", true)
	ev("Sync", true)
	ev("Close", false)
	ev("HideCursor", false)
	ev("SetCursor", false)
	def(tb+"SetInputMode", func(a []V) (V, bool) { w.op("termbox.SetInputMode").Args = a; return a[0], false })
	def(tb+"SetOutputMode", func(a []V) (V, bool) { w.op("termbox.SetOutputMode").Args = a; return a[0], false })
	def(tb+"Size", func(a []V) (V, bool) { return Tuple(Int(200), Int(200)), false })
	for _, n := range []string{"github.com/mattn/go-runewidth.RuneWidth", "(*github.com/mattn/go-runewidth.Condition).RuneWidth"} {
		def(n, func(a []V) (V, bool) {
			r := m.Simplify(a[len(a)-1])
			if r.K == KInt && r.N >= 0x20 && r.N < 0x7f {
				return Int(1), false
			}
			if r.K == KInt && (r.N < 0x20 || r.N == 0x7f) {
				return Int(0), false
			}
			return m.OpaqueOf(types.Typ[types.Int], "width"), false
		})
	}
	set := func(x, y V, ch, fg, bg V) (V, bool) {
		x, y = m.Simplify(x), m.Simplify(y)
		if y.K == KInt && x.K != KInt {
			// somewhere in the line
			w.op("termbox.SetCell").Args = []V{x, y}
			w.Term.Loose = append(w.Term.Loose, int(y.N))
			return V{}, false
		}
		if x.K != KInt || y.K != KInt {
			m.Undecided("terminal cell (%v,%v)", x, y)
		}
		o := w.op("termbox.SetCell")
		o.Args = []V{x, y}
		k := [2]int{int(x.N), int(y.N)}
		old, ok := w.Term.Cells[k]
		if !ok {
			w.Term.Order = append(w.Term.Order, k)
			old = [3]V{MkInt(' ', 32, true), MkInt(0, 64, false), MkInt(0, 64, false)}
			if t := m.namedType("github.com/nsf/termbox-go", "Attribute"); t != nil {
				z := m.Zero(t)
				old[1], old[2] = z, z
			}
		}
		nv := [3]V{ch, fg, bg}
		for i := range nv {
			if nv[i].K == KUndef {
				nv[i] = old[i]
			}
			nv[i] = m.Merge(m.PC, nv[i], old[i])
		}
		w.Term.Cells[k] = nv
		return V{}, false
	}
	def(tb+"SetCell", func(a []V) (V, bool) { return set(a[0], a[1], a[2], a[3], a[4]) })
	def(tb+"SetChar", func(a []V) (V, bool) { return set(a[0], a[1], a[2], V{}, V{}) })
	def(tb+"SetFg", func(a []V) (V, bool) { return set(a[0], a[1], V{}, a[2], V{}) })
	def(tb+"SetBg", func(a []V) (V, bool) { return set(a[0], a[1], V{}, V{}, a[2]) })
	def(tb+"Clear", func(a []V) (V, bool) {
		o := w.op("termbox.Clear")
		o.Args = a
		for k, c := range w.Term.Cells {
			nv := [3]V{MkInt(' ', 32, true), a[0], a[1]}
			for i := range nv {
				nv[i] = m.Merge(m.PC, nv[i], c[i])
			}
			w.Term.Cells[k] = nv
		}
		return w.mayFail(o), false
	})
	poll := func(a []V) (V, bool) {
		// a resize, then the mouse, then a key
		w.Term.polls++
		o := w.op("termbox.PollEvent")
		t := m.namedType("github.com/nsf/termbox-go", "Event")
		kinds := []string{"EventResize", "EventMouse", "EventKey"}
		k := w.Term.polls - 1
		if k >= len(kinds) {
			k = len(kinds) - 1
		}
		c := m.P.EnsureBuilt("github.com/nsf/termbox-go").Const(kinds[k])
		o.Fmt = kinds[k]
		ev := m.Zero(t)
		fs := ev.X.([]V)
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Type" {
				fs[i] = constV(c.Value)
			}
		}
		return ev, false
	}
	def(tb+"PollEvent", poll)
}

// os open flags on linux
const (
	oRDONLY = 0
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

func (w *World) sameErr(a, b V) bool {
	alts := func(v V) []V {
		if v.K == KChoice {
			var o []V
			for _, x := range v.X.([]Alt) {
				o = append(o, x.V)
			}
			return o
		}
		return []V{v}
	}
	for _, x := range alts(a) {
		for _, y := range alts(b) {
			if x.K == KIface && x.X != nil && Ident(x, y) {
				return true
			}
		}
	}
	return false
}

type collector struct{ data V }

func (c *collector) CallMethod(m *M, name string, a []V) (V, bool) {
	c.data = a[0]
	return Tuple(m.lenOf(a[0], false), NilIface), false
}
func (c *collector) Implements(m *M, i *types.Interface) bool { return true }

// read fills a buffer from a file.
func (w *World) read(f *WFile, p V) (V, bool) {
	m := w.M
	name, ok := concStr(f.Name)
	if !ok {
		m.Undecided("reading the file %v", f.Name)
	}
	p = m.Simplify(p)
	if p.K != KSlice || p.X == nil {
		return Tuple(Int(0), NilIface), false
	}
	s := p.X.(*SliceV)
	pos := m.Simplify(f.obj.Cells[fPos])
	if pos.K != KInt {
		m.Undecided("the position in a file is not determined")
	}
	c := w.Content(name)
	if pos.N >= int64(len(c)) {
		eof, _ := m.Global("io", "EOF")
		return Tuple(Int(0), eof), false
	}
	n := 0
	for ; n < s.Len && int(pos.N)+n < len(c); n++ {
		m.write(s.Obj, s.Off+n, c[int(pos.N)+n])
	}
	m.setCell(f.obj, fPos, Int(pos.N+int64(n)))
	return Tuple(Int(int64(n)), NilIface), false
}

// decode reads everything and finds the file whose content it is.
func (w *World) decode(format string, r V) (V, bool) {
	m := w.M
	v, dead := m.Call(m.pkgFunc("io", "ReadAll"), r)
	if dead {
		return v, dead
	}
	o := w.op("decode")
	o.Fmt = format
	bs := w.bytesStr(v.X.([]V)[0])
	if bs.K != KStr {
		m.Undecided("decoding %v", bs)
	}
	st := bs.X.(*Str)
	var name string
	found := false
	for n, c := range w.content {
		if len(c) != st.Len() {
			continue
		}
		same := true
		for i := range c {
			if !Ident(c[i], st.At(i)) {
				same = false
				break
			}
		}
		if same {
			name, found = n, true
		}
	}
	if !found {
		w.failIf(o, bdd.True)
		return Tuple(NilIface, o.Err), false
	}
	o.Name = MkStr(name)
	err := w.mayFail(o)
	var pic V
	if w.Picture != nil {
		if p, ok := w.Picture(name); ok {
			pic = p
		}
	}
	if pic.K == KUndef {
		m.Undecided("no picture is known for %q", name)
	}
	return Tuple(m.Merge(o.Fail, NilIface, pic), err), false
}

// TOp is one operation of a trace.
type TOp struct {
	*WOp
	Failed bool
}

// Traces lists the sequences of operations that are possible under pc, with
// the condition of each.
func (w *World) Traces(pc bdd.Node, max int, f func(c bdd.Node, ops []TOp)) {
	m := w.M
	n := 0
	var rec func(i int, c bdd.Node, ops []TOp)
	rec = func(i int, c bdd.Node, ops []TOp) {
		for ; i < len(w.Log); i++ {
			o := w.Log[i]
			in := m.B.And(c, o.Cond)
			if in == bdd.False {
				continue
			}
			if in != c {
				rec(i+1, m.B.And(c, m.B.Not(o.Cond)), append([]TOp(nil), ops...))
				c = in
			}
			fl := m.B.And(c, o.Fail)
			if fl == bdd.False {
				ops = append(ops, TOp{o, false})
				continue
			}
			if fl == c {
				ops = append(ops, TOp{o, true})
				continue
			}
			rec(i+1, fl, append(append([]TOp(nil), ops...), TOp{o, true}))
			c = m.B.And(c, m.B.Not(o.Fail))
			ops = append(ops, TOp{o, false})
		}
		n++
		if n > max {
			m.Undecided("more than %d sequences of operations", max)
		}
		save := m.PC
		m.PC = m.B.And(save, c)
		f(c, ops)
		m.PC = save
	}
	rec(0, pc, nil)
}

// TextOf is the written data of a trace's operation as bytes.
func (w *World) TextOf(v V) ([]V, bool) {
	v = w.M.Simplify(v)
	if v.K != KStr {
		return nil, false
	}
	s := v.X.(*Str)
	out := make([]V, s.Len())
	for i := range out {
		out[i] = s.At(i)
	}
	return out, true
}

// ConcStr is the value of a constant string.
func ConcStr(v V) (string, bool) { return concStr(v) }

// EncodeAs is an encoder of the caller: it behaves like the built-in ones.
func (w *World) EncodeAs(format string, wr, img V) (V, bool) { return w.encode(format, wr, img, V{}) }

// ConstInt is an integer constant of a loaded package.
func (p *Program) ConstInt(pkg, name string) int64 {
	sp := p.EnsureBuilt(pkg)
	if sp == nil || sp.Const(name) == nil {
		panic(Undecided{fmt.Sprintf("constant %s.%s is not loaded", pkg, name), ""})
	}
	return constV(sp.Const(name).Value).N
}
