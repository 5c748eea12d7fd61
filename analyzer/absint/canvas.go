package absint

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"verif/analyzer/bdd"

	"golang.org/x/tools/go/ssa"
)

// The drawing library (github.com/fogleman/gg, outside the repository) is
// modelled by its meaning: a path, a colour and an image.RGBA. A fill gives
// the colour to the pixels whose centre lies inside the path (antialiasing of
// the border is not modelled); colours are symbolic values, every operation
// holds under the path condition at which it is reached.

type pathOp struct {
	c    bdd.Node
	kind byte // m l q c z(close) n(new subpath) e(ellipse)
	p    [6]float64
}

type canvas struct {
	ptr     V    // *image.RGBA
	st      *Obj // colour: r g b a
	w, h    int
	path    []pathOp
	evenOdd bool
	fills   int
	stack   [][4]V
}

func (m *M) pkgFunc(path, name string) V {
	sp := m.P.EnsureBuilt(path)
	if sp == nil || sp.Func(name) == nil {
		m.Undecided("%s.%s is not loaded", path, name)
	}
	return V{K: KFunc, X: &FuncV{Fn: sp.Func(name)}}
}

func (m *M) canvasOf(p V) *canvas {
	p = m.Simplify(p)
	if p.K == KPtr {
		if p.X == nil {
			m.Panic("nil drawing context")
			return nil
		}
		if c, ok := m.canvases[p.X.(*Obj)]; ok {
			return c
		}
	}
	m.Undecided("drawing on %v", p)
	return nil
}

func (m *M) newCanvas(img V, w, h int, t types.Type) V {
	o := m.AllocType(deref(t), "gg.Context")
	st := m.NewObj(types.NewArray(types.Typ[types.Uint8], 4), 4, "gg.Context colour")
	for i := range st.Cells {
		st.Cells[i] = MkInt(0, 8, false)
	}
	st.Cells[3] = MkInt(255, 8, false)
	if m.canvases == nil {
		m.canvases = map[*Obj]*canvas{}
	}
	m.canvases[o] = &canvas{ptr: img, st: st, w: w, h: h}
	return V{K: KPtr, X: o}
}

// rgbaParts are the pixel cells, stride and rectangle of a concrete *image.RGBA.
func (m *M) rgbaParts(p V) (pix *SliceV, stride int, r [4]int, ok bool) {
	p = m.Simplify(p)
	if p.K != KPtr || p.X == nil {
		return
	}
	o := p.X.(*Obj)
	k := int(p.N)
	if len(o.Cells) < k+6 {
		return
	}
	s := m.Simplify(o.Cells[k])
	if s.K != KSlice || s.X == nil {
		return nil, 0, r, false
	}
	for i := 0; i < 5; i++ {
		if o.Cells[k+1+i].K != KInt {
			return
		}
	}
	stride = int(o.Cells[k+1].N)
	for i := range r {
		r[i] = int(o.Cells[k+2+i].N)
	}
	return s.X.(*SliceV), stride, r, true
}

// ColorBytes are the four bytes of a color.Color value.
func (m *M) ColorBytes(c V) (out [4]V, ok bool) {
	c = m.Simplify(c)
	switch c.K {
	case KChoice:
		first := true
		for _, a := range c.X.([]Alt) {
			if m.B.And(m.PC, a.C) == bdd.False {
				continue
			}
			save := m.PC
			m.PC = m.B.And(m.PC, a.C)
			b, o := m.ColorBytes(a.V)
			m.PC = save
			if !o {
				return out, false
			}
			for i := range b {
				if first {
					out[i] = b[i]
				} else {
					out[i] = m.Merge(a.C, b[i], out[i])
				}
			}
			first = false
		}
		return out, !first
	case KStruct:
		fs := c.X.([]V)
		if len(fs) == 4 {
			copy(out[:], fs)
			return out, true
		}
	case KIface:
		if c.X == nil {
			m.Panic("nil color")
			return out, false
		}
		i := c.X.(*IfaceV)
		if i.Host == nil && i.T.String() == "image/color.RGBA" {
			return m.ColorBytes(i.V)
		}
		if i.Host == nil {
			fn := m.Prog.LookupMethod(i.T, nil, "RGBA")
			if fn != nil {
				r, dead := m.callFn(&FuncV{Fn: fn}, []V{i.V})
				if dead {
					return out, false
				}
				for k := range out {
					x := r.X.([]V)[k]
					if x.K != KInt && x.K != KBV {
						m.Undecided("colour component %v", x)
					}
					bs := m.Bits(x)
					out[k] = m.FromBits(bs[8:16], false)
				}
				return out, true
			}
		}
	case KOpaque:
		o := c.X.(*Opaque)
		for k := range out {
			out[k] = m.opqByte(fmt.Sprintf("color %d", o.ID), k)
		}
		out[3] = MkInt(255, 8, false)
		return out, true
	}
	m.Undecided("colour %v", c)
	return out, false
}

func (m *M) opqByte(key string, k int) V {
	kk := fmt.Sprintf("%s.%d", key, k)
	if m.opqBytes == nil {
		m.opqBytes = map[string]V{}
	}
	if v, ok := m.opqBytes[kk]; ok {
		return v
	}
	bs := make([]bdd.Node, 8)
	for i := range bs {
		bs[i] = m.B.NewVar(fmt.Sprintf("%s.%d", kk, i))
	}
	v := m.FromBits(bs, false)
	m.opqBytes[kk] = v
	return v
}

// over blends src over dst.
func (m *M) over(src, dst [4]V) [4]V {
	if src[3].K == KInt {
		switch src[3].N {
		case 255:
			return src
		case 0:
			// nothing is covered; the colour bytes, if any, are added
			var out [4]V
			out[3] = dst[3]
			for i := range src[:3] {
				switch {
				case src[i].K == KInt && src[i].N == 0:
					out[i] = dst[i]
				case dst[i].K == KInt && dst[i].N == 0:
					out[i] = src[i]
				default:
					out[i] = m.opqByte("add|"+m.valKey(src[i])+"|"+m.valKey(dst[i]), i)
				}
			}
			return out
		}
	} else {
		// alpha is 0 or 255 by a condition
		full, none := m.Eq(src[3], MkInt(255, 8, false)), m.Eq(src[3], MkInt(0, 8, false))
		if m.B.And(m.PC, m.B.Not(m.B.Or(full, none))) == bdd.False {
			var out [4]V
			out[3] = m.Merge(full, src[3], dst[3])
			for i, x := range src[:3] {
				// the colour bytes of uncovered pixels, if any, are added
				add := dst[i]
				if m.B.And(m.B.And(m.PC, none), m.B.Not(m.Eq(x, MkInt(0, 8, false)))) != bdd.False {
					add = m.opqByte("add|"+m.valKey(x)+"|"+m.valKey(dst[i]), i)
				}
				out[i] = m.Merge(full, x, add)
			}
			return out
		}
	}
	conc := true
	split := bdd.True
	for _, l := range [2]*[4]V{&src, &dst} {
		for i := range l {
			if l[i].K == KInt {
				continue
			}
			conc = false
			for _, b := range m.Bits(l[i]) {
				if b != bdd.True && b != bdd.False && split == bdd.True {
					split = b
				}
			}
		}
	}
	// few cases: compute each
	if !conc && split != bdd.True && m.overSplit < 3 {
		save := m.PC
		part := func(c bdd.Node) ([4]V, bool) {
			m.PC = m.B.And(save, c)
			defer func() { m.PC = save }()
			if m.PC == bdd.False {
				return [4]V{}, false
			}
			m.overSplit++
			defer func() { m.overSplit-- }()
			return m.over(m.narrow(src), m.narrow(dst)), true
		}
		a, okA := part(split)
		b, okB := part(m.B.Not(split))
		if okA && okB {
			var out [4]V
			for i := range out {
				out[i] = m.Merge(split, a[i], b[i])
			}
			return out
		}
		if okA {
			return a
		}
		if okB {
			return b
		}
	}
	var out [4]V
	if conc {
		a := (255 - src[3].N) * 0x101
		for i := range out {
			n := (dst[i].N*0x101*a/0xffff + src[i].N*0x101) >> 8
			if n > 255 {
				n = 255
			}
			out[i] = MkInt(n, 8, false)
		}
		return out
	}
	k := "over"
	for i := range src {
		k += "|" + m.valKey(src[i]) + "|" + m.valKey(dst[i])
	}
	for i := range out {
		out[i] = m.opqByte(k, i)
	}
	return out
}

// narrow drops from a colour what the path condition decides.
func (m *M) narrow(c [4]V) [4]V {
	for i := range c {
		if c[i].K == KInt {
			continue
		}
		bs := append([]bdd.Node(nil), m.Bits(c[i])...)
		for k, b := range bs {
			switch {
			case m.B.And(m.PC, b) == bdd.False:
				bs[k] = bdd.False
			case m.B.And(m.PC, m.B.Not(b)) == bdd.False:
				bs[k] = bdd.True
			}
		}
		c[i] = m.FromBits(bs, c[i].S)
	}
	return c
}

// paint gives the colour to one pixel of an RGBA image under c.
func (m *M) paint(pix *SliceV, at int, c bdd.Node, col [4]V) {
	var old [4]V
	for i := range old {
		old[i] = pix.Obj.Cells[pix.Off+at+i]
	}
	nw := m.over(col, old)
	for i := range nw {
		v := nw[i]
		if c != m.PC {
			v = m.Merge(c, v, old[i])
		}
		if !Ident(v, old[i]) {
			m.write(pix.Obj, pix.Off+at+i, v)
		}
	}
}

type fpt struct{ x, y float64 }

func flatten(ops []pathOp) (polys [][]fpt, ells [][4]float64) {
	var cur []fpt
	end := func() {
		if len(cur) > 2 {
			polys = append(polys, cur)
		}
		cur = nil
	}
	for _, o := range ops {
		var p0 fpt
		if len(cur) > 0 {
			p0 = cur[len(cur)-1]
		}
		switch o.kind {
		case 'm':
			end()
			cur = []fpt{{o.p[0], o.p[1]}}
		case 'l':
			cur = append(cur, fpt{o.p[0], o.p[1]})
		case 'q':
			if len(cur) == 0 {
				p0 = fpt{o.p[0], o.p[1]}
				cur = []fpt{p0}
			}
			const n = 32
			for i := 1; i <= n; i++ {
				t := float64(i) / n
				cur = append(cur, fpt{(1-t)*(1-t)*p0.x + 2*t*(1-t)*o.p[0] + t*t*o.p[2], (1-t)*(1-t)*p0.y + 2*t*(1-t)*o.p[1] + t*t*o.p[3]})
			}
		case 'c':
			if len(cur) == 0 {
				p0 = fpt{o.p[0], o.p[1]}
				cur = []fpt{p0}
			}
			const n = 32
			for i := 1; i <= n; i++ {
				t := float64(i) / n
				u := 1 - t
				cur = append(cur, fpt{u*u*u*p0.x + 3*u*u*t*o.p[0] + 3*u*t*t*o.p[2] + t*t*t*o.p[4], u*u*u*p0.y + 3*u*u*t*o.p[1] + 3*u*t*t*o.p[3] + t*t*t*o.p[5]})
			}
		case 'z':
			if len(cur) > 0 {
				s := cur[0]
				end()
				cur = []fpt{s}
			}
		case 'n':
			end()
		case 'e':
			end()
			ells = append(ells, [4]float64{o.p[0], o.p[1], o.p[2], o.p[3]})
		}
	}
	end()
	return
}

// inside lists the pixels whose centre is inside the path.
func inside(ops []pathOp, w, h int, evenOdd bool) [][2]int {
	polys, ells := flatten(ops)
	x0, y0, x1, y1 := math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	ext := func(x, y float64) {
		x0, y0, x1, y1 = math.Min(x0, x), math.Min(y0, y), math.Max(x1, x), math.Max(y1, y)
	}
	for _, p := range polys {
		for _, q := range p {
			ext(q.x, q.y)
		}
	}
	for _, e := range ells {
		ext(e[0]-e[2], e[1]-e[3])
		ext(e[0]+e[2], e[1]+e[3])
	}
	if !(x0 <= x1) {
		return nil
	}
	cl := func(v float64, lim int) int {
		return int(math.Max(0, math.Min(float64(lim), v)))
	}
	ix0, iy0, ix1, iy1 := cl(math.Floor(x0), w), cl(math.Floor(y0), h), cl(math.Ceil(x1)+1, w), cl(math.Ceil(y1)+1, h)
	var out [][2]int
	for py := iy0; py < iy1; py++ {
		for px := ix0; px < ix1; px++ {
			cx, cy := float64(px)+0.5, float64(py)+0.5
			n := 0
			for _, p := range polys {
				for i := range p {
					a, b := p[i], p[(i+1)%len(p)]
					if (a.y <= cy) != (b.y <= cy) {
						x := a.x + (cy-a.y)/(b.y-a.y)*(b.x-a.x)
						if x <= cx {
							if a.y < b.y {
								n--
							} else {
								n++
							}
						}
					}
				}
			}
			for _, e := range ells {
				if e[2] > 0 && e[3] > 0 {
					dx, dy := (cx-e[0])/e[2], (cy-e[1])/e[3]
					if dx*dx+dy*dy <= 1 {
						n++
					}
				}
			}
			if n != 0 && (!evenOdd || n%2 != 0) {
				out = append(out, [2]int{px, py})
			}
		}
	}
	return out
}

// fillPath paints the path under the path condition and clears it there.
func (m *M) fillPath(cv *canvas, keep bool) {
	pix, stride, r, ok := m.rgbaParts(cv.ptr)
	if !ok {
		m.Undecided("drawing on an unknown image")
	}
	var col [4]V
	copy(col[:], cv.st.Cells)
	for i := range col {
		col[i] = m.Simplify(col[i])
	}
	var rec func(f bdd.Node, ops []pathOp, k int)
	rec = func(f bdd.Node, ops []pathOp, k int) {
		if f == bdd.False {
			return
		}
		var sel []pathOp
		for ; k < len(cv.path); k++ {
			o := cv.path[k]
			in := m.B.And(f, o.c)
			if in == bdd.False {
				continue
			}
			if in == f {
				ops = append(ops[:len(ops):len(ops)], o)
				continue
			}
			m.canvasSplits++
			if m.canvasSplits > 200_000 {
				m.Undecided("too many alternative paths are drawn")
			}
			rec(in, append(ops[:len(ops):len(ops)], o), k+1)
			rec(m.B.And(f, m.B.Not(o.c)), ops, k+1)
			return
		}
		sel = ops
		if len(sel) == 0 {
			return
		}
		// gg works on closed regions of the whole path
		for _, p := range inside(sel, r[2]-r[0], r[3]-r[1], cv.evenOdd) {
			m.paint(pix, p[1]*stride+p[0]*4, f, col)
		}
	}
	cv.fills++
	rec(m.PC, nil, 0)
	if !keep {
		var rest []pathOp
		for _, o := range cv.path {
			if o.c = m.B.And(o.c, m.B.Not(m.PC)); o.c != bdd.False {
				rest = append(rest, o)
			}
		}
		cv.path = rest
	}
}

// addOp appends path operations for every alternative of the coordinates.
func (m *M) addOp(cv *canvas, kind byte, xs ...V) {
	var rec func(i int, c bdd.Node, p [6]float64)
	rec = func(i int, c bdd.Node, p [6]float64) {
		if c == bdd.False {
			return
		}
		if i == len(xs) {
			cv.path = append(cv.path, pathOp{c, kind, p})
			return
		}
		v := m.Simplify(xs[i])
		switch v.K {
		case KFloat:
			p[i] = v.Float()
			rec(i+1, c, p)
		case KInt:
			p[i] = float64(v.N)
			rec(i+1, c, p)
		case KChoice:
			for _, a := range v.X.([]Alt) {
				if a.V.K != KFloat {
					m.Undecided("coordinate %v", a.V)
				}
				p[i] = a.V.Float()
				rec(i+1, m.B.And(c, a.C), p)
			}
		default:
			m.Undecided("coordinate %v", v)
		}
	}
	rec(0, m.PC, [6]float64{})
}

// pixelAt reads one pixel through the image.Image interface.
func (m *M) pixelAt(img V, x, y int) ([4]V, bool) {
	img = m.Simplify(img)
	if img.K == KIface && img.X != nil {
		i := img.X.(*IfaceV)
		if i.Host == nil && i.T.String() == "*image.RGBA" {
			pix, stride, r, ok := m.rgbaParts(i.V)
			if ok && x >= r[0] && x < r[2] && y >= r[1] && y < r[3] {
				var out [4]V
				at := (y-r[1])*stride + (x-r[0])*4
				for k := range out {
					out[k] = m.Simplify(pix.Obj.Cells[pix.Off+at+k])
				}
				return out, true
			}
		}
		if i.Host == nil && i.V.K != KOpaque {
			fn := m.Prog.LookupMethod(i.T, nil, "At")
			if fn == nil {
				m.Undecided("image %s", i.T)
			}
			c, dead := m.callFn(&FuncV{Fn: fn}, []V{i.V, Int(int64(x)), Int(int64(y))})
			if dead {
				return [4]V{}, false
			}
			return m.ColorBytes(c)
		}
		if i.Host != nil {
			c, dead := i.Host.CallMethod(m, "At", []V{Int(int64(x)), Int(int64(y))})
			if dead {
				return [4]V{}, false
			}
			return m.ColorBytes(c)
		}
	}
	m.Undecided("pixels of %v", img)
	return [4]V{}, false
}

// ImageBounds are the bounds of an image: min x, min y, max x, max y.
func (m *M) ImageBounds(img V) ([4]int, bool) {
	img = m.Simplify(img)
	var out [4]int
	if img.K != KIface || img.X == nil {
		m.Undecided("bounds of %v", img)
	}
	i := img.X.(*IfaceV)
	var r V
	var dead bool
	if i.Host != nil {
		r, dead = i.Host.CallMethod(m, "Bounds", nil)
	} else {
		fn := m.Prog.LookupMethod(i.T, nil, "Bounds")
		if fn == nil || i.V.K == KOpaque {
			m.Undecided("bounds of %s", i.T)
		}
		r, dead = m.callFn(&FuncV{Fn: fn}, []V{i.V})
	}
	if dead {
		return out, false
	}
	k := 0
	var walk func(v V)
	walk = func(v V) {
		v = m.Simplify(v)
		if v.K == KStruct {
			for _, x := range v.X.([]V) {
				walk(x)
			}
			return
		}
		if v.K != KInt {
			m.Undecided("bounds %v", v)
		}
		if k < 4 {
			out[k] = int(v.N)
		}
		k++
	}
	walk(r)
	return out, k == 4
}

// Pixels reads a whole image: [y][x] from its upper left corner.
func (m *M) Pixels(img V) (b [4]int, px [][][4]V, ok bool) {
	b, ok = m.ImageBounds(img)
	if !ok {
		return
	}
	for y := b[1]; y < b[3]; y++ {
		row := make([][4]V, 0, b[2]-b[0])
		for x := b[0]; x < b[2]; x++ {
			p, k := m.pixelAt(img, x, y)
			if !k {
				return b, nil, false
			}
			row = append(row, p)
		}
		px = append(px, row)
	}
	return b, px, true
}

// drawOnto paints an image at an offset of an *image.RGBA.
func (m *M) drawOnto(dst V, img V, dx, dy int, over bool, clip [4]int) bool {
	pix, stride, r, ok := m.rgbaParts(dst)
	if !ok {
		m.Undecided("drawing on an unknown image")
	}
	b, ok := m.ImageBounds(img)
	if !ok {
		return false
	}
	for y := max(b[1]+dy, r[1], clip[1]); y < min(b[3]+dy, r[3], clip[3]); y++ {
		for x := max(b[0]+dx, r[0], clip[0]); x < min(b[2]+dx, r[2], clip[2]); x++ {
			p, k := m.pixelAt(img, x-dx, y-dy)
			if !k {
				return false
			}
			at := (y-r[1])*stride + (x-r[0])*4
			if over {
				m.paint(pix, at, m.PC, p)
				continue
			}
			for i := range p {
				m.write(pix.Obj, pix.Off+at+i, p[i])
			}
		}
	}
	return true
}

func rectOf(m *M, v V) [4]int {
	var out [4]int
	k := 0
	var walk func(v V)
	walk = func(v V) {
		v = m.Simplify(v)
		if v.K == KStruct {
			for _, x := range v.X.([]V) {
				walk(x)
			}
			return
		}
		if v.K != KInt {
			m.Undecided("rectangle %v", v)
		}
		if k < 4 {
			out[k] = int(v.N)
		}
		k++
	}
	walk(v)
	return out
}

// ggMethod is a method of gg.Context.
func ggMethod(m *M, fn *ssa.Function, a []V) (V, bool) {
	name := fn.Name()
	m.Event("call:"+fnKey(fn), a...)
	cv := m.canvasOf(a[0])
	if cv == nil {
		return V{}, true
	}
	a = a[1:]
	setCol := func(c [4]V) {
		for i := range c {
			m.write(cv.st, i, c[i])
		}
	}
	f8 := func(v V) V {
		if v.K == KFloat {
			return MkInt(int64(v.Float()*255), 8, false)
		}
		m.Undecided("colour component %v", v)
		return V{}
	}
	i8 := func(v V) V {
		if v.K == KInt || v.K == KBV {
			return m.FromBits(m.Bits(v)[:8], false)
		}
		m.Undecided("colour component %v", v)
		return V{}
	}
	full := MkInt(255, 8, false)
	add := func(v, d V) V { return m.BinOp(tokADD, v, d, types.Typ[types.Float64]) }
	switch name {
	case "Image":
		return V{K: KIface, X: &IfaceV{T: types.NewPointer(m.namedType("image", "RGBA")), V: cv.ptr}}, false
	case "Width":
		return Int(int64(cv.w)), false
	case "Height":
		return Int(int64(cv.h)), false
	case "SetColor":
		c, ok := m.ColorBytes(a[0])
		if !ok {
			return V{}, true
		}
		setCol(c)
	case "SetRGB255":
		setCol([4]V{i8(a[0]), i8(a[1]), i8(a[2]), full})
	case "SetRGB":
		setCol([4]V{f8(a[0]), f8(a[1]), f8(a[2]), full})
	case "MoveTo":
		m.addOp(cv, 'm', a...)
	case "LineTo":
		m.addOp(cv, 'l', a...)
	case "QuadraticTo":
		m.addOp(cv, 'q', a...)
	case "CubicTo":
		m.addOp(cv, 'c', a...)
	case "ClosePath":
		m.addOp(cv, 'z')
	case "NewSubPath":
		m.addOp(cv, 'n')
	case "ClearPath":
		var rest []pathOp
		for _, o := range cv.path {
			if o.c = m.B.And(o.c, m.B.Not(m.PC)); o.c != bdd.False {
				rest = append(rest, o)
			}
		}
		cv.path = rest
	case "DrawRectangle":
		x, y := a[0], a[1]
		x2, y2 := add(a[0], a[2]), add(a[1], a[3])
		m.addOp(cv, 'n')
		m.addOp(cv, 'm', x, y)
		m.addOp(cv, 'l', x2, y)
		m.addOp(cv, 'l', x2, y2)
		m.addOp(cv, 'l', x, y2)
		m.addOp(cv, 'z')
	case "DrawCircle":
		m.addOp(cv, 'e', a[0], a[1], a[2], a[2])
	case "DrawPoint":
		m.addOp(cv, 'e', a[0], a[1], a[2], a[2])
	case "DrawEllipse":
		m.addOp(cv, 'e', a...)
	case "Fill":
		m.fillPath(cv, false)
	case "FillPreserve":
		m.fillPath(cv, true)
	case "SetFillRuleWinding":
		cv.evenOdd = false
	case "SetFillRuleEvenOdd":
		cv.evenOdd = true
	case "Clear":
		pix, _, _, ok := m.rgbaParts(cv.ptr)
		if !ok {
			m.Undecided("unknown image")
		}
		for i := 0; i < pix.Len; i++ {
			m.write(pix.Obj, pix.Off+i, cv.st.Cells[i%4])
		}
	case "SetPixel":
		if a[0].K != KInt || a[1].K != KInt {
			m.Undecided("pixel position %v", a)
		}
		pix, stride, r, _ := m.rgbaParts(cv.ptr)
		x, y := int(a[0].N), int(a[1].N)
		if x >= r[0] && x < r[2] && y >= r[1] && y < r[3] {
			for i := 0; i < 4; i++ {
				m.write(pix.Obj, pix.Off+y*stride+x*4+i, cv.st.Cells[i])
			}
		}
	case "DrawImage", "DrawImageAnchored":
		im := m.Simplify(a[0])
		x, y := m.Simplify(a[1]), m.Simplify(a[2])
		if x.K != KInt || y.K != KInt {
			m.Undecided("image position %v %v", x, y)
		}
		dx, dy := int(x.N), int(y.N)
		if name == "DrawImageAnchored" {
			b, ok := m.ImageBounds(im)
			if !ok || a[3].K != KFloat || a[4].K != KFloat {
				m.Undecided("image position")
			}
			dx -= int(a[3].Float() * float64(b[2]-b[0]))
			dy -= int(a[4].Float() * float64(b[3]-b[1]))
		}
		return V{}, !m.drawOnto(cv.ptr, im, dx, dy, true, [4]int{-1 << 30, -1 << 30, 1 << 30, 1 << 30})
	case "Push":
		var c [4]V
		copy(c[:], cv.st.Cells)
		cv.stack = append(cv.stack, c)
	case "Pop":
		if n := len(cv.stack); n > 0 {
			setCol(cv.stack[n-1])
			cv.stack = cv.stack[:n-1]
		}
	default:
		m.Undecided("gg.Context.%s is not modelled", name)
	}
	return V{}, false
}

func (m *M) namedType(pkg, name string) types.Type {
	sp := m.P.EnsureBuilt(pkg)
	if sp == nil || sp.Type(name) == nil {
		m.Undecided("type %s.%s is not loaded", pkg, name)
	}
	return sp.Type(name).Type()
}

func canvasIntrinsics(def func(string, Intrinsic)) {
	const gg = "github.com/fogleman/gg"
	newRGBA := func(m *M, w, h V) (V, bool) {
		w, h = m.Simplify(w), m.Simplify(h)
		if w.K != KInt || h.K != KInt {
			m.Undecided("image of size %v x %v", w, h)
		}
		r, dead := m.Call(m.pkgFunc("image", "Rect"), Int(0), Int(0), w, h)
		if dead {
			return V{}, true
		}
		return m.Call(m.pkgFunc("image", "NewRGBA"), r)
	}
	def(gg+".NewContext", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		m.Event("call:"+fnKey(fn), a...)
		img, dead := newRGBA(m, a[0], a[1])
		if dead {
			return V{}, true
		}
		return m.newCanvas(img, int(m.Simplify(a[0]).N), int(m.Simplify(a[1]).N), fn.Signature.Results().At(0).Type()), false
	})
	def(gg+".NewContextForRGBA", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		m.Event("call:"+fnKey(fn), a...)
		_, _, r, ok := m.rgbaParts(a[0])
		if !ok {
			m.Undecided("drawing on an unknown image")
		}
		return m.newCanvas(a[0], r[2]-r[0], r[3]-r[1], fn.Signature.Results().At(0).Type()), false
	})
	def(gg+".NewContextForImage", func(m *M, fn *ssa.Function, a []V) (V, bool) {
		m.Event("call:"+fnKey(fn), a...)
		b, ok := m.ImageBounds(a[0])
		if !ok {
			return V{}, true
		}
		img, dead := newRGBA(m, Int(int64(b[2]-b[0])), Int(int64(b[3]-b[1])))
		if dead || !m.drawOnto(img, a[0], -b[0], -b[1], false, [4]int{-1 << 30, -1 << 30, 1 << 30, 1 << 30}) {
			return V{}, true
		}
		return m.newCanvas(img, b[2]-b[0], b[3]-b[1], fn.Signature.Results().At(0).Type()), false
	})
	// draw.Draw of the standard and the extended library
	dr := func(m *M, fn *ssa.Function, a []V) (V, bool) {
		dst := m.Simplify(a[0])
		op := m.Simplify(a[4])
		if dst.K != KIface || dst.X == nil || dst.X.(*IfaceV).Host != nil || op.K != KInt {
			m.Undecided("draw.Draw on %v", dst)
		}
		rc := rectOf(m, a[1])
		sp := rectOf(m, a[3])
		i := dst.X.(*IfaceV)
		if i.T.String() == "*image.RGBA" {
			return V{}, !m.drawOnto(i.V, a[2], rc[0]-sp[0], rc[1]-sp[1], op.N == 0, rc)
		}
		b, ok := m.ImageBounds(dst)
		sb, ok2 := m.ImageBounds(a[2])
		if !ok || !ok2 {
			return V{}, true
		}
		dx, dy := rc[0]-sp[0], rc[1]-sp[1]
		set := m.Prog.LookupMethod(i.T, nil, "Set")
		src := m.Simplify(a[2])
		for y := max(rc[1], b[1], sb[1]+dy); y < min(rc[3], b[3], sb[3]+dy); y++ {
			for x := max(rc[0], b[0], sb[0]+dx); x < min(rc[2], b[2], sb[2]+dx); x++ {
				c, k := m.pixelAt(src, x-dx, y-dy)
				if !k {
					return V{}, true
				}
				if op.N == 0 {
					d, k := m.pixelAt(dst, x, y)
					if !k {
						return V{}, true
					}
					c = m.over(c, d)
				}
				cv := V{K: KIface, X: &IfaceV{T: m.namedType("image/color", "RGBA"), V: V{K: KStruct, X: []V{c[0], c[1], c[2], c[3]}}}}
				if _, dead := m.callFn(&FuncV{Fn: set}, []V{i.V, Int(int64(x)), Int(int64(y)), cv}); dead {
					return V{}, true
				}
			}
		}
		return V{}, false
	}
	def("image/draw.Draw", dr)
	def("golang.org/x/image/draw.Draw", dr)
	// interpolating scalers give unknown black or white pixels, or what the
	// analysis supplies
	scale := func(m *M, fn *ssa.Function, a []V) (V, bool) {
		m.Event("call:"+fnKey(fn), a...)
		dst := m.Simplify(a[1])
		if dst.K != KIface || dst.X == nil || dst.X.(*IfaceV).T.String() != "*image.RGBA" {
			m.Undecided("scaling onto %v", dst)
		}
		pix, stride, r, ok := m.rgbaParts(dst.X.(*IfaceV).V)
		if !ok {
			m.Undecided("scaling onto an unknown image")
		}
		rc := rectOf(m, a[2])
		m.ScaleSrc = a[3]
		for y := max(rc[1], r[1]); y < min(rc[3], r[3]); y++ {
			for x := max(rc[0], r[0]); x < min(rc[2], r[2]); x++ {
				var c [4]V
				if m.ScaleHook != nil {
					c = m.ScaleHook(x-rc[0], y-rc[1])
				} else {
					n := m.B.NewVar(fmt.Sprintf("scaled(%d,%d)", x, y))
					v := m.FromBits([]bdd.Node{n, n, n, n, n, n, n, n}, false)
					c = [4]V{v, v, v, MkInt(255, 8, false)}
				}
				for i := range c {
					m.write(pix.Obj, pix.Off+(y-r[1])*stride+(x-r[0])*4+i, c[i])
				}
			}
		}
		return V{}, false
	}
	for _, t := range []string{"golang.org/x/image/draw.ablInterpolator", "golang.org/x/image/draw.nnInterpolator", "*golang.org/x/image/draw.Kernel"} {
		def("("+t+").Scale", scale)
	}
}

func ggIntrinsic(fn *ssa.Function) Intrinsic {
	if strings.HasPrefix(fnKey(fn), "(*github.com/fogleman/gg.Context).") {
		return ggMethod
	}
	return nil
}

// SliceElems are the elements of a concrete slice of single-cell values.
func (m *M) SliceElems(v V) []V {
	v = m.Simplify(v)
	if v.K != KSlice {
		m.Undecided("slice %v", v)
	}
	if v.X == nil {
		return nil
	}
	s := v.X.(*SliceV)
	if len(s.Obj.Cells) < s.Off+s.Len {
		m.Undecided("slice of structures")
	}
	out := make([]V, s.Len)
	for i := range out {
		out[i] = m.Simplify(s.Obj.Cells[s.Off+i])
	}
	return out
}

// RectOf reads a concrete image.Rectangle.
func (m *M) RectOf(v V) [4]int { return rectOf(m, v) }
