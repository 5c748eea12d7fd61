package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"verif/analyzer/bdd"
)

// Bits of an integer value.
func (m *M) Bits(v V) []bdd.Node {
	switch v.K {
	case KBV:
		return v.X.([]bdd.Node)
	case KInt:
		b := make([]bdd.Node, v.W)
		for i := range b {
			if uint64(v.N)>>uint(i)&1 == 1 {
				b[i] = bdd.True
			}
		}
		return b
	}
	m.Undecided("bits of %v", v)
	return nil
}

// FromBits builds an integer value.
func (m *M) FromBits(b []bdd.Node, s bool) V {
	for _, x := range b {
		if x > 1 {
			return V{K: KBV, W: uint8(len(b)), S: s, X: b}
		}
	}
	var n uint64
	for i, x := range b {
		if x == bdd.True {
			n |= 1 << uint(i)
		}
	}
	return MkInt(int64(n), uint8(len(b)), s)
}

// SymInt is a fresh symbolic integer of width w with nbits free low bits.
func (m *M) SymInt(name string, w uint8, s bool, nbits int) V {
	b := make([]bdd.Node, w)
	// most significant first in the variable order
	for i := nbits - 1; i >= 0; i-- {
		b[i] = m.B.NewVar(fmt.Sprintf("%s.%d", name, i))
	}
	return m.FromBits(b, s)
}

// FreeByte is the byte at place k of a text, free up to the form of the bytes.
func (m *M) FreeByte(name string, k int) V {
	return m.FormByte(m.SymInt(name, 8, false, 8), k)
}

// FormByte gives the byte at place k of a text the form of the bytes.
func (m *M) FormByte(v V, k int) V {
	if m.P.ByteForm == 0 {
		return v
	}
	b := append([]bdd.Node(nil), m.Bits(v)...)
	b[7] = bdd.False
	if (k+m.P.ByteForm)%2 == 0 {
		b[7] = bdd.True
	}
	return m.FromBits(b, false)
}

func (m *M) resize(v V, w uint8, s bool) V {
	switch v.K {
	case KInt:
		n := v.N
		if v.W < 64 {
			n = Norm(v.N, v.W, v.S)
		}
		return MkInt(n, w, s)
	case KBV:
		x := v.X.([]bdd.Node)
		z := make([]bdd.Node, w)
		for i := range z {
			switch {
			case i < len(x):
				z[i] = x[i]
			case v.S:
				z[i] = x[len(x)-1]
			}
		}
		return m.FromBits(z, s)
	}
	m.Undecided("resize %v", v)
	return V{}
}

func (m *M) bvAdd(x, y []bdd.Node, cin bdd.Node) []bdd.Node {
	z := make([]bdd.Node, len(x))
	c := cin
	for i := range x {
		a, b := x[i], y[i]
		ab := m.B.Xor(a, b)
		z[i] = m.B.Xor(ab, c)
		c = m.B.Or(m.B.And(a, b), m.B.And(ab, c))
	}
	return z
}
func (m *M) bvNot(x []bdd.Node) []bdd.Node {
	z := make([]bdd.Node, len(x))
	for i := range x {
		z[i] = m.B.Not(x[i])
	}
	return z
}
func (m *M) bvShl(x []bdd.Node, k int) []bdd.Node {
	z := make([]bdd.Node, len(x))
	for i := range z {
		if i-k >= 0 {
			z[i] = x[i-k]
		}
	}
	return z
}
func (m *M) bvMul(x, y []bdd.Node) []bdd.Node {
	// add shifted copies for each possibly set bit of the sparser operand
	cnt := func(b []bdd.Node) int {
		n := 0
		for _, v := range b {
			if v != bdd.False {
				n++
			}
		}
		return n
	}
	if cnt(x) < cnt(y) {
		x, y = y, x
	}
	acc := make([]bdd.Node, len(x))
	for i, b := range y {
		if b == bdd.False {
			continue
		}
		s := m.bvShl(x, i)
		for j := range s {
			s[j] = m.B.And(s[j], b)
		}
		acc = m.bvAdd(acc, s, bdd.False)
	}
	return acc
}

// ult: unsigned x<y
func (m *M) bvUlt(x, y []bdd.Node) bdd.Node {
	r := bdd.False
	for i := 0; i < len(x); i++ {
		// r = (x_i < y_i) or (x_i == y_i and r)
		lt := m.B.And(m.B.Not(x[i]), y[i])
		eq := m.B.Xnor(x[i], y[i])
		r = m.B.Or(lt, m.B.And(eq, r))
	}
	return r
}
func (m *M) bvLt(x, y []bdd.Node, signed bool) bdd.Node {
	if !signed {
		return m.bvUlt(x, y)
	}
	n := len(x) - 1
	a, b := append([]bdd.Node(nil), x...), append([]bdd.Node(nil), y...)
	a[n], b[n] = m.B.Not(a[n]), m.B.Not(b[n])
	return m.bvUlt(a, b)
}
func (m *M) bvEq(x, y []bdd.Node) bdd.Node {
	r := bdd.True
	for i := range x {
		r = m.B.And(r, m.B.Xnor(x[i], y[i]))
		if r == bdd.False {
			return r
		}
	}
	return r
}

// divmod of unsigned x by unsigned constant/vector y (restoring division)
func (m *M) bvUDivMod(x, y []bdd.Node) (q, r []bdd.Node) {
	n := len(x)
	q = make([]bdd.Node, n)
	r = make([]bdd.Node, n)
	for i := n - 1; i >= 0; i-- {
		r = m.bvShl(r, 1)
		r[0] = x[i]
		ge := m.B.Not(m.bvUlt(r, y))
		q[i] = ge
		if ge == bdd.False {
			continue
		}
		d := m.bvAdd(r, m.bvNot(y), bdd.True)
		for j := range r {
			r[j] = m.B.Ite(ge, d[j], r[j])
		}
	}
	return
}

func (m *M) bvNeg(x []bdd.Node) []bdd.Node {
	z := make([]bdd.Node, len(x))
	return m.bvAdd(z, m.bvNot(x), bdd.True)
}
func (m *M) bvIte(c bdd.Node, x, y []bdd.Node) []bdd.Node {
	z := make([]bdd.Node, len(x))
	for i := range z {
		z[i] = m.B.Ite(c, x[i], y[i])
	}
	return z
}

// Feasible enumerates the values a symbolic integer can take under the path
// condition (at most max).
func (m *M) Feasible(v V, max int) []Alt {
	if v.K == KInt {
		return []Alt{{bdd.True, v}}
	}
	if v.K == KChoice {
		var out []Alt
		for _, a := range v.X.([]Alt) {
			if m.B.And(m.PC, a.C) == bdd.False {
				continue
			}
			if a.V.K == KNum || a.V.K != KInt && a.V.K != KBV {
				return nil
			}
			save := m.PC
			m.PC = m.B.And(m.PC, a.C)
			sub := m.Feasible(a.V, max)
			m.PC = save
			if sub == nil {
				return nil
			}
			for _, s := range sub {
				out = append(out, Alt{m.B.And(a.C, s.C), s.V})
			}
		}
		return out
	}
	if v.K != KBV {
		return nil
	}
	bits := v.X.([]bdd.Node)
	var out []Alt
	var rec func(i int, c bdd.Node, n uint64) bool
	rec = func(i int, c bdd.Node, n uint64) bool {
		if m.B.And(m.PC, c) == bdd.False {
			return true
		}
		if i < 0 {
			if len(out) >= max {
				return false
			}
			out = append(out, Alt{c, MkInt(int64(n), v.W, v.S)})
			return true
		}
		if bits[i] != bdd.True {
			if !rec(i-1, m.B.And(c, m.B.Not(bits[i])), n) {
				return false
			}
		}
		if bits[i] != bdd.False {
			if !rec(i-1, m.B.And(c, bits[i]), n|1<<uint(i)) {
				return false
			}
		}
		return true
	}
	if !rec(len(bits)-1, bdd.True, 0) {
		return nil
	}
	return out
}

func isNumK(v V) bool { return v.K == KNum }

// BinOp implements Go's binary operators. t is the operand type.
func (m *M) BinOp(op token.Token, a, b V, t types.Type) V {
	if a.K == KInt && b.K == KInt {
		return m.intOp(op, a, b)
	}
	if a.K == KChoice {
		return m.lift(a, func(x V) V { return m.BinOp(op, x, b, t) })
	}
	if b.K == KChoice {
		return m.lift(b, func(x V) V { return m.BinOp(op, a, x, t) })
	}
	switch op {
	case token.EQL:
		return BoolN(m.Eq(a, b))
	case token.NEQ:
		return BoolN(m.B.Not(m.Eq(a, b)))
	}
	switch {
	case a.K == KBool && b.K == KBool:
		switch op {
		case token.AND, token.LAND:
			return BoolN(m.B.And(a.Node(), b.Node()))
		case token.OR, token.LOR:
			return BoolN(m.B.Or(a.Node(), b.Node()))
		case token.XOR:
			return BoolN(m.B.Xor(a.Node(), b.Node()))
		}
	case a.K == KFloat && b.K == KFloat:
		x, y := a.Float(), b.Float()
		switch op {
		case token.ADD:
			return m.fltRes(x+y, t)
		case token.SUB:
			return m.fltRes(x-y, t)
		case token.MUL:
			return m.fltRes(x*y, t)
		case token.QUO:
			return m.fltRes(x/y, t)
		case token.LSS:
			return Bool(x < y)
		case token.LEQ:
			return Bool(x <= y)
		case token.GTR:
			return Bool(x > y)
		case token.GEQ:
			return Bool(x >= y)
		}
	case isNumK(a) || isNumK(b):
		if a.K == KBV || b.K == KBV {
			// enumerate the bit vector when it is small
			bv := a
			if b.K == KBV {
				bv = b
			}
			al := m.Feasible(bv, 256)
			if al == nil {
				m.Undecided("arithmetic between parameter and wide symbolic integer")
			}
			ch := V{K: KChoice, X: al}
			if len(al) == 1 {
				ch = al[0].V
			}
			if b.K == KBV {
				return m.BinOp(op, a, ch, t)
			}
			return m.BinOp(op, ch, b, t)
		}
		switch op {
		case token.ADD:
			return m.NumAdd(a, b, false)
		case token.SUB:
			return m.NumAdd(a, b, true)
		case token.MUL:
			return m.NumMul(a, b)
		case token.QUO:
			if numIsInt(a) && numIsInt(b) {
				m.PanicIf(m.NumCmp("==", b, Int(0)), "integer divide by zero")
			}
			return m.NumDiv(a, b)
		case token.REM:
			m.PanicIf(m.NumCmp("==", b, Int(0)), "integer divide by zero")
			return m.AppAtom("rem", true, a, b)
		case token.LSS:
			return BoolN(m.NumCmp("<", a, b))
		case token.LEQ:
			return BoolN(m.NumCmp("<=", a, b))
		case token.GTR:
			return BoolN(m.NumCmp(">", a, b))
		case token.GEQ:
			return BoolN(m.NumCmp(">=", a, b))
		case token.SHL:
			if b.K == KInt && b.N >= 0 && b.N < 31 {
				return m.NumMul(a, Int(1<<uint(b.N)))
			}
			return m.AppAtom("shl", true, a, b)
		case token.SHR:
			return m.AppAtom("shr", true, a, b)
		case token.AND:
			return m.AppAtom("and", true, a, b)
		case token.OR:
			return m.AppAtom("or", true, a, b)
		case token.XOR:
			return m.AppAtom("xor", true, a, b)
		}
	case (a.K == KBV || a.K == KInt) && (b.K == KBV || b.K == KInt):
		return m.bvOp(op, a, b)
	case a.K == KStr && b.K == KStr:
		return m.strOp(op, a, b)
	case a.K == KOpaque || b.K == KOpaque:
		if isBasicInfo(t, types.IsString) {
			switch op {
			case token.ADD:
				return m.opaqueApp("strcat", t, a, b)
			default:
				return BoolN(m.eqAtom("str"+op.String(), a, b))
			}
		}
	}
	m.Undecided("binary %s on %v and %v", op, a, b)
	return V{}
}

func isBasicInfo(t types.Type, i types.BasicInfo) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&i != 0
}

func (m *M) fltRes(f float64, t types.Type) V {
	if t != nil {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
	}
	return Flt(f)
}

func (m *M) opaqueApp(op string, t types.Type, args ...V) V {
	k := op
	for _, a := range args {
		k += "|" + m.valKey(a)
	}
	if o, ok := m.opqApps()[k]; ok {
		return o
	}
	v := m.NonNilOpaque(t, op)
	m.opqApps()[k] = v
	return v
}

func (m *M) opqApps() map[string]V {
	if m.oapps == nil {
		m.oapps = map[string]V{}
	}
	return m.oapps
}

func (m *M) eqAtom(op string, a, b V) bdd.Node {
	ka, kb := m.valKey(a), m.valKey(b)
	if op == "==" && ka > kb {
		ka, kb = kb, ka
	}
	k := op + "|" + ka + "|" + kb
	if n, ok := m.strEq[k]; ok {
		return n
	}
	n := m.B.NewVar(k)
	m.strEq[k] = n
	return n
}

func (m *M) intOp(op token.Token, a, b V) V {
	w, s := a.W, a.S
	x, y := a.N, b.N
	switch op {
	case token.ADD:
		return MkInt(x+y, w, s)
	case token.SUB:
		return MkInt(x-y, w, s)
	case token.MUL:
		return MkInt(x*y, w, s)
	case token.QUO:
		if y == 0 {
			m.Panic("integer divide by zero")
			return MkInt(0, w, s)
		}
		if s {
			if y == -1 {
				return MkInt(-x, w, s)
			}
			return MkInt(x/y, w, s)
		}
		return MkInt(int64(uint64(x)/uint64(y)), w, s)
	case token.REM:
		if y == 0 {
			m.Panic("integer divide by zero")
			return MkInt(0, w, s)
		}
		if s {
			if y == -1 {
				return MkInt(0, w, s)
			}
			return MkInt(x%y, w, s)
		}
		return MkInt(int64(uint64(x)%uint64(y)), w, s)
	case token.AND:
		return MkInt(x&y, w, s)
	case token.OR:
		return MkInt(x|y, w, s)
	case token.XOR:
		return MkInt(x^y, w, s)
	case token.AND_NOT:
		return MkInt(x&^y, w, s)
	case token.SHL:
		if b.S && y < 0 {
			m.Panic("negative shift amount")
			return MkInt(0, w, s)
		}
		if uint64(y) >= 64 {
			return MkInt(0, w, s)
		}
		return MkInt(x<<uint64(y), w, s)
	case token.SHR:
		if b.S && y < 0 {
			m.Panic("negative shift amount")
			return MkInt(0, w, s)
		}
		if s {
			if uint64(y) >= 64 {
				y = 63
			}
			return MkInt(x>>uint64(y), w, s)
		}
		if uint64(y) >= 64 {
			return MkInt(0, w, s)
		}
		return MkInt(int64(uint64(x)>>uint64(y)), w, s)
	case token.EQL:
		return Bool(x == y)
	case token.NEQ:
		return Bool(x != y)
	case token.LSS:
		if s {
			return Bool(x < y)
		}
		return Bool(uint64(x) < uint64(y))
	case token.LEQ:
		if s {
			return Bool(x <= y)
		}
		return Bool(uint64(x) <= uint64(y))
	case token.GTR:
		if s {
			return Bool(x > y)
		}
		return Bool(uint64(x) > uint64(y))
	case token.GEQ:
		if s {
			return Bool(x >= y)
		}
		return Bool(uint64(x) >= uint64(y))
	}
	m.Undecided("int op %s", op)
	return V{}
}

func (m *M) bvOp(op token.Token, a, b V) V {
	w, s := a.W, a.S
	switch op {
	case token.SHL, token.SHR:
		if b.K != KInt {
			al := m.Feasible(b, 70)
			if al == nil {
				m.Undecided("shift by symbolic amount")
			}
			var r V
			for i, x := range al {
				v := m.BinOp(op, a, x.V, nil)
				if i == 0 {
					r = v
				} else {
					r = m.Merge(x.C, v, r)
				}
			}
			return r
		}
		x := m.Bits(a)
		k := int(b.N)
		if b.S && k < 0 {
			m.Panic("negative shift amount")
			return a
		}
		if k > int(w) || k < 0 {
			k = int(w)
		}
		if op == token.SHL {
			return m.FromBits(m.bvShl(x, k), s)
		}
		z := make([]bdd.Node, w)
		for i := range z {
			if i+k < int(w) {
				z[i] = x[i+k]
			} else if s {
				z[i] = x[w-1]
			}
		}
		return m.FromBits(z, s)
	}
	if b.W != w {
		m.Undecided("width mismatch %s: %d and %d", op, w, b.W)
	}
	x, y := m.Bits(a), m.Bits(b)
	switch op {
	case token.ADD:
		return m.FromBits(m.bvAdd(x, y, bdd.False), s)
	case token.SUB:
		return m.FromBits(m.bvAdd(x, m.bvNot(y), bdd.True), s)
	case token.MUL:
		return m.FromBits(m.bvMul(x, y), s)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		z := make([]bdd.Node, w)
		for i := range z {
			switch op {
			case token.AND:
				z[i] = m.B.And(x[i], y[i])
			case token.OR:
				z[i] = m.B.Or(x[i], y[i])
			case token.XOR:
				z[i] = m.B.Xor(x[i], y[i])
			default:
				z[i] = m.B.And(x[i], m.B.Not(y[i]))
			}
		}
		return m.FromBits(z, s)
	case token.LSS:
		return BoolN(m.bvLt(x, y, s))
	case token.GTR:
		return BoolN(m.bvLt(y, x, s))
	case token.LEQ:
		return BoolN(m.B.Not(m.bvLt(y, x, s)))
	case token.GEQ:
		return BoolN(m.B.Not(m.bvLt(x, y, s)))
	case token.QUO, token.REM:
		zero := bdd.True
		for _, n := range y {
			zero = m.B.And(zero, m.B.Not(n))
		}
		m.PanicIf(zero, "integer divide by zero")
		sx, sy := bdd.False, bdd.False
		if s {
			sx, sy = x[w-1], y[w-1]
			if sx != bdd.False {
				x = m.bvIte(sx, m.bvNeg(x), x)
			}
			if sy != bdd.False {
				y = m.bvIte(sy, m.bvNeg(y), y)
			}
		}
		q, r := m.bvUDivMod(x, y)
		if op == token.QUO {
			sg := m.B.Xor(sx, sy)
			if sg != bdd.False {
				q = m.bvIte(sg, m.bvNeg(q), q)
			}
			return m.FromBits(q, s)
		}
		if sx != bdd.False {
			r = m.bvIte(sx, m.bvNeg(r), r)
		}
		return m.FromBits(r, s)
	}
	m.Undecided("bv op %s", op)
	return V{}
}

func (m *M) strOp(op token.Token, a, b V) V {
	x, y := a.X.(*Str), b.X.(*Str)
	if op == token.ADD {
		if !x.isSy && !y.isSy {
			return MkStr(x.Con + y.Con)
		}
		z := make([]V, 0, x.Len()+y.Len())
		for i := 0; i < x.Len(); i++ {
			z = append(z, x.At(i))
		}
		for i := 0; i < y.Len(); i++ {
			z = append(z, y.At(i))
		}
		return MkSymStr(z)
	}
	if !x.isSy && !y.isSy {
		switch op {
		case token.LSS:
			return Bool(x.Con < y.Con)
		case token.LEQ:
			return Bool(x.Con <= y.Con)
		case token.GTR:
			return Bool(x.Con > y.Con)
		case token.GEQ:
			return Bool(x.Con >= y.Con)
		}
	}
	// lexicographic comparison
	var lt bdd.Node
	n := x.Len()
	if y.Len() < n {
		n = y.Len()
	}
	lt = b2n(x.Len() < y.Len())
	eq := b2n(x.Len() == y.Len())
	for i := n - 1; i >= 0; i-- {
		p, q := m.Bits(x.At(i)), m.Bits(y.At(i))
		e := m.bvEq(p, q)
		lt = m.B.Or(m.bvUlt(p, q), m.B.And(e, lt))
		eq = m.B.And(e, eq)
	}
	switch op {
	case token.LSS:
		return BoolN(lt)
	case token.LEQ:
		return BoolN(m.B.Or(lt, eq))
	case token.GTR:
		return BoolN(m.B.Not(m.B.Or(lt, eq)))
	case token.GEQ:
		return BoolN(m.B.Not(lt))
	}
	m.Undecided("string op %s", op)
	return V{}
}

// Eq is the condition a == b.
func (m *M) Eq(a, b V) bdd.Node {
	if a.K == KChoice || b.K == KChoice {
		c, d := a, b
		if c.K != KChoice {
			c, d = b, a
		}
		r := bdd.False
		for _, x := range c.X.([]Alt) {
			if m.B.And(m.PC, x.C) == bdd.False {
				continue
			}
			r = m.B.Or(r, m.B.And(x.C, m.Eq(x.V, d)))
		}
		return r
	}
	if Ident(a, b) && a.K != KFloat {
		return bdd.True
	}
	// references against nil
	if a.IsNilRef() && a.K != KStruct {
		return m.NilCond(b)
	}
	if b.IsNilRef() {
		return m.NilCond(a)
	}
	switch {
	case a.K == KInt && b.K == KInt:
		return b2n(a.N == b.N)
	case a.K == KFloat && b.K == KFloat:
		return b2n(a.Float() == b.Float())
	case a.K == KBool && b.K == KBool:
		return m.B.Xnor(a.Node(), b.Node())
	case (a.K == KInt || a.K == KBV) && (b.K == KInt || b.K == KBV):
		if a.W != b.W {
			m.Undecided("== width")
		}
		return m.bvEq(m.Bits(a), m.Bits(b))
	case a.K == KNum || b.K == KNum:
		if a.K == KBV || b.K == KBV {
			return m.BinOp(token.EQL, a, b, nil).Node()
		}
		return m.NumCmp("==", a, b)
	case a.K == KStr && b.K == KStr:
		x, y := a.X.(*Str), b.X.(*Str)
		if x.Len() != y.Len() {
			return bdd.False
		}
		r := bdd.True
		for i := 0; i < x.Len(); i++ {
			p, q := x.At(i), y.At(i)
			r = m.B.And(r, m.Eq(p, q))
			if r == bdd.False {
				break
			}
		}
		return r
	case a.K == KStruct && b.K == KStruct, a.K == KTuple && b.K == KTuple:
		x, y := a.X.([]V), b.X.([]V)
		r := bdd.True
		for i := range x {
			r = m.B.And(r, m.Eq(x[i], y[i]))
		}
		return r
	case a.K == KPtr && b.K == KPtr:
		return bdd.False
	case a.K == KIface && b.K == KIface:
		x, y := a.X.(*IfaceV), b.X.(*IfaceV)
		if x.Host != nil || y.Host != nil {
			return b2n(x.Host == y.Host)
		}
		if !types.Identical(x.T, y.T) {
			return bdd.False
		}
		return m.Eq(x.V, y.V)
	case a.K == KIface && a.X != nil && b.K != KOpaque:
		// mixed interface/concrete comparison
		return m.Eq(a.X.(*IfaceV).V, b)
	case b.K == KIface && b.X != nil && a.K != KOpaque:
		return m.Eq(a, b.X.(*IfaceV).V)
	case a.K == KOpaque || b.K == KOpaque:
		return m.eqAtom("==", a, b)
	case a.K == KChan && b.K == KChan, a.K == KMap && b.K == KMap, a.K == KFunc && b.K == KFunc:
		return b2n(a.X == b.X)
	}
	m.Undecided("== on %v and %v", a, b)
	return bdd.False
}

// UnOp for -, ^, !
func (m *M) UnOp(op token.Token, a V, t types.Type) V {
	if a.K == KChoice {
		return m.lift(a, func(x V) V { return m.UnOp(op, x, t) })
	}
	switch op {
	case token.NOT:
		if a.K == KBool {
			return BoolN(m.B.Not(a.Node()))
		}
	case token.SUB:
		switch a.K {
		case KInt:
			return MkInt(-a.N, a.W, a.S)
		case KFloat:
			return Flt(-a.Float())
		case KBV:
			return m.FromBits(m.bvNeg(m.Bits(a)), a.S)
		case KNum:
			return m.NumMul(a, Int(-1))
		}
	case token.XOR:
		switch a.K {
		case KInt:
			return MkInt(^a.N, a.W, a.S)
		case KBV:
			return m.FromBits(m.bvNot(m.Bits(a)), a.S)
		}
	}
	m.Undecided("unary %s on %v", op, a)
	return V{}
}

// Convert between basic types, strings and byte/rune slices.
func (m *M) Convert(v V, from, to types.Type) V {
	if v.K == KChoice {
		return m.lift(v, func(x V) V { return m.Convert(x, from, to) })
	}
	ft, tt := from.Underlying(), to.Underlying()
	if tp, ok := tt.(*types.TypeParam); ok {
		_ = tp
		m.Undecided("conversion to type parameter")
	}
	tb, tIsB := tt.(*types.Basic)
	fb, fIsB := ft.(*types.Basic)
	if tIsB && fIsB {
		switch {
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
			w, s := IntInfo(tb)
			switch v.K {
			case KInt, KBV:
				return m.resize(v, w, s)
			case KNum:
				if w >= 32 {
					return v // parameters are assumed in range (stated in the evidence)
				}
				lo, hi := m.bounds(v.X.(*Num))
				if lo != nil && hi != nil && lo.Sign() >= 0 {
					if f, _ := hi.Float64(); f < math.Pow(2, float64(w)) {
						return v
					}
				}
				return m.AppAtom(fmt.Sprintf("conv%d%v", w, s), true, v)
			}
		case tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsInteger != 0:
			switch v.K {
			case KInt:
				if v.W == 64 && !v.S {
					return Flt(float64(uint64(v.N)))
				}
				return m.fltRes(float64(v.N), to)
			case KNum:
				ts, _ := m.toNum(v, true)
				return m.mkNum(false, ts)
			case KBV:
				if al := m.Feasible(v, 512); al != nil {
					var r V
					for i, x := range al {
						f := m.Convert(x.V, from, to)
						if i == 0 {
							r = f
						} else {
							r = m.Merge(x.C, f, r)
						}
					}
					return r
				}
			}
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsFloat != 0:
			w, s := IntInfo(tb)
			switch v.K {
			case KFloat:
				f := v.Float()
				if w == 64 && !s {
					return MkInt(int64(uint64(f)), w, s)
				}
				return MkInt(int64(f), w, s)
			case KNum:
				n := v.X.(*Num)
				integral := true
				for _, t := range n.terms {
					if !t.c.IsInt() {
						integral = false
					}
					for _, a := range t.mono {
						if !m.atoms[a].Int {
							integral = false
						}
					}
				}
				if integral {
					ts, _ := m.toNum(v, true)
					return m.mkNum(true, ts)
				}
				return m.AppAtom("trunc", true, v)
			}
		case tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsFloat != 0:
			if v.K == KFloat {
				return m.fltRes(v.Float(), to)
			}
			return v
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
			return m.runeToString(v)
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0:
			return v
		case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
			m.Undecided("unsafe pointer conversion")
		case tb.Info()&types.IsBoolean != 0:
			return v
		}
		m.Undecided("convert %v from %s to %s", v, from, to)
	}
	// string <-> []byte / []rune
	if tIsB && tb.Info()&types.IsString != 0 {
		if sl, ok := ft.(*types.Slice); ok {
			if v.K == KOpaque {
				return m.opaqueApp("string", to, v)
			}
			eb := sl.Elem().Underlying().(*types.Basic)
			cells := m.SliceCells(v)
			if eb.Kind() == types.Uint8 {
				return MkSymStr(append([]V(nil), cells...))
			}
			out := MkStr("")
			for _, r := range cells {
				out = m.BinOp(token.ADD, out, m.runeToString(r), to)
			}
			return out
		}
	}
	if sl, ok := tt.(*types.Slice); ok && fIsB && fb.Info()&types.IsString != 0 {
		if v.K == KOpaque {
			return m.opaqueApp("bytes", to, v)
		}
		eb := sl.Elem().Underlying().(*types.Basic)
		s := v.X.(*Str)
		if eb.Kind() == types.Uint8 {
			cells := make([]V, s.Len())
			for i := range cells {
				cells[i] = s.At(i)
			}
			return m.NewSlice(sl.Elem(), cells, "[]byte(string)")
		}
		var cells []V
		for i := 0; i < s.Len(); {
			r, n := m.DecodeRune(s, i)
			cells = append(cells, r)
			i += n
		}
		return m.NewSlice(sl.Elem(), cells, "[]rune(string)")
	}
	if _, ok := tt.(*types.Pointer); ok {
		return v
	}
	if _, ok := tt.(*types.Slice); ok {
		return v
	}
	if v.K == KPtr || v.K == KStruct || v.K == KFunc || v.K == KMap || v.K == KIface || v.K == KOpaque {
		return v
	}
	m.Undecided("convert %v from %s to %s", v, from, to)
	return V{}
}

// NewSlice allocates a slice with the given cells (element size 1).
func (m *M) NewSlice(elem types.Type, cells []V, label string) V {
	o := m.NewObj(types.NewArray(elem, int64(len(cells))), 0, label)
	o.Cells = cells
	return V{K: KSlice, X: &SliceV{Obj: o, Len: len(cells), Cap: len(cells), Esz: Sizeof(elem)}}
}

// SliceCells are the cells of a slice value.
func (m *M) SliceCells(v V) []V {
	v = m.Simplify(v)
	if v.K != KSlice {
		m.Undecided("cells of %v", v)
	}
	if v.X == nil {
		return nil
	}
	s := v.X.(*SliceV)
	if m.RaceOn {
		for i := 0; i < s.Len*s.Esz; i++ {
			m.raceAccess(&s.Obj.race, len(s.Obj.Cells), s.Off+i, false, s.Obj.Label, s.Obj.ID)
		}
	}
	return s.Obj.Cells[s.Off : s.Off+s.Len*s.Esz]
}

func (m *M) runeToString(r V) V {
	if r.K == KInt {
		n := r.N
		if n < 0 || n > 0x10FFFF {
			n = 0xFFFD
		}
		return MkStr(string(rune(n)))
	}
	if r.K == KChoice {
		return m.lift(r, m.runeToString)
	}
	if r.K != KBV {
		m.Undecided("string(rune) of %v", r)
	}
	x := m.Bits(m.resize(r, 32, true))
	// few feasible values: enumerate
	if al := m.Feasible(r, 64); al != nil {
		res := m.runeToString(al[0].V)
		for _, a := range al[1:] {
			res = m.Merge(a.C, m.runeToString(a.V), res)
		}
		return res
	}
	lt := func(n int64) bdd.Node { return m.bvUlt(x, m.Bits(MkInt(n, 32, true))) }
	by := func(parts ...bdd.Node) V { // LSB first
		return m.FromBits(parts, false)
	}
	T, F := bdd.True, bdd.False
	c1 := lt(0x80)
	c2 := m.B.And(m.B.Not(c1), lt(0x800))
	sur := m.B.And(m.B.Not(lt(0xD800)), lt(0xE000))
	c3 := m.B.And(m.B.And(m.B.Not(lt(0x800)), lt(0x10000)), m.B.Not(sur))
	c4 := m.B.And(m.B.Not(lt(0x10000)), lt(0x110000))
	bad := m.B.Or(sur, m.B.Not(lt(0x110000)))
	type form struct {
		c bdd.Node
		f func() V
	}
	forms := []form{
		{c1, func() V { return MkSymStr([]V{m.FromBits(append([]bdd.Node(nil), x[:8]...), false)}) }},
		{c2, func() V {
			return MkSymStr([]V{by(x[6], x[7], x[8], x[9], x[10], F, T, T), by(x[0], x[1], x[2], x[3], x[4], x[5], F, T)})
		}},
		{c3, func() V {
			return MkSymStr([]V{by(x[12], x[13], x[14], x[15], F, T, T, T), by(x[6], x[7], x[8], x[9], x[10], x[11], F, T), by(x[0], x[1], x[2], x[3], x[4], x[5], F, T)})
		}},
		{c4, func() V {
			return MkSymStr([]V{by(x[18], x[19], x[20], F, T, T, T, T), by(x[12], x[13], x[14], x[15], x[16], x[17], F, T), by(x[6], x[7], x[8], x[9], x[10], x[11], F, T), by(x[0], x[1], x[2], x[3], x[4], x[5], F, T)})
		}},
		{bad, func() V { return MkStr("\uFFFD") }},
	}
	var res V
	first := true
	for _, fm := range forms {
		if m.B.And(m.PC, fm.c) == bdd.False {
			continue
		}
		v := fm.f()
		if first {
			res, first = v, false
		} else {
			res = m.Merge(fm.c, v, res)
		}
	}
	return res
}

// DecodeRune decodes one rune of s at i. The number of bytes has to be
// determined by the path condition.
func (m *M) DecodeRune(s *Str, i int) (V, int) {
	size := 0
	var res V
	for _, f := range m.runeForms(s, i) {
		if size == 0 {
			size, res = f.n, f.r
			continue
		}
		if size != f.n {
			m.Undecided(charLen)
		}
		res = m.Merge(f.c, f.r, res)
	}
	return res, size
}

// runeForm is one way in which the bytes of a string decode: under c, the
// n bytes are the character r.
type runeForm struct {
	c bdd.Node
	n int
	r V
}

// runeForms lists the ways in which s decodes at i under the path condition;
// their conditions are disjoint and cover it.
func (m *M) runeForms(s *Str, i int) []runeForm {
	if !s.isSy {
		for n, r := range s.Con[i:] {
			_ = n
			l := len(string(r))
			if r == 0xFFFD {
				// maybe an invalid byte
				if i+3 <= len(s.Con) && s.Con[i:i+3] == "\uFFFD" {
					l = 3
				} else {
					l = 1
				}
			}
			return []runeForm{{bdd.True, l, MkInt(int64(r), 32, true)}}
		}
	}
	bits := func(k int) []bdd.Node { return m.Bits(s.At(i + k)) }
	b0 := bits(0)
	rem := s.Len() - i
	conc := true
	for k := 0; k < 4 && k < rem; k++ {
		if s.At(i+k).K != KInt {
			conc = false
			break
		}
	}
	if conc {
		bs := []byte{}
		for k := 0; k < 4 && k < rem; k++ {
			bs = append(bs, byte(s.At(i+k).N))
		}
		return m.runeForms(&Str{Con: string(bs)}, 0)
	}
	cst := func(n int64) []bdd.Node { return m.Bits(MkInt(n, 8, false)) }
	rng := func(x []bdd.Node, lo, hi int64) bdd.Node {
		return m.B.And(m.B.Not(m.bvUlt(x, cst(lo))), m.B.Not(m.bvUlt(cst(hi), x)))
	}
	type form struct {
		c bdd.Node
		n int
		r []bdd.Node
	}
	F := bdd.False
	var forms []form
	ext := func(b ...bdd.Node) []bdd.Node {
		for len(b) < 32 {
			b = append(b, F)
		}
		return b
	}
	ascii := m.B.Not(b0[7])
	all := ascii
	forms = append(forms, form{ascii, 1, ext(append([]bdd.Node(nil), b0[:8]...)...)})
	if rem >= 2 {
		b1 := bits(1)
		c := m.B.And(rng(b0, 0xC2, 0xDF), rng(b1, 0x80, 0xBF))
		forms = append(forms, form{c, 2, ext(append(append([]bdd.Node(nil), b1[:6]...), b0[:5]...)...)})
		all = m.B.Or(all, c)
		if rem >= 3 {
			b2 := bits(2)
			t2 := rng(b2, 0x80, 0xBF)
			c := m.B.And(rng(b0, 0xE0, 0xE0), rng(b1, 0xA0, 0xBF))
			c = m.B.Or(c, m.B.And(rng(b0, 0xE1, 0xEC), rng(b1, 0x80, 0xBF)))
			c = m.B.Or(c, m.B.And(rng(b0, 0xED, 0xED), rng(b1, 0x80, 0x9F)))
			c = m.B.Or(c, m.B.And(rng(b0, 0xEE, 0xEF), rng(b1, 0x80, 0xBF)))
			c = m.B.And(c, t2)
			r := append(append(append([]bdd.Node(nil), b2[:6]...), b1[:6]...), b0[:4]...)
			forms = append(forms, form{c, 3, ext(r...)})
			all = m.B.Or(all, c)
			if rem >= 4 {
				b3 := bits(3)
				c := m.B.And(rng(b0, 0xF0, 0xF0), rng(b1, 0x90, 0xBF))
				c = m.B.Or(c, m.B.And(rng(b0, 0xF1, 0xF3), rng(b1, 0x80, 0xBF)))
				c = m.B.Or(c, m.B.And(rng(b0, 0xF4, 0xF4), rng(b1, 0x80, 0x8F)))
				c = m.B.And(c, m.B.And(t2, rng(b3, 0x80, 0xBF)))
				r := append(append(append(append([]bdd.Node(nil), b3[:6]...), b2[:6]...), b1[:6]...), b0[:3]...)
				forms = append(forms, form{c, 4, ext(r...)})
				all = m.B.Or(all, c)
			}
		}
	}
	forms = append(forms, form{m.B.Not(all), 1, m.Bits(MkInt(0xFFFD, 32, true))})
	var out []runeForm
	for _, f := range forms {
		if m.B.And(m.PC, f.c) == bdd.False {
			continue
		}
		out = append(out, runeForm{f.c, f.n, m.FromBits(f.r, true)})
	}
	return out
}
