package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"verif/analyzer/bdd"

	"golang.org/x/tools/go/ssa"
)

// hexDigit is the value of a hexadecimal digit and the condition that b is one.
func (m *M) hexDigit(b V) (V, bdd.Node) {
	t := types.Typ[types.Uint8]
	in := func(lo, hi byte) bdd.Node {
		ge := m.BinOp(token.GEQ, b, MkInt(int64(lo), 8, false), t)
		le := m.BinOp(token.LEQ, b, MkInt(int64(hi), 8, false), t)
		return m.B.And(ge.Node(), le.Node())
	}
	sub := func(k int64) V { return m.BinOp(token.SUB, b, MkInt(k, 8, false), t) }
	d, l, u := in('0', '9'), in('a', 'f'), in('A', 'F')
	v := m.Merge(d, sub('0'), m.Merge(l, sub('a'-10), sub('A'-10)))
	return v, m.B.Or(d, m.B.Or(l, u))
}

// sscanf models fmt.Sscanf: on concrete text exactly, on symbolic text for
// formats of literals and hexadecimal verbs with a width (no blanks).
func sscanf(m *M, fn *ssa.Function, a []V) (V, bool) {
	f, ok := concStr(m.Simplify(a[1]))
	if !ok {
		m.Undecided("Sscanf with an unknown format")
	}
	args := m.ifaceArgs(a[2])
	in := m.Simplify(a[0])
	if in.K != KStr {
		m.Undecided("Sscanf of %v", in)
	}
	st := in.X.(*Str)
	store := func(i int, v V) {
		p := args[i]
		if p.K != KIface || p.X == nil {
			m.Undecided("Sscanf into %v", p)
		}
		m.Store(p.X.(*IfaceV).V, v)
	}
	intT := func(i int) *types.Basic {
		if args[i].K == KIface && args[i].X != nil {
			if pt, ok := args[i].X.(*IfaceV).T.Underlying().(*types.Pointer); ok {
				if b, ok := pt.Elem().Underlying().(*types.Basic); ok {
					return b
				}
			}
		}
		m.Undecided("Sscanf into %v", args[i])
		return nil
	}
	if !st.isSy {
		var hs []any
		for i := range args {
			b := intT(i)
			switch {
			case b.Kind() == types.Uint8:
				hs = append(hs, new(uint8))
			case b.Kind() == types.String:
				hs = append(hs, new(string))
			case b.Info()&types.IsUnsigned != 0:
				hs = append(hs, new(uint64))
			case b.Info()&types.IsInteger != 0:
				hs = append(hs, new(int64))
			case b.Info()&types.IsFloat != 0:
				hs = append(hs, new(float64))
			default:
				m.Undecided("Sscanf into %v", args[i])
			}
		}
		n, err := fmt.Sscanf(st.Con, f, hs...)
		for i := 0; i < n && i < len(hs); i++ {
			w, s := IntInfo(intT(i))
			switch x := hs[i].(type) {
			case *uint8:
				store(i, MkInt(int64(*x), w, s))
			case *uint64:
				store(i, MkInt(int64(*x), w, s))
			case *int64:
				store(i, MkInt(*x, w, s))
			case *float64:
				store(i, Flt(*x))
			case *string:
				store(i, MkStr(*x))
			}
		}
		e := NilIface
		if err != nil {
			e = m.NewErr(MkStr(err.Error()))
		}
		return Tuple(Int(int64(n)), e), false
	}
	pos, arg := 0, 0
	okC := m.PC
	n := Int(0)
	fail := func(c bdd.Node) { okC = m.B.And(okC, m.B.Not(c)) }
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			if f[i] == ' ' || f[i] == '\n' {
				m.Undecided("Sscanf format %q on symbolic text", f)
			}
			if pos >= st.Len() {
				fail(bdd.True)
				break
			}
			fail(m.B.Not(m.Eq(st.At(pos), MkInt(int64(f[i]), 8, false))))
			pos++
			continue
		}
		j := i + 1
		w := 0
		for j < len(f) && f[j] >= '0' && f[j] <= '9' {
			w = w*10 + int(f[j]-'0')
			j++
		}
		if j >= len(f) || !strings.ContainsRune("xX", rune(f[j])) || w == 0 || arg >= len(args) {
			m.Undecided("Sscanf format %q on symbolic text", f)
		}
		b := intT(arg)
		bw, bs := IntInfo(b)
		v := MkInt(0, bw, bs)
		for k := 0; k < w; k++ {
			if pos >= st.Len() {
				if k == 0 {
					fail(bdd.True)
				}
				break
			}
			d, c := m.hexDigit(st.At(pos))
			fail(m.B.Not(c))
			v = m.BinOp(token.OR, m.BinOp(token.SHL, v, Int(4), b), m.resize(d, bw, bs), b)
			pos++
		}
		if okC != bdd.False {
			p := args[arg].X.(*IfaceV).V
			old := m.Load(p, b)
			m.Store(p, m.Merge(okC, v, old))
			n = m.Merge(okC, Int(int64(arg+1)), n)
		}
		arg++
		i = j
	}
	err := m.Merge(okC, NilIface, m.NewErr(m.opaqueStr("Sscanf")))
	return Tuple(n, err), false
}
