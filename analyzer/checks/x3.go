package checks

import (
	"fmt"

	"verif/analyzer/absint"
)

func init() {
	register(&Check{ID: "X03", Title: "Module values: type, state and name agree",
		Rule: "For every QRValue_*_V0/V1 the package names: IsSet is the state in the name, Type the QRType_* of the name, values and types are pairwise distinct, and String is the type's String (pairwise distinct, not empty) followed by 1 or 0; every module of symbols of several versions with symbolic payload has one of these values.",
		Min:  100, Run: func(c *Ctx) {
			c.Core()
			vers := []int{0, 1, 7}
			c.Par(len(vers), func(i int) {
				ver := vers[i]
				unitM(c, fmt.Sprintf("values, version %d", ver), func(m *absint.M, p *absint.Program) {
					unit := fmt.Sprintf("version %d", ver)
					t, dead := call(m, p, "Values")
					if dead {
						c.Fail("values", unit, "", "the values cannot be read: %v", m.Panics)
						return
					}
					vs, ts := m.SliceElems(tup(t, 0)), m.SliceElems(tup(t, 1))
					seen, seenT, names := map[int64]int{}, map[int64]int{}, map[string]int{}
					for k, ty := range ts {
						if ty.K != absint.KInt {
							m.Undecided("type %d", k)
						}
						if o, ok := seenT[ty.N]; ok {
							c.Fail("distinct", unit, "", "types %d and %d of QRType_DATA, VERSION, FORMAT, FINDER, DARK, SPLITTER, TIMING, INIT are the same", o, k)
						}
						seenT[ty.N] = k
						c.Ok("distinct", 1)
					}
					for k, v := range vs {
						if v.K != absint.KInt {
							m.Undecided("value %d", k)
						}
						r, dead := call(m, p, "ValueOf", v)
						s, dead2 := call(m, p, "Named", v)
						if dead || dead2 {
							c.Fail("values", unit, "", "a method of value %d does not return: %v", k, m.Panics)
							return
						}
						what := fmt.Sprintf("value %d (DATA, VERSION, FORMAT, FINDER, DARK, SPLITTER, TIMING, INIT; V0 and V1 in turn)", k)
						if o, ok := seen[v.N]; ok {
							c.Fail("distinct", unit, "", "%s equals value %d", what, o)
						}
						seen[v.N] = k
						c.Ok("distinct", 1)
						set := tup(r, 0)
						c.Check(set.K == absint.KBool && set.Node() == absint.Bool(k%2 == 1).Node(), "state", unit, "", "IsSet of %s is wrong", what)
						ty := tup(r, 1)
						c.Check(ty.K == absint.KInt && ty.N == ts[k/2].N, "type", unit, "", "Type of %s is wrong", what)
						vn, tn := tup(s, 0), tup(s, 1)
						a, b := str(vn), str(tn)
						c.Check(b != "" && a == b+fmt.Sprint(k%2), "name", unit, "", "%s prints as %q, its type as %q", what, a, b)
						if o, ok := names[a]; ok {
							c.Fail("name", unit, "", "%s and value %d both print as %q", what, o, a)
						}
						names[a] = k
					}
					if ver == 0 {
						return
					}
					r := build(c, m, p, symBytes(m, 7), 4, ver, 1, none)
					if r.N == 0 || !r.sizeOK(c) {
						c.Fail("constructs", unit, "", "no matrix is produced: %v", m.Panics)
						return
					}
					for y := range r.Types {
						for x, ty := range r.Types[y] {
							k, ok := seenT[ty.N]
							ok = ok && ty.K == absint.KInt
							c.Check(ok && k < 7, "module-values", unit, "", "module (%d,%d) has the type %v", x, y, ty)
						}
					}
				})
			})
		}})
}
