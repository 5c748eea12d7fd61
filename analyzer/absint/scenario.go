package absint

import (
	"fmt"
	"go/token"
	"math"

	"verif/analyzer/bdd"
)

// Scenario is a valuation of the numeric parameters: it decides every
// comparison between them.
type Scenario struct {
	m    *M
	asg  map[int]float64
	memo map[int]float64
	vals map[int32]int8
	rm   map[bdd.Node]bdd.Node
	piv  map[int]bool // when set: comparisons without these atoms stay open
}

// NewPartial is a scenario that decides only the comparisons that involve one
// of the pivots.
func (m *M) NewPartial(params []V, vals []float64, pivots []V) *Scenario {
	s := m.NewScenario(params, vals)
	s.piv = map[int]bool{}
	for _, p := range pivots {
		s.piv[m.ParamID(p)] = true
	}
	return s
}

// ParamID is the atom of a plain parameter value.
func (m *M) ParamID(v V) int {
	n, ok := v.X.(*Num)
	if !ok || len(n.terms) != 1 {
		return -1
	}
	for _, t := range n.terms {
		if len(t.mono) == 1 {
			return t.mono[0]
		}
	}
	return -1
}

// NewScenario assigns values to parameters.
func (m *M) NewScenario(params []V, vals []float64) *Scenario {
	s := &Scenario{m: m, asg: map[int]float64{}, memo: map[int]float64{}, vals: map[int32]int8{}, rm: map[bdd.Node]bdd.Node{}}
	for i, p := range params {
		if id := m.ParamID(p); id >= 0 {
			s.asg[id] = vals[i]
		}
	}
	return s
}

func (s *Scenario) get(v int32) (bool, bool) {
	c, ok := s.m.cmpMeaning[v]
	if !ok {
		return false, false
	}
	if r, ok := s.vals[v]; ok {
		return r == 1, r != 2
	}
	if s.piv != nil {
		has := false
		for _, t := range c.P.terms {
			for _, id := range t.mono {
				has = has || s.piv[id]
			}
		}
		if !has {
			s.vals[v] = 2
			return false, false
		}
	}
	x := s.m.EvalNum(V{K: KNum, X: c.P}, s.asg, s.memo)
	r := int8(0)
	switch {
	case math.IsNaN(x):
		r = 2
	case c.Op == "<=0" && x <= 1e-9, c.Op == "<0" && x < -1e-9, c.Op == "==0" && math.Abs(x) < 1e-9:
		r = 1
	}
	s.vals[v] = r
	return r == 1, r != 2
}

// Node specialises a condition.
func (s *Scenario) Node(n bdd.Node) bdd.Node { return s.m.B.RestrictFn(n, s.get, s.rm) }

// Val specialises a value.
func (s *Scenario) Val(v V) V {
	switch v.K {
	case KBool:
		return BoolN(s.Node(v.Node()))
	case KBV:
		b := v.X.([]bdd.Node)
		out := make([]bdd.Node, len(b))
		for i, x := range b {
			out[i] = s.Node(x)
		}
		return s.m.FromBits(out, v.S)
	case KChoice:
		var r V
		have := false
		alts := v.X.([]Alt)
		for i := len(alts) - 1; i >= 0; i-- {
			c := s.Node(alts[i].C)
			if c == bdd.False {
				continue
			}
			x := s.Val(alts[i].V)
			if c == bdd.True {
				return x
			}
			if !have {
				r, have = x, true
			} else {
				r = s.m.Merge(c, x, r)
			}
		}
		return r
	}
	return v
}

// ProvOf lists the statements that last wrote the cell p points to.
func (m *M) provOf(o *Obj, off int) {
	if off < len(o.prov) && o.prov[off] != token.NoPos {
		m.LastProv = append(m.LastProv, o.prov[off])
	}
}

// PosString renders a position relative to the repository.
func (m *M) PosString(p token.Pos) string { return m.posString(p) }

// ScoreGroups partitions parameters that are added up into one score: those
// that occur with the same sign in a comparison.
func (m *M) ScoreGroups(params []V) [][]V {
	par := map[int]int{}
	var ids []int
	for _, p := range params {
		if id := m.ParamID(p); id >= 0 {
			par[id] = id
			ids = append(ids, id)
		}
	}
	var find func(int) int
	find = func(x int) int {
		for par[x] != x {
			x = par[x]
		}
		return x
	}
	for _, c := range m.cmpMeaning {
		var last [2]int
		var have [2]bool
		for _, t := range c.P.terms {
			if len(t.mono) != 1 {
				continue
			}
			id := t.mono[0]
			if _, ok := par[id]; !ok {
				continue
			}
			s := 0
			if t.c.Sign() < 0 {
				s = 1
			}
			if have[s] {
				a, b := find(last[s]), find(id)
				if a != b {
					if a < b {
						par[b] = a
					} else {
						par[a] = b
					}
				}
			}
			last[s], have[s] = id, true
		}
	}
	idx := map[int]int{}
	var out [][]V
	for i, p := range params {
		_ = i
		id := m.ParamID(p)
		if id < 0 {
			continue
		}
		r := find(id)
		k, ok := idx[r]
		if !ok {
			k = len(out)
			idx[r] = k
			out = append(out, nil)
		}
		out[k] = append(out[k], p)
	}
	return out
}

// Freshen replaces every symbolic bit reachable from v by a free one (equal
// bits by equal ones, complements by complements): what follows is analysed
// for independent bits.
func (m *M) Freshen(v V) V { return m.FreshenSome(v, nil) }

// FreshenSome keeps only some of the bits free; the others become constants.
func (m *M) FreshenSome(v V, free func(k int) (keep, val bool)) V {
	memo := map[bdd.Node]bdd.Node{}
	fresh := func(n bdd.Node) bdd.Node {
		if n == bdd.True || n == bdd.False {
			return n
		}
		if x, ok := memo[n]; ok {
			return x
		}
		x := bdd.True
		keep, val := true, false
		if free != nil {
			keep, val = free(len(memo) / 2)
		}
		if keep {
			x = m.B.NewVar(fmt.Sprintf("m%d", len(memo)/2))
		} else if !val {
			x = bdd.False
		}
		memo[n] = x
		memo[m.B.Not(n)] = m.B.Not(x)
		return x
	}
	seen := map[any]bool{}
	var walk func(v V) V
	walk = func(v V) V {
		switch v.K {
		case KBool:
			return BoolN(fresh(v.Node()))
		case KBV:
			bs := append([]bdd.Node(nil), m.Bits(v)...)
			for i := range bs {
				bs[i] = fresh(bs[i])
			}
			return m.FromBits(bs, v.S)
		case KChoice:
			// equally shaped slices become one, with what they have in
			// each place merged
			alts := v.X.([]Alt)
			for _, a := range alts {
				if a.V.K != KSlice || a.V.X == nil || a.V.X.(*SliceV).Len != alts[0].V.X.(*SliceV).Len {
					return v
				}
			}
			cells := func(k int) []V {
				s := alts[k].V.X.(*SliceV)
				return s.Obj.Cells[s.Off : s.Off+s.Len*s.Esz]
			}
			last := len(alts) - 1
			for i := range cells(0) {
				x := cells(last)[i]
				for k := last - 1; k >= 0; k-- {
					x = m.Merge(alts[k].C, cells(k)[i], x)
				}
				cells(0)[i] = x
			}
			return walk(alts[0].V)
		case KStruct, KTuple:
			xs := v.X.([]V)
			ys := make([]V, len(xs))
			for i := range xs {
				ys[i] = walk(xs[i])
			}
			v.X = ys
		case KIface:
			if v.X != nil && v.X.(*IfaceV).Host == nil {
				i := v.X.(*IfaceV)
				return V{K: KIface, X: &IfaceV{T: i.T, V: walk(i.V)}}
			}
		case KPtr:
			if v.X != nil && !seen[v.X] {
				seen[v.X] = true
				o := v.X.(*Obj)
				for i := range o.Cells {
					o.Cells[i] = walk(o.Cells[i])
				}
			}
		case KSlice:
			if v.X != nil {
				o := v.X.(*SliceV).Obj
				if !seen[o] {
					seen[o] = true
					for i := range o.Cells {
						o.Cells[i] = walk(o.Cells[i])
					}
				}
			}
		case KMap:
			if v.X != nil && !seen[v.X] {
				seen[v.X] = true
				for _, e := range v.X.(*MapObj).M {
					e.V = walk(e.V)
				}
			}
		}
		return v
	}
	return walk(v)
}
