package absint

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"verif/analyzer/bdd"
)

// Num is a hash-consed polynomial with rational coefficients over atoms.
// Int tells whether it denotes a Go integer (else a float, read as a real).
type Num struct {
	ID    int
	Int   bool
	terms []term // sorted by mono key
	key   string
}

type term struct {
	mono []int // sorted atom ids (with repetition)
	c    *big.Rat
}

// Atom is an indeterminate of the polynomials: a named parameter or an
// uninterpreted application (op, args).
type Atom struct {
	ID    int
	Name  string
	Op    string // "" for a parameter
	Args  []V
	Int   bool
	HasLo bool
	HasHi bool
	Lo    int64
	Hi    int64
}

// CmpAtom is the meaning of a BDD variable made by a comparison.
type CmpAtom struct {
	Op string // "<=0" or "==0" or "<0"
	P  *Num
}

func (n *Num) String() string {
	if len(n.terms) == 0 {
		return "0"
	}
	var p []string
	for _, t := range n.terms {
		s := t.c.RatString()
		for _, a := range t.mono {
			s += fmt.Sprintf("*a%d", a)
		}
		p = append(p, s)
	}
	return strings.Join(p, "+")
}

// Pretty prints with atom names.
func (m *M) Pretty(v V) string {
	switch v.K {
	case KNum:
		n := v.X.(*Num)
		if len(n.terms) == 0 {
			return "0"
		}
		var p []string
		for _, t := range n.terms {
			var f []string
			if len(t.mono) == 0 || t.c.Cmp(big.NewRat(1, 1)) != 0 {
				f = append(f, t.c.RatString())
			}
			for _, a := range t.mono {
				f = append(f, m.atomName(a))
			}
			p = append(p, strings.Join(f, "*"))
		}
		return strings.Join(p, " + ")
	case KChoice:
		var p []string
		for _, a := range v.X.([]Alt) {
			p = append(p, m.PrettyCond(a.C)+"?"+m.Pretty(a.V))
		}
		return "(" + strings.Join(p, " | ") + ")"
	case KStruct, KTuple:
		var p []string
		for _, x := range v.X.([]V) {
			p = append(p, m.Pretty(x))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	return v.String()
}

func (m *M) atomName(a int) string {
	at := m.atoms[a]
	if at.Op == "" {
		return at.Name
	}
	var p []string
	for _, x := range at.Args {
		p = append(p, m.Pretty(x))
	}
	return at.Op + "(" + strings.Join(p, ",") + ")"
}

func monoKey(mono []int) string {
	var b strings.Builder
	for _, a := range mono {
		fmt.Fprintf(&b, "%d.", a)
	}
	return b.String()
}

func (m *M) mkNum(isInt bool, ts map[string]term) V {
	keys := make([]string, 0, len(ts))
	for k, t := range ts {
		if t.c.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		if isInt {
			return Int(0)
		}
		return Flt(0)
	}
	if len(keys) == 1 && keys[0] == "" {
		c := ts[""].c
		if isInt {
			if c.IsInt() && c.Num().IsInt64() {
				return Int(c.Num().Int64())
			}
		} else {
			f, _ := c.Float64()
			return Flt(f)
		}
	}
	var b strings.Builder
	if isInt {
		b.WriteByte('i')
	} else {
		b.WriteByte('f')
	}
	n := &Num{Int: isInt}
	for _, k := range keys {
		t := ts[k]
		n.terms = append(n.terms, t)
		b.WriteString(t.c.RatString())
		b.WriteByte('*')
		b.WriteString(k)
		b.WriteByte('+')
	}
	key := b.String()
	if o, ok := m.nums[key]; ok {
		return V{K: KNum, W: 64, S: true, X: o}
	}
	n.key = key
	n.ID = len(m.nums)
	m.nums[key] = n
	return V{K: KNum, W: 64, S: true, X: n}
}

// NewParam makes a named numeric parameter with an optional range.
func (m *M) NewParam(name string, isInt bool, lo, hi *int64) V {
	a := &Atom{ID: len(m.atoms), Name: name, Int: isInt}
	if lo != nil {
		a.HasLo, a.Lo = true, *lo
	}
	if hi != nil {
		a.HasHi, a.Hi = true, *hi
	}
	m.atoms = append(m.atoms, a)
	return m.atomV(a)
}

// IntParam is an integer parameter in [lo,hi].
func (m *M) IntParam(name string, lo, hi int64) V { return m.NewParam(name, true, &lo, &hi) }

func (m *M) atomV(a *Atom) V {
	return m.mkNum(a.Int, map[string]term{monoKey([]int{a.ID}): {[]int{a.ID}, big.NewRat(1, 1)}})
}

// AppAtom is the hash-consed application op(args).
func (m *M) AppAtom(op string, isInt bool, args ...V) V {
	var b strings.Builder
	b.WriteString(op)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(m.valKey(a))
	}
	k := b.String()
	if a, ok := m.appAtoms[k]; ok {
		return m.atomV(a)
	}
	a := &Atom{ID: len(m.atoms), Op: op, Args: args, Int: isInt}
	m.atoms = append(m.atoms, a)
	m.appAtoms[k] = a
	return m.atomV(a)
}

func (m *M) valKey(v V) string {
	switch v.K {
	case KNum:
		return fmt.Sprintf("n%d", v.X.(*Num).ID)
	case KInt:
		return fmt.Sprintf("i%d", v.N)
	case KFloat:
		return fmt.Sprintf("f%d", v.N)
	case KStr:
		return v.String()
	case KOpaque:
		return fmt.Sprintf("o%d", v.X.(*Opaque).ID)
	case KStruct, KTuple:
		s := "{"
		for _, x := range v.X.([]V) {
			s += m.valKey(x) + ","
		}
		return s + "}"
	}
	return v.String()
}

func (m *M) toNum(v V, isInt bool) (map[string]term, bool) {
	switch v.K {
	case KInt:
		c := new(big.Rat)
		if v.W == 64 && !v.S {
			c.SetInt(new(big.Int).SetUint64(uint64(v.N)))
		} else {
			c.SetInt64(v.N)
		}
		return map[string]term{"": {nil, c}}, true
	case KFloat:
		f := v.Float()
		if math.IsInf(f, 0) || math.IsNaN(f) {
			return nil, false
		}
		return map[string]term{"": {nil, ratOf(f)}}, true
	case KNum:
		ts := map[string]term{}
		for _, t := range v.X.(*Num).terms {
			ts[monoKey(t.mono)] = t
		}
		return ts, true
	}
	return nil, false
}

// ratOf reads a float constant as the short decimal/rational it was written
// as, so that 1/3.0 and 0.85 behave as the numbers they denote.
func ratOf(f float64) *big.Rat {
	r := new(big.Rat)
	s := fmt.Sprintf("%v", f)
	if _, ok := r.SetString(s); ok {
		return r
	}
	r.SetFloat64(f)
	return r
}

func numIsInt(v V) bool {
	switch v.K {
	case KInt:
		return true
	case KNum:
		return v.X.(*Num).Int
	}
	return false
}

func (m *M) NumAdd(a, b V, sub bool) V {
	isInt := numIsInt(a) && numIsInt(b)
	x, ok1 := m.toNum(a, isInt)
	y, ok2 := m.toNum(b, isInt)
	if !ok1 || !ok2 {
		op := "add"
		if sub {
			op = "sub"
		}
		return m.AppAtom(op, isInt, a, b)
	}
	out := map[string]term{}
	for k, t := range x {
		out[k] = t
	}
	for k, t := range y {
		c := new(big.Rat).Set(t.c)
		if sub {
			c.Neg(c)
		}
		if o, ok := out[k]; ok {
			c.Add(c, o.c)
		}
		out[k] = term{t.mono, c}
	}
	return m.mkNum(isInt, out)
}

func (m *M) NumMul(a, b V) V {
	isInt := numIsInt(a) && numIsInt(b)
	x, ok1 := m.toNum(a, isInt)
	y, ok2 := m.toNum(b, isInt)
	if !ok1 || !ok2 || len(x)*len(y) > 400 {
		return m.AppAtom("mul", isInt, a, b)
	}
	out := map[string]term{}
	for _, t := range x {
		for _, u := range y {
			mono := append(append([]int{}, t.mono...), u.mono...)
			sort.Ints(mono)
			k := monoKey(mono)
			c := new(big.Rat).Mul(t.c, u.c)
			if o, ok := out[k]; ok {
				c.Add(c, o.c)
			}
			out[k] = term{mono, c}
		}
	}
	return m.mkNum(isInt, out)
}

// NumDiv: reals divide exactly by constants; integer division is an atom
// unless the divisor is one.
func (m *M) NumDiv(a, b V) V {
	isInt := numIsInt(a) && numIsInt(b)
	y, ok := m.toNum(b, isInt)
	if ok && len(y) == 1 {
		if t, ok := y[""]; ok && t.c.Sign() != 0 {
			if !isInt {
				inv := new(big.Rat).Inv(t.c)
				x, ok1 := m.toNum(a, false)
				if ok1 {
					out := map[string]term{}
					for k, u := range x {
						out[k] = term{u.mono, new(big.Rat).Mul(u.c, inv)}
					}
					return m.mkNum(false, out)
				}
			} else {
				x, ok1 := m.toNum(a, true)
				if ok1 {
					out := map[string]term{}
					all := true
					for k, u := range x {
						c := new(big.Rat).Quo(u.c, t.c)
						if !c.IsInt() {
							all = false
							break
						}
						out[k] = term{u.mono, c}
					}
					if all {
						return m.mkNum(true, out)
					}
				}
			}
		}
	}
	return m.AppAtom("div", isInt, a, b)
}

// bounds gives an interval for a polynomial when atoms have ranges.
func (m *M) bounds(n *Num) (lo, hi *big.Rat) {
	lo, hi = new(big.Rat), new(big.Rat)
	for _, t := range n.terms {
		tlo, thi := big.NewRat(1, 1), big.NewRat(1, 1)
		for _, a := range t.mono {
			al, ah := m.atomBounds(m.atoms[a])
			if al == nil || ah == nil {
				// one sided bounds only for single-atom monomials
				if len(t.mono) == 1 {
					tlo, thi = al, ah
					break
				}
				if al != nil && al.Sign() >= 0 && tlo != nil && tlo.Sign() >= 0 {
					tlo = new(big.Rat).Mul(tlo, al)
					thi = nil
					continue
				}
				return nil, nil
			}
			if thi == nil {
				if al.Sign() >= 0 && tlo != nil {
					tlo = new(big.Rat).Mul(tlo, al)
					continue
				}
				return nil, nil
			}
			var c [4]*big.Rat
			c[0] = new(big.Rat).Mul(tlo, al)
			c[1] = new(big.Rat).Mul(tlo, ah)
			c[2] = new(big.Rat).Mul(thi, al)
			c[3] = new(big.Rat).Mul(thi, ah)
			tlo, thi = c[0], c[0]
			for _, x := range c[1:] {
				if x.Cmp(tlo) < 0 {
					tlo = x
				}
				if x.Cmp(thi) > 0 {
					thi = x
				}
			}
		}
		if t.c.Sign() < 0 {
			tlo, thi = thi, tlo
		}
		if lo != nil {
			if tlo == nil {
				lo = nil
			} else {
				lo = new(big.Rat).Add(lo, new(big.Rat).Mul(tlo, t.c))
			}
		}
		if hi != nil {
			if thi == nil {
				hi = nil
			} else {
				hi = new(big.Rat).Add(hi, new(big.Rat).Mul(thi, t.c))
			}
		}
	}
	return lo, hi
}

func (m *M) atomBounds(a *Atom) (lo, hi *big.Rat) {
	if a.HasLo {
		lo = big.NewRat(a.Lo, 1)
	}
	if a.HasHi {
		hi = big.NewRat(a.Hi, 1)
	}
	if a.Op == "div" && len(a.Args) == 2 && a.Args[1].K == KInt && a.Args[1].N > 0 && a.Args[0].K == KNum {
		l, h := m.bounds(a.Args[0].X.(*Num))
		d := big.NewRat(a.Args[1].N, 1)
		tr := func(r *big.Rat) *big.Rat {
			q := new(big.Rat).Quo(r, d)
			z := new(big.Int).Quo(q.Num(), q.Denom())
			return new(big.Rat).SetInt(z)
		}
		if l != nil {
			lo = tr(l)
		}
		if h != nil {
			hi = tr(h)
		}
	}
	return
}

// CmpLE0 is the boolean p <= 0.
func (m *M) cmpAtom(op string, p V) bdd.Node {
	switch p.K {
	case KInt:
		switch op {
		case "<=0":
			return b2n(p.N <= 0)
		case "<0":
			return b2n(p.N < 0)
		default:
			return b2n(p.N == 0)
		}
	case KFloat:
		f := p.Float()
		switch op {
		case "<=0":
			return b2n(f <= 0)
		case "<0":
			return b2n(f < 0)
		default:
			return b2n(f == 0)
		}
	}
	n := p.X.(*Num)
	lo, hi := m.bounds(n)
	switch op {
	case "<=0":
		if hi != nil && hi.Sign() <= 0 {
			return bdd.True
		}
		if lo != nil && lo.Sign() > 0 {
			return bdd.False
		}
	case "<0":
		if hi != nil && hi.Sign() < 0 {
			return bdd.True
		}
		if lo != nil && lo.Sign() >= 0 {
			return bdd.False
		}
	case "==0":
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return bdd.False
		}
	}
	// canonical sign: the coefficient of the last monomial is positive
	lead := n.terms[len(n.terms)-1].c
	if lead.Sign() < 0 {
		neg := m.NumMul(p, Int(-1))
		switch op {
		case "==0":
			return m.cmpAtom("==0", neg)
		case "<=0":
			if n.Int {
				return m.B.Not(m.cmpAtom("<=0", m.NumAdd(neg, Int(1), false)))
			}
			return m.B.Not(m.cmpAtom("<0", neg))
		case "<0":
			if n.Int {
				// p<0 == p+1<=0
				return m.cmpAtom("<=0", m.NumAdd(p, Int(1), false))
			}
			return m.B.Not(m.cmpAtom("<=0", neg))
		}
	}
	if op == "<0" && n.Int {
		return m.cmpAtom("<=0", m.NumAdd(p, Int(1), false))
	}
	// scale: divide by the gcd of the coefficients (integers only)
	key := op + fmt.Sprint(n.ID)
	if v, ok := m.cmpVars[key]; ok {
		return v
	}
	nd := m.B.NewVar(op + " " + m.Pretty(p))
	m.cmpVars[key] = nd
	m.cmpMeaning[m.B.Var(nd)] = CmpAtom{op, n}
	return nd
}

func b2n(b bool) bdd.Node {
	if b {
		return bdd.True
	}
	return bdd.False
}

// NumCmp compares two numeric values symbolically; op is one of
// "<","<=","==","!=",">",">=".
func (m *M) NumCmp(op string, a, b V) bdd.Node {
	if a.K == KFloat && (math.IsInf(a.Float(), 0)) || b.K == KFloat && math.IsInf(b.Float(), 0) {
		// comparison of a finite symbolic value with an infinity
		if a.K == KFloat && math.IsInf(a.Float(), 0) {
			big := math.IsInf(a.Float(), 1)
			switch op {
			case "<", "<=":
				return b2n(!big)
			case ">", ">=":
				return b2n(big)
			case "==":
				return bdd.False
			default:
				return bdd.True
			}
		}
		big := math.IsInf(b.Float(), 1)
		switch op {
		case "<", "<=":
			return b2n(big)
		case ">", ">=":
			return b2n(!big)
		case "==":
			return bdd.False
		default:
			return bdd.True
		}
	}
	d := m.NumAdd(a, b, true)
	switch op {
	case "<":
		return m.cmpAtom("<0", d)
	case "<=":
		return m.cmpAtom("<=0", d)
	case ">":
		return m.B.Not(m.cmpAtom("<=0", d))
	case ">=":
		return m.B.Not(m.cmpAtom("<0", d))
	case "==":
		return m.cmpAtom("==0", d)
	default:
		return m.B.Not(m.cmpAtom("==0", d))
	}
}

// EvalNum evaluates a numeric value under an assignment of the parameters.
func (m *M) EvalNum(v V, asg map[int]float64, memo map[int]float64) float64 {
	switch v.K {
	case KInt:
		return float64(v.N)
	case KFloat:
		return v.Float()
	case KNum:
		s := 0.0
		for _, t := range v.X.(*Num).terms {
			f, _ := t.c.Float64()
			for _, a := range t.mono {
				f *= m.evalAtom(m.atoms[a], asg, memo)
			}
			s += f
		}
		return s
	case KChoice:
		for _, a := range v.X.([]Alt) {
			if m.EvalCond(a.C, asg, nil, memo) {
				return m.EvalNum(a.V, asg, memo)
			}
		}
	}
	return math.NaN()
}

func (m *M) evalAtom(a *Atom, asg map[int]float64, memo map[int]float64) float64 {
	if v, ok := asg[a.ID]; ok {
		return v
	}
	if memo != nil {
		if v, ok := memo[a.ID]; ok {
			return v
		}
	}
	var r float64
	ev := func(i int) float64 { return m.EvalNum(a.Args[i], asg, memo) }
	switch a.Op {
	case "div":
		if a.Int {
			r = math.Trunc(ev(0) / ev(1))
		} else {
			r = ev(0) / ev(1)
		}
	case "rem":
		r = math.Mod(ev(0), ev(1))
	case "trunc":
		r = math.Trunc(ev(0))
	case "mul":
		r = ev(0) * ev(1)
	case "add":
		r = ev(0) + ev(1)
	case "sub":
		r = ev(0) - ev(1)
	case "shl":
		r = ev(0) * math.Pow(2, ev(1))
	case "shr":
		r = math.Floor(ev(0) / math.Pow(2, ev(1)))
	default:
		// an uninterpreted value: a pseudo-random but deterministic number
		h := uint64(a.ID)*0x9e3779b97f4a7c15 + 12345
		for k, x := range asg {
			h ^= (uint64(k)*31 + uint64(int64(x*1000))) * 0xff51afd7ed558ccd
		}
		h ^= h >> 33
		r = float64(h % 97)
	}
	if memo != nil {
		memo[a.ID] = r
	}
	return r
}

// EvalCond evaluates a condition under parameter values and a valuation of
// the remaining boolean atoms.
func (m *M) EvalCond(n bdd.Node, asg map[int]float64, bits func(v int32) bool, memo map[int]float64) bool {
	return m.B.Eval(n, func(v int32) bool {
		if c, ok := m.cmpMeaning[v]; ok {
			x := m.EvalNum(V{K: KNum, X: c.P}, asg, memo)
			switch c.Op {
			case "<=0":
				return x <= 1e-9
			case "<0":
				return x < -1e-9
			default:
				return math.Abs(x) < 1e-9
			}
		}
		if bits != nil {
			return bits(v)
		}
		return false
	})
}

// PrettyCond renders a condition (short).
func (m *M) PrettyCond(n bdd.Node) string {
	if n == bdd.True {
		return "true"
	}
	if n == bdd.False {
		return "false"
	}
	sat := m.B.SatOne(n)
	var vs []int
	for v := range sat {
		vs = append(vs, int(v))
	}
	sort.Ints(vs)
	var p []string
	for i, v := range vs {
		if i == 6 {
			p = append(p, "...")
			break
		}
		s := m.B.VarName(int32(v))
		if !sat[int32(v)] {
			s = "!(" + s + ")"
		}
		p = append(p, s)
	}
	return "[" + strings.Join(p, " & ") + "]"
}

// Atoms returns the parameter atoms (not applications).
func (m *M) ParamAtoms() []*Atom {
	var out []*Atom
	for _, a := range m.atoms {
		if a.Op == "" {
			out = append(out, a)
		}
	}
	return out
}
