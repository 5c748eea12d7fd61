// Package bdd is a small hash-consed reduced ordered binary decision diagram
// library. It is the boolean part of the abstract domain.
package bdd

// Node is an index in the manager's table. 0 is false, 1 is true.
type Node int32

const (
	False Node = 0
	True  Node = 1
)

const terminalVar = int32(1 << 30)

type iteKey struct{ f, g, h Node }

// Manager owns the nodes.
type Manager struct {
	vr     []int32
	lo, hi []Node
	table  []Node // open addressing hash table
	mask   uint32
	cache  []cacheEnt
	cmask  uint32
	nvars  int32
	names  []string
}

type cacheEnt struct {
	k iteKey
	r Node
}

func New() *Manager {
	m := &Manager{}
	m.vr = []int32{terminalVar, terminalVar}
	m.lo = []Node{0, 1}
	m.hi = []Node{0, 1}
	m.table = make([]Node, 1<<12)
	m.mask = 1<<12 - 1
	m.cache = make([]cacheEnt, 1<<14)
	m.cmask = 1<<14 - 1
	return m
}

// NewVar allocates a fresh variable at the end of the order.
func (m *Manager) NewVar(name string) Node {
	v := m.nvars
	m.nvars++
	m.names = append(m.names, name)
	return m.mk(v, False, True)
}

func (m *Manager) NumVars() int           { return int(m.nvars) }
func (m *Manager) NumNodes() int          { return len(m.vr) }
func (m *Manager) VarName(v int32) string { return m.names[v] }
func (m *Manager) Var(n Node) int32       { return m.vr[n] }
func (m *Manager) Lo(n Node) Node         { return m.lo[n] }
func (m *Manager) Hi(n Node) Node         { return m.hi[n] }

func hash3(a, b, c uint32) uint32 {
	h := a*0x9e3779b1 ^ b*0x85ebca77 ^ c*0xc2b2ae3d
	h ^= h >> 15
	h *= 0x2c1b3c6d
	h ^= h >> 13
	return h
}

func (m *Manager) mk(v int32, lo, hi Node) Node {
	if lo == hi {
		return lo
	}
	h := hash3(uint32(v), uint32(lo), uint32(hi)) & m.mask
	for {
		n := m.table[h]
		if n == 0 {
			break
		}
		if m.vr[n] == v && m.lo[n] == lo && m.hi[n] == hi {
			return n
		}
		h = (h + 1) & m.mask
	}
	n := Node(len(m.vr))
	m.vr = append(m.vr, v)
	m.lo = append(m.lo, lo)
	m.hi = append(m.hi, hi)
	m.table[h] = n
	if uint32(len(m.vr))*2 > m.mask {
		m.grow()
	}
	return n
}

func (m *Manager) grow() {
	size := (m.mask + 1) * 4
	m.table = make([]Node, size)
	m.mask = size - 1
	for i := 2; i < len(m.vr); i++ {
		h := hash3(uint32(m.vr[i]), uint32(m.lo[i]), uint32(m.hi[i])) & m.mask
		for m.table[h] != 0 {
			h = (h + 1) & m.mask
		}
		m.table[h] = Node(i)
	}
	if m.cmask < 1<<20 {
		m.cache = make([]cacheEnt, (m.cmask+1)*4)
		m.cmask = uint32(len(m.cache)) - 1
	}
}

// Ite is if f then g else h.
func (m *Manager) Ite(f, g, h Node) Node {
	if f == True {
		return g
	}
	if f == False {
		return h
	}
	if g == h {
		return g
	}
	if g == True && h == False {
		return f
	}
	if f == g {
		g = True
	} else if f == h {
		h = False
	}
	if g == True && h == False {
		return f
	}
	if g == h {
		return g
	}
	k := iteKey{f, g, h}
	ci := hash3(uint32(f), uint32(g), uint32(h)) & m.cmask
	if e := &m.cache[ci]; e.k == k && e.k.f != 0 {
		return e.r
	}
	v := m.vr[f]
	if m.vr[g] < v {
		v = m.vr[g]
	}
	if m.vr[h] < v {
		v = m.vr[h]
	}
	f0, f1 := m.cof(f, v)
	g0, g1 := m.cof(g, v)
	h0, h1 := m.cof(h, v)
	l := m.Ite(f0, g0, h0)
	r := m.Ite(f1, g1, h1)
	res := m.mk(v, l, r)
	ci = hash3(uint32(f), uint32(g), uint32(h)) & m.cmask
	m.cache[ci] = cacheEnt{k, res}
	return res
}

func (m *Manager) cof(n Node, v int32) (Node, Node) {
	if m.vr[n] == v {
		return m.lo[n], m.hi[n]
	}
	return n, n
}

func (m *Manager) Not(f Node) Node {
	if f <= 1 {
		return 1 - f
	}
	return m.Ite(f, False, True)
}
func (m *Manager) And(f, g Node) Node {
	if f > g {
		f, g = g, f
	}
	return m.Ite(f, g, False)
}
func (m *Manager) Or(f, g Node) Node {
	if f > g {
		f, g = g, f
	}
	return m.Ite(f, True, g)
}
func (m *Manager) Xor(f, g Node) Node {
	if f <= 1 {
		if f == True {
			return m.Not(g)
		}
		return g
	}
	return m.Ite(f, m.Not(g), g)
}
func (m *Manager) Xnor(f, g Node) Node    { return m.Not(m.Xor(f, g)) }
func (m *Manager) Implies(f, g Node) bool { return m.And(f, m.Not(g)) == False }

// Disjoint reports f and g cannot hold together.
func (m *Manager) Disjoint(f, g Node) bool { return m.And(f, g) == False }

// Eval walks n under the assignment.
func (m *Manager) Eval(n Node, assign func(v int32) bool) bool {
	for n > 1 {
		if assign(m.vr[n]) {
			n = m.hi[n]
		} else {
			n = m.lo[n]
		}
	}
	return n == True
}

// Restrict fixes variables (given as var -> value) in f.
func (m *Manager) Restrict(f Node, val map[int32]bool) Node {
	memo := map[Node]Node{}
	var rec func(Node) Node
	rec = func(n Node) Node {
		if n <= 1 {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		var r Node
		if b, ok := val[m.vr[n]]; ok {
			if b {
				r = rec(m.hi[n])
			} else {
				r = rec(m.lo[n])
			}
		} else {
			l, h := rec(m.lo[n]), rec(m.hi[n])
			r = m.Ite(m.mk(m.vr[n], False, True), h, l)
		}
		memo[n] = r
		return r
	}
	return rec(f)
}

// SatOne returns one satisfying assignment of f (nil when unsatisfiable).
func (m *Manager) SatOne(f Node) map[int32]bool {
	if f == False {
		return nil
	}
	out := map[int32]bool{}
	for f > 1 {
		if m.lo[f] != False {
			out[m.vr[f]] = false
			f = m.lo[f]
		} else {
			out[m.vr[f]] = true
			f = m.hi[f]
		}
	}
	return out
}

// Support lists the variables f depends on.
func (m *Manager) Support(f Node) []int32 {
	seen := map[Node]bool{}
	vars := map[int32]bool{}
	var rec func(Node)
	rec = func(n Node) {
		if n <= 1 || seen[n] {
			return
		}
		seen[n] = true
		vars[m.vr[n]] = true
		rec(m.lo[n])
		rec(m.hi[n])
	}
	rec(f)
	out := make([]int32, 0, len(vars))
	for v := range vars {
		out = append(out, v)
	}
	return out
}

// RestrictFn fixes the variables get knows; memo may be shared by calls with
// the same get.
func (m *Manager) RestrictFn(f Node, get func(v int32) (val, known bool), memo map[Node]Node) Node {
	if f <= 1 {
		return f
	}
	if r, ok := memo[f]; ok {
		return r
	}
	var r Node
	v := m.vr[f]
	if b, ok := get(v); ok {
		if b {
			r = m.RestrictFn(m.hi[f], get, memo)
		} else {
			r = m.RestrictFn(m.lo[f], get, memo)
		}
	} else {
		l, h := m.RestrictFn(m.lo[f], get, memo), m.RestrictFn(m.hi[f], get, memo)
		r = m.Ite(m.mk(v, False, True), h, l)
	}
	memo[f] = r
	return r
}
