package checks

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/text/encoding/japanese"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"
	"verif/analyzer/oracle"
)

// symbolic characters. Every character is a table lookup over free bits, so no
// constraint on the atoms is needed: all members of the class are covered.

// pick selects among byte strings of equal length by k free bits; the last
// entry repeats.
func pick(m *absint.M, name string, tab [][]byte, vals []int, nbits int) (out []absint.V, val absint.V) {
	k := 0
	for 1<<k < len(tab) {
		k++
	}
	atoms := make([]bdd.Node, k)
	for i := range atoms {
		atoms[i] = m.B.NewVar(fmt.Sprintf("%s.%d", name, k-1-i))
	}
	at := func(i int) int {
		if i >= len(tab) {
			return len(tab) - 1
		}
		return i
	}
	var sel func(lvl, base int, bit func(i int) bool) bdd.Node
	sel = func(lvl, base int, bit func(i int) bool) bdd.Node {
		if lvl == k {
			if bit(at(base)) {
				return bdd.True
			}
			return bdd.False
		}
		if base >= len(tab) {
			if bit(len(tab) - 1) {
				return bdd.True
			}
			return bdd.False
		}
		lo := sel(lvl+1, base, bit)
		hi := sel(lvl+1, base+1<<(k-1-lvl), bit)
		return m.B.Ite(atoms[lvl], hi, lo)
	}
	for j := range tab[0] {
		bs := make([]bdd.Node, 8)
		for b := range bs {
			bs[b] = sel(0, 0, func(i int) bool { return tab[i][j]>>b&1 == 1 })
		}
		out = append(out, m.FromBits(bs, false))
	}
	vb := make([]bdd.Node, 64)
	for b := range vb {
		if b < nbits {
			vb[b] = sel(0, 0, func(i int) bool { return vals[i]>>b&1 == 1 })
		} else {
			vb[b] = bdd.False
		}
	}
	return out, m.FromBits(vb, true)
}

const alnumChars = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"

var digitTab, alnumTab [][]byte
var identVals []int

type kanjiEnt struct {
	r   rune
	val int
}

var kanjiAll []kanjiEnt // all ideographs Kanji mode can hold

func isCJK(r rune) bool {
	return r >= 0x4E00 && r <= 0x9FFF || r >= 0x3400 && r <= 0x4DBF || r >= 0xF900 && r <= 0xFAFF
}

func init() {
	for i := 0; i < 10; i++ {
		digitTab = append(digitTab, []byte{byte('0' + i)})
	}
	for i := 0; i < len(alnumChars); i++ {
		alnumTab = append(alnumTab, []byte{alnumChars[i]})
	}
	for i := 0; i < 8192; i++ {
		identVals = append(identVals, i)
	}
	enc := japanese.ShiftJIS.NewEncoder()
	for r := rune(0x3400); r <= 0xFAFF; r++ {
		if !isCJK(r) {
			continue
		}
		b, err := enc.Bytes([]byte(string(r)))
		if err != nil || len(b) != 2 {
			continue
		}
		if v, ok := kanjiVal(b[0], b[1]); ok {
			kanjiAll = append(kanjiAll, kanjiEnt{r, v})
		}
	}
}

func kanjiVal(hi, lo byte) (int, bool) {
	s := int(hi)<<8 | int(lo)
	switch {
	case s >= 0x8140 && s <= 0x9FFC:
		s -= 0x8140
	case s >= 0xE040 && s <= 0xEBBF:
		s -= 0xC140
	default:
		return 0, false
	}
	return s>>8*0xC0 + s&0xFF, true
}

// text is a symbolic text with the standard's value of every character.
type text struct {
	bytes []absint.V
	vals  []absint.V
	n     int
}

func mkText(m *absint.M, mode, n int) text {
	t := text{n: n}
	var ktab [][]byte
	var kval []int
	if mode == oracle.Kanji {
		step := len(kanjiAll)/8 + 1
		for i := 0; i < 8; i++ {
			e := kanjiAll[(i*step)%len(kanjiAll)]
			ktab = append(ktab, []byte(string(e.r)))
			kval = append(kval, e.val)
		}
	}
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("c%d", i)
		switch mode {
		case oracle.Numeric:
			b, v := pick(m, nm, digitTab, identVals, 4)
			t.bytes, t.vals = append(t.bytes, b...), append(t.vals, v)
		case oracle.Alnum:
			b, v := pick(m, nm, alnumTab, identVals, 6)
			t.bytes, t.vals = append(t.bytes, b...), append(t.vals, v)
		case oracle.Byte:
			b := m.FreeByte(nm, i)
			t.bytes, t.vals = append(t.bytes, b), append(t.vals, b)
		case oracle.Kanji:
			// a few symbolic characters among concrete ones
			if i < 3 || i == n-1 || i%97 == 50 {
				b, v := pick(m, nm, ktab, kval, 13)
				t.bytes, t.vals = append(t.bytes, b...), append(t.vals, v)
			} else {
				e := kanjiAll[(i*131)%len(kanjiAll)]
				for _, x := range []byte(string(e.r)) {
					t.bytes = append(t.bytes, absint.MkInt(int64(x), 8, false))
				}
				t.vals = append(t.vals, absint.Int(int64(e.val)))
			}
		}
	}
	return t
}

var tInt = types.Typ[types.Int]

func lowBits(m *absint.M, v absint.V, n int) []bdd.Node {
	bs := m.Bits(v)
	out := make([]bdd.Node, n)
	for i := range out {
		if k := n - 1 - i; k < len(bs) {
			out[i] = bs[k]
		} else {
			out[i] = bdd.False
		}
	}
	return out
}

func constBits(v, n int) []bdd.Node {
	out := make([]bdd.Node, n)
	for i := range out {
		out[i] = bdd.Node(v >> (n - 1 - i) & 1)
	}
	return out
}

// payload is the standard's segment data of a text.
func (t text) payload(m *absint.M, mode int) []bdd.Node {
	var out []bdd.Node
	muladd := func(a absint.V, k int64, b absint.V) absint.V {
		return m.BinOp(token.ADD, m.BinOp(token.MUL, a, absint.Int(k), tInt), b, tInt)
	}
	switch mode {
	case oracle.Numeric:
		for i := 0; i < t.n; i += 3 {
			v, w := t.vals[i], 4
			if i+1 < t.n {
				v, w = muladd(v, 10, t.vals[i+1]), 7
			}
			if i+2 < t.n {
				v, w = muladd(v, 10, t.vals[i+2]), 10
			}
			out = append(out, lowBits(m, v, w)...)
		}
	case oracle.Alnum:
		for i := 0; i < t.n; i += 2 {
			v, w := t.vals[i], 6
			if i+1 < t.n {
				v, w = muladd(v, 45, t.vals[i+1]), 11
			}
			out = append(out, lowBits(m, v, w)...)
		}
	case oracle.Byte:
		for _, v := range t.vals {
			out = append(out, lowBits(m, v, 8)...)
		}
	case oracle.Kanji:
		for _, v := range t.vals {
			out = append(out, lowBits(m, v, 13)...)
		}
	}
	return out
}

// EncRun is the analysed data encoding of one text.
type EncRun struct {
	m     *absint.M
	bits  []bdd.Node // the message codewords
	cond  bdd.Node
	where string
	err   bdd.Node // condition of an error return
	nilQR bdd.Node // condition under which the symbol returned is nil
	ret   bool     // the constructor returned
	ec    int      // error correction codewords
	nblk  int
}

// version is the version and level the block structure belongs to.
func (e *EncRun) version() (ver, lvl int) {
	for v := 1; v <= 40; v++ {
		for l := 0; l < 4; l++ {
			if len(e.bits) == oracle.DataCodewords(v, l)*8 && e.ec == oracle.NumBlocks(v, l)*oracle.ECPerBlock(v, l) && e.nblk == oracle.NumBlocks(v, l) {
				return v, l
			}
		}
	}
	return 0, 0
}

// encode analyses the construction up to the error correction step: the
// message codewords are what the Reed-Solomon encoder is given. With total < 0
// the analysis ends when no further block follows.
func encode(m *absint.M, p *absint.Program, harn string, total int, args ...absint.V) *EncRun {
	e := &EncRun{m: m, cond: bdd.True}
	m.ScoreAbort = true
	m.RSHook = func(m *absint.M, a []absint.V) (absint.V, bool) {
		d := m.BinaryBits(a[0])
		if e.where == "" {
			e.where = m.Where()
		}
		e.bits = append(e.bits, d...)
		e.cond = m.PC
		e.nblk++
		if a[1].K == absint.KInt {
			e.ec += int(a[1].N)
		}
		if total < 0 {
			m.StopAfter = m.Instrs + 60_000
		} else if len(e.bits) >= total {
			panic(absint.Stop{Reason: "all message codewords seen"})
		}
		return m.RSDefault(a)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(absint.Stop); ok {
					return
				}
				panic(r)
			}
		}()
		t, dead := call(m, p, harn, args...)
		if !dead {
			e.ret = true
			e.err = m.B.Not(m.NilCond(tup(t, 1)))
			e.nilQR = m.NilCond(tup(t, 0))
		}
	}()
	return e
}

type encCase struct{ mode, ver, lvl, n int }

func (e encCase) name() string {
	return fmt.Sprintf("%s mode, version %d-%s, %d characters", modeName[e.mode], e.ver, oracle.LevelName[e.lvl], e.n)
}

var modeName = []string{"auto", "numeric", "alphanumeric", "kanji", "byte"}

// eachEnc analyses the encoding of symbolic texts.
func eachEnc(c *Ctx, cases []encCase, f func(k encCase, e *EncRun, t text)) {
	p := c.Core()
	c.Par(len(cases), func(i int) {
		k := cases[len(cases)-1-i]
		m := absint.NewM(p)
		c.Guard(k.name(), m, func() {
			defer m.Close()
			t := mkText(m, k.mode, k.n)
			tot := oracle.DataCodewords(k.ver, k.lvl) * 8
			e := encode(m, p, "New", tot, absint.MkSymStr(t.bytes), absint.Int(int64(k.mode)), absint.Int(int64(k.ver)), absint.Int(int64(k.lvl)), absint.Int(none))
			c.Unit("encodings of symbolic texts", 1)
			if e.ret && e.err != bdd.False {
				c.Fail("encodes", k.name(), e.where, "a text that fits is refused when %s", m.PrettyCond(e.err))
				return
			}
			if len(e.bits) == 0 {
				c.Fail("encodes", k.name(), e.where, "no message codewords reach the error correction step (panics: %v)", m.Panics)
				return
			}
			if len(e.bits) != tot {
				c.Fail("encodes", k.name(), e.where, "the message has %d bits, the symbol holds %d", len(e.bits), tot)
				return
			}
			if m.B.Not(e.cond) != bdd.False {
				c.Fail("encodes", k.name(), e.where, "only some of the texts are encoded: %s (panics: %v)", m.PrettyCond(e.cond), m.Panics)
				return
			}
			f(k, e, t)
		})
	})
}

// cmpBits compares a range of the message.
func cmpBits(c *Ctx, rule string, k encCase, e *EncRun, at int, want []bdd.Node, what string) {
	for i, w := range want {
		if at+i >= len(e.bits) || e.bits[at+i] != w {
			got := "nothing"
			if at+i < len(e.bits) {
				got = e.m.PrettyCond(e.bits[at+i])
			}
			c.Fail(rule, k.name(), e.where, "bit %d of the message (%s, bit %d of it) must be %s, the analysis finds %s", at+i, what, i, e.m.PrettyCond(w), got)
			return
		}
	}
	c.Ok(rule, len(want))
}

// lengths to analyse for a capacity.
func lens(n int, tail int, more ...int) []int {
	seen := map[int]bool{}
	var out []int
	add := func(k int) {
		if k >= 0 && k <= n && !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	for _, k := range more {
		add(k)
	}
	for i := 0; i < tail; i++ {
		add(n - i)
	}
	return out
}

func segCases(c *Ctx, mode int) []encCase {
	var cs []encCase
	for v := 1; v <= 40; v++ {
		for l := 0; l < 4; l++ {
			if !c.Thorough() && (v+l)%4 != 1 && !(v == 40 && l == 0) {
				continue
			}
			n := oracle.Cap(v, l, mode)
			for _, k := range lens(n, 3, 0, 1, 2, 3, 4, 5, 7) {
				cs = append(cs, encCase{mode, v, l, k})
			}
		}
	}
	return cs
}

func segCheck(c *Ctx, mode int) {
	eachEnc(c, segCases(c, mode), func(k encCase, e *EncRun, t text) {
		cmpBits(c, "mode-indicator", k, e, 0, constBits(oracle.Indicator(k.mode), 4), "mode indicator")
		at := 4 + oracle.CountBits(k.ver, k.mode)
		cmpBits(c, "segment-data", k, e, at, t.payload(e.m, k.mode), "segment data")
	})
}

func init() {
	register(&Check{ID: "E01", Title: "Numeric and alphanumeric segments carry the standard's groups",
		Rule: "Abstract interpretation of the constructor on texts whose characters are all symbolic (every digit, every one of the 45 alphanumeric characters) for every version and lengths covering every group remainder up to capacity: the mode indicator and the 10/7/4-bit and 11/6-bit groups of the message equal the standard's value functions as boolean functions of the characters.",
		Min:  300_000, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			segCheck(c, oracle.Numeric)
			segCheck(c, oracle.Alnum)
		}})
	register(&Check{ID: "E02", Title: "Byte segments carry every byte unchanged",
		Rule: "As for numeric texts, with every byte of the text symbolic (all 256 values, whether or not they form valid UTF-8): the message holds the byte indicator and the bytes in order, eight bits each.",
		Min:  300_000, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			segCheck(c, oracle.Byte)
		}})
	register(&Check{ID: "E03", Title: "Kanji segments carry 13-bit Shift JIS values",
		Rule: "One symbolic character ranging over every ideograph with a Shift JIS code in the two Kanji ranges, and longer texts mixing symbolic and fixed characters for every version: indicator and 13-bit values equal the standard's compression of the Shift JIS code.",
		Min:  50_000, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			c.Assume("the Shift JIS table is that of golang.org/x/text; the analyzer reads it from the dependency")
			segCheck(c, oracle.Kanji)
			// every ideograph
			p := c.Core()
			const chunk = 256
			n := (len(kanjiAll) + chunk - 1) / chunk
			c.Par(n, func(i int) {
				ents := kanjiAll[i*chunk:]
				if len(ents) > chunk {
					ents = ents[:chunk]
				}
				var tab [][]byte
				var vals []int
				for _, e := range ents {
					tab = append(tab, []byte(string(e.r)))
					vals = append(vals, e.val)
				}
				m := absint.NewM(p)
				k := encCase{oracle.Kanji, 1, 0, 1}
				unit := fmt.Sprintf("ideographs U+%04X..U+%04X", ents[0].r, ents[len(ents)-1].r)
				c.Guard(unit, m, func() {
					defer m.Close()
					b, v := pick(m, "k", tab, vals, 13)
					tot := oracle.DataCodewords(1, 0) * 8
					e := encode(m, p, "New", tot, absint.MkSymStr(b), absint.Int(3), absint.Int(1), absint.Int(0), absint.Int(none))
					if len(e.bits) != tot || e.cond != bdd.True || e.ret {
						c.Fail("kanji-range", unit, e.where, "not every ideograph is encoded (%d bits, when %s)", len(e.bits), m.PrettyCond(e.cond))
						return
					}
					cmpBits(c, "kanji-value", k, e, 4+8, lowBits(m, v, 13), unit)
					c.Unit("ideographs", len(ents))
				})
			})
		}})
	register(&Check{ID: "E04", Title: "Character count indicator: width per version and value",
		Rule: "For every version, mode and lengths from empty to capacity (texts symbolic): the count field has the standard's width for the version range and holds the number of characters (bytes in byte mode, characters in the others).",
		Min:  9_000, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			var cs []encCase
			for mode := 1; mode <= 4; mode++ {
				for v := 1; v <= 40; v++ {
					for l := 0; l < 4; l++ {
						if !c.Thorough() && (v+l)%4 != 3 && !(v == 40 && l == 0) {
							continue
						}
						n := oracle.Cap(v, l, mode)
						more := []int{0, 1, 2, 255, 256, 511, 512, 1023, 1024}
						if c.Thorough() {
							more = append(more, n/2, n/3, 2047, 2048, 4095, 4096)
						}
						for _, k := range lens(n, 1, more...) {
							cs = append(cs, encCase{mode, v, l, k})
						}
					}
				}
			}
			eachEnc(c, cs, func(k encCase, e *EncRun, t text) {
				w := oracle.CountBits(k.ver, k.mode)
				cmpBits(c, "count-field", k, e, 4, constBits(k.n, w), "character count")
				// the field ends where the data starts
				if p := t.payload(e.m, k.mode); len(p) > 0 {
					cmpBits(c, "count-width", k, e, 4+w, p[:min(len(p), 8)], "segment data after the count")
				}
			})
		}})
	register(&Check{ID: "E05", Title: "Terminator, bit padding and pad codewords",
		Rule: "For every version, mode and lengths around the capacity and around empty (texts symbolic): after the segment come min(4, rest) zero bits, zeros to the codeword boundary and the pad codewords 0xEC, 0x11 alternating until the message exactly fills the data codewords.",
		Min:  300_000, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			var cs []encCase
			for mode := 1; mode <= 4; mode++ {
				for v := 1; v <= 40; v++ {
					for l := 0; l < 4; l++ {
						if !c.Thorough() && (v+l)%4 != 2 && !(v == 40 && l == 0) {
							continue
						}
						n := oracle.Cap(v, l, mode)
						tail := 6
						if c.Thorough() {
							tail = 12
						}
						for _, k := range lens(n, tail, 0, 1, 2, n/2) {
							cs = append(cs, encCase{mode, v, l, k})
						}
					}
				}
			}
			eachEnc(c, cs, func(k encCase, e *EncRun, t text) {
				at := 4 + oracle.CountBits(k.ver, k.mode) + oracle.PayloadBits(k.mode, k.n)
				tot := oracle.DataCodewords(k.ver, k.lvl) * 8
				var want []bdd.Node
				for i := 0; i < 4 && at+len(want) < tot; i++ {
					want = append(want, bdd.False)
				}
				nt := len(want)
				for (at+len(want))%8 != 0 {
					want = append(want, bdd.False)
				}
				cmpBits(c, "terminator", k, e, at, want, fmt.Sprintf("terminator of %d bits and alignment", nt))
				at += len(want)
				var pad []bdd.Node
				for i := 0; at+len(pad) < tot; i++ {
					pad = append(pad, constBits([]int{0xEC, 0x11}[i%2], 8)...)
				}
				cmpBits(c, "pad-codewords", k, e, at, pad, "pad codewords")
			})
		}})
}
