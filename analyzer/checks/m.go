package checks

import (
	"fmt"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/text/encoding/japanese"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"
	"verif/analyzer/oracle"
)

// charClass is a set of characters of equal length treated alike by the
// standard's modes.
type charClass struct {
	name  string
	tab   [][]byte
	vals  [5][]int // value in the mode (numeric, alnum, kanji)
	modes [5]bool  // modes that can hold the character
}

var classes []charClass

func init() {
	add := func(name string, num, aln, kan bool, tab [][]byte) {
		c := charClass{name: name, tab: tab}
		c.modes[oracle.Numeric], c.modes[oracle.Alnum], c.modes[oracle.Kanji], c.modes[oracle.Byte] = num, aln, kan, true
		classes = append(classes, c)
	}
	add("digit", true, true, false, digitTab)
	add("alphanumeric non-digit", false, true, false, alnumTab[10:])
	var asc [][]byte
	for b := 0; b < 128; b++ {
		in := false
		for i := 0; i < len(alnumChars); i++ {
			if int(alnumChars[i]) == b {
				in = true
			}
		}
		if !in {
			asc = append(asc, []byte{byte(b)})
		}
	}
	add("other ASCII", false, false, false, asc)
	var kan [][]byte
	for i := 0; i < 500; i++ {
		kan = append(kan, []byte(string(kanjiAll[i*len(kanjiAll)/500].r)))
	}
	// the first and last codes of the two ranges
	seen := map[string]bool{}
	for _, b := range kan {
		seen[string(b)] = true
	}
	edge := func(f func(v int) bool, up bool) {
		best := kanjiEnt{}
		for _, k := range kanjiAll {
			if f(k.val) && (best.r == 0 || up == (k.val > best.val)) {
				best = k
			}
		}
		if s := string(best.r); best.r != 0 && !seen[s] {
			seen[s] = true
			kan = append(kan, []byte(s))
		}
	}
	for _, up := range []bool{false, true} {
		edge(func(v int) bool { return v < kanjiSplit }, up)
		edge(func(v int) bool { return v >= kanjiSplit }, up)
	}
	for _, up := range []bool{false, true} { // the extreme code points
		best := kanjiEnt{}
		for _, k := range kanjiAll {
			if best.r == 0 || up == (k.r > best.r) {
				best = k
			}
		}
		if s := string(best.r); !seen[s] {
			seen[s] = true
			kan = append(kan, []byte(s))
		}
	}
	add("ideograph with a Kanji code", false, false, true, kan)
	var two [][]byte
	for r := rune(0x80); r < 0x800; r += 3 {
		two = append(two, []byte(string(r)))
	}
	// controls, spaces, combining marks, the last one
	for _, r := range []rune{0x85, 0xA0, 0xAD, 0xD7, 0xFF, 0x100, 0x130, 0x131, 0x17F, 0x2FF, 0x300, 0x301, 0x37E, 0x600, 0x7FF} {
		if r%3 != 0x80%3 {
			two = append(two, []byte(string(r)))
		}
	}
	add("two-byte character", false, false, false, two)
	inK := map[rune]bool{}
	for _, k := range kanjiAll {
		inK[k.r] = true
	}
	var nocode, bmp, big [][]byte
	enc := japanese.ShiftJIS.NewEncoder()
	for r := rune(0x3400); r <= 0xFAFF; r++ {
		if isCJK(r) && !inK[r] && utf8.ValidRune(r) {
			if r%41 == 0 {
				nocode = append(nocode, []byte(string(r)))
			} else if b, err := enc.Bytes([]byte(string(r))); err == nil && len(b) == 2 && r%5 == 0 {
				// a Shift JIS code outside the two ranges
				nocode = append(nocode, []byte(string(r)))
			}
		}
	}
	add("ideograph without a Kanji code", false, false, false, nocode)
	for r := rune(0x800); r <= 0xFFFF; r++ {
		if utf8.ValidRune(r) && !isCJK(r) && (r%53 == 0 || r >= 0x3040 && r <= 0x30FF || r == 0x3005 || r == 0x3000) {
			bmp = append(bmp, []byte(string(r)))
		}
	}
	// the edges of the ideograph blocks
	for _, r := range []rune{0x33FF, 0x4DC0, 0x4DFF, 0xA000, 0xF8FF, 0xFB00, 0xFFFD, 0xFF11, 0xFF21} {
		bmp = append(bmp, []byte(string(r)))
	}
	// marks, invisible characters, line ends, lookalikes, the last ones
	for _, r := range []rune{0x800, 0x1680, 0x180E, 0x2000, 0x200B, 0x200C, 0x200D, 0x200E, 0x200F, 0x2028, 0x2029, 0x202A, 0x202E, 0x2060, 0x2066, 0x20AC,
		0x212A, 0x3002, 0x3007, 0xD7FF, 0xE000, 0xFE0F, 0xFEFF, 0xFF10, 0xFF1A, 0xFF3A, 0xFF5E, 0xFF61, 0xFF9F, 0xFFE5, 0xFFFC, 0xFFFE, 0xFFFF} {
		if s := []byte(string(r)); !contains(bmp, s) {
			bmp = append(bmp, s)
		}
	}
	add("other three-byte character", false, false, false, bmp)
	for r := rune(0x10000); r <= 0x10FFFF; r += 4099 {
		big = append(big, []byte(string(r)))
	}
	for _, r := range []rune{0x1F1E6, 0x1F3FB, 0x1F600, 0x20000, 0x2A6D6, 0x2F800, 0xE0001, 0xE0100, 0xFFFFF, 0x10FFFF} {
		if s := []byte(string(r)); !contains(big, s) {
			big = append(big, s)
		}
	}
	add("four-byte character", false, false, false, big)
	var bad [][]byte
	for b := 0x80; b < 0xC0; b++ {
		bad = append(bad, []byte{byte(b)})
	}
	for b := 0xF8; b < 0x100; b++ {
		bad = append(bad, []byte{byte(b)})
	}
	add("byte that is no UTF-8", false, false, false, bad)
}

func contains(tab [][]byte, s []byte) bool {
	for _, b := range tab {
		if string(b) == string(s) {
			return true
		}
	}
	return false
}

func classVal(c *charClass, mode int) []int {
	if c.vals[mode] != nil {
		return c.vals[mode]
	}
	return nil
}

// kanjiSplit is the value of the second Shift JIS range's first code (0xE040).
const kanjiSplit = (0xE040-0xC140)>>8*0xC0 + (0xE040-0xC140)&0xFF

// oneChar makes a text of one character out of a set.
func oneChar(m *absint.M, tab [][]byte, mode int) text {
	t := text{n: 1}
	var vals []int
	w := 8
	if mode == oracle.Kanji {
		w = 13
	}
	for _, b := range tab {
		if mode == oracle.Byte {
			vals = append(vals, 0)
		} else {
			vals = append(vals, valueIn(mode, b))
		}
	}
	if len(tab) == 1 {
		for _, x := range tab[0] {
			t.bytes = append(t.bytes, absint.MkInt(int64(x), 8, false))
		}
		t.vals = append(t.vals, absint.Int(int64(vals[0])))
	} else {
		b, v := pick(m, "c", tab, vals, w)
		t.bytes = append(t.bytes, b...)
		t.vals = append(t.vals, v)
	}
	if mode == oracle.Byte {
		t.vals = append([]absint.V(nil), t.bytes...)
		t.n = len(t.bytes)
	}
	return t
}

// charSets splits all characters, by length and mode, into sets.
func charSets(full bool) (sets [][][]byte, modes []int) {
	inK := map[rune]bool{}
	for _, k := range kanjiAll {
		inK[k.r] = true
	}
	cur := map[[2]int][][]byte{}
	flush := func(k [2]int) {
		if len(cur[k]) > 0 {
			sets, modes = append(sets, cur[k]), append(modes, k[1])
		}
		cur[k] = nil
	}
	for r := rune(0x80); r <= 0x10FFFF; r++ {
		if !utf8.ValidRune(r) {
			continue
		}
		mode := oracle.Byte
		if inK[r] {
			mode = oracle.Kanji
		}
		if !full && !isCJK(r) && (r > 0xFFFF && r%257 != 0 || r >= 0x800 && r <= 0xFFFF && r%5 != 0 && !(r >= 0x2000 && r <= 0x33FF) && r < 0xFF00) {
			continue
		}
		k := [2]int{utf8.RuneLen(r), mode}
		if cur[k] = append(cur[k], []byte(string(r))); len(cur[k]) == 512 {
			flush(k)
		}
	}
	for _, k := range [][2]int{{2, oracle.Byte}, {3, oracle.Byte}, {3, oracle.Kanji}, {4, oracle.Byte}} {
		flush(k)
	}
	return
}

// clsText builds a text from character classes; cls[i] indexes classes.
type clsText struct {
	text
	cls  []int
	mode int // narrowest mode
}

func valueIn(mode int, b []byte) int {
	switch mode {
	case oracle.Numeric:
		return int(b[0] - '0')
	case oracle.Alnum:
		for i := 0; i < len(alnumChars); i++ {
			if alnumChars[i] == b[0] {
				return i
			}
		}
	case oracle.Kanji:
		r, _ := utf8.DecodeRune(b)
		for _, k := range kanjiAll {
			if k.r == r {
				return k.val
			}
		}
	}
	return 0
}

// narrowest mode of a class sequence.
func narrowest(cls []int) int {
	for _, m := range []int{oracle.Numeric, oracle.Alnum, oracle.Kanji} {
		ok := true
		for _, k := range cls {
			if !classes[k].modes[m] {
				ok = false
			}
		}
		if ok {
			return m
		}
	}
	return oracle.Byte
}

// specialTexts are texts that programs like to treat specially.
var specialTexts = []string{
	"\ufeffabc", "a\ufeff", "\ufeff", "\xef\xbb\xbfHELLO", "\xff\xfea\x00", "\xfe\xff\x00a", "\xef\xbb", "\ufeff12345",
	"007", "0", "00", "000", "0000000000000", "1.0", "-1", "+1", " 12", "12 ", "1 2", "1,2", "0x1F", "1e5", "12\n", "12\x00", "９８７", "٣",
	"abc ", " abc", "\tabc\n", "abc\r\n", "a\r\nb", "\n", "\r\n", "\n\n", " ", "  ", "A ", " A", "A\n", "a  b", "a\\nb", "a\\u0041",
	"\x00", "\x00\x00", "a\x00b", "\x00abc", "abc\x00", "A\x00", "\x1a", "\x7f", "\x1b[0m", "\b\b",
	"\xc0\x80", "\xed\xa0\x80", "\xed\xa0\x80\xed\xb0\x80", "\xf4\x90\x80\x80", "\xe4\xb8", "中\xe4\xb8", "\xe4中", "\xf0\x9f\x98", "\xff\xff", "ab\xff", "\xe0\x80\x80", "\xf8\x88\x80\x80\x80",
	"\ufffd", "a\ufffdb", "中\ufffd", "\ufffd\ufffd\ufffd",
	"é", "e\u0301", "ﬁ", "Å", "Å", "ß", "ẞ", "İ", "ı", "Σς", "ǅ", "ＡＢＣ", "K", "ſ", "ｱｲｳ", "アイウ", "がぎぐ", "か\u3099",
	"http://example.com/", "HTTP://EXAMPLE.COM/", "https://example.com/?a=b&c=%20d#e", "WIFI:S:net;T:WPA;P:pa\\;ss;;", "mailto:a@b.c", "tel:+1-2", "BEGIN:VCARD\r\nEND:VCARD\r\n", "\\000020", "]Q3", "%", "%%", "%s", "%d%!", "$HOME", "{}", "<a>", "&amp;", "'", "\"", "\"a\"", "`",
	"HELLO", "hello", "Hello", "HELLO WORLD", "HELLO_WORLD", "A-B", "A=B", "$%*+-./: ", "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:", "a", "Z", "z", "@", "[",
	"中", "中国", "中a", "a中", "中1", "中 文", "中\n", "日本語", "亜", "腕", "弌", "熙", "点茗", "茗荷", "點", "한", "中한", "〇", "々", "、", "　", "中　文", "𠮷", "中𠮷", "😀", "👩‍👩‍👧", "🇩🇪", "☃️",
	"ab", "aa", "aaa", "aaaa", "abab", "11111111", "AAAAAAAA", "        ", "中中中中中中中", "\x11\x11\x11\xec\xec",
	"\u00ec\u0011", "\x80", "\x80\x81", "é中é", "привет", "שלום", "\u202eabc", "a\u200bb", "\u200b", "\u00a0", "\u2028", "\x85",
	strings.Repeat("a", 91), strings.Repeat("é", 66), strings.Repeat("0", 303), strings.Repeat("00 ", 40), strings.Repeat("中", 40), strings.Repeat("\xff\x00", 100), strings.Repeat("\n", 50), strings.Repeat("long text, ", 100), strings.Repeat("汉字", 270),
}

// textClass splits a text into characters and finds its narrowest mode.
func textClass(s string) (cls []int, mode, n int, chars [][]byte) {
	num, aln, kan := true, true, true
	for i, w := 0, 0; i < len(s); i += w {
		var r rune
		r, w = utf8.DecodeRuneInString(s[i:])
		chars = append(chars, []byte(s[i:i+w]))
		num = num && r >= '0' && r <= '9'
		aln = aln && strings.ContainsRune(alnumChars, r) && r < 128
		k := false
		for _, e := range kanjiAll {
			k = k || e.r == r
		}
		kan = kan && k
		cls = append(cls, 0)
	}
	mode = oracle.Byte
	switch {
	case num:
		mode = oracle.Numeric
	case aln:
		mode = oracle.Alnum
	case kan:
		mode = oracle.Kanji
	}
	return cls, mode, len(chars), chars
}

// mkCls makes the text of a class sequence, with the values in the given mode.
// sym tells which positions are symbolic (nil: all).
func mkCls(m *absint.M, cls []int, mode int, sym func(i int) bool) clsText {
	t := clsText{cls: cls, mode: mode}
	t.n = len(cls)
	for i, k := range cls {
		tab := classes[k].tab
		if sym != nil && !sym(i) {
			j := (i*7919 + 13) % len(tab)
			tab = tab[j : j+1]
		}
		var vals []int
		w := 8
		if mode != oracle.Byte {
			w = 13
			for _, b := range tab {
				vals = append(vals, valueIn(mode, b))
			}
		} else {
			vals = make([]int, len(tab))
		}
		if len(tab) == 1 {
			for _, x := range tab[0] {
				t.bytes = append(t.bytes, absint.MkInt(int64(x), 8, false))
			}
			t.vals = append(t.vals, absint.Int(int64(vals[0])))
			continue
		}
		b, v := pick(m, fmt.Sprintf("c%d", i), tab, vals, w)
		t.bytes = append(t.bytes, b...)
		t.vals = append(t.vals, v)
	}
	if mode == oracle.Byte {
		t.vals = append([]absint.V(nil), t.bytes...)
		t.n = len(t.bytes)
	}
	return t
}

// longSeqs are texts of about the largest length that fits whatever the odd
// character is, with one odd character in the middle or at the end.
func longSeqs() (seqs [][]int) {
	long := func(base, n, odd, at int) {
		s := make([]int, n)
		for i := range s {
			s[i] = base
		}
		s[at] = odd
		seqs = append(seqs, s)
	}
	for _, b := range [][2]int{{0, 2320}, {1, 2320}, {3, 770}} {
		base, n := b[0], b[1]
		for odd := range classes {
			long(base, n, odd, n-1)
			long(base, n, odd, n/2)
		}
	}
	long(0, 5596, 0, 0)
	long(0, 3390, 1, 3389)
	long(3, 1434, 3, 0)
	return seqs
}

func clsName(cls []int) string {
	s := ""
	for i, k := range cls {
		if i > 6 {
			return s + fmt.Sprintf(" ... (%d characters)", len(cls))
		}
		if i > 0 {
			s += ", "
		}
		s += classes[k].name
	}
	if s == "" {
		return "empty text"
	}
	return s
}

// message is the standard's whole message of a text.
func message(m *absint.M, t text, mode, ver, lvl int) []bdd.Node {
	out := constBits(oracle.Indicator(mode), 4)
	out = append(out, constBits(t.n, oracle.CountBits(ver, mode))...)
	out = append(out, t.payload(m, mode)...)
	tot := oracle.DataCodewords(ver, lvl) * 8
	if len(out) > tot {
		return nil
	}
	for i := 0; i < 4 && len(out) < tot; i++ {
		out = append(out, bdd.False)
	}
	for len(out)%8 != 0 {
		out = append(out, bdd.False)
	}
	for i := 0; len(out) < tot; i++ {
		out = append(out, constBits([]int{0xEC, 0x11}[i%2], 8)...)
	}
	return out
}

func smallest(mode, lvl, n int) int {
	for v := 1; v <= 40; v++ {
		if oracle.Cap(v, lvl, mode) >= n {
			return v
		}
	}
	return 0
}

// expect compares an encoding with the standard's message.
func expect(c *Ctx, rule, unit string, e *EncRun, t text, mode, ver, lvl int) {
	m := e.m
	if e.ret {
		c.Fail(rule, unit, e.where, "the text must be encoded in version %d, but no message codewords are produced%s", ver, errText(e))
		return
	}
	if m.B.Not(e.cond) != bdd.False {
		c.Fail(rule, unit, e.where, "only some of the texts are encoded: %s%s", m.PrettyCond(e.cond), panicsOf(m))
		return
	}
	gv, gl := e.version()
	if gv != ver || gl != lvl {
		c.Fail(rule, unit, e.where, "the block structure (%d message bits, %d blocks, %d error correction codewords) is that of version %d-%s, want %d-%s", len(e.bits), e.nblk, e.ec, gv, oracle.LevelName[gl], ver, oracle.LevelName[lvl])
		return
	}
	want := message(m, t, mode, ver, lvl)
	for i, w := range want {
		if e.bits[i] != w {
			c.Fail(rule, unit, e.where, "bit %d of the message must be %s (%s mode, version %d), the analysis finds %s", i, m.PrettyCond(w), modeName[mode], ver, m.PrettyCond(e.bits[i]))
			return
		}
	}
	c.Ok(rule, 1)
	c.Ok(rule+" (message bits)", len(want))
}

func errText(e *EncRun) string {
	if e.ret {
		return fmt.Sprintf(" (error when %s)", e.m.PrettyCond(e.err))
	}
	return ""
}

func panicsOf(m *absint.M) string {
	if len(m.Panics) == 0 {
		return ""
	}
	p := m.Panics[0]
	return fmt.Sprintf("; possible panic: %s in %s (%s)", p.Reason, p.Fn, p.Pos)
}

// refused requires an error and no symbol.
func refused(c *Ctx, rule, unit string, e *EncRun, why string) {
	m := e.m
	if !e.ret {
		c.Fail(rule, unit, e.where, "an error is required (%s), but a message is produced or the call does not return%s", why, panicsOf(m))
		return
	}
	if e.err != bdd.True && m.B.And(m.PC, m.B.Not(e.err)) != bdd.False {
		c.Fail(rule, unit, e.where, "an error is required (%s), none is returned when %s", why, m.PrettyCond(m.B.Not(e.err)))
		return
	}
	if len(m.Panics) > 0 {
		c.Fail(rule, unit, m.Panics[0].Pos, "an error is required (%s), but the call may panic: %s in %s", why, m.Panics[0].Reason, m.Panics[0].Fn)
		return
	}
	if e.nilQR != bdd.True && m.B.And(m.PC, m.B.Not(e.nilQR)) != bdd.False {
		c.Fail(rule+" (no symbol)", unit, e.where, "a symbol is returned together with the error (%s)", why)
		return
	}
	c.Ok(rule, 1)
}

// encodeUnit is one analysed constructor call.
func encodeUnit(c *Ctx, unit, harn string, mk func(m *absint.M) (text, []absint.V), after func(m *absint.M, e *EncRun, t text)) {
	p := c.Core()
	m := absint.NewM(p)
	c.Guard(unit, m, func() {
		defer m.Close()
		t, args := mk(m)
		e := encode(m, p, harn, -1, args...)
		c.Unit("constructor analyses", 1)
		after(m, e, t)
	})
}

func iargs(bs []absint.V, xs ...int) []absint.V {
	out := []absint.V{absint.MkSymStr(bs)}
	for _, x := range xs {
		out = append(out, absint.Int(int64(x)))
	}
	return out
}

func sequences(k int) [][]int {
	n := len(classes)
	out := [][]int{{}}
	lvl := [][]int{{}}
	for i := 0; i < k; i++ {
		var next [][]int
		for _, s := range lvl {
			for c := 0; c < n; c++ {
				next = append(next, append(append([]int(nil), s...), c))
			}
		}
		out = append(out, next...)
		lvl = next
	}
	return out
}

func init() {
	register(&Check{ID: "M01", Title: "Automatic mode is the narrowest mode that holds the whole text",
		Rule: "Abstract interpretation of the constructor for every sequence of up to three characters over nine character classes that cover all characters (each character symbolic within its class), and longer texts with one odd character at every tested position: the message is the one of the narrowest mode (numeric, alphanumeric, kanji for ideographs with a code in range, else byte) able to hold every character.",
		Min:  800, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			seqs := sequences(3)
			for _, base := range []int{0, 1, 3, 2} {
				for _, n := range []int{9, 20} {
					for odd := range classes {
						for _, at := range []int{0, 1, n / 2, n - 2, n - 1} {
							s := make([]int, n)
							for i := range s {
								s[i] = base
							}
							s[at] = odd
							seqs = append(seqs, s)
						}
					}
				}
			}
			seqs = append(seqs, longSeqs()...)
			if c.Thorough() {
				for _, s := range sequences(4) {
					if len(s) == 4 {
						seqs = append(seqs, s)
					}
				}
			}
			c.Core()
			c.Par(len(seqs), func(i int) {
				s := seqs[i]
				mode := narrowest(s)
				unit := clsName(s)
				encodeUnit(c, unit, "New", func(m *absint.M) (text, []absint.V) {
					t := mkCls(m, s, mode, func(i int) bool { return len(s) <= 3 || i == len(s)-1 || i == 0 || s[i] != s[0] })
					return t.text, iargs(t.bytes, 0, none, 1, none)
				}, func(m *absint.M, e *EncRun, t text) {
					if len(s) == 0 {
						c.Check(!e.ret || e.err != bdd.True, "narrowest-mode", unit, e.where, "the empty text is refused")
						return
					}
					expect(c, "narrowest-mode", unit, e, t, mode, smallest(mode, 1, t.n), 1)
				})
			})
			// every character on its own
			sets, modes := charSets(c.Thorough())
			c.Par(len(sets), func(i int) {
				first, _ := utf8.DecodeRune(sets[i][0])
				last, _ := utf8.DecodeRune(sets[i][len(sets[i])-1])
				unit := fmt.Sprintf("%d single characters from %U to %U (%s mode)", len(sets[i]), first, last, modeName[modes[i]])
				encodeUnit(c, unit, "New", func(m *absint.M) (text, []absint.V) {
					t := oneChar(m, sets[i], modes[i])
					return t, iargs(t.bytes, 0, none, 1, none)
				}, func(m *absint.M, e *EncRun, t text) {
					c.Unit("single characters", len(sets[i]))
					expect(c, "narrowest-mode", unit, e, t, modes[i], smallest(modes[i], 1, t.n), 1)
				})
			})
		}})

	register(&Check{ID: "M02", Title: "A requested mode is honoured or refused",
		Rule: "For every mode request (including the placeholder and unknown mode values, with and without a version) and every sequence of up to two characters over the nine classes, plus long texts with one odd character: if the mode can hold every character the message is that mode's, otherwise every path returns an error and no symbol.",
		Min:  900, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			type job struct {
				s         []int
				mode, ver int
			}
			var jobs []job
			seqs := sequences(2)
			for _, base := range []int{0, 1, 3} {
				for odd := range classes {
					for _, at := range []int{0, 5, 11} {
						s := make([]int, 12)
						for i := range s {
							s[i] = base
						}
						s[at] = odd
						seqs = append(seqs, s)
					}
				}
			}
			seqs = append(seqs, longSeqs()...)
			for _, s := range seqs {
				if len(s) == 0 {
					continue
				}
				for _, mode := range []int{1, 2, 3, 4, 5, 6, 7, 8} {
					if mode > 4 && len(s) > 1 && mode != 8 {
						continue
					}
					jobs = append(jobs, job{s, mode, none})
					if len(s) <= 1 || mode <= 3 && len(s) > 2 && len(s) < 100 {
						jobs = append(jobs, job{s, mode, 5})
					}
				}
			}
			c.Core()
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				mode := j.mode
				if mode == 8 {
					mode = oracle.Kanji
				}
				ok := mode <= 4
				if ok {
					for _, k := range j.s {
						ok = ok && classes[k].modes[mode]
					}
				}
				mn := "a value that is no mode"
				if mode <= 4 {
					mn = modeName[mode]
				} else if mode == 5 {
					mn = "the placeholder mode"
				}
				unit := fmt.Sprintf("mode %s requested (version option %v) for: %s", mn, j.ver != none, clsName(j.s))
				tm := oracle.Byte
				if ok {
					tm = mode
				}
				encodeUnit(c, unit, "New", func(m *absint.M) (text, []absint.V) {
					t := mkCls(m, j.s, tm, func(i int) bool { return len(j.s) <= 2 || j.s[i] != j.s[0] || i == 0 })
					return t.text, iargs(t.bytes, j.mode, j.ver, 1, none)
				}, func(m *absint.M, e *EncRun, t text) {
					v := smallest(mode, 1, t.n)
					if j.ver != none {
						v = j.ver
					}
					if ok && v == 0 {
						refused(c, "mode-refused", unit, e, "the text does not fit in that mode")
					} else if ok {
						expect(c, "mode-honoured", unit, e, t, mode, v, 1)
					} else {
						refused(c, "mode-refused", unit, e, "the mode cannot hold the text")
					}
				})
			})
		}})

	register(&Check{ID: "M03", Title: "The chosen version is the smallest that fits",
		Rule: "Without a version request, for every version, level and mode, for texts of exactly the capacity and one character more: the symbol produced has the smallest version whose capacity (computed from the standard) holds the text; above version 40 every path returns an error.",
		Min:  1200, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			var jobs []encCase
			for mode := 1; mode <= 4; mode++ {
				for l := 0; l < 4; l++ {
					for v := 1; v <= 40; v++ {
						n := oracle.Cap(v, l, mode)
						jobs = append(jobs, encCase{mode, v, l, n}, encCase{mode, v, l, n + 1})
						if c.Thorough() && v > 1 {
							jobs = append(jobs, encCase{mode, v, l, (n + oracle.Cap(v-1, l, mode)) / 2})
						}
					}
				}
			}
			c.Core()
			c.Par(len(jobs), func(i int) {
				k := jobs[len(jobs)-1-i]
				unit := fmt.Sprintf("%s mode, level %s, %d characters", modeName[k.mode], oracle.LevelName[k.lvl], k.n)
				req := k.mode
				if i%3 == 0 && k.n > 0 {
					req = 0 // through automatic detection
				}
				encodeUnit(c, unit, "New", func(m *absint.M) (text, []absint.V) {
					cls := make([]int, k.n)
					for i := range cls {
						cls[i] = []int{0, 0, 1, 3, 2}[k.mode]
					}
					t := mkCls(m, cls, k.mode, func(i int) bool { return i == 0 || i == k.n-1 })
					return t.text, iargs(t.bytes, req, none, k.lvl, none)
				}, func(m *absint.M, e *EncRun, t text) {
					v := smallest(k.mode, k.lvl, k.n)
					if v == 0 {
						refused(c, "too-long", unit, e, "the text exceeds version 40")
						return
					}
					expect(c, "smallest-version", unit, e, t, k.mode, v, k.lvl)
				})
			})
			// byte mode counts bytes, not characters
			type mjob struct {
				cls, v, l, n int // n bytes
			}
			var mj []mjob
			for ci, cls := range []int{4, 3, 5, 6, 7, 8} {
				for v := 1; v <= 40; v++ {
					for l := 0; l < 4; l++ {
						if !c.Thorough() && (v+l+ci)%8 != 0 && v < 38 && v > 2 {
							continue
						}
						n := oracle.Cap(v, l, oracle.Byte)
						mj = append(mj, mjob{cls, v, l, n}, mjob{cls, v, l, n + 1})
					}
				}
			}
			c.Par(len(mj), func(i int) {
				j := mj[len(mj)-1-i]
				w := len(classes[j.cls].tab[0])
				cls := make([]int, 0, j.n)
				for k := 0; k < j.n/w; k++ {
					cls = append(cls, j.cls)
				}
				for k := 0; k < j.n%w; k++ {
					cls = append(cls, 2)
				}
				if narrowest(cls) != oracle.Byte {
					if j.n%w != 0 {
						panic("a mixed text must need byte mode")
					}
					cls = cls[1:]
					for k := 0; k < w; k++ {
						cls = append(cls, 2)
					}
				}
				unit := fmt.Sprintf("byte mode, level %s, %d bytes: %s", oracle.LevelName[j.l], j.n, clsName(cls))
				encodeUnit(c, unit, "New", func(m *absint.M) (text, []absint.V) {
					t := mkCls(m, cls, oracle.Byte, func(i int) bool { return i == 0 || i == len(cls)-1 })
					return t.text, iargs(t.bytes, 4*(j.v%2), none, j.l, none)
				}, func(m *absint.M, e *EncRun, t text) {
					if t.n != j.n {
						panic("wrong length")
					}
					v := smallest(oracle.Byte, j.l, j.n)
					if v == 0 {
						refused(c, "too-long", unit, e, "the text exceeds version 40")
						return
					}
					expect(c, "smallest-version", unit, e, t, oracle.Byte, v, j.l)
				})
			})
		}})

	register(&Check{ID: "M04", Title: "A requested version is honoured or the text is refused, never cut",
		Rule: "With a version request, for every version, level and mode: a text of exactly the capacity gives a symbol of that version holding the whole text (also when a smaller version would do), a text that is longer by one character, by some characters or by far is refused with an error and no symbol.",
		Min:  1500, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			type job struct {
				encCase
				minv int
			}
			var jobs []job
			for mode := 1; mode <= 4; mode++ {
				for l := 0; l < 4; l++ {
					for v := 1; v <= 40; v++ {
						n := oracle.Cap(v, l, mode)
						for i, k := range []int{n, n + 1, n + 2, n + 3, n + 40, 1} {
							mv := none
							if i == 5 && v > 1 {
								mv = 1 + (v+l)%40
							}
							if i >= 3 && i < 5 && !c.Thorough() && (v+l+mode)%5 != 0 {
								continue
							}
							jobs = append(jobs, job{encCase{mode, v, l, k}, mv})
						}
					}
				}
			}
			c.Core()
			c.Par(len(jobs), func(i int) {
				k := jobs[len(jobs)-1-i]
				unit := fmt.Sprintf("version %d requested (minimum option %v), %s mode, level %s, %d characters", k.ver, k.minv != none, modeName[k.mode], oracle.LevelName[k.lvl], k.n)
				encodeUnit(c, unit, "New", func(m *absint.M) (text, []absint.V) {
					cls := make([]int, k.n)
					for i := range cls {
						cls[i] = []int{0, 0, 1, 3, 2}[k.mode]
					}
					t := mkCls(m, cls, k.mode, func(i int) bool { return i == 0 || i == k.n-1 })
					return t.text, iargs(t.bytes, k.mode, k.ver, k.lvl, k.minv)
				}, func(m *absint.M, e *EncRun, t text) {
					if k.n > oracle.Cap(k.ver, k.lvl, k.mode) {
						refused(c, "too-long-for-version", unit, e, "the text exceeds the requested version")
						return
					}
					expect(c, "version-honoured", unit, e, t, k.mode, k.ver, k.lvl)
				})
			})
		}})

	register(&Check{ID: "M05", Title: "The minimum version raises the automatic version and nothing else",
		Rule: "For every minimum version, levels and modes rotating, and texts whose smallest version lies below, at and above it: the symbol has the larger of the two versions and the message is the one of that version (count field width included).",
		Min:  400, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			type job struct {
				encCase
				auto int
			}
			var jobs []job
			k := 0
			for minv := 1; minv <= 40; minv++ {
				for _, auto := range []int{1, 2, 9, 10, 26, 27, 40, minv, minv - 1, minv + 1} {
					if auto < 1 || auto > 40 {
						continue
					}
					k++
					mode, l := 1+k%4, (k/4)%4
					jobs = append(jobs, job{encCase{mode, minv, l, oracle.Cap(auto, l, mode)}, auto})
					if c.Thorough() {
						for mode := 1; mode <= 4; mode++ {
							jobs = append(jobs, job{encCase{mode, minv, (l + 1) % 4, oracle.Cap(auto, (l+1)%4, mode)}, auto})
						}
					}
				}
			}
			c.Core()
			c.Par(len(jobs), func(i int) {
				k := jobs[len(jobs)-1-i]
				unit := fmt.Sprintf("minimum version %d, %s mode, level %s, %d characters (smallest version %d)", k.ver, modeName[k.mode], oracle.LevelName[k.lvl], k.n, k.auto)
				encodeUnit(c, unit, "New", func(m *absint.M) (text, []absint.V) {
					cls := make([]int, k.n)
					for i := range cls {
						cls[i] = []int{0, 0, 1, 3, 2}[k.mode]
					}
					t := mkCls(m, cls, k.mode, func(i int) bool { return i == 0 || i == k.n-1 })
					return t.text, iargs(t.bytes, k.mode, none, k.lvl, k.ver)
				}, func(m *absint.M, e *EncRun, t text) {
					v := smallest(k.mode, k.lvl, k.n)
					if k.ver > v {
						v = k.ver
					}
					expect(c, "minimum-version", unit, e, t, k.mode, v, k.lvl)
				})
			})
		}})

	register(&Check{ID: "M06", Title: "The symbol's message decodes to exactly the input text",
		Rule: "Default construction (automatic mode and version) of texts over mixed character classes, lengths 1 to beyond 2000 bytes with symbolic characters at changing positions: the message codewords equal, bit for bit as boolean functions of the text, the standard's encoding of the whole text, so nothing is dropped, cut, duplicated or altered.",
		Min:  250, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			var seqs [][]int
			lens := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 77, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 511, 512, 513, 700, 1000}
			mixes := [][]int{{0}, {1}, {3}, {2}, {0, 1}, {0, 2}, {3, 2}, {4, 0}, {6, 3}, {7}, {8}, {8, 2, 3}, {5, 3}}
			for _, n := range lens {
				for mi, mix := range mixes {
					if n > 130 && (n+mi)%3 != 0 && !c.Thorough() {
						continue
					}
					s := make([]int, n)
					for i := range s {
						s[i] = mix[(i*i/3+i)%len(mix)]
					}
					b := 0
					for _, k := range s {
						b += len(classes[k].tab[0])
					}
					if narrowest(s) == oracle.Byte && b > oracle.Cap(40, 2, oracle.Byte) {
						continue
					}
					seqs = append(seqs, s)
				}
			}
			// about as much as the largest symbol holds
			for mi, n := range []int{3993, 2420, 1024, 1663, 2420, 1663, 3992, 1663} {
				mix := [][]int{{0}, {1}, {3}, {2}, {0, 1}, {1, 2, 0}, {0}, {2, 1}}[mi]
				s := make([]int, n)
				for i := range s {
					s[i] = mix[(i*i/3+i)%len(mix)]
				}
				seqs = append(seqs, s)
			}
			c.Core()
			c.Par(len(seqs), func(i int) {
				s := seqs[len(seqs)-1-i]
				mode := narrowest(s)
				unit := fmt.Sprintf("%d characters: %s", len(s), clsName(s))
				encodeUnit(c, unit, "Plain", func(m *absint.M) (text, []absint.V) {
					t := mkCls(m, s, mode, func(i int) bool { return i < 2 || i == len(s)-1 || i%61 == 17 })
					return t.text, iargs(t.bytes)
				}, func(m *absint.M, e *EncRun, t text) {
					expect(c, "whole-text", unit, e, t, mode, smallest(mode, 2, t.n), 2)
				})
			})
			c.Par(len(specialTexts), func(i int) {
				s := specialTexts[i]
				cls, mode, n, tabs := textClass(s)
				unit := fmt.Sprintf("the text %+q", s)
				if len(s) > 60 {
					unit = fmt.Sprintf("the text %+q... (%d bytes)", s[:40], len(s))
				}
				encodeUnit(c, unit, "Plain", func(m *absint.M) (text, []absint.V) {
					t := clsText{cls: cls, mode: mode}
					t.n = n
					for k, b := range tabs {
						for _, x := range b {
							t.bytes = append(t.bytes, absint.MkInt(int64(x), 8, false))
						}
						if mode != oracle.Byte {
							t.vals = append(t.vals, absint.Int(int64(valueIn(mode, tabs[k]))))
						}
					}
					if mode == oracle.Byte {
						t.vals, t.n = append([]absint.V(nil), t.bytes...), len(t.bytes)
					}
					return t.text, iargs(t.bytes)
				}, func(m *absint.M, e *EncRun, t text) {
					expect(c, "whole-text", unit, e, t, mode, smallest(mode, 2, t.n), 2)
				})
			})
		}})

	register(&Check{ID: "M07", Title: "Invalid options are ignored and the last valid option wins",
		Rule: "Every pair of settings of version, level and minimum version from valid and invalid values, applied one after the other: the block structure and message are those of the last valid setting, or of the default (level Q, automatic version) when none is valid.",
		Min:  150, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			type o struct{ ver, lvl, min int }
			type job struct{ a, b o }
			var jobs []job
			vers := []int{none, 0, -1, 41, 1000, 1, 3, 40}
			lvls := []int{none, 4, 5, 6, 0, 1, 2, 3}
			mins := []int{none, 0, -3, 41, 1, 6, 20, 40}
			for _, a := range vers {
				for _, b := range vers {
					jobs = append(jobs, job{o{a, none, none}, o{b, 1, none}})
				}
			}
			for _, a := range lvls {
				for _, b := range lvls {
					jobs = append(jobs, job{o{none, a, none}, o{none, b, none}})
				}
			}
			for _, a := range mins {
				for _, b := range mins {
					jobs = append(jobs, job{o{none, 3, a}, o{none, none, b}})
				}
			}
			for _, a := range lvls {
				for _, b := range vers {
					jobs = append(jobs, job{o{b, none, none}, o{none, a, none}}, job{o{none, a, 0}, o{b, none, 41}})
				}
			}
			c.Core()
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				unit := fmt.Sprintf("options %s then %s", optName(j.a.ver, j.a.lvl, j.a.min), optName(j.b.ver, j.b.lvl, j.b.min))
				lvl, ver, mn := 2, 0, 0
				for _, x := range []o{j.a, j.b} {
					if x.ver >= 1 && x.ver <= 40 {
						ver = x.ver
					}
					if x.lvl >= 0 && x.lvl <= 3 {
						lvl = x.lvl
					}
					if x.min >= 1 && x.min <= 40 {
						mn = x.min
					}
				}
				encodeUnit(c, unit, "New2", func(m *absint.M) (text, []absint.V) {
					t := mkCls(m, []int{2, 2, 0, 1, 2}, oracle.Byte, nil)
					return t.text, iargs(t.bytes, none, j.a.ver, j.a.lvl, j.a.min, none, j.b.ver, j.b.lvl, j.b.min)
				}, func(m *absint.M, e *EncRun, t text) {
					v := ver
					if v == 0 {
						v = smallest(oracle.Byte, lvl, t.n)
						if mn > v {
							v = mn
						}
					}
					expect(c, "option-resolution", unit, e, t, oracle.Byte, v, lvl)
				})
			})
		}})

	register(&Check{ID: "M08", Title: "Strings, byte slices and named variants give the same symbol",
		Rule: "For texts over the character classes: every instantiation of the constructors (string, []byte, a named string, a named byte slice) is accepted on all paths and yields the same message as boolean functions of the text, and the caller's bytes are only read.",
		Min:  200, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			seqs := append(sequences(1), []int{0, 1}, []int{3, 3}, []int{3, 2}, []int{8, 2}, []int{1, 8, 4, 7})
			c.Core()
			type job struct {
				s []int
				h string
			}
			var jobs []job
			for _, s := range seqs {
				for _, h := range []string{"New", "Bytes", "NamedS", "NamedB", "Plain", "PlainB"} {
					jobs = append(jobs, job{s, h})
				}
			}
			c.Par(len(jobs), func(i int) {
				j := jobs[i]
				mode := narrowest(j.s)
				unit := j.h + " with " + clsName(j.s)
				var obj *absint.Obj
				var orig []absint.V
				encodeUnit(c, unit, j.h, func(m *absint.M) (text, []absint.V) {
					t := mkCls(m, j.s, mode, nil)
					a := iargs(t.bytes, 0, none, 2, none)
					if j.h == "Bytes" || j.h == "NamedB" || j.h == "PlainB" {
						orig = append([]absint.V(nil), t.bytes...)
						a[0] = m.NewSlice(types.Typ[types.Uint8], append([]absint.V(nil), t.bytes...), "input")
						if s, ok := a[0].X.(*absint.SliceV); ok {
							obj = s.Obj
						}
					}
					if j.h == "Plain" || j.h == "PlainB" {
						a = a[:1]
					}
					return t.text, a
				}, func(m *absint.M, e *EncRun, t text) {
					if len(j.s) > 0 {
						expect(c, "same-message", unit, e, t, mode, smallest(mode, 2, t.n), 2)
					}
					if obj != nil {
						same := len(obj.Cells) == len(orig)
						for i := range orig {
							same = same && absint.Ident(obj.Cells[i], orig[i])
						}
						c.Check(same, "input-unchanged", unit, e.where, "the caller's byte slice is modified")
					}
				})
			})
		}})
}

func optName(v, l, n int) string {
	s := "("
	if v != none {
		s += fmt.Sprintf("version %d ", v)
	}
	if l != none {
		s += "level " + []string{"L", "M", "Q", "H", "0", "5", "-1"}[l] + " "
	}
	if n != none {
		s += fmt.Sprintf("minimum %d", n)
	}
	return s + ")"
}
