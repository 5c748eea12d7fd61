// Package oracle states ISO/IEC 18004 independently of the analysed code: the
// tables are given by the formulas of the standard, not copied from the
// repository.
package oracle

// Levels L, M, Q, H are 0..3.
const (
	L = iota
	M
	Q
	H
)

// Modes.
const (
	Auto = iota
	Numeric
	Alnum
	Kanji
	Byte
)

var LevelName = []string{"L", "M", "Q", "H"}

// EC codewords per block.
var eccPer = [4][41]int{
	{-1, 7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{-1, 10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28},
	{-1, 13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{-1, 17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30}}

// Number of blocks.
var nblk = [4][41]int{
	{-1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25},
	{-1, 1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49},
	{-1, 1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68},
	{-1, 1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81}}

// Dim is the side of a symbol.
func Dim(v int) int { return 4*v + 17 }

// RawBits is the number of data-region modules.
func RawBits(v int) int {
	raw := (16*v+128)*v + 64
	if v >= 2 {
		n := v/7 + 2
		raw -= (25*n-10)*n - 55
		if v >= 7 {
			raw -= 36
		}
	}
	return raw
}

func Total(v int) int         { return RawBits(v) / 8 }
func Remainder(v int) int     { return RawBits(v) % 8 }
func NumBlocks(v, l int) int  { return nblk[l][v] }
func ECPerBlock(v, l int) int { return eccPer[l][v] }
func DataCodewords(v, l int) int {
	return Total(v) - nblk[l][v]*eccPer[l][v]
}

// Blocks lists the data codewords of every block.
func Blocks(v, l int) []int {
	nb, tot := nblk[l][v], Total(v)
	short := nb - tot%nb
	out := make([]int, nb)
	for i := range out {
		out[i] = tot/nb - eccPer[l][v]
		if i >= short {
			out[i]++
		}
	}
	return out
}

// CountBits is the width of the character count indicator.
func CountBits(v, mode int) int {
	c := 0
	if v > 9 {
		c = 1
	}
	if v > 26 {
		c = 2
	}
	switch mode {
	case Numeric:
		return []int{10, 12, 14}[c]
	case Alnum:
		return []int{9, 11, 13}[c]
	case Byte:
		return []int{8, 16, 16}[c]
	case Kanji:
		return []int{8, 10, 12}[c]
	}
	return 0
}

// PayloadBits is the number of bits of n characters.
func PayloadBits(mode, n int) int {
	switch mode {
	case Numeric:
		return n/3*10 + []int{0, 4, 7}[n%3]
	case Alnum:
		return n/2*11 + n%2*6
	case Byte:
		return n * 8
	case Kanji:
		return n * 13
	}
	return 0
}

// Cap is the capacity in characters.
func Cap(v, l, mode int) int {
	bits := DataCodewords(v, l)*8 - 4 - CountBits(v, mode)
	switch mode {
	case Numeric:
		n := bits / 10 * 3
		if bits%10 >= 7 {
			n += 2
		} else if bits%10 >= 4 {
			n++
		}
		return n
	case Alnum:
		n := bits / 11 * 2
		if bits%11 >= 6 {
			n++
		}
		return n
	case Byte:
		return bits / 8
	case Kanji:
		return bits / 13
	}
	return 0
}

// Indicator is the four-bit mode indicator.
func Indicator(mode int) int { return []int{0, 1, 2, 8, 4}[mode] }

// AlignPos are the coordinates of the alignment pattern centres.
func AlignPos(v int) []int {
	if v < 2 {
		return nil
	}
	n := v/7 + 2
	step := 26
	if v != 32 {
		step = (v*4 + n*2 + 1) / (n*2 - 2) * 2
	}
	pos := make([]int, n)
	pos[0] = 6
	p := v*4 + 17 - 7
	for i := n - 1; i >= 1; i-- {
		pos[i] = p
		p -= step
	}
	return pos
}

// FormatBits is the 15-bit format information, bit 14 first placed.
func FormatBits(level, mask int) int {
	d := []int{1, 0, 3, 2}[level]<<3 | mask
	r := d
	for i := 0; i < 10; i++ {
		r = (r << 1) ^ ((r >> 9) * 0x537)
	}
	return (d<<10 | r) ^ 0x5412
}

// VersionBits is the 18-bit version information.
func VersionBits(v int) int {
	r := v
	for i := 0; i < 12; i++ {
		r = (r << 1) ^ ((r >> 11) * 0x1f25)
	}
	return v<<12 | r
}

// Mask is the mask condition at column x, row y.
func Mask(i, x, y int) bool {
	switch i {
	case 0:
		return (x+y)%2 == 0
	case 1:
		return y%2 == 0
	case 2:
		return x%3 == 0
	case 3:
		return (x+y)%3 == 0
	case 4:
		return (x/3+y/2)%2 == 0
	case 5:
		return x*y%2+x*y%3 == 0
	case 6:
		return (x*y%2+x*y%3)%2 == 0
	case 7:
		return ((x+y)%2+x*y%3)%2 == 0
	}
	panic("mask")
}

// Region of a module.
type Region uint8

const (
	Data Region = iota
	Finder
	Separator
	Timing
	Align
	Dark
	Format
	Version
)

var RegionName = []string{"data", "finder", "separator", "timing", "alignment", "dark module", "format information", "version information"}

// Layout is the function-pattern layout of a version.
type Layout struct {
	N      int
	Region [][]Region // [y][x]
	Bit    [][]int    // value of constant function modules; index of the information bit for format/version (bit number, LSB 0)
	Fmt    [2][15][2]int
	Ver    [2][18][2]int
	Zig    [][2]int // data modules in placement order (x,y)
}

// NewLayout computes the layout of a version.
func NewLayout(v int) *Layout {
	n := Dim(v)
	l := &Layout{N: n, Region: make([][]Region, n), Bit: make([][]int, n)}
	for y := range l.Region {
		l.Region[y] = make([]Region, n)
		l.Bit[y] = make([]int, n)
	}
	set := func(x, y int, r Region, b int) {
		if x < 0 || y < 0 || x >= n || y >= n {
			return
		}
		l.Region[y][x], l.Bit[y][x] = r, b
	}
	// timing
	for i := 0; i < n; i++ {
		set(i, 6, Timing, (i+1)%2)
		set(6, i, Timing, (i+1)%2)
	}
	// finders with separators
	for _, c := range [][2]int{{3, 3}, {n - 4, 3}, {3, n - 4}} {
		for dy := -4; dy <= 4; dy++ {
			for dx := -4; dx <= 4; dx++ {
				d := dx
				if d < 0 {
					d = -d
				}
				if dy > d {
					d = dy
				}
				if -dy > d {
					d = -dy
				}
				switch d {
				case 4:
					set(c[0]+dx, c[1]+dy, Separator, 0)
				case 2:
					set(c[0]+dx, c[1]+dy, Finder, 0)
				default:
					set(c[0]+dx, c[1]+dy, Finder, 1)
				}
			}
		}
	}
	// alignment
	pos := AlignPos(v)
	k := len(pos)
	for i := range pos {
		for j := range pos {
			if i == 0 && j == 0 || i == 0 && j == k-1 || i == k-1 && j == 0 {
				continue
			}
			for dy := -2; dy <= 2; dy++ {
				for dx := -2; dx <= 2; dx++ {
					b := 1
					if (dx == 1 || dx == -1 || dx == 0) && (dy == 1 || dy == -1 || dy == 0) && (dx != 0 || dy != 0) {
						b = 0
					}
					set(pos[i]+dx, pos[j]+dy, Align, b)
				}
			}
		}
	}
	// format, bit i (LSB 0)
	for i := 0; i < 15; i++ {
		var a, b [2]int
		switch {
		case i <= 5:
			a = [2]int{8, i}
		case i == 6:
			a = [2]int{8, 7}
		case i == 7:
			a = [2]int{8, 8}
		case i == 8:
			a = [2]int{7, 8}
		default:
			a = [2]int{14 - i, 8}
		}
		if i < 8 {
			b = [2]int{n - 1 - i, 8}
		} else {
			b = [2]int{8, n - 15 + i}
		}
		l.Fmt[0][i], l.Fmt[1][i] = a, b
		set(a[0], a[1], Format, i)
		set(b[0], b[1], Format, i)
	}
	set(8, n-8, Dark, 1)
	if v >= 7 {
		for i := 0; i < 18; i++ {
			a, b := n-11+i%3, i/3
			l.Ver[0][i] = [2]int{a, b}
			l.Ver[1][i] = [2]int{b, a}
			set(a, b, Version, i)
			set(b, a, Version, i)
		}
	}
	// zigzag
	for right := n - 1; right >= 1; right -= 2 {
		if right == 6 {
			right = 5
		}
		for vert := 0; vert < n; vert++ {
			for j := 0; j < 2; j++ {
				x := right - j
				up := (right+1)&2 == 0
				y := vert
				if up {
					y = n - 1 - vert
				}
				if l.Region[y][x] == Data {
					l.Zig = append(l.Zig, [2]int{x, y})
				}
			}
		}
	}
	return l
}

// Penalty is the sum of the four documented penalties of a candidate; exact
// reports that the share of dark modules is an exact multiple of five percent,
// for which the documented rule is ambiguous.
func Penalty(g [][]bool) (sum int, exact bool) {
	n := len(g)
	line := func(at func(i int) bool) {
		run := 0
		for i := 0; i < n; i++ {
			if i > 0 && at(i) == at(i-1) {
				run++
			} else {
				run = 1
			}
			if run == 5 {
				sum += 3
			} else if run > 5 {
				sum++
			}
		}
		const p1, p2 = 0b10111010000, 0b00001011101
		w := 0
		for i := 0; i < n; i++ {
			w = w << 1 & 0x7FF
			if at(i) {
				w |= 1
			}
			if i >= 10 && (w == p1 || w == p2) {
				sum += 40
			}
		}
	}
	dark := 0
	for y := 0; y < n; y++ {
		line(func(i int) bool { return g[y][i] })
		line(func(i int) bool { return g[i][y] })
		for x := 0; x < n; x++ {
			if g[y][x] {
				dark++
			}
			if x > 0 && y > 0 && g[y][x] == g[y-1][x] && g[y][x] == g[y][x-1] && g[y][x] == g[y-1][x-1] {
				sum += 3
			}
		}
	}
	t := n * n
	exact = dark*20%t == 0
	lo := dark * 20 / t // multiples of five below and above
	d1, d2 := abs(lo-10), abs(lo+1-10)
	if d2 < d1 {
		d1 = d2
	}
	return sum + 10*d1, exact
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}
