package checks

import (
	"fmt"

	"verif/analyzer/absint"
	"verif/analyzer/bdd"
	"verif/analyzer/oracle"
)

const rsAssume = "github.com/yeqown/reedsolomon.Encode(data, n) returns data followed by n codewords; their values are treated as unknown bits, so the correctness of the Reed-Solomon arithmetic (a dependency outside the repository) is assumed"

// declared reads the mask number and level from the first copy of the format
// information under a scenario.
func (r *SymRun) format(s *absint.Scenario, copy int) (int, [2]int, bool) {
	lay := r.layout()
	v := 0
	for i := 0; i < 15; i++ {
		p := lay.Fmt[copy][i]
		n := s.Node(r.Bits[p[1]][p[0]])
		if n > 1 {
			return 0, p, false
		}
		v |= int(n) << i
	}
	return v, [2]int{}, true
}

// masks maps every scenario to the mask its format information declares.
func (r *SymRun) masks(c *Ctx, sc []*absint.Scenario) []int {
	out := make([]int, len(sc))
	for i, s := range sc {
		f, p, ok := r.format(s, 0)
		if !ok {
			c.Fail("declared-mask", r.Name(), r.where(p[0], p[1]), "the format information depends on the payload at module (%d,%d)", p[0], p[1])
			return nil
		}
		out[i] = (f ^ 0x5412) >> 10 & 7
	}
	return out
}

func (r *SymRun) scen(c *Ctx) []*absint.Scenario {
	sc := r.scenarios()
	if len(sc) == 0 {
		c.Fail("constructs", r.Name(), "", "no mask penalty with a symbolic value was met: the choice among the masks cannot be identified")
	}
	return sc
}

func (r *SymRun) sizeOK(c *Ctx) bool {
	if r.N != oracle.Dim(r.Ver) {
		c.Fail("dimension", r.Name(), "", "the matrix is %d modules wide, want %d", r.N, oracle.Dim(r.Ver))
		return false
	}
	for y := range r.Bits {
		for x := range r.Bits[y] {
			if r.Bits[y][x] < 0 {
				c.Fail("dimension", r.Name(), "", "module (%d,%d) is never visited", x, y)
				return false
			}
		}
	}
	return true
}

func init() {
	register(&Check{ID: "S01", Title: "Finder, separator, timing, alignment and dark modules",
		Rule: "For every version and level, with every payload bit symbolic and the mask choice open, the abstract value of every function-pattern module of the matrix handed to the writer is the constant the standard prescribes (layout computed from the standard's formulas).",
		Min:  33_000, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			allSymbols(c, pairsSel(c), func(r *SymRun) {
				if !r.sizeOK(c) {
					return
				}
				lay := r.layout()
				ok := 0
				for y := range r.Bits {
					for x := range r.Bits[y] {
						switch lay.Region[y][x] {
						case oracle.Data, oracle.Format, oracle.Version:
							continue
						}
						if r.Bits[y][x] == bdd.Node(lay.Bit[y][x]) {
							ok++
							continue
						}
						c.Fail("function-module", fmt.Sprintf("%s %s", r.Name(), oracle.RegionName[lay.Region[y][x]]), r.where(x, y),
							"module (%d,%d) must be %d, the analysis finds %s", x, y, lay.Bit[y][x], r.M.PrettyCond(r.Bits[y][x]))
					}
				}
				c.Ok("function-module", ok)
			})
		}})

	register(&Check{ID: "S02", Title: "Placement of codewords in the data region",
		Rule: "For every version and level, with symbolic payload and error correction bits: walking the data region in the standard's two-column zigzag, every eight modules are one codeword of one block, most significant bit first, every codeword occurs exactly once, and the remainder modules carry zero, all up to the mask declared in the format information.",
		Min:  900_000, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			allSymbols(c, pairsSel(c), func(r *SymRun) {
				if !r.sizeOK(c) {
					return
				}
				sc := r.scen(c)
				ms := r.masks(c, sc)
				if ms == nil || len(sc) == 0 {
					return
				}
				lay := r.layout()
				type pos struct{ cw, bit int }
				where := map[bdd.Node][]pos{}
				var words [][8]bdd.Node
				add := func(bits []bdd.Node) {
					for i := 0; i+8 <= len(bits); i += 8 {
						var w [8]bdd.Node
						copy(w[:], bits[i:])
						words = append(words, w)
					}
				}
				for _, rc := range r.M.RSCalls {
					add(rc.Data)
					add(rc.EC)
				}
				byWord := map[[8]bdd.Node]int{}
				for _, w := range words {
					byWord[w]++
				}
				_ = where
				s, mk := sc[0], ms[0]
				val := func(k int) bdd.Node {
					x, y := lay.Zig[k][0], lay.Zig[k][1]
					n := s.Node(r.Bits[y][x])
					if oracle.Mask(mk, x, y) {
						n = r.M.B.Not(n)
					}
					return n
				}
				tot := oracle.Total(r.Ver)
				ok := 0
				for w := 0; w < tot; w++ {
					var cw [8]bdd.Node
					for b := range cw {
						cw[b] = val(w*8 + b)
					}
					if byWord[cw] > 0 {
						byWord[cw]--
						ok += 8
						continue
					}
					x, y := lay.Zig[w*8][0], lay.Zig[w*8][1]
					c.Fail("codeword-placement", r.Name(), r.where(x, y), "the eight modules from (%d,%d), codeword %d in placement order, do not carry one codeword of a block (or carry one a second time)", x, y, w)
					break
				}
				for k := tot * 8; k < len(lay.Zig); k++ {
					x, y := lay.Zig[k][0], lay.Zig[k][1]
					if val(k) == bdd.False {
						ok++
					} else {
						c.Fail("remainder", r.Name(), r.where(x, y), "remainder module (%d,%d) is not zero before masking", x, y)
					}
				}
				c.Ok("codeword-placement", ok)
			})
		}})

	register(&Check{ID: "S03", Title: "The declared mask is the mask applied, on data modules only",
		Rule: "For every version and level and each of the eight outcomes of the mask choice: a data module equals the unmasked module XOR the standard's mask condition of the mask number declared in the format information; the unmasked symbol is the same for all outcomes and carries block codewords uninverted; function modules do not vary with the outcome.",
		Min:  8 * 150_000, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			allSymbols(c, pairsSel(c), func(r *SymRun) {
				if !r.sizeOK(c) {
					return
				}
				sc := r.scen(c)
				ms := r.masks(c, sc)
				if ms == nil || len(sc) == 0 {
					return
				}
				seen := map[int]bool{}
				for _, m := range ms {
					seen[m] = true
				}
				for i := 0; i < 8; i++ {
					if !seen[i] {
						c.Fail("mask-offered", fmt.Sprintf("%s mask %d", r.Name(), i), "", "no outcome of the penalty comparison selects mask %d: it is never tried", i)
					}
				}
				lay := r.layout()
				inword := map[bdd.Node]bool{bdd.False: true, bdd.True: true}
				for _, rc := range r.M.RSCalls {
					for _, b := range rc.Data {
						inword[b] = true
					}
					for _, b := range rc.EC {
						inword[b] = true
					}
				}
				ok := 0
				for y := range r.Bits {
					for x := range r.Bits[y] {
						reg := lay.Region[y][x]
						if reg == oracle.Format {
							continue
						}
						var base bdd.Node
						for i, s := range sc {
							n := s.Node(r.Bits[y][x])
							if reg == oracle.Data && oracle.Mask(ms[i], x, y) {
								n = r.M.B.Not(n)
							}
							if i == 0 {
								base = n
								if reg == oracle.Data && !inword[n] {
									c.Fail("mask-applied", fmt.Sprintf("%s mask %d", r.Name(), ms[i]), r.where(x, y), "data module (%d,%d): removing mask %d does not leave a codeword bit", x, y, ms[i])
									return
								}
							} else if n != base {
								if reg == oracle.Data {
									c.Fail("mask-applied", fmt.Sprintf("%s mask %d", r.Name(), ms[i]), r.where(x, y), "data module (%d,%d): the masks applied for declared masks %d and %d do not differ as the standard prescribes", x, y, ms[0], ms[i])
								} else {
									c.Fail("mask-applied", fmt.Sprintf("%s mask %d", r.Name(), ms[i]), r.where(x, y), "%s module (%d,%d) changes with the mask", oracle.RegionName[reg], x, y)
								}
								return
							}
							ok++
						}
					}
				}
				c.Ok("mask-applied", ok)
			})
		}})

	register(&Check{ID: "S04", Title: "Format information: level, mask, BCH code, both copies",
		Rule: "For every version and level and each of the eight outcomes of the mask choice, both copies of the 15 format modules hold the BCH(15,5) code (generator 0x537, XOR 0x5412) of the requested level and one same mask, and the eight outcomes declare eight different masks.",
		Min:  40 * 8 * 30, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			allSymbols(c, pairsSel(c), func(r *SymRun) {
				if !r.sizeOK(c) {
					return
				}
				sc := r.scen(c)
				ms := r.masks(c, sc)
				if ms == nil {
					return
				}
				lay := r.layout()
				seen := map[int]int{}
				for i, s := range sc {
					want := oracle.FormatBits(r.Lvl, ms[i])
					for cp := 0; cp < 2; cp++ {
						for b := 0; b < 15; b++ {
							p := lay.Fmt[cp][b]
							n := s.Node(r.Bits[p[1]][p[0]])
							c.Check(n == bdd.Node(want>>b&1), "format-bit", fmt.Sprintf("%s mask %d copy %d bit %d", r.Name(), ms[i], cp, b), r.where(p[0], p[1]),
								"format module (%d,%d) must be %d", p[0], p[1], want>>b&1)
						}
					}
					if j, dup := seen[ms[i]]; dup {
						c.Fail("format-mask", fmt.Sprintf("%s mask %d", r.Name(), ms[i]), "", "penalty outcomes %d and %d declare the same mask", j, i)
					}
					seen[ms[i]] = i
				}
			})
		}})

	register(&Check{ID: "S05", Title: "Version information blocks",
		Rule: "For every version from 7 and every level both copies of the 18 version modules hold the BCH(18,6) code of the version (generator 0x1f25), whatever the payload and the mask; below version 7 these places belong to the data region (decided with the placement rule).",
		Min:  34 * 36, Run: func(c *Ctx) {
			var ps [][2]int
			for _, p := range pairsSel(c) {
				if p[0] >= 7 {
					ps = append(ps, p)
				}
			}
			allSymbols(c, ps, func(r *SymRun) {
				if !r.sizeOK(c) {
					return
				}
				lay := r.layout()
				want := oracle.VersionBits(r.Ver)
				for cp := 0; cp < 2; cp++ {
					for b := 0; b < 18; b++ {
						p := lay.Ver[cp][b]
						c.Check(r.Bits[p[1]][p[0]] == bdd.Node(want>>b&1), "version-bit", fmt.Sprintf("%s copy %d bit %d", r.Name(), cp, b), r.where(p[0], p[1]),
							"version module (%d,%d) must be %d, the analysis finds %s", p[0], p[1], want>>b&1, r.M.PrettyCond(r.Bits[p[1]][p[0]]))
					}
				}
			})
		}})

	register(&Check{ID: "S06", Title: "Block structure: number and size of data and error correction blocks",
		Rule: "For every version and level: the blocks handed to the Reed-Solomon encoder are as many as the standard prescribes, of the prescribed data sizes in the prescribed order, each with the prescribed number of error correction codewords, and together they are the message codewords, each once and in order.",
		Min:  160 * 3, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			allSymbols(c, pairsAll(), func(r *SymRun) {
				blocks := orderBlocks(r)
				want := oracle.Blocks(r.Ver, r.Lvl)
				wh := ""
				if len(blocks) > 0 {
					wh = blocks[0].Where
				}
				c.Check(len(blocks) == len(want), "block-count", r.Name(), wh, "%d blocks are encoded, want %d", len(blocks), len(want))
				for i := 0; i < len(blocks) && i < len(want); i++ {
					b := blocks[i]
					c.Check(len(b.Data) == want[i]*8, "block-size", fmt.Sprintf("%s block %d", r.Name(), i), b.Where, "the block has %d data bits, want %d codewords", len(b.Data), want[i])
					c.Check(b.NumEC == oracle.ECPerBlock(r.Ver, r.Lvl), "block-ec", fmt.Sprintf("%s block %d", r.Name(), i), b.Where, "%d error correction codewords, want %d", b.NumEC, oracle.ECPerBlock(r.Ver, r.Lvl))
				}
				// every payload bit once and in order
				var all []bdd.Node
				for _, b := range blocks {
					all = append(all, b.Data...)
				}
				var pay []bdd.Node
				for _, v := range r.In {
					bs := r.M.Bits(v)
					for k := 7; k >= 0; k-- {
						if bs[k] > bdd.True {
							pay = append(pay, bs[k])
						}
					}
				}
				at := -1
				idx := map[bdd.Node]int{}
				for i, n := range pay {
					idx[n] = i
				}
				next, okc := 0, 0
				for i, n := range all {
					if k, isPay := idx[n]; isPay {
						if k != next {
							at = i
							break
						}
						next++
						okc++
					}
				}
				if at >= 0 || next != len(pay) {
					c.Fail("block-content", r.Name(), wh, "the blocks do not hold the message bits once each and in order (bit %d of the concatenated blocks, %d of %d payload bits found)", at, next, len(pay))
				} else {
					c.Ok("block-content", okc)
				}
			})
		}})

	register(&Check{ID: "S07", Title: "Interleaving of data and error correction codewords",
		Rule: "For every version and level: reading codewords from the matrix in placement order gives the first data codeword of every block, then the second of every block that has one, and so on, followed by the error correction codewords column by column.",
		Min:  160 * 26, Run: func(c *Ctx) {
			c.Assume(rsAssume)
			allSymbols(c, pairsAll(), func(r *SymRun) {
				if !r.sizeOK(c) {
					return
				}
				sc := r.scen(c)
				ms := r.masks(c, sc)
				if ms == nil || len(sc) == 0 {
					return
				}
				blocks := orderBlocks(r)
				var want []bdd.Node
				longest := 0
				for _, b := range blocks {
					if len(b.Data) > longest {
						longest = len(b.Data)
					}
				}
				var desc []string
				for i := 0; i < longest; i += 8 {
					for bi, b := range blocks {
						if i+8 <= len(b.Data) {
							want = append(want, b.Data[i:i+8]...)
							desc = append(desc, fmt.Sprintf("data codeword %d of block %d", i/8, bi))
						}
					}
				}
				ec := 0
				for _, b := range blocks {
					if len(b.EC) > ec {
						ec = len(b.EC)
					}
				}
				for i := 0; i < ec; i += 8 {
					for bi, b := range blocks {
						if i+8 <= len(b.EC) {
							want = append(want, b.EC[i:i+8]...)
							desc = append(desc, fmt.Sprintf("error correction codeword %d of block %d", i/8, bi))
						}
					}
				}
				lay := r.layout()
				s, mk := sc[0], ms[0]
				if len(want)/8 != oracle.Total(r.Ver) {
					c.Fail("interleave", r.Name(), "", "the blocks hold %d codewords, the symbol %d", len(want)/8, oracle.Total(r.Ver))
					return
				}
				for k := range want {
					x, y := lay.Zig[k][0], lay.Zig[k][1]
					n := s.Node(r.Bits[y][x])
					if oracle.Mask(mk, x, y) {
						n = r.M.B.Not(n)
					}
					if n != want[k] {
						wh := r.where(x, y)
						c.Fail("interleave", r.Name(), wh, "codeword %d in placement order must be %s", k/8, desc[k/8])
						return
					}
				}
				c.Ok("interleave", len(want)/8)
			})
		}})

	register(&Check{ID: "S08", Title: "Symbol dimension and module types",
		Rule: "For every version and level: the matrix is 4v+17 modules wide and high, as is the reported dimension, every module is visited, and its type names the region the standard puts it in (finder, separator, timing, format, version, dark, data), with no module left unset.",
		Min:  470_000, Run: func(c *Ctx) {
			allSymbols(c, pairsSel(c), func(r *SymRun) {
				m, p := r.M, r.P
				d, dead := call(m, p, "Dim", r.QR)
				c.Check(!dead && d.K == absint.KInt && int(d.N) == oracle.Dim(r.Ver), "dimension", r.Name()+" Dimension()", "", "reported dimension %v, want %d", d, oracle.Dim(r.Ver))
				t, _ := call(m, p, "Size", r.Mat)
				c.Check(tup(t, 1).K == absint.KInt && int(tup(t, 1).N) == oracle.Dim(r.Ver), "dimension", r.Name()+" Height()", "", "height %v", tup(t, 1))
				if !r.sizeOK(c) {
					return
				}
				ty, _ := call(m, p, "Types")
				var code []int64
				for _, v := range m.SliceCells(ty) {
					code = append(code, v.N)
				}
				// INIT DATA VERSION FORMAT FINDER DARK SPLITTER TIMING
				want := map[oracle.Region]int64{oracle.Data: code[1], oracle.Version: code[2], oracle.Format: code[3], oracle.Finder: code[4], oracle.Dark: code[5], oracle.Separator: code[6], oracle.Timing: code[7], oracle.Align: code[1]}
				lay := r.layout()
				ok := 0
				for y := range r.Bits {
					for x := range r.Bits[y] {
						reg := lay.Region[y][x]
						v := r.Types[y][x]
						good := v.K == absint.KInt && v.N == want[reg]
						if reg == oracle.Align && (x == 6 || y == 6) && v.K == absint.KInt && v.N == want[oracle.Timing] {
							good = true
						}
						if good {
							ok++
							continue
						}
						c.Fail("module-type", fmt.Sprintf("%s %s", r.Name(), oracle.RegionName[reg]), r.where(x, y), "module (%d,%d) has type %v, want %d", x, y, v, want[reg])
					}
				}
				c.Ok("module-type", ok)
			})
		}})
}

// pairsSel: quick checks one level per version for rules that do not involve
// the level, thorough checks all of them.
func pairsSel(c *Ctx) [][2]int {
	if c.Thorough() || c.C.ID == "S03" || c.C.ID == "S02" || c.C.ID == "S04" {
		return pairsAll()
	}
	return pairsRot()
}

// orderBlocks orders the Reed-Solomon calls by the message bits they hold.
func orderBlocks(r *SymRun) []absint.RSCall {
	idx := map[bdd.Node]int{}
	n := 0
	for _, v := range r.In {
		bs := r.M.Bits(v)
		for k := 7; k >= 0; k-- {
			if bs[k] > 1 {
				if _, ok := idx[bs[k]]; !ok {
					idx[bs[k]] = n
				}
			}
			n++
		}
	}
	key := func(c absint.RSCall) int {
		best := 1 << 30
		for _, b := range c.Data {
			if k, ok := idx[b]; ok && k < best {
				best = k
			}
		}
		return best
	}
	out := append([]absint.RSCall(nil), r.M.RSCalls...)
	ks := make([]int, len(out))
	for i := range out {
		ks[i] = key(out[i])
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return out
}
