package absint

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository in SSA form.
type Program struct {
	Prog  *ssa.Program
	Fset  *token.FileSet
	Roots []*packages.Package
	Pkgs  map[string]*ssa.Package
	All   map[string]*packages.Package

	// ByteForm restricts the free bytes of the texts: 0 not at all, 1 bytes at
	// even places below 128 and the others not, 2 the other way round. In the
	// restricted forms every byte is a character of its own.
	ByteForm int

	mu    sync.Mutex
	code  sync.Map // *ssa.Function -> *fnInfo
	built map[*ssa.Package]bool
}

// fnInfo caches what is known of a function.
type fnInfo struct {
	key  string
	intr Intrinsic
	hard bool // a model with effects that are not undone
	once sync.Once
	c    *code
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if x, ok := p.code.Load(fn); ok {
		return x.(*fnInfo)
	}
	i := &fnInfo{key: fnKey(fn), intr: lookupIntrinsic(fn)}
	switch pk := fnPkgPath(fn); pk {
	case "sync", "sync/atomic", "os", "io", "bufio", "time", "runtime":
		i.hard = true
	default:
		i.hard = strings.HasPrefix(pk, "github.com/fogleman/gg") || strings.HasPrefix(pk, "github.com/yeqown/reedsolomon") || strings.HasPrefix(pk, "golang.org/x/image") ||
			strings.HasPrefix(pk, "image/")
	}
	x, _ := p.code.LoadOrStore(fn, i)
	return x.(*fnInfo)
}

// LoadConfig says what to load.
type LoadConfig struct {
	Dir      string
	Patterns []string
	Env      []string
	Overlay  map[string][]byte
}

// Load type-checks the packages and their dependencies from source.
func Load(c LoadConfig) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     c.Dir,
		Env:     append(append(os.Environ(), "GOFLAGS=-mod=readonly -buildvcs=false", "GOWORK="), c.Env...),
		Overlay: c.Overlay,
	}
	pkgs, err := packages.Load(cfg, c.Patterns...)
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages matched %v", c.Patterns)
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{Prog: prog, Fset: prog.Fset, Roots: pkgs, Pkgs: map[string]*ssa.Package{}, All: map[string]*packages.Package{},
		built: map[*ssa.Package]bool{}}
	packages.Visit(pkgs, nil, func(pk *packages.Package) { p.All[pk.PkgPath] = pk })
	for _, sp := range prog.AllPackages() {
		p.Pkgs[sp.Pkg.Path()] = sp
	}
	return p, nil
}

// Build makes sure the package of fn has SSA bodies.
func (p *Program) ensureBuilt(pkg *ssa.Package) {
	if pkg == nil {
		return
	}
	if !p.built[pkg] {
		p.built[pkg] = true
		pkg.Build()
	}
}

// EnsureBuilt builds one package by path.
func (p *Program) EnsureBuilt(path string) *ssa.Package {
	p.mu.Lock()
	defer p.mu.Unlock()
	sp := p.Pkgs[path]
	if sp != nil {
		p.ensureBuilt(sp)
	}
	return sp
}

// operand kinds
type opnd struct {
	reg int // >= 0: register
	c   V
	g   *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	op  []opnd
	dst int
	// precomputed
	off  int
	typ  types.Type
	call *ssa.CallCommon
}

type cblock struct {
	b     *ssa.BasicBlock
	phis  []*ssa.Phi
	phiOp [][]opnd // per phi, per predecessor
	phiD  []int
	ins   []cinstr
	succs []*cblock
	predI []int // index of this block among succ's predecessors
	ipdom *cblock
	// joinB is where the sides meet unless they return early
	joinB *cblock
	// domRegs: registers defined in blocks strictly dominating this block
	domRegs []int
	domDone bool
	isRet   bool
}

type code struct {
	fn     *ssa.Function
	nregs  int
	params []int
	free   []int
	blocks []*cblock
	regOf  map[ssa.Value]int
	score  bool // integer results and a reference/struct parameter
}

func (p *Program) codeOf(fn *ssa.Function) *code {
	fi := p.info(fn)
	fi.once.Do(func() {
		p.mu.Lock()
		defer p.mu.Unlock()
		fi.c = p.compileFn(fn)
	})
	return fi.c
}

func (p *Program) compileFn(fn *ssa.Function) *code {
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg == nil && fn.Parent() != nil {
		for f := fn; f != nil; f = f.Parent() {
			if f.Pkg != nil {
				pkg = f.Pkg
				break
			}
			if f.Origin() != nil && f.Origin().Pkg != nil {
				pkg = f.Origin().Pkg
				break
			}
		}
	}
	p.ensureBuilt(pkg)
	return compile(fn)
}

func compile(fn *ssa.Function) *code {
	if len(fn.Blocks) == 0 {
		return nil
	}
	c := &code{fn: fn, regOf: map[ssa.Value]int{}}
	reg := func(v ssa.Value) int {
		if r, ok := c.regOf[v]; ok {
			return r
		}
		r := c.nregs
		c.nregs++
		c.regOf[v] = r
		return r
	}
	for _, p := range fn.Params {
		c.params = append(c.params, reg(p))
	}
	for _, f := range fn.FreeVars {
		c.free = append(c.free, reg(f))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v)
			}
		}
	}
	mk := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{reg: -1, c: constV(x)}
		case *ssa.Global:
			return opnd{reg: -2, g: x}
		case *ssa.Function:
			return opnd{reg: -1, c: V{K: KFunc, X: &FuncV{Fn: x}}}
		case *ssa.Builtin:
			return opnd{reg: -1, c: V{K: KFunc, X: &FuncV{Builtin: x, Name: x.Name()}}}
		}
		return opnd{reg: c.regOf[v]}
	}
	bm := make([]*cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		bm[i] = &cblock{b: b}
	}
	for i, b := range fn.Blocks {
		cb := bm[i]
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ph)
				cb.phiD = append(cb.phiD, c.regOf[ph])
				var os []opnd
				for _, e := range ph.Edges {
					os = append(os, mk(e))
				}
				cb.phiOp = append(cb.phiOp, os)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = c.regOf[v]
				ci.typ = v.Type()
			}
			var rands []*ssa.Value
			rands = in.Operands(rands)
			for _, r := range rands {
				if *r == nil {
					ci.op = append(ci.op, opnd{reg: -3})
					continue
				}
				ci.op = append(ci.op, mk(*r))
			}
			switch x := in.(type) {
			case *ssa.FieldAddr:
				st := deref(x.X.Type()).Underlying().(*types.Struct)
				ci.off = FieldOff(st, x.Field)
			case *ssa.IndexAddr:
				ci.off = Sizeof(deref(x.Type()))
			case *ssa.Return:
				cb.isRet = true
			case *ssa.Call:
				ci.call = x.Common()
			case *ssa.Defer:
				ci.call = x.Common()
			case *ssa.Go:
				ci.call = x.Common()
			}
			cb.ins = append(cb.ins, ci)
		}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, bm[s.Index])
		}
	}
	// predecessor indices (a block may occur twice among predecessors)
	for i, b := range fn.Blocks {
		cb := bm[i]
		seen := map[*ssa.BasicBlock]int{}
		for _, s := range b.Succs {
			k := 0
			want := seen[s]
			for pi, pb := range s.Preds {
				if pb == b {
					if k == want {
						cb.predI = append(cb.predI, pi)
						break
					}
					k++
				}
			}
			seen[s]++
		}
	}
	c.blocks = bm
	var last *cblock
	rets := 0
	for _, b := range bm {
		if b.isRet {
			rets++
			if last == nil || retPos(b) > retPos(last) {
				last = b
			}
		}
	}
	postdom(bm, nil)
	if rets > 1 {
		ip := make([]*cblock, len(bm))
		for i, b := range bm {
			ip[i], b.ipdom = b.ipdom, nil
		}
		postdom(bm, last)
		for i, b := range bm {
			b.joinB, b.ipdom = b.ipdom, ip[i]
		}
	}
	for _, b := range bm {
		if b.joinB == nil || b.ipdom != nil {
			b.joinB = b.ipdom
		}
		if b.ipdom != nil {
			c.domRegsOf(b.ipdom)
		}
		if b.joinB != nil {
			c.domRegsOf(b.joinB)
		}
	}
	c.score = isScoreSig(fn.Signature) && strings.Contains(fnPkgPath(fn), ".") && !indexResult(fn)
	return c
}

func isScoreSig(sig *types.Signature) bool {
	if sig.Results().Len() == 0 {
		return false
	}
	for i := 0; i < sig.Results().Len(); i++ {
		b, ok := sig.Results().At(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsInteger|types.IsFloat) == 0 {
			return false
		}
	}
	ref := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Struct, *types.Map, *types.Array:
			return true
		}
		return false
	}
	if sig.Recv() != nil && ref(sig.Recv().Type()) {
		return true
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if ref(sig.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func retPos(b *cblock) token.Pos {
	if n := len(b.ins); n > 0 {
		if p := b.ins[n-1].in.Pos(); p.IsValid() {
			return p
		}
	}
	return 1 << 40 // falling off the end
}

// postdom computes immediate postdominators with respect to returning (or to
// one return only: other returns are dead ends then).
func postdom(bs []*cblock, only *cblock) {
	isRet := func(b *cblock) bool { return b.isRet && (only == nil || b == only) }
	n := len(bs)
	exit := n
	// blocks that can reach a return
	can := make([]bool, n)
	ch := true
	for ch {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if can[i] {
				continue
			}
			if isRet(bs[i]) {
				can[i] = true
				ch = true
				continue
			}
			for _, s := range bs[i].succs {
				if can[s.b.Index] {
					can[i] = true
					ch = true
					break
				}
			}
		}
	}
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, n+1)
	for i := 0; i <= n; i++ {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[exit] = make([]uint64, words)
	pd[exit][exit/64] |= 1 << (exit % 64)
	ch = true
	for ch {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if !can[i] {
				continue
			}
			cur := append([]uint64(nil), full...)
			if isRet(bs[i]) {
				copy(cur, pd[exit])
			} else {
				for _, s := range bs[i].succs {
					if !can[s.b.Index] {
						continue
					}
					for w := range cur {
						cur[w] &= pd[s.b.Index][w]
					}
				}
			}
			cur[i/64] |= 1 << (i % 64)
			for w := range cur {
				if cur[w] != pd[i][w] {
					ch = true
					pd[i] = cur
					break
				}
			}
		}
	}
	cnt := func(s []uint64) int {
		k := 0
		for i := 0; i <= n; i++ {
			if s[i/64]>>(i%64)&1 == 1 {
				k++
			}
		}
		return k
	}
	for i := 0; i < n; i++ {
		if !can[i] {
			continue
		}
		// immediate postdominator: strict postdominator with the largest set
		best, bc := -1, -1
		for j := 0; j < n; j++ {
			if j == i || pd[i][j/64]>>(j%64)&1 == 0 || !can[j] {
				continue
			}
			if k := cnt(pd[j]); k > bc {
				best, bc = j, k
			}
		}
		if best >= 0 {
			bs[i].ipdom = bs[best]
		}
	}
}

func (c *code) domRegsOf(b *cblock) []int {
	if b.domDone {
		return b.domRegs
	}
	var rs []int
	rs = append(rs, c.params...)
	rs = append(rs, c.free...)
	for _, x := range c.blocks {
		if x != b && x.b.Dominates(b.b) {
			rs = append(rs, x.phiD...)
			for _, in := range x.ins {
				if in.dst >= 0 {
					rs = append(rs, in.dst)
				}
			}
		}
	}
	sort.Ints(rs)
	b.domRegs = rs
	b.domDone = true
	return rs
}

// RepoPackages lists the loaded packages that live under dir.
func (p *Program) RepoPackages(dir string) []*packages.Package {
	var out []*packages.Package
	for _, pk := range p.All {
		for _, f := range pk.GoFiles {
			if rel, err := filepath.Rel(dir, f); err == nil && !strings.HasPrefix(rel, "..") {
				out = append(out, pk)
				break
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].PkgPath < out[j].PkgPath })
	return out
}

// FuncAt names the function declaration around a position.
func (p *Program) FuncAt(pos token.Pos) string {
	for _, pk := range p.All {
		for _, f := range pk.Syntax {
			if f.FileStart <= pos && pos < f.FileEnd {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Pos() <= pos && pos < fd.End() {
						n := fd.Name.Name
						if fd.Recv != nil && len(fd.Recv.List) > 0 {
							n = types.ExprString(fd.Recv.List[0].Type) + "." + n
						}
						return n
					}
				}
				return pk.Name
			}
		}
	}
	return "?"
}
