package absint

import (
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// useGraph finds out where the results of a package's functions end up.
type useGraph struct {
	calls map[*ssa.Function][]ssa.Value
	loads map[fieldKey][]ssa.Value
	free  map[ssa.Value][]*ssa.FreeVar // captured variables by what is bound to them
}

type fieldKey struct {
	t types.Type
	i int
}

var (
	useMu     sync.Mutex
	useGraphs = map[*ssa.Package]*useGraph{}
)

func graphOf(pk *ssa.Package) *useGraph {
	useMu.Lock()
	defer useMu.Unlock()
	if g := useGraphs[pk]; g != nil {
		return g
	}
	g := &useGraph{map[*ssa.Function][]ssa.Value{}, map[fieldKey][]ssa.Value{}, map[ssa.Value][]*ssa.FreeVar{}}
	useGraphs[pk] = g
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if c := x.Call.StaticCallee(); c != nil {
						g.calls[c] = append(g.calls[c], x)
						if o := c.Origin(); o != nil && o != c {
							g.calls[o] = append(g.calls[o], x)
						}
					}
				case *ssa.MakeClosure:
					for i, v := range x.Bindings {
						if i < len(x.Fn.(*ssa.Function).FreeVars) {
							g.free[v] = append(g.free[v], x.Fn.(*ssa.Function).FreeVars[i])
						}
					}
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
						k := fieldKey{deref(fa.X.Type()), fa.Field}
						g.loads[k] = append(g.loads[k], x)
					}
				case *ssa.Field:
					k := fieldKey{x.X.Type(), x.Field}
					g.loads[k] = append(g.loads[k], x)
				}
			}
		}
	}
	for _, m := range pk.Members {
		switch x := m.(type) {
		case *ssa.Function:
			visit(x)
		case *ssa.Type:
			n, ok := x.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				visit(pk.Prog.FuncValue(n.Method(i)))
			}
		}
	}
	return g
}

// indexResult tells whether a result of fn ends up as an index, a length or a
// shift count: such a function chooses something, its result is no score.
func indexResult(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		return false
	}
	pk := fn.Pkg
	if pk == nil {
		return false
	}
	g := graphOf(pk)
	seen := map[ssa.Value]bool{}
	var used func(v ssa.Value) bool
	loads := func(addr ssa.Value) bool {
		var walk func(a ssa.Value) bool
		walk = func(a ssa.Value) bool {
			if seen[a] {
				return false
			}
			seen[a] = true
			if a.Referrers() != nil {
				for _, r := range *a.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL && used(u) {
						return true
					}
				}
			}
			for _, fv := range g.free[a] {
				if walk(fv) {
					return true
				}
			}
			return false
		}
		return walk(addr)
	}
	used = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.IndexAddr:
				if x.Index == v {
					return true
				}
			case *ssa.Index:
				if x.Index == v {
					return true
				}
			case *ssa.Lookup:
				if x.Index == v {
					return true
				}
			case *ssa.Slice:
				if x.Low == v || x.High == v || x.Max == v {
					return true
				}
			case *ssa.MakeSlice:
				return true
			case *ssa.BinOp:
				switch x.Op {
				case token.SHL, token.SHR:
					if x.Y == v || used(x) {
						return true
					}
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				default:
					if used(x) {
						return true
					}
				}
			case *ssa.Phi:
				if used(x) {
					return true
				}
			case *ssa.Convert:
				if used(x) {
					return true
				}
			case *ssa.ChangeType:
				if used(x) {
					return true
				}
			case *ssa.Extract:
				if used(x) {
					return true
				}
			case *ssa.Return:
				for _, c := range g.calls[x.Parent()] {
					if used(c) {
						return true
					}
				}
			case *ssa.Call:
				if c := x.Call.StaticCallee(); c != nil {
					for i, a := range x.Call.Args {
						if a == v && i < len(c.Params) && used(c.Params[i]) {
							return true
						}
					}
				}
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					for _, l := range g.loads[fieldKey{deref(a.X.Type()), a.Field}] {
						if used(l) {
							return true
						}
					}
				case *ssa.Alloc, *ssa.FreeVar:
					if loads(a) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, c := range g.calls[fn] {
		if used(c) {
			return true
		}
	}
	return false
}
