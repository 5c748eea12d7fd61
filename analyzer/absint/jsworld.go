package absint

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/bdd"
)

// A model of syscall/js: JavaScript values are objects of the harness.

const jsPkg = "syscall/js"

// JS is a JavaScript value.
type JS struct {
	Kind  string // undefined, null, boolean, number, string, object, function
	V     V      // the Go value of a boolean, number (float) or string
	Props map[string]*JS
	Fn    V // the Go function behind js.FuncOf
	// Loose objects accept every call.
	Loose bool
}

func JSUndef() *JS        { return &JS{Kind: "undefined"} }
func JSNull() *JS         { return &JS{Kind: "null"} }
func JSStr(s string) *JS  { return &JS{Kind: "string", V: MkStr(s)} }
func JSNum(f float64) *JS { return &JS{Kind: "number", V: Flt(f)} }
func JSBool(b bool) *JS   { return &JS{Kind: "boolean", V: Bool(b)} }
func JSObj(p map[string]*JS) *JS {
	if p == nil {
		p = map[string]*JS{}
	}
	return &JS{Kind: "object", Props: p}
}

// JSWorld is the JavaScript side.
type JSWorld struct {
	M      *M
	Global *JS
	objs   map[*Obj]*JS
}

// Val is the js.Value of a JavaScript value.
func (w *JSWorld) Val(j *JS) V {
	m := w.M
	t := m.namedType(jsPkg, "Value")
	v := m.Zero(t)
	if j.Kind == "undefined" {
		return v
	}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if pt, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok {
			o := m.AllocType(pt.Elem(), "js")
			w.objs[o] = j
			fs := append([]V(nil), v.X.([]V)...)
			fs[i] = V{K: KPtr, X: o}
			return V{K: KStruct, X: fs}
		}
	}
	m.Undecided("js.Value has no reference")
	return V{}
}

// Of is the JavaScript value of a js.Value (not a choice).
func (w *JSWorld) Of(v V) *JS {
	m := w.M
	v = m.Simplify(v)
	if v.K == KStruct {
		for _, f := range v.X.([]V) {
			f = m.Simplify(f)
			if f.K == KPtr {
				if f.X == nil {
					return JSUndef()
				}
				if j, ok := w.objs[f.X.(*Obj)]; ok {
					return j
				}
			}
			if f.K == KStruct && len(f.X.([]V)) > 0 { // js.Func embeds js.Value
				return w.Of(f)
			}
		}
	}
	m.Undecided("JavaScript value %v", v)
	return nil
}

// JSAlt is a JavaScript value under a condition.
type JSAlt struct {
	C bdd.Node
	V *JS
}

// Alts lists what an interface value made by js.ValueOf can be.
func (w *JSWorld) Alts(x V) []JSAlt {
	m := w.M
	var out []JSAlt
	var ref func(c bdd.Node, v V)
	ref = func(c bdd.Node, v V) {
		v = m.Simplify(v)
		switch v.K {
		case KChoice:
			for _, a := range v.X.([]Alt) {
				if d := m.B.And(c, a.C); d != bdd.False {
					ref(d, a.V)
				}
			}
			return
		case KIface:
			if v.X == nil {
				out = append(out, JSAlt{c, JSNull()})
				return
			}
			iv := v.X.(*IfaceV)
			if iv.Host == nil && iv.T.String() == jsPkg+".Value" {
				ref(c, iv.V)
				return
			}
			if j, ok := w.From(v); ok {
				out = append(out, JSAlt{c, j})
				return
			}
			m.Undecided("result of type %v", iv.T)
		case KStruct:
			for i, f := range v.X.([]V) {
				f = m.Simplify(f)
				if f.K == KChoice {
					for _, a := range f.X.([]Alt) {
						if d := m.B.And(c, a.C); d != bdd.False {
							fs := append([]V(nil), v.X.([]V)...)
							fs[i] = a.V
							ref(d, V{K: KStruct, X: fs})
						}
					}
					return
				}
			}
			out = append(out, JSAlt{c, w.Of(v)})
			return
		}
		m.Undecided("JavaScript value %v", v)
	}
	ref(m.PC, x)
	return out
}

// From is js.ValueOf.
func (w *JSWorld) From(x V) (*JS, bool) {
	m := w.M
	x = m.Simplify(x)
	if x.K != KIface {
		m.Undecided("js.ValueOf of %v", x)
	}
	if x.X == nil {
		return JSNull(), true
	}
	iv := x.X.(*IfaceV)
	if iv.Host != nil {
		m.Undecided("js.ValueOf of an unknown value")
	}
	switch iv.T.String() {
	case jsPkg + ".Value", jsPkg + ".Func":
		return w.Of(iv.V), true
	}
	switch t := iv.T.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return &JS{Kind: "boolean", V: iv.V}, true
		case t.Info()&types.IsString != 0:
			return &JS{Kind: "string", V: iv.V}, true
		case t.Info()&(types.IsInteger|types.IsFloat) != 0:
			v := iv.V
			if t.Info()&types.IsInteger != 0 {
				v = m.Convert(v, iv.T, types.Typ[types.Float64])
			}
			return &JS{Kind: "number", V: v}, true
		}
	case *types.Slice:
		if it, ok := t.Elem().Underlying().(*types.Interface); ok && it.Empty() {
			p := map[string]*JS{}
			for i, e := range m.SliceElems(iv.V) {
				j, ok := w.From(e)
				if !ok {
					return nil, false
				}
				p[itoa(int64(i))] = j
			}
			p["length"] = JSNum(float64(len(p)))
			return JSObj(p), true
		}
	case *types.Map:
		it, ok := t.Elem().Underlying().(*types.Interface)
		if b, ok2 := t.Key().(*types.Basic); ok && ok2 && it.Empty() && b.Kind() == types.String {
			p := map[string]*JS{}
			mv := m.Simplify(iv.V)
			if mv.X == nil {
				return JSObj(p), true
			}
			mo := mv.X.(*MapObj)
			for _, k := range mo.Keys {
				e := mo.M[k]
				if e == nil || e.dead {
					continue
				}
				n, ok := concStr(m.Simplify(e.K))
				if !ok {
					m.Undecided("a key of a JavaScript object")
				}
				j, ok := w.From(e.V)
				if !ok {
					return nil, false
				}
				p[n] = j
			}
			return JSObj(p), true
		}
	}
	return nil, false
}

// NewJS installs the model.
func (m *M) NewJS() *JSWorld {
	w := &JSWorld{M: m, objs: map[*Obj]*JS{}}
	w.Global = JSObj(map[string]*JS{"console": {Kind: "object", Props: map[string]*JS{}, Loose: true}})
	def := func(n string, f func(a []V) (V, bool)) {
		m.Intr[n] = func(m *M, fn *ssa.Function, a []V) (V, bool) { return f(a) }
	}
	die := func(why string) (V, bool) {
		m.Panic(why)
		return V{}, true
	}
	// method defines a method of js.Value (and of js.Func, by its embedded Value)
	method := func(n string, f func(j *JS, a []V) (V, bool)) {
		def("("+jsPkg+".Value)."+n, func(a []V) (V, bool) {
			v := m.Simplify(a[0])
			if v.K == KChoice {
				return m.guarded(v.X.([]Alt), func(v V) (V, bool) { return f(w.Of(v), a[1:]) })
			}
			return f(w.Of(v), a[1:])
		})
	}
	isObj := func(j *JS) bool { return j.Kind == "object" || j.Kind == "function" }
	prop := func(j *JS, n string) *JS {
		if p, ok := j.Props[n]; ok {
			return p
		}
		if n == "length" && j.Kind == "function" {
			return JSNum(0)
		}
		return JSUndef()
	}
	name := func(v V) string {
		s, ok := concStr(m.Simplify(v))
		if !ok {
			m.Undecided("the name of a JavaScript property")
		}
		return s
	}
	index := func(v V) string {
		v = m.Simplify(v)
		if v.K != KInt {
			m.Undecided("the index of a JavaScript array")
		}
		return itoa(v.N)
	}
	set := func(j *JS, n string, x V) (V, bool) {
		if m.PC != bdd.True {
			m.Undecided("a JavaScript object changes under a condition")
		}
		y, ok := w.From(x)
		if !ok {
			return die("js.ValueOf: invalid value")
		}
		j.Props[n] = y
		return V{}, false
	}
	method("Get", func(j *JS, a []V) (V, bool) {
		if !isObj(j) {
			return die("syscall/js: call of Value.Get on " + j.Kind)
		}
		return w.Val(prop(j, name(a[0]))), false
	})
	method("Set", func(j *JS, a []V) (V, bool) {
		if !isObj(j) {
			return die("syscall/js: call of Value.Set on " + j.Kind)
		}
		return set(j, name(a[0]), a[1])
	})
	method("Delete", func(j *JS, a []V) (V, bool) {
		if !isObj(j) {
			return die("syscall/js: call of Value.Delete on " + j.Kind)
		}
		delete(j.Props, name(a[0]))
		return V{}, false
	})
	method("Index", func(j *JS, a []V) (V, bool) {
		if !isObj(j) {
			return die("syscall/js: call of Value.Index on " + j.Kind)
		}
		return w.Val(prop(j, index(a[0]))), false
	})
	method("SetIndex", func(j *JS, a []V) (V, bool) {
		if !isObj(j) {
			return die("syscall/js: call of Value.SetIndex on " + j.Kind)
		}
		return set(j, index(a[0]), a[1])
	})
	method("Length", func(j *JS, a []V) (V, bool) {
		if !isObj(j) {
			return die("syscall/js: call of Value.Length on " + j.Kind)
		}
		return m.Convert(prop(j, "length").V, types.Typ[types.Float64], types.Typ[types.Int]), false
	})
	method("Int", func(j *JS, a []V) (V, bool) {
		if j.Kind != "number" {
			return die("syscall/js: call of Value.Int on " + j.Kind)
		}
		return m.Convert(j.V, types.Typ[types.Float64], types.Typ[types.Int]), false
	})
	method("Float", func(j *JS, a []V) (V, bool) {
		if j.Kind != "number" {
			return die("syscall/js: call of Value.Float on " + j.Kind)
		}
		return j.V, false
	})
	method("Bool", func(j *JS, a []V) (V, bool) {
		if j.Kind != "boolean" {
			return die("syscall/js: call of Value.Bool on " + j.Kind)
		}
		return j.V, false
	})
	method("Truthy", func(j *JS, a []V) (V, bool) {
		switch j.Kind {
		case "undefined", "null":
			return Bool(false), false
		case "boolean":
			return j.V, false
		case "number":
			v := m.Simplify(j.V)
			if v.K != KFloat {
				m.Undecided("truth of a number")
			}
			return Bool(v.Float() != 0 && v.Float() == v.Float()), false
		case "string":
			return m.BinOp(token.NEQ, m.lenOf(j.V, false), Int(0), types.Typ[types.Int]), false
		}
		return Bool(true), false
	})
	method("String", func(j *JS, a []V) (V, bool) {
		switch j.Kind {
		case "string":
			return j.V, false
		case "boolean", "number":
			return m.opaqueStr("js " + j.Kind), false
		}
		return MkStr("<" + j.Kind + ">"), false
	})
	kinds := []string{"undefined", "null", "boolean", "number", "string", "symbol", "object", "function"}
	method("Type", func(j *JS, a []V) (V, bool) {
		for i, k := range kinds {
			if k == j.Kind {
				return Int(int64(i)), false
			}
		}
		return Int(0), false
	})
	def("("+jsPkg+".Type).String", func(a []V) (V, bool) {
		return m.lift(m.Simplify(a[0]), func(v V) V {
			if v.K != KInt || v.N < 0 || int(v.N) >= len(kinds) {
				m.Undecided("JavaScript type %v", v)
			}
			return MkStr(kinds[v.N])
		}), false
	})
	is := func(n, kind string) {
		method(n, func(j *JS, a []V) (V, bool) { return Bool(j.Kind == kind), false })
	}
	is("IsUndefined", "undefined")
	is("IsNull", "null")
	method("IsNaN", func(j *JS, a []V) (V, bool) {
		v := m.Simplify(j.V)
		return Bool(j.Kind == "number" && v.K == KFloat && v.Float() != v.Float()), false
	})
	call := func(j *JS, a []V) (V, bool) {
		if j.Loose {
			return w.Val(JSUndef()), false
		}
		m.Undecided("a call of a JavaScript function")
		return V{}, true
	}
	method("Call", func(j *JS, a []V) (V, bool) { return call(j, a) })
	method("Invoke", func(j *JS, a []V) (V, bool) { return call(j, a) })
	def(jsPkg+".Undefined", func(a []V) (V, bool) { return w.Val(JSUndef()), false })
	def(jsPkg+".Null", func(a []V) (V, bool) { return w.Val(JSNull()), false })
	def(jsPkg+".Global", func(a []V) (V, bool) { return w.Val(w.Global), false })
	def(jsPkg+".ValueOf", func(a []V) (V, bool) {
		j, ok := w.From(a[0])
		if !ok {
			return die("js.ValueOf: invalid value")
		}
		return w.Val(j), false
	})
	def(jsPkg+".FuncOf", func(a []V) (V, bool) {
		t := m.namedType(jsPkg, "Func")
		v := m.Zero(t)
		fs := append([]V(nil), v.X.([]V)...)
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if strings.HasSuffix(st.Field(i).Type().String(), jsPkg+".Value") {
				fs[i] = w.Val(&JS{Kind: "function", Props: map[string]*JS{}, Fn: a[0]})
			}
		}
		return V{K: KStruct, X: fs}, false
	})
	def("("+jsPkg+".Func).Release", func(a []V) (V, bool) { return V{}, false })
	return w
}

// Invoke calls a function made by js.FuncOf; the result is a JavaScript value.
func (w *JSWorld) Invoke(fn *JS, args ...*JS) (V, bool) {
	m := w.M
	t := m.namedType(jsPkg, "Value")
	n := Sizeof(t)
	as := make([]V, n*len(args))
	for i, a := range args {
		flattenInto(as[n*i:], w.Val(a))
	}
	sl := m.NewSlice(t, as, "arguments")
	sv := sl.X.(*SliceV)
	sv.Len, sv.Cap = len(args), len(args)
	return m.Call(fn.Fn, w.Val(JSUndef()), sl)
}
