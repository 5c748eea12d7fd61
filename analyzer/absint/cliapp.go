package absint

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/bdd"
)

// A model of github.com/urfave/cli/v2: App.Run parses the (concrete)
// arguments by the rules of package flag and calls the action.

const cliPkg = "github.com/urfave/cli/v2"

type cliCtx struct {
	vals map[string]string
	set  map[string]bool
	args []V
}

// cliArgs is a cli.Args.
type cliArgs struct{ c *cliCtx }

func (a *cliArgs) Implements(m *M, i *types.Interface) bool { return true }
func (a *cliArgs) CallMethod(m *M, name string, args []V) (V, bool) {
	get := func(i int) V {
		if i >= 0 && i < len(a.c.args) {
			return a.c.args[i]
		}
		return MkStr("")
	}
	switch name {
	case "First":
		return get(0), false
	case "Get":
		i := m.Simplify(args[0])
		if i.K != KInt {
			m.Undecided("argument %v", i)
		}
		return get(int(i.N)), false
	case "Len":
		return Int(int64(len(a.c.args))), false
	case "Present":
		return Bool(len(a.c.args) > 0), false
	case "Slice":
		return m.NewSlice(types.Typ[types.String], append([]V(nil), a.c.args...), "args"), false
	case "Tail":
		var t []V
		if len(a.c.args) > 1 {
			t = append(t, a.c.args[1:]...)
		}
		return m.NewSlice(types.Typ[types.String], t, "args"), false
	}
	m.Undecided("method %s of cli.Args", name)
	return V{}, true
}

type cliFlag struct {
	kind  string
	names []string
	def   string
	req   bool
}

// structOf loads the structure a pointer refers to, by field name.
func (m *M) structOf(p V) map[string]V {
	p = m.Simplify(p)
	var t types.Type
	if p.K == KIface && p.X != nil && p.X.(*IfaceV).Host == nil {
		t = p.X.(*IfaceV).T
		p = m.Simplify(p.X.(*IfaceV).V)
	} else if p.K == KPtr && p.X != nil {
		t = types.NewPointer(p.X.(*Obj).Typ)
	}
	if t == nil {
		m.Undecided("structure %v", p)
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok || p.K != KPtr || p.X == nil {
		m.Undecided("structure of type %v", t)
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		m.Undecided("structure of type %v", t)
	}
	v := m.Load(p, pt.Elem())
	out := map[string]V{}
	for i := 0; i < st.NumFields(); i++ {
		out[st.Field(i).Name()] = m.Simplify(m.FieldOf(v, i, st.Field(i).Type()))
	}
	return out
}

func (m *M) strsOf(v V) []string {
	var out []string
	for _, e := range m.SliceElems(v) {
		s, ok := concStr(m.Simplify(e))
		if !ok {
			m.Undecided("string %v", e)
		}
		out = append(out, s)
	}
	return out
}

func (w *World) cliFlagOf(f V) cliFlag {
	m := w.M
	f = m.Simplify(f)
	if f.K != KIface || f.X == nil || f.X.(*IfaceV).Host != nil {
		m.Undecided("flag %v", f)
	}
	t := f.X.(*IfaceV).T.String()
	k := strings.TrimPrefix(t, "*"+cliPkg+".")
	s := m.structOf(f)
	out := cliFlag{kind: k}
	n, ok := concStr(s["Name"])
	if !ok {
		m.Undecided("name of a flag")
	}
	out.names = append([]string{n}, m.strsOf(s["Aliases"])...)
	if len(m.SliceElems(s["EnvVars"])) > 0 {
		m.Undecided("flag %s takes its value from the environment", n)
	}
	if p, ok := concStr(s["FilePath"]); !ok || p != "" {
		m.Undecided("flag %s takes its value from a file", n)
	}
	if d := s["Destination"]; d.K == KPtr && d.X != nil {
		m.Undecided("flag %s has a destination", n)
	}
	if r := s["Required"]; r.K == KBool {
		out.req = r.Node() != bdd.False
	}
	v := s["Value"]
	switch k {
	case "BoolFlag":
		if v.Node() != bdd.True && v.Node() != bdd.False {
			m.Undecided("default of flag %s", n)
		}
		out.def = fmt.Sprint(v.Node() == bdd.True)
	case "StringFlag", "PathFlag":
		d, ok := concStr(v)
		if !ok {
			m.Undecided("default of flag %s", n)
		}
		out.def = d
	case "IntFlag", "Int64Flag":
		if v.K != KInt {
			m.Undecided("default of flag %s", n)
		}
		out.def = fmt.Sprint(v.N)
	case "UintFlag", "Uint64Flag":
		if v.K != KInt {
			m.Undecided("default of flag %s", n)
		}
		out.def = fmt.Sprint(uint64(v.N))
	default:
		m.Undecided("flag type %s", t)
	}
	return out
}

// check is whether the flag takes the value, in its canonical form.
func (f cliFlag) check(s string) (string, bool) {
	switch f.kind {
	case "BoolFlag":
		b, err := strconv.ParseBool(s)
		return fmt.Sprint(b), err == nil
	case "IntFlag", "Int64Flag":
		n, err := strconv.ParseInt(s, 0, 64)
		return fmt.Sprint(n), err == nil
	case "UintFlag", "Uint64Flag":
		n, err := strconv.ParseUint(s, 0, 64)
		return fmt.Sprint(n), err == nil
	}
	return s, true
}

func (w *World) installCLI() {
	m := w.M
	def := func(name string, f func(a []V) (V, bool)) {
		m.Intr[name] = func(m *M, fn *ssa.Function, a []V) (V, bool) { return f(a) }
	}
	def(cliPkg+".NewApp", func(a []V) (V, bool) {
		t := m.namedType(cliPkg, "App")
		return V{K: KPtr, X: m.AllocType(t, "app")}, false
	})
	exit := map[*ErrVal]V{}
	mk := func(a []V) (V, bool) {
		e := m.NewErr(m.opaqueStr("exit"))
		exit[e.X.(*IfaceV).Host.(*ErrVal)] = m.Simplify(a[1])
		return e, false
	}
	def(cliPkg+".Exit", mk)
	def(cliPkg+".NewExitError", mk)
	osExit := func(code V) (V, bool) { return m.Intr["os.Exit"](m, nil, []V{code}) }
	handle := func(err V) (V, bool) {
		err = m.Simplify(err)
		one := func(e V) (V, bool) {
			if e.K == KIface && e.X != nil {
				if h, ok := e.X.(*IfaceV).Host.(*ErrVal); ok {
					if c, ok := exit[h]; ok {
						return osExit(c)
					}
				}
			}
			return e, false
		}
		if err.K == KChoice {
			return m.guarded(err.X.([]Alt), one)
		}
		return one(err)
	}
	def(cliPkg+".HandleExitCoder", func(a []V) (V, bool) { _, d := handle(a[0]); return V{}, d })

	run := func(a []V) (V, bool) {
		app := m.structOf(a[0])
		args := m.SliceElems(a[1])
		if len(args) == 0 {
			m.Panic("no arguments")
			return V{}, true
		}
		no := func(n string) {
			if v := app[n]; !(v.K == KFunc && v.X == nil || v.K == KSlice && len(m.SliceElems(v)) == 0 || v.K == KUndef || v.K == KBool && v.Node() == bdd.False || v.K == KPtr && v.X == nil || v.K == KIface && v.X == nil) {
				m.Undecided("cli.App with %s", n)
			}
		}
		for _, n := range []string{"Commands", "After", "OnUsageError", "ExitErrHandler", "UseShortOptionHandling"} {
			no(n)
		}
		usage := func(why string) (V, bool) {
			w.op("usage").Name = MkStr(why)
			return m.NewErr(MkStr(why)), false
		}
		help := func(why string) (V, bool) {
			w.op("help").Name = MkStr(why)
			return NilIface, false
		}
		yes := func(n string) bool { v := app[n]; return v.K == KBool && v.Node() == bdd.True }
		c := &cliCtx{vals: map[string]string{}, set: map[string]bool{}}
		byName := map[string]int{}
		var flags []cliFlag
		add := func(f cliFlag) {
			for _, n := range f.names {
				if _, ok := byName[n]; ok {
					m.Undecided("flag %s is defined twice", n)
				}
				byName[n] = len(flags)
				c.vals[n] = f.def
			}
			flags = append(flags, f)
		}
		for _, f := range m.SliceElems(app["Flags"]) {
			add(w.cliFlagOf(f))
		}
		helpFlag, verFlag := !yes("HideHelp"), !yes("HideVersion")
		if v, ok := concStr(app["Version"]); ok && v == "" {
			verFlag = false
		}
		if helpFlag {
			add(cliFlag{kind: "BoolFlag", names: []string{"help", "h"}, def: "false"})
		}
		if verFlag {
			add(cliFlag{kind: "BoolFlag", names: []string{"version", "v"}, def: "false"})
		}
		rest := args[1:]
		used := make([]map[string]bool, len(flags))
		for len(rest) > 0 {
			s, ok := concStr(m.Simplify(rest[0]))
			if !ok {
				// a text that is not a flag
				if st, is := m.Simplify(rest[0]).X.(*Str); is && st.Len() > 0 && m.Simplify(st.At(0)).K == KInt && m.Simplify(st.At(0)).N != '-' {
					break
				}
				m.Undecided("the command line is not determined")
			}
			if len(s) < 2 || s[0] != '-' {
				break
			}
			rest = rest[1:]
			if s == "--" {
				break
			}
			n := strings.TrimPrefix(s[1:], "-")
			if n == "" || n[0] == '-' || n[0] == '=' {
				return usage("bad flag syntax: " + s)
			}
			val, has := "", false
			if i := strings.Index(n, "="); i > 0 {
				n, val, has = n[:i], n[i+1:], true
			}
			i, ok := byName[n]
			if !ok {
				if n == "help" || n == "h" {
					return help("help")
				}
				return usage("flag provided but not defined: -" + n)
			}
			f := flags[i]
			if !has {
				if f.kind == "BoolFlag" {
					val = "true"
				} else {
					if len(rest) == 0 {
						return usage("flag needs an argument: -" + n)
					}
					var ok bool
					if val, ok = concStr(m.Simplify(rest[0])); !ok {
						m.Undecided("the command line is not determined")
					}
					rest = rest[1:]
				}
			}
			cv, ok := f.check(val)
			if !ok {
				return usage("invalid value for flag -" + n)
			}
			if used[i] == nil {
				used[i] = map[string]bool{}
			}
			used[i][n] = true
			for _, x := range f.names {
				c.vals[x] = cv
				c.set[x] = true
			}
		}
		for i := range flags {
			if len(used[i]) > 1 {
				return usage("Cannot use two forms of the same flag")
			}
		}
		c.args = rest
		if helpFlag && c.vals["help"] == "true" {
			return help("help")
		}
		if verFlag && c.vals["version"] == "true" {
			return help("version")
		}
		for i, f := range flags {
			if f.req && len(used[i]) == 0 {
				return usage("required flag " + f.names[0])
			}
		}
		ct := m.AllocType(m.namedType(cliPkg, "Context"), "cli context")
		w.cli[ct] = c
		ctx := V{K: KPtr, X: ct}
		run := func(f V) (V, bool) {
			r, dead := m.Call(f, ctx)
			if dead {
				return r, dead
			}
			return handle(r)
		}
		action := func() (V, bool) {
			if helpFlag && !yes("HideHelpCommand") && len(rest) > 0 {
				if s, ok := concStr(m.Simplify(rest[0])); ok && (s == "help" || s == "h") {
					return help("help")
				}
			}
			if f := app["Action"]; f.K == KFunc && f.X != nil {
				return run(f)
			}
			return help("no action")
		}
		if b := app["Before"]; b.K == KFunc && b.X != nil {
			r, dead := run(b)
			if dead {
				return r, dead
			}
			nc := m.NilCond(r)
			return m.guarded([]Alt{{nc, Int(1)}, {m.B.Not(nc), Int(0)}}, func(k V) (V, bool) {
				if k.N == 1 {
					return action()
				}
				return r, false
			})
		}
		return action()
	}
	def("(*"+cliPkg+".App).Run", run)
	def("(*"+cliPkg+".App).RunContext", func(a []V) (V, bool) { return run([]V{a[0], a[2]}) })
	ctx := func(v V) *cliCtx {
		v = m.Simplify(v)
		if v.K == KPtr && v.X != nil {
			if c, ok := w.cli[v.X.(*Obj)]; ok {
				return c
			}
		}
		m.Undecided("cli context %v", v)
		return nil
	}
	look := func(n string, f func(s string, ok bool) V) {
		def("(*"+cliPkg+".Context)."+n, func(a []V) (V, bool) {
			k, ok := concStr(m.Simplify(a[1]))
			if !ok {
				m.Undecided("name of a flag")
			}
			s, ok := ctx(a[0]).vals[k]
			return f(s, ok), false
		})
	}
	str := func(s string, ok bool) V { return MkStr(s) }
	look("String", str)
	look("Path", str)
	look("Bool", func(s string, ok bool) V {
		b, _ := strconv.ParseBool(s)
		return Bool(b)
	})
	sint := func(s string, ok bool) V {
		n, err := strconv.ParseInt(s, 0, 64)
		if err != nil {
			n = 0
		}
		return MkInt(n, 64, true)
	}
	uint_ := func(s string, ok bool) V {
		n, err := strconv.ParseUint(s, 0, 64)
		if err != nil {
			n = 0
		}
		return MkInt(int64(n), 64, false)
	}
	look("Int", sint)
	look("Int64", sint)
	look("Uint", uint_)
	look("Uint64", uint_)
	def("(*"+cliPkg+".Context).IsSet", func(a []V) (V, bool) {
		k, ok := concStr(m.Simplify(a[1]))
		if !ok {
			m.Undecided("name of a flag")
		}
		return Bool(ctx(a[0]).set[k]), false
	})
	def("(*"+cliPkg+".Context).Args", func(a []V) (V, bool) {
		return V{K: KIface, X: &IfaceV{Host: &cliArgs{ctx(a[0])}}}, false
	})
	def("(*"+cliPkg+".Context).NArg", func(a []V) (V, bool) { return Int(int64(len(ctx(a[0]).args))), false })
	for _, n := range []string{"ShowAppHelp", "ShowVersion", "ShowSubcommandHelp"} {
		def(cliPkg+"."+n, func(a []V) (V, bool) { w.op("help"); return NilIface, false })
	}
	def(cliPkg+".ShowAppHelpAndExit", func(a []V) (V, bool) { w.op("help"); return osExit(a[1]) })
	def(cliPkg+".ShowVersion", func(a []V) (V, bool) { w.op("help"); return V{}, false })
}
