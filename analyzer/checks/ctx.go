// Package checks holds the repository-specific rules. Every check loads the
// current source of the repository, analyses it and reports constructs.
package checks

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/analyzer/absint"
)

// Check is one registered rule set.
type Check struct {
	ID    string
	Title string
	Rule  string // what is decided, for the evidence
	Min   int    // obligations confirmed by hand; fewer is a failure
	Level string
	Run   func(c *Ctx)
}

var Registry = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "other"
	}
	Registry[c.ID] = c
}

// Viol is a reported construct.
type Viol struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Detail    string `json:"detail"`
	Where     string `json:"where,omitempty"`
}

func (v Viol) Key() string { return v.Rule + " | " + v.Construct }

// Ctx is one run of one check.
type Ctx struct {
	C    *Check
	Tier string
	Seed int64
	Repo string
	Home string

	mu       sync.Mutex
	obl      map[string]int
	viols    map[string]*Viol
	order    []string
	units    map[string]int
	fns      map[string]bool
	steps    int64
	sites    map[string]bool
	notes    []string
	assume   map[string]bool
	start    time.Time
	coreOnce sync.Once
	core     *absint.Program
	coreErr  error
	progs    map[string]*absint.Program
	form     int  // see absint.Program.ByteForm
	charLen  bool // the code takes free bytes apart into characters
}

// redo says that the analysis starts again with restricted bytes.
func (c *Ctx) redo() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.charLen && c.form == 0
}

// reset forgets the results and restricts the bytes of the texts.
func (c *Ctx) reset(form int) {
	c.form = form
	for _, p := range c.progs {
		p.ByteForm = form
	}
	if form == 1 {
		c.obl, c.viols, c.order = map[string]int{}, map[string]*Viol{}, nil
		c.units, c.sites, c.notes = map[string]int{}, map[string]bool{}, nil
	}
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Ok counts discharged obligations.
func (c *Ctx) Ok(rule string, n int) {
	c.mu.Lock()
	c.obl[rule] += n
	c.mu.Unlock()
}

// Fail reports a construct.
func (c *Ctx) Fail(rule, construct, where, detail string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	v := &Viol{Rule: rule, Construct: construct, Where: where, Detail: fmt.Sprintf(detail, a...)}
	c.obl[rule]++
	if _, ok := c.viols[v.Key()]; ok {
		return
	}
	c.viols[v.Key()] = v
	c.order = append(c.order, v.Key())
}

// Check discharges or reports one obligation.
func (c *Ctx) Check(ok bool, rule, construct, where, detail string, a ...any) bool {
	if ok {
		c.Ok(rule, 1)
		return true
	}
	c.Fail(rule, construct, where, detail, a...)
	return false
}

// Unit counts analysed things (runs, call sites, functions, ...).
func (c *Ctx) Unit(name string, n int) {
	c.mu.Lock()
	c.units[name] += n
	c.mu.Unlock()
}

func (c *Ctx) Note(f string, a ...any) {
	c.mu.Lock()
	c.notes = append(c.notes, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

func (c *Ctx) Assume(s string) {
	c.mu.Lock()
	c.assume[s] = true
	c.mu.Unlock()
}

// Par runs f for 0..n-1 on all cores.
func (c *Ctx) Par(n int, f func(i int)) { c.ParN(runtime.NumCPU(), n, f) }

func (c *Ctx) ParN(workers, n int, f func(i int)) {
	if workers > n {
		workers = n
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	next := 0
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= n || c.redo() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Guard analyses one unit; what the analysis cannot decide is reported.
func (c *Ctx) Guard(unit string, m *absint.M, f func()) (done bool) {
	defer func() {
		c.Absorb(m)
		if r := recover(); r != nil {
			if s, ok := r.(absint.Stop); ok {
				_ = s
				done = true
				return
			}
			if u, ok := r.(absint.Undecided); ok {
				if u.CharLen() {
					c.mu.Lock()
					c.charLen = true
					c.mu.Unlock()
				}
				c.Fail("decidable", unit, u.Stack, "the analysis cannot decide this unit: %s", u.Msg)
				return
			}
			st := ""
			if m != nil {
				st = m.StackString()
			}
			tr := string(debug.Stack())
			if i := strings.Index(tr, "panic("); i >= 0 {
				tr = tr[i:]
			}
			if len(tr) > 1500 {
				tr = tr[:1500]
			}
			c.Fail("decidable", unit, st, "the analyzer failed: %v\n%s", r, tr)
		}
	}()
	f()
	return true
}

// Absorb adds the statistics of a machine.
func (c *Ctx) Absorb(m *absint.M) {
	if m == nil {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.steps += m.Instrs
	m.Instrs = 0
	for fn := range m.Fns {
		k := absint.FnKey(fn)
		if strings.HasPrefix(k, "github.com/yeqown/go-qrcode") || strings.Contains(k, "yeqown/go-qrcode") {
			if !strings.Contains(k, "zzvp") {
				c.fns[k] = true
			}
		}
	}
}

// Known is one entry of the known-findings file.
type Known struct{ Prop, Key, Text string }

func loadKnown(home string) ([]Known, error) {
	b, err := os.ReadFile(filepath.Join(home, "known_findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=ID key=<rule | construct> :: text
		l = strings.TrimPrefix(l, "finding: ")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i || !strings.HasPrefix(l, "property=") {
			return nil, fmt.Errorf("bad known-findings line %q", l)
		}
		out = append(out, Known{l[len("property="):i], l[i+5 : j], l[j+4:]})
	}
	return out, nil
}

// Main runs one check and returns the exit status.
func Main(id, tier, repo, home string, seed int64) int {
	ck := Registry[id]
	if ck == nil {
		fmt.Printf("unknown check %s\n", id)
		return 2
	}
	c := &Ctx{C: ck, Tier: tier, Seed: seed, Repo: repo, Home: home, obl: map[string]int{}, viols: map[string]*Viol{},
		units: map[string]int{}, fns: map[string]bool{}, sites: map[string]bool{}, assume: map[string]bool{}, start: time.Now(), progs: map[string]*absint.Program{}}
	run := func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(loadError); ok {
					c.Fail("load", "repository", "", "%v", e.err)
					return
				}
				c.Fail("decidable", "check "+id, "", "the analyzer failed: %v\n%s", r, string(debug.Stack()))
			}
		}()
		ck.Run(c)
	}
	run()
	if c.redo() {
		// Texts of free bytes cannot be taken apart into characters. Bytes
		// below 128 alternating with others decode one by one; both ways of
		// alternating give every place all values.
		for form := 1; form <= 2; form++ {
			c.reset(form)
			run()
		}
		c.Assume("where the code decodes texts of free bytes as UTF-8, bytes below 128 alternate with bytes from 128 on (both ways)")
	}
	known, err := loadKnown(home)
	if err != nil {
		c.Fail("load", "known_findings.txt", "", "%v", err)
	}
	total := 0
	for _, n := range c.obl {
		total += n
	}
	if len(c.viols) == 0 && total < ck.Min {
		c.Fail("instances", "check "+id, "", "only %d obligations were found, %d were confirmed: the rule has lost its instances", total, ck.Min)
	}
	var bad []*Viol
	for _, k := range c.order {
		v := c.viols[k]
		isKnown := false
		for _, kn := range known {
			if kn.Prop == id && kn.Key == v.Key() {
				isKnown = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kn.Text)
				break
			}
		}
		if !isKnown {
			bad = append(bad, v)
		}
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	wall := time.Since(c.start).Seconds()
	fmt.Printf("check %s (%s): %s\n", id, tier, ck.Title)
	fmt.Printf("rule: %s\n", ck.Rule)
	var us []string
	for k := range c.units {
		us = append(us, k)
	}
	sort.Strings(us)
	for _, k := range us {
		fmt.Printf("analysed: %d %s\n", c.units[k], k)
	}
	fmt.Printf("analysed: %d functions of the repository, %d abstract steps, %.1f s\n", len(fns), c.steps, wall)
	var rs []string
	for k := range c.obl {
		rs = append(rs, k)
	}
	sort.Strings(rs)
	for _, k := range rs {
		fmt.Printf("obligations: %-28s %d\n", k, c.obl[k])
	}
	for _, n := range c.notes {
		fmt.Println("note:", n)
	}
	evdir := filepath.Join(home, "evidence")
	os.MkdirAll(evdir, 0o755)
	replay := filepath.Join("evidence", "replay-"+id+".txt")
	if len(bad) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: %s\nrule: %s\n\n", id, ck.Title, ck.Rule)
		for i, v := range bad {
			s := fmt.Sprintf("[%s] %s\n    %s\n", v.Rule, v.Construct, strings.ReplaceAll(v.Detail, "\n", "\n    "))
			if v.Where != "" {
				s += "    at " + v.Where + "\n"
			}
			b.WriteString(s)
			if i < 12 {
				fmt.Print(s)
			}
		}
		if len(bad) > 12 {
			fmt.Printf("... and %d more\n", len(bad)-12)
		}
		fmt.Fprintf(&b, "\nreproduce: ./run.sh %s %s\n", id, tier)
		os.WriteFile(filepath.Join(home, replay), []byte(b.String()), 0o644)
	} else {
		os.Remove(filepath.Join(home, replay))
	}
	cov := map[string]any{
		"explanation":           ck.Rule,
		"obligations":           total,
		"discharged":            total - len(c.viols),
		"obligations_by_rule":   c.obl,
		"analysed":              c.units,
		"functions_analysed":    len(fns),
		"functions":             fns,
		"abstract_steps":        c.steps,
		"minimum_obligations":   ck.Min,
		"known_findings_active": len(c.order) - len(bad),
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	var as []string
	for a := range c.assume {
		as = append(as, a)
	}
	sort.Strings(as)
	if as == nil {
		as = []string{}
	}
	var vk []string
	for _, v := range bad {
		vk = append(vk, v.Key())
	}
	if vk != nil {
		cov["violating_constructs"] = vk
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": ck.Level,
		"coverage": cov, "wall_s": wall, "assumptions": as, "violations": len(bad),
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(j, '\n'), 0o644); err != nil {
		fmt.Println("cannot write the evidence:", err)
	}
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	fmt.Printf("OK property=%s: %d obligations discharged\n", id, total)
	return 0
}

type loadError struct{ err error }

var (
	intType  types.Type = types.Typ[types.Int]
	byteType types.Type = types.Typ[types.Uint8]
	fltType  types.Type = types.Typ[types.Float64]
)
