package main

import (
	"fmt"
	"strings"

	"verifh/core"
)

func init() { checks["C03"] = checkC03 }

// variant picks the recorded value, another one, or an invalid input.
func variants(r *core.Rng, p *Prog, pc PCall) []PCall {
	out := []PCall{pc}
	for i := 0; i < 2; i++ {
		if v := changed(r, pc, p.IDs); v != nil {
			out = append(out, *v)
		}
	}
	return out
}

// badCall is a call of the same slot that fails whatever is stored.
func badCall(r *core.Rng, pc PCall) (PCall, bool) {
	op := pc.Op
	switch op.K {
	case "json", "sjson":
		if r.Chance(0.5) {
			op.V = []core.Val{core.Pick(r, []core.Val{core.S("{bad"), core.S(""), core.S("{\"a\":1} x"), {T: "chan"}, {T: "errjson"}, core.By("[1,]")})}
		} else {
			op.V = []core.Val{core.S(`{"a":1}`)}
			op.M = []core.Matcher{{K: "any", Paths: []string{"missing"}}}
		}
	case "yaml":
		if r.Chance(0.5) {
			op.V = []core.Val{core.S(core.Pick(r, []string{"a: [1", "a: b: c", "\"x"}))}
		} else {
			op.V = []core.Val{core.S("a: 1\n")}
			op.M = []core.Matcher{{K: "type", Type: "string", Paths: []string{"$.a"}}}
		}
	default:
		return pc, false
	}
	return PCall{Op: op, Key: "bad", Bad: true}, true
}

func checkC03(c *Ctx) {
	c.rule = "histories of 2-3 processes, each a sequence of (also concurrent and repeated) executions of tests with prefix-related names over shared files, calls drawn from {stored value, other values, invalid input}, modes create/update/CI/Update option; real-runner trees with subtests, -count and -parallel; non-trivial = distinct history"
	c.assume = []string{"a standalone Filename is not shared by two tests", "no carriage return at the end of a line in multi-entry files"}
	r := c.Rng("bulk")
	n := c.N(450, 5000)
	type hist struct {
		p  *Prog
		vs map[string][][]PCall
		m  *Model
		tb *Table
		cs core.Case
	}
	var hs []*hist
	for i := 0; i < n; i++ {
		p := genProg(r, allKinds, 5, 5)
		if r.Chance(0.3) {
			for j := range p.Cfgs {
				if r.Chance(0.3) {
					p.Cfgs[j].Update = ptr(r.Chance(0.6))
				}
			}
		}
		h := &hist{p: p, vs: map[string][][]PCall{}, tb: &Table{}, cs: c.NewCase()}
		h.cs.Cfgs = p.Cfgs
		h.m = newModel(h.cs.Dir, p.Cfgs, bulkBase)
		for _, t := range p.Tests {
			for _, pc := range t.Calls {
				h.vs[t.Name] = append(h.vs[t.Name], variants(r, p, pc))
			}
		}
		hs = append(hs, h)
	}
	phases := []Mode{{}, Upd("true"), {}, Upd("true"), {CI: "CI=true"}}
	for ph, m := range phases {
		var cs []core.Case
		var at []*hist
		for hi, h := range hs {
			if ph > 0 && r.Chance(0.3) {
				continue
			}
			k := h.cs
			k.ID = fmt.Sprintf("%sph%d", h.cs.ID, ph)
			k.Steps = nil
			for n := r.Range(1, 5); n > 0; n-- {
				var step []core.Exec
				w := 1
				if hi%3 == 0 {
					w = r.Range(1, len(h.p.Tests))
				}
				for _, ti := range r.Perm(len(h.p.Tests))[:w] {
					t := h.p.Tests[ti]
					ex := core.Exec{Test: t.Name}
					upto := len(t.Calls)
					if r.Chance(0.25) {
						upto = r.Range(0, upto)
					}
					for ci := 0; ci < upto; ci++ {
						pc := h.vs[t.Name][ci][0]
						switch {
						case r.Chance(0.3):
							pc = core.Pick(r, h.vs[t.Name][ci])
						case r.Chance(0.15):
							if b, ok := badCall(r, pc); ok {
								pc = b
							}
						}
						op := h.tb.Op(pc)
						if r.Chance(0.06) {
							op = core.Op{K: "go", Ops: []core.Op{op}}
						} else if r.Chance(0.1) {
							op.Depth = r.Range(1, 6)
						}
						ex.Ops = append(ex.Ops, op)
					}
					step = append(step, ex)
				}
				k.Steps = append(k.Steps, step)
			}
			cs = append(cs, k)
			at = append(at, h)
		}
		for j, rr := range c.RunCases(m, cs, 0) {
			h := at[j]
			if h.m == nil {
				continue
			}
			if c.Crashed(rr, m) {
				h.m = nil
				continue
			}
			c.Eval(shape(rr.Case))
			h.m.NewProcess()
			bad := c.bulkModel(h.m, h.tb, rr, m)
			bad = append(bad, h.m.CheckFiles(h.cs.Dir, core.Observe(h.cs.Dir), nil)...)
			if len(bad) > 0 {
				c.Violate(replay(rr, m), "history phase %d (mode %s): %s", ph, m, strings.Join(bad, "; "))
				h.m = nil
			}
			if j == 0 && ph == 0 {
				c.Sample(rr.Case)
			}
		}
	}
	// every slot replays as the value the model holds
	var cs []core.Case
	var at []*hist
	for _, h := range hs {
		if h.m == nil {
			continue
		}
		k := h.cs
		k.ID += "fin"
		k.Steps = nil
		for _, e := range h.m.ReplaySteps(h.tb) {
			k.Steps = append(k.Steps, []core.Exec{e})
		}
		cs = append(cs, k)
		at = append(at, h)
	}
	m := Mode{CI: "CI=true"}
	for j, rr := range c.RunCases(m, cs, 0) {
		if c.Crashed(rr, m) {
			continue
		}
		at[j].m.NewProcess()
		c.Count("slots_replayed", len(rr.Calls))
		if bad := c.bulkModel(at[j].m, at[j].tb, rr, m); len(bad) > 0 {
			c.Violate(replay(rr, m), "a slot does not replay as the last value stored: %s", strings.Join(bad, "; "))
		}
	}
	c.c03Pool()
	c.c03Cleanup()
	if c.Counter("slots_replayed") < 500 {
		c.Inconclusive("only %d slots replayed", c.Counter("slots_replayed"))
	}
	c.rule += faultRule + againRule + scaleRule
	c.timed("scale", func() { c.scale("", "") })
	c.timed("again", func() { c.again("C03") })
	c.timed("faults", func() { c.faults("C03") })
}

// bulkModel feeds the observed calls to the model; it returns the calls whose
// outcome differs.
func (c *Ctx) bulkModel(m *Model, tb *Table, rr *Res, mode Mode) []string {
	var bad []string
	cnt := map[[2]int]map[string]int{}
	n := 0
	for i := range rr.Calls {
		k := &rr.Calls[i]
		pc := tb.Get(k)
		if pc == nil {
			continue
		}
		n++
		e := [2]int{k.Step, k.Exec}
		if cnt[e] == nil {
			cnt[e] = map[string]int{}
		}
		want := m.Call(cnt[e], mode, k.Test, pc)
		c.Count("outcome_"+want, 1)
		if got := outcome(k); got != want {
			bad = append(bad, fmt.Sprintf("%s, expected %s: %s", got, want, callText(k)))
		}
	}
	want := 0
	for _, s := range rr.Case.Steps {
		for _, e := range s {
			want += countOps(e.Ops)
		}
	}
	if n != want {
		c.Inconclusive("case %s: %d calls recorded, %d made", rr.Case.ID, n, want)
	}
	return bad
}

func countOps(ops []core.Op) int {
	n := 0
	for _, o := range ops {
		if o.Tag != "" {
			n++
		}
		n += countOps(o.Ops)
	}
	return n
}

// ---- real runner ----

var subNames = []string{"s", "s1", "s10", "s2", "case 1", "x/y", "A", "1", "é", "a-b", "a - 1", "S", "a+b", "aab", "(x)", "[y]", "y", "a.b", "a|b", "*", "a.snap", "a_1.snap_b", ".snap"}

// treeGen makes programs for the real runner.
type treeGen struct {
	r     *core.Rng
	tb    *Table
	cfgs  []core.Cfg
	flat  map[string]string
	ids   []string
	kinds []string
	iters int
	par   bool
	depth int
	extra func(full string, depth int) []core.Op // ops put first
	vals  map[string]PCall
}

func rewriteName(s string) string { return strings.ReplaceAll(s, " ", "_") }

func (g *treeGen) calls(full string, max int) []core.Op {
	var ops []core.Op
	for n := g.r.Range(0, max); n > 0; n-- {
		kind := core.Pick(g.r, g.kinds)
		cfg := g.r.Intn(len(g.cfgs))
		if kind == "ssnap" || kind == "sjson" {
			f := strings.ReplaceAll(full, "/", "_")
			if g.cfgs[cfg].File != nil {
				f = "\x00" + *g.cfgs[cfg].File
			}
			if o, ok := g.flat[f]; (ok && o != full) || strings.Contains(full, "#") {
				kind = "snap"
			} else {
				g.flat[f] = full
			}
		}
		pc := genCall(g.r, kind, cfg, g.ids)
		op := g.tb.Op(pc)
		switch {
		case g.iters > 1 && g.r.Chance(0.35):
			// another value in some iterations
			var a, b []int
			for i := 1; i <= g.iters; i++ {
				if g.r.Chance(0.5) {
					a = append(a, i)
				} else {
					b = append(b, i)
				}
			}
			if v := changed(g.r, pc, g.ids); v != nil && len(a) > 0 && len(b) > 0 {
				o2 := g.tb.Op(*v)
				op.Iters, o2.Iters = a, b
				ops = append(ops, o2)
			}
		case g.r.Chance(0.1):
			op.Depth = g.r.Range(1, 4)
		}
		ops = append(ops, op)
	}
	return ops
}

func (g *treeGen) node(name, parent string, depth int) core.Node {
	full := rewriteName(name)
	if parent != "" {
		full = parent + "/" + full
	}
	nd := core.Node{Name: name}
	if g.extra != nil {
		nd.Ops = append(nd.Ops, g.extra(full, depth)...)
	}
	if g.par && g.r.Chance(0.5) {
		nd.Ops = append(nd.Ops, core.Op{K: "par"})
	}
	nd.Ops = append(nd.Ops, g.calls(full, 3)...)
	if depth < g.depth {
		used := map[string]bool{}
		for n := g.r.Intn(4); n > 0; n-- {
			s := core.Pick(g.r, subNames)
			if used[s] {
				continue
			}
			used[s] = true
			sub := g.node(s, full, depth+1)
			nd.Ops = append(nd.Ops, core.Op{K: "sub", Node: &sub})
			nd.Ops = append(nd.Ops, g.calls(full, 1)...)
		}
	}
	return nd
}

func topNames() []string {
	var out []string
	for _, f := range []string{"a", "b", "c"} {
		out = append(out, poolTests[f]...)
	}
	return append(out, "FuzzZ")
}

func (c *Ctx) c03Pool() {
	r := c.Rng("pool")
	n := c.N(120, 1500)
	type hist struct {
		m  *Model
		tb *Table
		p  PCase
	}
	var hs []*hist
	for i := 0; i < n; i++ {
		h := &hist{tb: &Table{}}
		cs := c.NewCase()
		cfgs := stdCfgs(r)
		cs.Cfgs = cfgs
		g := &treeGen{r: r, tb: h.tb, cfgs: cfgs, flat: map[string]string{}, kinds: allKinds, iters: core.Pick(r, []int{1, 2, 3}), par: r.Chance(0.6), depth: 2}
		var nodes []core.Node
		tops := topNames()
		for _, x := range r.Perm(len(tops))[:r.Range(1, 5)] {
			g.ids = append(g.ids, core.SlotIDs([]string{tops[x]}, 3)...)
			nodes = append(nodes, g.node(tops[x], "", 0))
		}
		h.m = newModel(cs.Dir, cfgs, baseOf)
		h.p = PCase{Case: cs, Nodes: nodes, Mode: Mode{Args: []string{fmt.Sprintf("-test.count=%d", g.iters), fmt.Sprintf("-test.parallel=%d", core.Pick(r, []int{1, 4, 8}))}}}
		hs = append(hs, h)
	}
	for _, base := range []Mode{{}, Upd("true"), {CI: "CI=true"}} {
		var ps []PCase
		for _, h := range hs {
			p := h.p
			p.Mode.CI, p.Mode.Upd, p.Mode.HasUpd = base.CI, base.Upd, base.HasUpd
			ps = append(ps, p)
		}
		for i, pr := range c.RunPool(ps) {
			h := hs[i]
			if h.m == nil || c.PCrashed(pr) {
				h.m = nil
				continue
			}
			c.Eval(fmt.Sprintf("pool%d%s", i, base))
			c.Count("pool_executions", len(pr.Events))
			c.Count("pool_calls", len(pr.Calls))
			h.m.NewProcess()
			bad := c.poolModel(h.m, h.tb, pr)
			bad = append(bad, h.m.CheckFiles(h.p.Case.Dir, core.Observe(h.p.Case.Dir), nil)...)
			if len(bad) > 0 {
				c.Violate(pr.replay(), "real runner (mode %s): %s", pr.P.Mode, strings.Join(bad, "; "))
				h.m = nil
			}
		}
	}
}

// c03Cleanup: calls made from the test's own t.Cleanup functions belong to the
// same execution.
func (c *Ctx) c03Cleanup() {
	call := func(tb *Table, s string) core.Op {
		return tb.Op(PCall{Op: core.Op{K: "snap", V: []core.Val{core.S(s)}}, Key: s, Exact: true})
	}
	for _, w := range []string{"after", "before"} {
		tb := &Table{}
		cs := c.NewCase()
		cs.Cfgs = []core.Cfg{{Dir: ptr("$CASE")}}
		var ex core.Exec
		ex.Test = "TestCleanup"
		cl := core.Op{K: "cleanup", Ops: []core.Op{call(tb, "from cleanup")}}
		if w == "after" {
			ex.Ops = []core.Op{call(tb, "one"), cl, call(tb, "two")}
		} else {
			ex.Ops = []core.Op{cl, call(tb, "one"), call(tb, "two")}
		}
		cs.Steps = [][]core.Exec{{ex}, {ex}}
		m := newModel(cs.Dir, cs.Cfgs, bulkBase)
		rr := c.RunCases(Mode{}, []core.Case{cs}, 0)[0]
		if c.Crashed(rr, Mode{}) {
			continue
		}
		bad := c.bulkModel(m, tb, rr, Mode{})
		bad = append(bad, m.CheckFiles(cs.Dir, core.Observe(cs.Dir), nil)...)
		if w == "after" {
			if len(bad) > 0 {
				c.Violate(replay(rr, Mode{}), "calls from t.Cleanup: %s", strings.Join(bad, "; "))
			}
			continue
		}
		c.Known("C03-cleanup-registered-first", strings.Join(bad, "; "), replay(rr, Mode{}))
	}
}
