package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"time"

	"verifh/core"
)

func init() { checks["C06"] = checkC06 }

// concProg is a set of tests that run at the same time over shared files.
type concProg struct {
	cfgs  []core.Cfg
	pre   []core.Exec // recorded first, serially
	step  []core.Exec
	tb    *Table
	label string
	links [][2]string
}

func (p *concProg) op(kind string, cfg int, v core.Val, key string) core.Op {
	return p.tb.Op(PCall{Op: core.Op{K: kind, C: cfg, V: []core.Val{v}}, Key: key, Exact: true})
}

var concVals = []string{"one", "two\nlines", "", "---", "[TestC/1 - 1]\nx", "\n\n", "/-/-/-/", strings.Repeat("long ", 300)}

// genConc draws a concurrent program: every test has stored and missing slots
// and makes matching, creating, failing and updating calls.
func genConc(r *core.Rng, tests, calls int) *concProg {
	p := &concProg{tb: &Table{}}
	p.cfgs = []core.Cfg{{Dir: ptr("$CASE/d"), File: ptr("f")}, {Dir: ptr("$CASE/d"), File: ptr("f"), Update: ptr(true)}, {Dir: ptr("$CASE/d"), File: ptr("f"), Update: ptr(false)}, {Dir: ptr("$CASE/e")}}
	if r.Chance(0.3) {
		// some tests reach the file through another name of its directory
		p.links = [][2]string{{"l", "d"}}
		for _, c := range p.cfgs[:3] {
			c.Dir = ptr("$CASE/l")
			p.cfgs = append(p.cfgs, c)
		}
	}
	for t := 0; t < tests; t++ {
		linked := p.links != nil && r.Chance(0.5)
		name := fmt.Sprintf("TestC/%d", t+1)
		if t == 3 {
			name = "TestC"
		}
		pre := core.Exec{Test: name}
		ex := core.Exec{Test: name}
		stored := r.Range(0, calls)
		if r.Chance(0.4) {
			stored = calls
		}
		for k := 0; k < calls; k++ {
			kind := core.Pick(r, []string{"snap", "snap", "snap", "json", "yaml"})
			mk := func(n int) (core.Val, string) {
				if kind == "snap" {
					s := concVals[n%len(concVals)]
					if n >= len(concVals) {
						s += fmt.Sprint(n)
					}
					return core.S(s), core.Fmt(s)
				}
				v := val(kind, n)
				return v, sval(v)
			}
			n := r.Intn(12)
			v, key := mk(n)
			cfg := core.Pick(r, []int{0, 0, 1, 1, 2})
			if k < stored {
				pre.Ops = append(pre.Ops, p.op(kind, 0, v, key))
			}
			if r.Chance(0.45) {
				v, key = mk(n + 1)
			}
			if linked {
				cfg += 4
			}
			op := p.op(kind, cfg, v, key)
			if kind != "snap" && r.Chance(0.12) {
				pc := p.tb.Calls[len(p.tb.Calls)-1]
				if b, ok := badCall(r, pc); ok {
					op = p.tb.Op(b)
				}
			}
			ex.Ops = append(ex.Ops, op)
			if r.Chance(0.12) {
				sk := core.Pick(r, []string{"ssnap", "sjson"})
				ex.Ops = append(ex.Ops, p.op(sk, 3, val(sk, k), sval(val(sk, k))))
			}
		}
		if r.Chance(0.15) {
			ex.Ops = append(ex.Ops, core.Op{K: core.Pick(r, []string{"skip", "skipnow"}), V: []core.Val{core.S("x")}})
		}
		p.pre = append(p.pre, pre)
		p.step = append(p.step, ex)
	}
	return p
}

func checkC06(c *Ctx) {
	c.rule = "concurrent programs of 2-10 tests sharing one snapshot file (matching, creating, failing, updating, invalid, standalone and Skip calls, shared Configs): (a) under the race detector with the recording T and with t.Parallel, (b) in a build with a yield point before every statement of package snaps: every single pause point of every test (the others run to completion meanwhile), pairs of pause points, random delays; each outcome and the final file are compared with the serial slot model; non-trivial = distinct observed switch sequence or race-build history"
	c.assume = []string{"a test name runs at most once at a time, as the go command guarantees", "a standalone Filename is not shared by two tests"}
	c.timed("c06race", c.c06race)
	c.timed("c06pool", c.c06pool)
	c.timed("scale", func() { c.scale("at once", "race"); c.scale("at once", "") })
	c.timed("c06par", c.c06par)
	if out := c.tryBuild("yield"); out != "" {
		fmt.Println("note: the yield build failed, interleavings come from the race build only:", clipS(out, 400))
		c.Count("yield_build_failed", 1)
	} else {
		c.timed("c06preempt", c.c06preempt)
		c.timed("c06rand", c.c06rand)
	}
	c.Count("distinct_switch_sequences", len(c.sigs))
}

func (c *Ctx) raceCheck(blocks []string, rep any) {
	for _, b := range blocks {
		c.Count("race_reports", 1)
		if strings.Contains(b, "gkampitakis/go-snaps") {
			c.Violate(rep, "data race: %s", clipS(b, 3000))
		} else {
			c.Inconclusive("race outside go-snaps: %s", clipS(b, 3000))
		}
	}
}

// judgeConc compares a run of a concurrent program with the model.
func (c *Ctx) judgeConc(p *concProg, rr *Res, m Mode) bool {
	if c.Crashed(rr, m) {
		return false
	}
	c.raceCheck(rr.Race, replay(rr, m))
	md := newModel(rr.Case.Dir, p.cfgs, bulkBase)
	md.Links = p.links
	bad := c.bulkModel(md, p.tb, rr, m)
	bad = append(bad, md.CheckFiles(rr.Case.Dir, core.Observe(rr.Case.Dir), nil)...)
	bad = append(bad, c.order(p, rr)...)
	for i, s := range rr.Sigs {
		if i < len(rr.Sigs) {
			c.sig(s)
		}
	}
	if len(bad) > 0 {
		c.Violate(replay(rr, m), "no serial execution gives this: %s", strings.Join(bad, "; "))
		return false
	}
	return true
}

// order: entries of one test made by concurrent tests appear in the order of
// that test's calls (appends of one test are sequential).
func (c *Ctx) order(p *concProg, rr *Res) []string {
	st, ok := core.Observe(rr.Case.Dir)[filepath.Join("d", "f.snap")]
	if !ok {
		return nil
	}
	es, err := core.ParseSnap(st.Data)
	if err != nil {
		return nil // CheckFiles reported it
	}
	last := map[string]int{}
	var bad []string
	for _, e := range es {
		k := 0
		fmt.Sscanf(e.ID[strings.LastIndex(e.ID, " - ")+3:], "%d", &k)
		t := testOf(e.ID)
		if k < last[t] && len(p.pre) > 0 && !strings.Contains(p.label, "any-order") {
			bad = append(bad, fmt.Sprintf("[%s] comes after [%s - %d]", e.ID, t, last[t]))
		}
		last[t] = k
	}
	return bad
}

func (c *Ctx) sig(s uint64) {
	c.mu.Lock()
	if c.sigs == nil {
		c.sigs = map[uint64]bool{}
	}
	c.sigs[s] = true
	c.mu.Unlock()
}

func (p *concProg) kase(c *Ctx) core.Case {
	k := c.NewCase()
	k.Cfgs = p.cfgs
	k.Links = p.links
	for i := range p.pre {
		k.Steps = append(k.Steps, []core.Exec{p.pre[i]})
	}
	k.Steps = append(k.Steps, p.step)
	return k
}

func (c *Ctx) c06race() {
	r := c.Rng("race")
	n := c.N(120, 2500)
	var ps []*concProg
	var cs []core.Case
	for i := 0; i < n; i++ {
		p := genConc(r, r.Range(2, 10), r.Range(1, 8))
		ps = append(ps, p)
		cs = append(cs, p.kase(c))
	}
	for _, m := range []Mode{{Variant: "race"}, {Variant: "race", Upd: "true", HasUpd: true}} {
		for i := range cs {
			cs[i].ID, cs[i].Dir = "", ""
			nc := c.NewCase()
			cs[i].ID, cs[i].Dir = nc.ID, nc.Dir
		}
		for i, rr := range c.RunCases(m, cs, 10) {
			c.Eval(shape(rr.Case) + m.String())
			c.Count("race_build_calls", len(rr.Calls))
			c.judgeConc(ps[i], rr, m)
		}
	}
}

// c06pool: t.Parallel under the race detector.
func (c *Ctx) c06pool() {
	r := c.Rng("pool")
	n := c.N(40, 600)
	type hist struct {
		m  *Model
		tb *Table
		p  PCase
	}
	var hs []*hist
	for i := 0; i < n; i++ {
		h := &hist{tb: &Table{}}
		cs := c.NewCase()
		cs.Cfgs = stdCfgs(r)
		if r.Chance(0.5) {
			cs.Cfgs = append(cs.Cfgs, core.Cfg{Dir: cs.Cfgs[0].Dir, File: ptr("shared"), Update: ptr(true)})
		}
		g := &treeGen{r: r, tb: h.tb, cfgs: cs.Cfgs, flat: map[string]string{}, kinds: allKinds, iters: core.Pick(r, []int{1, 2}), par: true, depth: 1}
		g.extra = func(full string, depth int) []core.Op {
			var ops []core.Op
			if r.Chance(0.85) {
				ops = append(ops, core.Op{K: "par"})
			}
			return append(ops, g.calls(full, 4)...)
		}
		g.par = false
		var nodes []core.Node
		for _, t := range topNames() {
			nodes = append(nodes, g.node(t, "", 0))
		}
		h.m = newModel(cs.Dir, cs.Cfgs, baseOf)
		h.p = PCase{Case: cs, Nodes: nodes, Mode: Mode{Variant: "race", Args: []string{fmt.Sprintf("-test.count=%d", g.iters), "-test.parallel=16"}}}
		hs = append(hs, h)
	}
	for _, base := range []Mode{{}, Upd("true")} {
		var ps []PCase
		for _, h := range hs {
			p := h.p
			p.Mode.Upd, p.Mode.HasUpd = base.Upd, base.HasUpd
			p.Case.Clean = 1
			p.Case.Sort = true
			ps = append(ps, p)
		}
		for i, pr := range c.RunPool(ps) {
			h := hs[i]
			if h.m == nil || c.PCrashed(pr) {
				h.m = nil
				continue
			}
			c.Eval(fmt.Sprintf("pool%d%s", i, base))
			c.Count("parallel_calls", len(pr.Calls))
			c.raceCheck(pr.Race, pr.replay())
			h.m.NewProcess()
			bad := c.poolModel(h.m, h.tb, pr)
			// Clean sorted the files
			for _, es := range h.m.Multi {
				for _, e := range es {
					e.old = false
				}
			}
			bad = append(bad, h.m.CheckFiles(h.p.Case.Dir, core.Observe(h.p.Case.Dir), nil)...)
			if len(bad) > 0 {
				c.Violate(pr.replay(), "parallel tests (mode %s): no serial execution gives this: %s", pr.P.Mode, strings.Join(bad, "; "))
				h.m = nil
			}
		}
	}
}

// c06par: one test calling from several goroutines with equal values: which
// call gets which slot is open, the set of outcomes and slots is not.
func (c *Ctx) c06par() {
	r := c.Rng("par")
	n := c.N(30, 400)
	var cs []core.Case
	var want []int
	for i := 0; i < n; i++ {
		k := c.NewCase()
		k.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d"), File: ptr("f")}, {Dir: ptr("$CASE/d")}}
		w := r.Range(2, 8)
		var ops []core.Op
		for j := 0; j < w; j++ {
			op := core.Op{K: core.Pick(r, []string{"snap", "json", "yaml", "ssnap"}), V: []core.Val{core.S(`{"n":1}`)}}
			if op.K == "ssnap" {
				op.C = 1 // named after the test
			}
			ops = append(ops, op)
		}
		// the tail makes the test's slots depend on no call being lost
		ex := core.Exec{Test: "TestPar", Ops: []core.Op{{K: "gopar", Ops: ops}}}
		other := core.Exec{Test: "TestOther", Ops: []core.Op{{K: "gopar", Ops: ops}}}
		k.Steps = [][]core.Exec{{ex, other}}
		cs = append(cs, k)
		want = append(want, 2*w)
	}
	for _, m := range []Mode{{Variant: "race"}} {
		for i, rr := range c.RunCases(m, cs, 5) {
			if c.Crashed(rr, m) {
				continue
			}
			c.Eval(fmt.Sprintf("par%d", i))
			c.raceCheck(rr.Race, replay(rr, m))
			n := 0
			for j := range rr.Calls {
				if outcome(&rr.Calls[j]) == "added" {
					n++
				}
			}
			slots := 0
			t := core.Observe(rr.Case.Dir)
			for _, f := range t.Files() {
				if !strings.HasSuffix(f, "f.snap") {
					slots++
					continue
				}
				es, err := core.ParseSnap(t[f].Data)
				if err != nil {
					c.Violate(replay(rr, m), "concurrent calls of one test left a malformed file: %v", err)
				}
				seen := map[string]bool{}
				for _, e := range es {
					if seen[e.ID] {
						c.Violate(replay(rr, m), "[%s] is stored twice", e.ID)
					}
					seen[e.ID] = true
					slots++
				}
			}
			if n != want[i] || slots != want[i] {
				c.Violate(replay(rr, m), "%d concurrent first-time calls: %d added, %d slots stored", want[i], n, slots)
			}
		}
	}
}

// c06preempt pauses one test (or two) at every yield point in turn.
func (c *Ctx) c06preempt() {
	r := c.Rng("preempt")
	n := c.N(14, 150)
	var ps []*concProg
	var cs []core.Case
	for i := 0; i < n; i++ {
		p := genConc(r, r.Range(2, 3), r.Range(1, 2))
		ps = append(ps, p)
		cs = append(cs, p.kase(c))
	}
	m := Mode{Variant: "yield"}
	// how many yield points does each test pass when it runs alone
	var runs []core.Case
	var of []int
	for i, rr := range c.RunCases(m, cs, 0) {
		if !c.judgeConc(ps[i], rr, m) || len(rr.Yields) == 0 {
			continue
		}
		for v, cnt := range rr.Yields {
			step := 1
			if !c.Thorough && cnt > 150 {
				step = cnt/150 + 1
			}
			for at := 1 + r.Intn(step); at <= cnt; at += step {
				k := cs[i]
				nc := c.NewCase()
				k.ID, k.Dir = nc.ID, nc.Dir
				k.Sched = &core.Sched{Mode: "preempt", Victim: v, At: []int{at}}
				runs = append(runs, k)
				of = append(of, i)
			}
			// pairs of pause points
			for j := c.N(25, 120); j > 0 && len(rr.Yields) > 1; j-- {
				w := (v + 1) % len(rr.Yields)
				k := cs[i]
				nc := c.NewCase()
				k.ID, k.Dir = nc.ID, nc.Dir
				k.Sched = &core.Sched{Mode: "preempt", Victim: v, At: []int{1 + r.Intn(cnt), 1 + r.Intn(max(1, rr.Yields[w]))}}
				runs = append(runs, k)
				of = append(of, i)
			}
		}
	}
	for i, rr := range c.RunCases(m, runs, 0) {
		c.Eval(fmt.Sprintf("%d/%d/%v", of[i], rr.Case.Sched.Victim, rr.Case.Sched.At))
		c.Count("preemptions", 1)
		c.Count("stuck_on_lock", rr.Stuck)
		if c.TooMany() {
			return
		}
		c.judgeConc(ps[of[i]], rr, m)
	}
}

func (c *Ctx) c06rand() {
	r := c.Rng("rand")
	n := c.N(200, 4000)
	var ps []*concProg
	var cs []core.Case
	for i := 0; i < n; i++ {
		p := genConc(r, r.Range(2, 8), r.Range(1, 5))
		k := p.kase(c)
		k.Sched = &core.Sched{Mode: "rand", Seed: uint64(r.Int63()), Rate: core.Pick(r, []int{10, 40, 120})}
		ps = append(ps, p)
		cs = append(cs, k)
	}
	m := Mode{Variant: "yield"}
	for i, rr := range c.RunCases(m, cs, 0) {
		c.Eval(fmt.Sprintf("rand%d", i))
		c.Count("random_schedules", 1)
		c.judgeConc(ps[i], rr, m)
	}
}

func (c *Ctx) timed(name string, f func()) {
	t := time.Now()
	f()
	c.Count("ms_"+name, int(time.Since(t).Milliseconds()))
}
