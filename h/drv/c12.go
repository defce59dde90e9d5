package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"verifh/core"
)

func init() { checks["C12"] = checkC12 }

// cfgHist is one history of calls through several configs and the package
// level functions.
type cfgHist struct {
	cfgs   []core.Cfg
	tests  []string
	tb     *Table
	phases [][]cfgCall // per phase: the calls of every test in order
	modes  []Mode
}

type cfgCall struct {
	test int
	op   core.Op
}

// c12Cfgs makes configs with disjoint directories (or, for the ones without
// Dir, the default directory and different file names), so that what is
// stored through one does not depend on the calls made through another.
func c12Cfgs(r *core.Rng) []core.Cfg {
	var out []core.Cfg
	n := r.Range(2, 6)
	js := []*core.JSONOpt{nil, nil, {Width: 80, Indent: " ", SortKeys: true}, {Width: 20, Indent: "\t"}, {}, {Indent: "    ", SortKeys: true}}
	for i := 0; i < n; i++ {
		c := core.Cfg{}
		if r.Chance(0.85) {
			c.Dir = ptr(fmt.Sprintf("$CASE/c%d", i))
			if r.Chance(0.4) {
				c.File = ptr(core.Pick(r, []string{"custom", "same", "a.b"}))
			}
		} else {
			c.File = ptr(fmt.Sprintf("named%d", i))
		}
		if r.Chance(0.4) {
			c.Ext = ptr(core.Pick(r, []string{".txt", ".json", ".yaml", "x"}))
		}
		if r.Chance(0.35) {
			c.Update = ptr(r.Chance(0.5))
		}
		c.JSON = core.Pick(r, js)
		out = append(out, c)
	}
	if r.Chance(0.4) {
		// an equal twin elsewhere
		t := out[0]
		t.Dir = ptr("$CASE/twin")
		out = append(out, t)
	}
	return out
}

func genCfgHist(r *core.Rng) *cfgHist {
	h := &cfgHist{cfgs: c12Cfgs(r), tb: &Table{}}
	h.tests = []string{"TestOne", "TestTwo", "TestOne/sub"}[:r.Range(1, 3)]
	type slot struct {
		test int
		pc   PCall
		cur  PCall
		alt  []PCall
	}
	var sl []*slot
	saOwner := map[int]int{}
	ids := core.SlotIDs(h.tests, 3)
	for n := r.Range(6, 22); n > 0; n-- {
		cfg := r.Range(-1, len(h.cfgs)-1)
		kind := core.Pick(r, []string{"snap", "json", "json", "yaml", "ssnap", "sjson", "sjson"})
		ti := r.Intn(len(h.tests))
		if (kind == "ssnap" || kind == "sjson") && cfg >= 0 && h.cfgs[cfg].File != nil {
			if o, ok := saOwner[cfg]; ok && o != ti {
				ti = o
			}
			saOwner[cfg] = ti
		}
		pc := genCall(r, kind, cfg, ids)
		if kind == "json" || kind == "sjson" {
			// unsorted documents with arrays and nesting show every format option
			d := core.GenJSONObj(r, 3, false)
			pc.Op.V = []core.Val{core.Pick(r, []core.Val{core.S(d.Text(r, false, false, false)), core.By(d.Text(r, false, false, false))})}
			pc.Key = d.Key()
		}
		s := &slot{test: ti, pc: pc, cur: pc}
		for i := 0; i < 2; i++ {
			if x := changed(r, pc, ids); x != nil {
				s.alt = append(s.alt, *x)
			}
		}
		sl = append(sl, s)
	}
	h.modes = []Mode{{}, {}, Upd("true"), {CI: "CI=true"}}
	if r.Chance(0.3) {
		h.modes[1] = Upd("clean")
	}
	for p := range h.modes {
		var calls []cfgCall
		for _, s := range sl {
			pc := s.pc
			if p > 0 && len(s.alt) > 0 && r.Chance(0.5) {
				pc = core.Pick(r, s.alt)
			}
			if r.Chance(0.08) {
				if b, ok := badCall(r, pc); ok {
					pc = b
				}
			}
			calls = append(calls, cfgCall{s.test, h.tb.Op(pc)})
		}
		h.phases = append(h.phases, calls)
	}
	return h
}

type cfgVariant struct {
	name  string
	build string // how configs come about
	solo  bool   // every config in a process of its own
	rev   bool   // tests in reverse order
	conc  bool   // tests concurrently, under the race detector
	inter bool   // executions of the tests interleaved call by call is not possible with one T per test: one step per test
}

var cfgVariants = []cfgVariant{
	{name: "one config for all its calls"},
	{name: "a fresh config per call", build: "fresh"},
	{name: "configs built on first use", build: "lazy"},
	{name: "option values shared between configs", build: "optshare"},
	{name: "tests in reverse order", rev: true},
	{name: "each config in its own process", solo: true},
	{name: "tests concurrently", conc: true},
	{name: "tests concurrently, fresh configs", conc: true, build: "fresh"},
}

// steps lays out the calls of a phase; only calls through config `only` (-2:
// all).
func (h *cfgHist) steps(p int, v cfgVariant, only int) [][]core.Exec {
	by := make([]core.Exec, len(h.tests))
	for i := range by {
		by[i].Test = h.tests[i]
	}
	for _, k := range h.phases[p] {
		if only == -2 || k.op.C == only {
			by[k.test].Ops = append(by[k.test].Ops, k.op)
		}
	}
	if v.conc {
		return [][]core.Exec{by}
	}
	var out [][]core.Exec
	for i := range by {
		x := by[i]
		if v.rev {
			x = by[len(by)-1-i]
		}
		out = append(out, []core.Exec{x})
	}
	return out
}

// state is what is stored, by slot.
func (c *Ctx) cfgState(dir, pkg string) (core.Tree, map[string]string, []string) {
	t := core.Tree{}
	for n, st := range core.Observe(dir) {
		t[n] = st
	}
	for n, st := range core.Observe(filepath.Join(pkg, "__snapshots__")) {
		t[filepath.Join("__snapshots__", n)] = st
	}
	out := map[string]string{}
	var bad []string
	for n, st := range t {
		if st.Dir {
			continue
		}
		es, err := core.ParseSnap(st.Data)
		if b := filepath.Base(n); err != nil || len(es) == 0 || strings.HasPrefix(b, "Test") {
			out[n] = string(st.Data)
			continue
		}
		for _, e := range es {
			out[n+" ["+e.ID+"]"] = e.Raw
		}
	}
	return t, out, bad
}

func checkC12(c *Ctx) {
	c.rule = "histories of calls of the five APIs through 2-7 configs and the package level functions over four processes (record, compare changed values, update, CI), executed eight ways: shared configs, a fresh config per call, lazily built configs, option values shared between configs and applied in another order, reverse test order, every config in its own process, and concurrently under the race detector; outcomes must equal the serial slot model and every slot must hold the same bytes in every variant; non-trivial = distinct history x variant"
	c.assume = []string{"a standalone Filename is not shared by two tests", "configs of one history have disjoint locations, so that calls through one cannot share slots with calls through another"}
	c.writeMod()
	c.rule += scaleRule
	c.timed("scale", func() { c.scale("configs", "") })
	n := c.N(220, 4000)
	r := c.Rng("hist")
	var hs []*cfgHist
	for i := 0; i < n; i++ {
		hs = append(hs, genCfgHist(r))
	}
	c.Build("")
	c.Build("race")
	type job struct{ h int }
	ch := make(chan int, n)
	for i := range hs {
		ch <- i
	}
	close(ch)
	var wg sync.WaitGroup
	var pan any
	var pmu sync.Mutex
	for s := 0; s < slots; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					pmu.Lock()
					pan = x
					pmu.Unlock()
					for range ch {
					}
				}
			}()
			for i := range ch {
				if !c.TooMany() {
					c.c12one(s, i, hs[i])
				}
			}
		}()
	}
	wg.Wait()
	if pan != nil {
		panic(pan)
	}
	c.need(1000, "calls", "slots_compared")
	c.need(100, "outcome_added", "outcome_passed", "outcome_failed", "outcome_updated", "concurrent_calls")
}

func (c *Ctx) runOne(slot int, m Mode, k core.Case) *Res {
	cs := []core.Case{k}
	out := []*Res{{Case: &cs[0]}}
	c.runSpan(slot, m, cs, out, 0, 1)
	return out[0]
}

func (c *Ctx) c12one(slot, hi int, h *cfgHist) {
	pkg := c.Pkg(slot)
	var ref []map[string]string // states of the first variant by phase
	for vi, v := range cfgVariants {
		k := c.NewCase()
		k.Cfgs = h.cfgs
		k.Build = v.build
		model := newModel(k.Dir, h.cfgs, bulkBase)
		os.RemoveAll(filepath.Join(pkg, "__snapshots__"))
		for p, mode := range h.modes {
			if v.conc {
				mode.Variant = "race"
			}
			onlys := []int{-2}
			if v.solo {
				onlys = nil
				for i := -1; i < len(h.cfgs); i++ {
					onlys = append(onlys, i)
				}
			}
			var bad []string
			var last *Res
			for oi, only := range onlys {
				kk := k
				kk.ID = fmt.Sprintf("%sp%d-%d", k.ID, p, oi)
				kk.Steps = h.steps(p, v, only)
				rr := c.runOne(slot, mode, kk)
				if c.Crashed(rr, mode) {
					return
				}
				last = rr
				c.Count("calls", len(rr.Calls))
				if v.conc {
					c.Count("concurrent_calls", len(rr.Calls))
					c.raceCheck(rr.Race, replay(rr, mode))
				}
				model.NewProcess()
				bad = append(bad, c.bulkModel(model, h.tb, rr, mode)...)
			}
			t, st, _ := c.cfgState(k.Dir, pkg)
			bad = append(bad, model.CheckFiles(k.Dir, t, nil)...)
			if vi == 0 {
				ref = append(ref, st)
			} else {
				for _, d := range mapDiff(ref[p], st) {
					bad = append(bad, "compared with calls through shared configs: "+d)
				}
			}
			c.Count("slots_compared", len(st))
			c.Eval(fmt.Sprintf("%d/%s/%d", hi, v.name, p))
			if len(bad) > 0 {
				rp := replay(last, mode)
				rp.Extra = map[string]any{"variant": v.name, "phase": p, "complaints": bad}
				c.Violate(rp, "%s (mode %s): %s", v.name, mode, clipS(strings.Join(bad, "; "), 3000))
				return
			}
			if hi == 0 && vi == 0 && p == 0 {
				c.Sample(last.Case)
			}
		}
		os.RemoveAll(k.Dir)
	}
	os.RemoveAll(filepath.Join(pkg, "__snapshots__"))
}

func mapDiff(a, b map[string]string) []string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, "missing "+k)
		} else if v != w {
			out = append(out, fmt.Sprintf("%s holds %q instead of %q", k, clipS(w, 150), clipS(v, 150)))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "unexpected "+k)
		}
	}
	sort.Strings(out)
	return out
}
