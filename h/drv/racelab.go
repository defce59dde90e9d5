package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"verifh/core"
)

// The concurrent clean lab: tests that run at the same time over files nobody
// has touched yet in the process, with stale and protected entries already in
// them, followed by Clean in the same process. What Clean knows is what the
// racing calls registered.

type raceLab struct {
	md   *Model
	tb   *Table
	cs   core.Case
	put  map[string][]core.Entry // file below the case dir -> entries before the run
	raw  map[string]string
	skip bool
}

const raceRule = "; plus tests running at the same time (1) over hundreds of files that are new to the process, (2) in the yield build with one test held back at every statement of its first calls, holding stale and protected entries, then Clean in the same process"

// genRaceStep adds one concurrent step over a file of its own.
func (l *raceLab) step(r *core.Rng, i, tests, calls int) {
	d := fmt.Sprintf("$CASE/d%d", i%7)
	if i%5 == 0 {
		d = fmt.Sprintf("$CASE/n%d", i) // a directory of its own
	}
	base := len(l.cs.Cfgs)
	f := fmt.Sprintf("f%d", i)
	l.cs.Cfgs = append(l.cs.Cfgs, core.Cfg{Dir: ptr(d), File: ptr(f)}, core.Cfg{Dir: ptr(d), File: ptr(f), Update: ptr(true)}, core.Cfg{Dir: ptr(d)})
	call := func(kind string, cfg int, n int) core.Op {
		v := val(kind, n)
		key := sval(v)
		if kind == "snap" {
			v = core.S(fmt.Sprintf("v%d\n%s", n, concVals[n%len(concVals)]))
			key = core.Fmt(string(v.B))
		}
		return l.tb.Op(PCall{Op: core.Op{K: kind, C: base + cfg, V: []core.Val{v}}, Key: key, Exact: true})
	}
	fill := r.Chance(0.6)
	var es []core.Entry
	var step []core.Exec
	for t := 0; t < tests; t++ {
		name := fmt.Sprintf("TestS%d/%d", i, t)
		if t == 2 {
			name = fmt.Sprintf("TestS%d", i)
		}
		ex := core.Exec{Test: name}
		if l.skip && t > 0 && r.Chance(0.4) {
			if r.Chance(0.3) {
				ex.Ops = append(ex.Ops, call("snap", 0, r.Intn(4)))
			}
			ex.Ops = append(ex.Ops, core.Op{K: core.Pick(r, []string{"skip", "skipf", "skipnow"}), V: []core.Val{core.S("later")}})
			for n := r.Range(1, 3); n > 0; n-- {
				es = append(es, core.Entry{ID: fmt.Sprintf("%s - %d", name, n+2), Raw: core.Pick(r, staleBodies)})
				es = append(es, core.Entry{ID: fmt.Sprintf("%s/sub%d - 1", name, n), Raw: core.Pick(r, staleBodies)})
			}
			if r.Chance(0.5) {
				l.raw[fmt.Sprintf("%s/%s_%d.snap", d, strings.ReplaceAll(name, "/", "_"), r.Range(1, 2))] = "kept"
			}
			step = append(step, ex)
			continue
		}
		for k := r.Range(1, calls); k > 0; k-- {
			kind := core.Pick(r, []string{"snap", "snap", "snap", "json", "yaml", "ssnap", "sjson"})
			cfg := core.Pick(r, []int{0, 0, 1})
			if kind == "ssnap" || kind == "sjson" {
				cfg = 2
			}
			ex.Ops = append(ex.Ops, call(kind, cfg, r.Intn(5)))
		}
		step = append(step, ex)
		if fill {
			es = append(es, core.Entry{ID: fmt.Sprintf("%s - %d", name, 20+r.Intn(3)), Raw: core.Pick(r, staleBodies)})
		}
	}
	if fill {
		es = append(es, core.Entry{ID: fmt.Sprintf("TestS%d0/0 - 1", i), Raw: "stale"}, core.Entry{ID: fmt.Sprintf("TestS%d/gone - 1", i), Raw: "stale"})
		if r.Chance(0.5) {
			l.raw[fmt.Sprintf("%s/ghost%d.snap", d, i)] = string(core.Render([]core.Entry{{ID: "TestGhost - 1", Raw: "g"}}))
		}
	}
	if len(es) > 0 {
		p := r.Perm(len(es))
		var sh []core.Entry
		seen := map[string]bool{}
		for _, j := range p {
			if !seen[es[j].ID] {
				seen[es[j].ID] = true
				sh = append(sh, es[j])
			}
		}
		l.put[fmt.Sprintf("%s/%s.snap", d, f)] = sh
	}
	l.cs.Steps = append(l.cs.Steps, step)
}

func (l *raceLab) files() {
	for f, es := range l.put {
		PutFile(strings.ReplaceAll(f, "$CASE", l.cs.Dir), core.Render(es))
	}
	for f, s := range l.raw {
		PutFile(strings.ReplaceAll(f, "$CASE", l.cs.Dir), []byte(s))
	}
}

func (c *Ctx) newRaceLab() *raceLab {
	return &raceLab{tb: &Table{}, cs: c.NewCase(), put: map[string][]core.Entry{}, raw: map[string]string{}}
}

// again is the same program in a fresh directory.
func (l *raceLab) again(c *Ctx) core.Case {
	k := l.cs
	nc := c.NewCase()
	k.ID, k.Dir = nc.ID, nc.Dir
	o := *l
	o.cs = k
	o.files()
	return k
}

func (c *Ctx) judgeRace(prop string, l *raceLab, rr *Res, m Mode) {
	if c.Crashed(rr, m) {
		return
	}
	md := newModel(rr.Case.Dir, rr.Case.Cfgs, bulkBase)
	// the entries that were there are unknown to the model of calls only
	k := complaints{}
	for _, b := range c.bulkModel(md, l.tb, rr, m) {
		k.add("C06", "%s", b)
	}
	outc := map[string]int{}
	var skips []string
	for i := range rr.Calls {
		call := &rr.Calls[i]
		switch {
		case call.K == "clean":
		case strings.HasPrefix(call.K, "skip"):
			skips = append(skips, call.Test)
		default:
			o := outcome(call)
			outc[o]++
			switch o {
			case "passed", "failed", "added", "updated":
			default:
				k.add("C20", "a call ended in %q: %s", o, callText(call))
			}
		}
	}
	skipped := func(test string) bool {
		for _, s := range skips {
			if isSelfOrBelow(test, s) {
				return true
			}
		}
		return false
	}
	off := func(string) bool { return false }
	visited := map[string]bool{}
	for f := range md.Touched {
		visited[filepath.Dir(f)] = true
	}
	ci := modeIsCI(m)
	lc := &labCase{m: md, tb: l.tb, p: PCase{Case: *rr.Case, Mode: m}, owner: map[string]string{}, named: map[string]string{}}
	for f := range l.raw {
		p := strings.ReplaceAll(f, "$CASE", rr.Case.Dir)
		if x := saName.FindStringSubmatch(filepath.Base(p)); x != nil && l.raw[f] == "kept" {
			for _, s := range skips {
				if strings.ReplaceAll(s, "/", "_") == x[1] {
					lc.owner[p] = s
				}
			}
		}
	}
	pr := &PRes{Res: *rr, P: &lc.p}
	if len(rr.Clean) != rr.Case.Clean {
		c.Inconclusive("Clean ran %d times, expected %d", len(rr.Clean), rr.Case.Clean)
		return
	}
	for n := range rr.Clean {
		c.judgeOne(k, lc, pr, n, md.Touched, visited, skipped, skipped, off, modeRemoves(m), ci, rr.Case.Sort && !ci, outc, len(skips))
	}
	c.Count("racing_tests", len(rr.Case.Steps)*2)
	if len(k[prop]) > 0 {
		c.Violate(replay(rr, m), "tests running at the same time (mode %s): %s", m, strings.Join(k[prop], "; "))
	}
}

// raceLabs runs both workloads for one property.
func (c *Ctx) raceLabs(prop string, skip bool) {
	c.timed("racefresh", func() { c.raceFresh(prop, skip) })
	if out := c.tryBuild("yield"); out != "" {
		fmt.Println("note: the yield build failed:", clipS(out, 400))
		c.Count("yield_build_failed", 1)
		return
	}
	c.timed("racepreempt", func() { c.racePreempt(prop, skip) })
}

func (c *Ctx) raceFresh(prop string, skip bool) {
	r := c.Rng("racefresh")
	var ls []*raceLab
	var cs []core.Case
	for i := c.N(24, 300); i > 0; i-- {
		l := c.newRaceLab()
		l.skip = skip
		for j := r.Range(60, 200); j > 0; j-- {
			l.step(r, j, core.Pick(r, []int{2, 3, 4, 6, 8}), 2)
		}
		l.cs.Clean = 1
		l.cs.Sort = r.Chance(0.3)
		l.files()
		ls = append(ls, l)
		cs = append(cs, l.cs)
	}
	modes := []Mode{Upd("clean"), Upd("clean"), Upd("true"), {}}
	for mi, m := range modes {
		var part []core.Case
		var of []*raceLab
		for i := range cs {
			if i%len(modes) == mi {
				part = append(part, cs[i])
				of = append(of, ls[i])
			}
		}
		for i, rr := range c.RunCases(m, part, 1) {
			c.Eval(fmt.Sprintf("fresh%d/%d", mi, i))
			c.Count("fresh_files_raced", len(rr.Case.Steps))
			c.judgeRace(prop, of[i], rr, m)
		}
	}
}

func (c *Ctx) racePreempt(prop string, skip bool) {
	r := c.Rng("racepreempt")
	var ls []*raceLab
	var cs []core.Case
	for i := c.N(8, 60); i > 0; i-- {
		l := c.newRaceLab()
		l.skip = skip
		l.step(r, i, r.Range(2, 3), 2)
		l.cs.Clean = 1
		l.files()
		ls = append(ls, l)
		cs = append(cs, l.cs)
	}
	m := Upd("clean")
	m.Variant = "yield"
	var runs []core.Case
	var of []*raceLab
	budget := c.N(90, 400)
	for i, rr := range c.RunCases(m, cs, 1) {
		c.judgeRace(prop, ls[i], rr, m)
		for v, cnt := range rr.Yields {
			step := cnt/budget + 1
			for at := 1 + r.Intn(step); at <= cnt; at += step {
				k := ls[i].again(c)
				k.Sched = &core.Sched{Mode: "preempt", Victim: v, At: []int{at}}
				runs = append(runs, k)
				of = append(of, ls[i])
			}
			for j := budget / 5; j > 0 && len(rr.Yields) > 1; j-- {
				w := (v + 1) % len(rr.Yields)
				k := ls[i].again(c)
				k.Sched = &core.Sched{Mode: "preempt", Victim: v, At: []int{1 + r.Intn(max(1, cnt)), 1 + r.Intn(max(1, rr.Yields[w]))}}
				runs = append(runs, k)
				of = append(of, ls[i])
			}
		}
	}
	for i, rr := range c.RunCases(m, runs, 1) {
		c.Eval(fmt.Sprintf("pre%d", i))
		c.Count("clean_preemptions", 1)
		c.judgeRace(prop, of[i], rr, m)
		if c.TooMany() {
			return
		}
	}
}
