package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"verifh/core"
)

// The mid lab: Clean runs several times in one process with tests in between
// (a TestMain that runs m.Run more than once, a helper that calls Clean). What
// was addressed before an earlier Clean was addressed during the process.

const midRule = "; plus processes that call Clean up to four times with executions of tests in between, over recorded files with stale entries, files and bystanders mixed in"

func (c *Ctx) midLab(prop string, skip float64) {
	r := c.Rng("mid")
	type hist struct {
		p  *Prog
		lc *labCase
	}
	var hs []*hist
	var cs []core.Case
	for i := c.N(700, 7000); i > 0; i-- {
		h := &hist{p: genProg(r, allKinds, 6, 4)}
		k := c.NewCase()
		k.Cfgs = h.p.Cfgs
		h.lc = &labCase{tb: &Table{}, owner: map[string]string{}, named: map[string]string{}}
		for _, t := range h.p.Tests {
			ex := core.Exec{Test: t.Name}
			for _, pc := range t.Calls {
				ex.Ops = append(ex.Ops, h.lc.tb.Op(pc))
			}
			k.Steps = append(k.Steps, []core.Exec{ex})
		}
		h.lc.m = newModel(k.Dir, k.Cfgs, bulkBase)
		hs = append(hs, h)
		cs = append(cs, k)
	}
	by := map[string][]int{}
	modes := map[string]Mode{}
	for i, rr := range c.RunCases(Mode{}, cs, 0) {
		h := hs[i]
		if rr.Crash != "" {
			continue
		}
		c.bulkModel(h.lc.m, h.lc.tb, rr, Mode{})
		for f, e := range h.lc.m.SA {
			if h.lc.m.cfg(e.Call.Op.C).File != nil {
				h.lc.named[f] = e.Test
			} else {
				h.lc.owner[f] = e.Test
			}
		}
		h.lc.p.Case = cs[i]
		var names []string
		for _, t := range h.p.Tests {
			names = append(names, t.Name)
		}
		h.lc.noise(r, names)
		k := &cs[i]
		k.Steps = nil
		for n := r.Range(2, 8); n > 0; n-- {
			var st []core.Exec
			for _, x := range r.Perm(len(h.p.Tests))[:min(len(h.p.Tests), core.Pick(r, []int{1, 1, 1, 2, 3}))] {
				t := h.p.Tests[x]
				ex := core.Exec{Test: t.Name}
				if r.Chance(skip) {
					ex.Ops = append(ex.Ops, core.Op{K: core.Pick(r, []string{"skip", "skipf", "skipnow"}), V: []core.Val{core.S("why")}})
					st = append(st, ex)
					continue
				}
				for _, pc := range t.Calls[:r.Range(0, len(t.Calls))] {
					if r.Chance(0.15) {
						if v := changed(r, pc, h.p.IDs); v != nil {
							pc = *v
						} else if v, ok := badCall(r, pc); ok {
							pc = v
						}
					}
					ex.Ops = append(ex.Ops, h.lc.tb.Op(pc))
				}
				st = append(st, ex)
			}
			k.Steps = append(k.Steps, st)
		}
		for s := 0; s < len(k.Steps)-1; s++ {
			if len(k.CleanAfter) < 3 && r.Chance(0.4) {
				k.CleanAfter = append(k.CleanAfter, s)
			}
		}
		k.Clean = 1
		k.Sort = r.Chance(0.3)
		k.SortArg = r.Chance(0.3)
		m := core.Pick(r, cleanModes)
		if r.Chance(0.4) {
			m = Upd("clean")
		}
		by[m.String()] = append(by[m.String()], i)
		modes[m.String()] = m
	}
	for _, s := range sortedKeys(by) {
		m := modes[s]
		var part []core.Case
		for _, i := range by[s] {
			part = append(part, cs[i])
		}
		for j, rr := range c.RunCases(m, part, 1) {
			h := hs[by[s][j]]
			if c.Crashed(rr, m) {
				continue
			}
			if b := c.judgeMid(prop, h.lc, rr, m); b != "" {
				c.Violate(replay(rr, m), "%s", b)
			}
			c.Eval("mid" + shape(rr.Case) + m.String())
			if c.TooMany() {
				return
			}
		}
	}
	c.need(50, "cleans_in_between")
}

func (c *Ctx) judgeMid(prop string, lc *labCase, rr *Res, m Mode) string {
	at := append(append([]int(nil), rr.Case.CleanAfter...), len(rr.Case.Steps)-1)
	if len(at) != len(rr.Clean) {
		c.Inconclusive("Clean ran %d times, expected %d", len(rr.Clean), len(at))
	}
	for n, last := range at {
		sub := &Res{Case: new(core.Case)}
		*sub.Case = *rr.Case
		sub.Case.Steps = rr.Case.Steps[:last+1]
		k := complaints{}
		outc := map[string]int{}
		lc.skips = nil
		nskip := 0
		for i := range rr.Calls {
			call := &rr.Calls[i]
			if call.K == "clean" || call.Step > last {
				continue
			}
			sub.Calls = append(sub.Calls, *call)
			if strings.HasPrefix(call.K, "skip") {
				nskip++
				if len(lc.skips) == 0 || lc.skips[len(lc.skips)-1] != call.Test {
					lc.skips = append(lc.skips, call.Test)
				}
				continue
			}
			o := outcome(call)
			outc[o]++
			switch o {
			case "passed", "failed", "added", "updated":
			default:
				k.add("C20", "a call ended in %q: %s", o, callText(call))
			}
		}
		md := newModel(rr.Case.Dir, rr.Case.Cfgs, bulkBase)
		c.bulkModel(md, lc.tb, sub, m)
		sub.Clean, sub.CleanWrote, sub.Pre, sub.Post = rr.Clean[n:n+1], rr.CleanWrote[n:n+1], rr.Pre[n:n+1], rr.Post[n:n+1]
		skips := lc.skips
		skipped := func(test string) bool {
			for _, s := range skips {
				if isSelfOrBelow(test, s) {
					return true
				}
			}
			return false
		}
		visited := map[string]bool{}
		for f := range md.Touched {
			visited[filepath.Dir(f)] = true
		}
		ci := modeIsCI(m)
		lc.p.Case, lc.p.Mode = *rr.Case, m
		pr := &PRes{Res: *sub, P: &lc.p}
		c.judgeOne(k, lc, pr, 0, md.Touched, visited, skipped, skipped, func(string) bool { return false }, modeRemoves(m), ci, rr.Case.Sort && !ci, outc, nskip)
		if n > 0 {
			c.Count("cleans_in_between", 1)
		}
		if len(k[prop]) > 0 {
			return fmt.Sprintf("Clean #%d of a process (mode %s), after step %d: %s", n+1, m, last, strings.Join(k[prop], "; "))
		}
	}
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
