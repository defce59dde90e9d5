package main

import (
	"fmt"
	"strings"

	"verifh/core"
)

func init() { checks["C01"] = checkC01 }

// replayModes are the environments a later, non-recording run can have.
func replayModes(color bool) []Mode {
	ms := []Mode{{}, {CI: "CI=true"}, Upd("true"), Upd("clean"), Upd("false"), {Color: true}}
	return ms
}

func checkC01(c *Ctx) {
	c.rule = "random programs (1-5 tests x 1-13 calls over 1-3 files, hostile bodies, mixed kinds) plus every body of <=3 lines over a hostile line alphabet; lines of up to 20 MB (thorough 200 MB), 400000 lines, names of 1.2 MB, 1200 entries in a test; recorded by one or two processes and replayed by others in another test order and mode; non-trivial = recorded at least one body with a terminator/escape/header-like/blank/invalid-UTF-8/long line"
	c.assume = []string{"no carriage return at the end of a line in multi-entry files (documented)", "a test function lies in a _test.go file"}
	r := c.Rng("prog")
	n := c.N(700, 9000)
	var progs []*Prog
	var rec []core.Case
	for i := 0; i < n; i++ {
		p := genProg(r, allKinds, 5, 5)
		progs = append(progs, p)
		cs := c.NewCase()
		cs.Cfgs = p.Cfgs
		cs.Steps = p.seqSteps(ident(len(p.Tests)))
		rec = append(rec, cs)
	}
	// exhaustive small bodies: one test, one call per body, one file
	alpha := []string{"", " ", "---", "/-/-/-/", "//-/-/-/", "[TestA - 1]", "[TestA - 2]", "a", "\xff", "\ta"}
	var bodies []string
	for _, a := range alpha {
		bodies = append(bodies, a)
		for _, b := range alpha {
			bodies = append(bodies, a+"\n"+b)
			if c.Thorough || (a != "a" && b != "a") {
				for _, d := range alpha {
					bodies = append(bodies, a+"\n"+b+"\n"+d)
				}
			}
		}
	}
	for lo := 0; lo < len(bodies); lo += 12 {
		p := &Prog{Cfgs: []core.Cfg{{Dir: ptr("$CASE")}}}
		for ti, nm := range []string{"TestA", "TestA/sub", "TestB"} {
			t := PTest{Name: nm}
			for k := 0; k < 4; k++ {
				if j := lo + ti*4 + k; j < len(bodies) {
					t.Calls = append(t.Calls, PCall{Op: core.Op{K: "snap", V: []core.Val{core.S(bodies[j])}}, Key: bodies[j], Exact: true})
				}
			}
			p.Tests = append(p.Tests, t)
		}
		progs = append(progs, p)
		cs := c.NewCase()
		cs.Cfgs = p.Cfgs
		cs.Steps = p.seqSteps(ident(3))
		rec = append(rec, cs)
	}
	// a third of the programs is recorded by two runs: the second run meets a
	// file that already has entries
	c.Count("exhaustive_bodies", len(bodies))
	first := make([]core.Case, 0, len(rec))
	firstIdx := []int{}
	for i := range rec {
		if i%3 == 0 && len(progs[i].Tests) > 1 {
			cs := rec[i]
			cs.ID += "p"
			cs.Steps = progs[i].seqSteps(perm(r, len(progs[i].Tests))[:len(progs[i].Tests)/2+1])
			first = append(first, cs)
			firstIdx = append(firstIdx, i)
		}
	}
	bad := map[int]bool{}
	for k, rr := range c.RunCases(Mode{}, first, 0) {
		if c.Crashed(rr, Mode{}) || allCalls(rr, "added") != nil {
			bad[firstIdx[k]] = true
		}
	}
	for i, rr := range c.RunCases(Mode{}, rec, 0) {
		if c.Crashed(rr, Mode{}) {
			bad[i] = true
			continue
		}
		for k := range rr.Calls {
			if o := outcome(&rr.Calls[k]); o != "added" && o != "passed" {
				bad[i] = true
				// recording did not succeed; the property says nothing here
				c.Count("not_recorded", 1)
				if os := c.Counter("not_recorded"); os <= 2 {
					fmt.Println("note: not recorded:", callText(&rr.Calls[k]))
				}
				break
			}
		}
	}
	for mi, m := range replayModes(true) {
		var cs []core.Case
		var idx []int
		var before []core.Tree
		for i := range rec {
			// every program in the default mode, the others round robin
			if bad[i] || (mi != 0 && i%(len(replayModes(true))-1) != mi-1) {
				continue
			}
			p := progs[i]
			k := rec[i]
			k.ID += fmt.Sprintf("r%d", mi)
			k.Steps = p.seqSteps(perm(r, len(p.Tests)))
			if i%2 == 0 {
				k.Steps = append(k.Steps, p.seqSteps(perm(r, len(p.Tests)))...) // -count=2
			}
			if i%5 == 0 && len(p.Tests) > 1 {
				var par []core.Exec
				for j := range p.Tests {
					par = append(par, p.Tests[j].exec())
				}
				k.Steps = [][]core.Exec{par}
			}
			core.Age(k.Dir)
			before = append(before, core.Observe(k.Dir))
			cs = append(cs, k)
			idx = append(idx, i)
		}
		for j, rr := range c.RunCases(m, cs, 0) {
			i := idx[j]
			if c.Crashed(rr, m) {
				continue
			}
			key := ""
			for _, t := range progs[i].Tests {
				for _, pc := range t.Calls {
					if pc.Exact && hostile(pc.Key) || !pc.Exact {
						key = shape(rr.Case)
					}
				}
			}
			c.Eval(key)
			c.Count("replayed_calls", len(rr.Calls))
			if k := allCalls(rr, "passed"); k != nil {
				c.Violate(replay(rr, m), "a recorded snapshot does not replay (mode %s): %s: %s", m, outcome(k), callText(k))
				continue
			}
			if d := before[j].Diff(core.Observe(rr.Case.Dir), true); len(d) > 0 {
				c.Violate(replay(rr, m), "a replay run wrote to the snapshot directory (mode %s): %s", m, strings.Join(d, "; "))
			}
			if j < 2 && mi == 0 {
				c.Sample(rr.Case)
			}
		}
	}
	c.timed("huge", func() { c.huge("replay") })
	c.rule += scaleRule
	c.timed("scale", func() { c.scale("calls|tests|configs", "") })
	if c.Counter("replayed_calls") < 1000 {
		c.Inconclusive("only %d calls replayed", c.Counter("replayed_calls"))
	}
}
