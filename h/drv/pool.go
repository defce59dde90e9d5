package main

import (
	"fmt"
	"slices"
	"strings"
	"sync"
	"time"

	"verifh/core"
)

// PCase is one run of the real test runner.
type PCase struct {
	Case  core.Case
	Nodes []core.Node
	Mode  Mode
}

// RunEv is one start of a test function.
type RunEv struct {
	Test string
	Iter int
}

// PRes is what was observed.
type PRes struct {
	Res
	Events []RunEv
	P      *PCase
}

func (p *PRes) Ran(test string) bool {
	for _, e := range p.Events {
		if e.Test == test {
			return true
		}
	}
	return false
}

func (p *PRes) replay() any {
	return map[string]any{"Mode": p.P.Mode.String(), "Case": p.P.Case, "Nodes": p.P.Nodes, "Calls": p.Calls, "Events": p.Events, "Clean": bstr(p.Clean)}
}

func bstr(b [][]byte) []string {
	var out []string
	for _, x := range b {
		out = append(out, ansi.ReplaceAllString(string(x), ""))
	}
	return out
}

// RunPool runs the cases, each in its own process under the real runner.
func (c *Ctx) RunPool(cases []PCase) []*PRes {
	for i := range cases {
		c.Build(cases[i].Mode.Variant)
		for _, n := range cases[i].Nodes {
			if !isPoolTest(n.Name) {
				panic("no test " + n.Name + " in the worker package")
			}
		}
	}
	out := make([]*PRes, len(cases))
	ch := make(chan int, len(cases))
	for i := range cases {
		ch <- i
	}
	close(ch)
	var wg sync.WaitGroup
	var pmu sync.Mutex
	var pan any
	for s := 0; s < slots; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					pmu.Lock()
					pan = r
					pmu.Unlock()
					for range ch {
					}
				}
			}()
			for i := range ch {
				out[i] = c.runPoolOne(s, &cases[i])
			}
		}()
	}
	wg.Wait()
	if pan != nil {
		panic(pan)
	}
	return out
}

func (c *Ctx) runPoolOne(slot int, p *PCase) *PRes {
	c.caseDir(&p.Case)
	r := &PRes{P: p}
	r.Case = &p.Case
	m := p.Mode
	m.Args = append([]string{"-test.timeout=120s"}, m.Args...)
	po := c.proc(slot, m, &core.Job{Mode: "pool", Nodes: p.Nodes, Case: p.Case}, 150*time.Second)
	for _, l := range po.lines {
		switch {
		case l.Done:
			r.Ended = true
		case l.Run != "":
			r.Events = append(r.Events, RunEv{l.Run, l.Iter})
		case l.Call != nil:
			r.Calls = append(r.Calls, *l.Call)
		case l.CleanN > 0:
			r.Clean = append(r.Clean, l.Clean)
			r.CleanWrote = append(r.CleanWrote, l.CleanWrote)
			r.Pre = append(r.Pre, l.PreTree)
			r.Post = append(r.Post, l.PostTree)
		}
	}
	r.Race = po.race
	if !r.Ended {
		txt := crashText(po.stderr)
		if !strings.Contains(po.stderr, "go-snaps") {
			c.Inconclusive("pool worker died outside go-snaps (code %d, slot %d): %s", po.code, slot, txt)
		}
		r.Crash = txt
		if r.Crash == "" {
			r.Crash = "process ended without finishing"
		}
	}
	return r
}

// PCrashed reports a panic or crash inside go-snaps as a violation.
func (c *Ctx) PCrashed(r *PRes) bool {
	if r.Crash != "" {
		c.Violate(r.replay(), "process died inside go-snaps: %s", r.Crash)
		return true
	}
	for _, k := range r.Calls {
		if k.Panic != "" {
			c.Violate(r.replay(), "%s panicked: %s", k.K, tail(k.Panic, 2500))
			return true
		}
	}
	return false
}

// baseOf names the test file (without extension) of a worker test.
func baseOf(test string) string {
	top := test
	if i := strings.IndexByte(top, '/'); i >= 0 {
		top = top[:i]
	}
	if top == "FuzzZ" {
		return "c_test"
	}
	for f, ts := range poolTests {
		for _, t := range ts {
			if t == top {
				return f + "_test"
			}
		}
	}
	return "main_test"
}

func bulkBase(string) string { return "main_test" }

// poolModel feeds the observed calls of a pool run to the model in the order
// each execution made them; it returns the calls whose outcome differs.
func (c *Ctx) poolModel(m *Model, tb *Table, r *PRes) []string {
	var bad []string
	type ek struct {
		t string
		i int
	}
	cnt := map[ek]map[string]int{}
	for i := range r.Calls {
		k := &r.Calls[i]
		pc := tb.Get(k)
		if pc == nil {
			continue
		}
		e := ek{k.Test, k.Iter}
		if cnt[e] == nil {
			cnt[e] = map[string]int{}
		}
		want := m.Call(cnt[e], r.P.Mode, k.Test, pc)
		if got := outcome(k); got != want {
			bad = append(bad, fmt.Sprintf("%s in %s (execution %d, tag %s): %s, expected %s: %s", k.K, k.Test, k.Iter, k.Tag, got, want, callText(k)))
		}
	}
	return bad
}

func isPoolTest(name string) bool {
	if name == "FuzzZ" {
		return true
	}
	for _, ts := range poolTests {
		if slices.Contains(ts, name) {
			return true
		}
	}
	return false
}
