package main

import (
	"fmt"
	"os"
	"strings"

	"verifh/core"
)

// Large numbers: whatever is counted, capped, batched or kept in a narrow
// integer shows only beyond the number. Calls per test, failing calls,
// executions, tests, files, configs, concurrent executions, skips, stale
// entries, stale files, directories.

const scaleRule = "; plus programs with hundreds of calls per test, tens of thousands of failing calls and of executions, a thousand tests, hundreds of files and configs, hundreds of tests at once"

type scaleProg struct {
	name  string
	cfgs  []core.Cfg
	steps func(vary bool) [][]core.Exec
	tb    *Table
	conc  bool
}

func (c *Ctx) scaleProgs(what string) []*scaleProg {
	r := c.Rng("scale")
	var out []*scaleProg
	want := func(n string) bool { return what == "" || strings.Contains(what, n) }
	// a program whose calls are drawn once and vary in updates
	add := func(name string, cfgs []core.Cfg, conc bool, build func(call func(kind string, cfg int) func(vary bool) core.Op) func(vary bool) [][]core.Exec) {
		if !want(name) {
			return
		}
		p := &scaleProg{name: name, cfgs: cfgs, tb: &Table{}, conc: conc}
		n := 0
		p.steps = build(func(kind string, cfg int) func(bool) core.Op {
			n++
			i := n
			return func(vary bool) core.Op {
				v := fmt.Sprintf("value %d", i)
				if vary && (i%7 == 3 || i < 4) {
					v += " changed\nline"
				}
				op := core.Op{K: kind, C: cfg}
				pc := PCall{Op: op, Key: v, Exact: true}
				switch kind {
				case "json", "sjson":
					pc.Op.V = []core.Val{core.S(core.JStr(v, nil, false))}
				case "yaml":
					pc.Op.V = []core.Val{core.S("a: " + core.JStr(v, nil, false) + "\n")}
				default:
					pc.Op.V = []core.Val{core.S(v)}
				}
				return p.tb.Op(pc)
			}
		})
		out = append(out, p)
	}
	one := []core.Cfg{{Dir: ptr("$CASE/d")}, {Dir: ptr("$CASE/e"), File: ptr("x")}}
	bad := func(p *Table, kind string) core.Op {
		if kind == "yaml" {
			return p.Op(PCall{Op: core.Op{K: kind, V: []core.Val{core.S("a: [1")}}, Key: "bad", Bad: true})
		}
		return p.Op(PCall{Op: core.Op{K: kind, V: []core.Val{core.S("{bad")}}, Key: "bad", Bad: true})
	}
	type mk = func(kind string, cfg int) func(bool) core.Op
	eval := func(fs []func(bool) core.Op, vary bool) []core.Op {
		var ops []core.Op
		for _, f := range fs {
			ops = append(ops, f(vary))
		}
		return ops
	}

	add("calls", one, false, func(call mk) func(bool) [][]core.Exec {
		var fs, gs []func(bool) core.Op
		for i := c.N(420, 3000); i > 0; i-- {
			k := core.Pick(r, []string{"snap", "snap", "json", "yaml", "ssnap", "sjson"})
			fs = append(fs, call(k, 0))
			gs = append(gs, call(core.Pick(r, []string{"snap", "json"}), 1))
		}
		return func(vary bool) [][]core.Exec {
			return [][]core.Exec{{{Test: "TestMany", Ops: eval(fs, vary)}}, {{Test: "TestMany/sub", Ops: eval(gs, vary)}}}
		}
	})
	for _, kind := range []string{"json", "sjson", "yaml"} {
		add("failing "+kind, one, false, func(call mk) func(bool) [][]core.Exec {
			first, last, more := call(kind, 0), call(kind, 0), call(kind, 0)
			p := len(out)
			return func(vary bool) [][]core.Exec {
				tb := out[p].tb
				ops := []core.Op{first(vary)}
				b := bad(tb, kind)
				for i := c.N(66_000, 140_000); i > 0; i-- {
					ops = append(ops, b)
				}
				return [][]core.Exec{{{Test: "TestBad", Ops: append(ops, last(vary), more(vary))}}}
			}
		})
	}
	add("standalone", one[:1], false, func(call mk) func(bool) [][]core.Exec {
		var fs []func(bool) core.Op
		for i := c.N(1300, 12_000); i > 0; i-- {
			fs = append(fs, call(core.Pick(r, []string{"ssnap", "ssnap", "sjson"}), 0))
		}
		return func(vary bool) [][]core.Exec {
			return [][]core.Exec{{{Test: "TestFiles", Ops: eval(fs, vary)}}}
		}
	})
	add("executions", one, false, func(call mk) func(bool) [][]core.Exec {
		fs := []func(bool) core.Op{call("snap", 0), call("json", 0), call("ssnap", 0)}
		gs := []func(bool) core.Op{call("yaml", 0), call("snap", 1)}
		return func(vary bool) [][]core.Exec {
			var st [][]core.Exec
			a, b := eval(fs, vary), eval(gs, vary)
			for i := c.N(700, 8000); i > 0; i-- {
				st = append(st, []core.Exec{{Test: "TestRepeated", Ops: a}})
				if i%3 == 0 {
					st = append(st, []core.Exec{{Test: "TestRepeated/s", Ops: b}})
				}
			}
			return st
		}
	})
	add("short executions", one, false, func(call mk) func(bool) [][]core.Exec {
		f := call("snap", 0)
		p := len(out)
		return func(vary bool) [][]core.Exec {
			var st [][]core.Exec
			b := bad(out[p].tb, "json")
			g := f(vary)
			for i := c.N(66_000, 140_000); i > 0; i-- {
				st = append(st, []core.Exec{{Test: "TestOften", Ops: []core.Op{b}}})
			}
			return append(st, []core.Exec{{Test: "TestOften", Ops: []core.Op{g}}})
		}
	})
	tests := func(call mk, n int, kinds []string) []func(bool) core.Exec {
		var es []func(bool) core.Exec
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("TestT%d", i)
			if i%5 == 4 {
				name = fmt.Sprintf("TestT%d/s%d", i%10, i)
			}
			fs := []func(bool) core.Op{call(core.Pick(r, kinds), r.Intn(2)), call(core.Pick(r, kinds), r.Intn(2))}
			es = append(es, func(vary bool) core.Exec { return core.Exec{Test: name, Ops: eval(fs, vary)} })
		}
		return es
	}
	add("tests", []core.Cfg{one[0], {Dir: ptr("$CASE/e")}}, false, func(call mk) func(bool) [][]core.Exec {
		es := tests(call, c.N(500, 3000), []string{"snap", "json", "yaml", "ssnap"})
		return func(vary bool) [][]core.Exec {
			var st [][]core.Exec
			for _, i := range r.Perm(len(es)) {
				st = append(st, []core.Exec{es[i](vary)})
			}
			return st
		}
	})
	add("at once", []core.Cfg{one[0], {Dir: ptr("$CASE/e")}}, true, func(call mk) func(bool) [][]core.Exec {
		es := tests(call, c.N(300, 1500), []string{"snap", "json", "yaml", "ssnap", "sjson"})
		return func(vary bool) [][]core.Exec {
			var st []core.Exec
			for _, i := range r.Perm(len(es)) {
				st = append(st, es[i](vary))
			}
			return [][]core.Exec{st}
		}
	})
	var many []core.Cfg
	for i := c.N(300, 1500); i > 0; i-- {
		cf := core.Cfg{Dir: ptr(fmt.Sprintf("$CASE/d%d", i%40)), File: ptr(fmt.Sprintf("f%d", i))}
		if i%4 == 1 {
			cf.Ext = ptr(fmt.Sprintf(".x%d", i))
		}
		if i%9 == 1 {
			cf.Update = ptr(i%2 == 0)
		}
		many = append(many, cf)
	}
	add("configs", many, false, func(call mk) func(bool) [][]core.Exec {
		var fs []func(bool) core.Op
		for n := 0; n < 2; n++ {
			for _, i := range r.Perm(len(many)) {
				fs = append(fs, call(core.Pick(r, []string{"snap", "json", "ssnap"}), i))
			}
		}
		return func(vary bool) [][]core.Exec {
			return [][]core.Exec{{{Test: "TestConfigs", Ops: eval(fs, vary)}}}
		}
	})
	return out
}

// scale records the programs, replays them, fails and then updates a part of
// their values, and replays the result, in a process each.
func (c *Ctx) scale(what, variant string) {
	ps := c.scaleProgs(what)
	var cs []core.Case
	var ms []*Model
	for _, p := range ps {
		k := c.NewCase()
		k.Cfgs = p.cfgs
		cs = append(cs, k)
		ms = append(ms, newModel(k.Dir, p.cfgs, bulkBase))
	}
	for ph, x := range []struct {
		m    Mode
		vary bool
	}{{Mode{}, false}, {Mode{CI: "CI=true"}, false}, {Upd("true"), false}, {Upd("clean"), true}, {Upd("true"), true}, {Mode{CI: "CI=true"}, true}} {
		if ph == 2 && !c.Thorough {
			continue
		}
		x.m.Variant = variant
		var part []core.Case
		var at []int
		for i := range cs {
			if ms[i] == nil {
				continue
			}
			k := cs[i]
			k.ID = fmt.Sprintf("%ssc%d", k.ID, ph)
			k.Steps = ps[i].steps(x.vary)
			part = append(part, k)
			at = append(at, i)
		}
		for j, rr := range c.RunCases(x.m, part, 1) {
			i := at[j]
			if c.Crashed(rr, x.m) {
				ms[i] = nil
				continue
			}
			if variant == "race" {
				c.raceCheck(rr.Race, map[string]any{"what": ps[i].name, "phase": ph})
			}
			c.Eval(fmt.Sprint("scale ", ps[i].name, ph))
			c.Count("scale_calls", len(rr.Calls))
			ms[i].NewProcess()
			bad := c.bulkModel(ms[i], ps[i].tb, rr, x.m)
			if len(bad) > 20 {
				bad = append(bad[:20], fmt.Sprintf("and %d more", len(bad)-20))
			}
			tree := core.Observe(cs[i].Dir)
			fs := ms[i].CheckFiles(cs[i].Dir, tree, nil)
			for f, e := range ms[i].SA {
				if b := tree[strings.TrimPrefix(f, cs[i].Dir+"/")].Data; e.Call.Op.K == "ssnap" && string(b) != e.Call.Key {
					fs = append(fs, fmt.Sprintf("%s holds %q instead of %q", f, clipS(string(b), 100), e.Call.Key))
				}
			}
			bad = append(bad, fs[:min(len(fs), 20)]...)
			if len(bad) > 0 {
				c.Violate(map[string]any{"what": ps[i].name, "mode": x.m.String(), "phase": ph}, "many %s (mode %s, phase %d): %s", ps[i].name, x.m, ph, strings.Join(bad, "; "))
				ms[i] = nil
			}
		}
	}
	for i := range cs {
		os.RemoveAll(cs[i].Dir)
	}
}
