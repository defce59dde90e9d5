package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"verifh/core"
)

// Values of megabytes: lines beyond every fixed buffer size, very many lines,
// very long test names, very many entries.

type hugeVal struct {
	name string
	kind string
	pre  string
	body string
	n    int
	post string
	mid  string // lies in the midst of the repetition
}

func (h hugeVal) val(mark string) core.Val {
	return core.Val{T: "s", R: &core.Rep{Pre: []byte(strings.ReplaceAll(h.pre, "@", mark)), Body: []byte(h.body), N: h.n, Mid: []byte(strings.ReplaceAll(h.mid, "@", mark)), Post: []byte(strings.ReplaceAll(h.post, "@", mark))}}
}

func (h hugeVal) op(cfg int, mark string) core.Op {
	return core.Op{K: h.kind, C: cfg, V: []core.Val{h.val(mark)}}
}

// hugeVals: @ is where the value changes from one version to the next.
func (c *Ctx) hugeVals() []hugeVal {
	mb := 1 << 20
	vs := []hugeVal{
		{"line of 1 MiB", "snap", "@", "x", mb, "", ""},
		{"line of 3 MB, change at the end", "snap", "a\n", "long ", 600_000, "@", ""},
		{"line of 20 MB", "snap", "first\n", "0123456789abcdef", 20 * mb / 16, "\nlast @", ""},
		{"300000 lines", "snap", "@\n", "line\n", 300_000, "end", ""},
		{"400000 blank lines", "snap", "@", "\n", 400_000, "", ""},
		{"terminators", "snap", "", "---\n", 100_000, "@", ""},
		{"escaped terminators", "snap", "@", "/-/-/-/\n", 60_000, "", ""},
		{"headers", "snap", "", "[TestH - 1]\n", 60_000, "@\n", ""},
		{"json string of 2 MB", "json", `{"a":"@`, "text ", 400_000, `","b":1}`, ""},
		{"json list", "json", `[`, `{"k":1},`, 40_000, `"@"]`, ""},
		{"yaml line of 1.5 MB", "yaml", "# ", "comment ", 190_000, "\na: \"@\"\n", ""},
		{"yaml of 2000 lines", "yaml", "a: \"@\"\nb:\n", "  - x\n", 2000, "", ""},
		{"standalone line of 3 MB", "ssnap", "@", "x\r", 3 * mb / 2, "", ""},
		{"standalone json of 2 MB", "sjson", `["@","`, "abcdefgh", mb / 4, `"]`, ""},
	}
	for _, n := range []int{mb / 4, mb + 5, 9 * mb / 2} {
		vs = append(vs,
			hugeVal{fmt.Sprintf("line of %d bytes, change in the middle", n), "snap", "", "0123456789abcdef", n / 16, "", "@"},
			hugeVal{fmt.Sprintf("standalone of %d bytes, change in the middle", n), "ssnap", "", "another line\r\n", n / 14, "", "@\n"},
			hugeVal{fmt.Sprintf("json of %d bytes, change in the middle", n), "json", `["`, "text ", n / 5, `"]`, "@"},
			hugeVal{fmt.Sprintf("yaml of %d bytes, change in the middle", n), "yaml", "a: 1 #", " comment", n / 8, "\nb: 2\n", "@"},
		)
	}
	if c.Thorough {
		vs = append(vs,
			hugeVal{"line of 200 MB", "snap", "first\n", strings.Repeat("0123456789abcdef", 64), 200 * mb / 1024, "\nlast @", ""},
			hugeVal{"4 million lines", "snap", "@\n", "line\n", 4_000_000, "end", ""},
			hugeVal{"json string of 64 MB", "json", `{"a":"@`, strings.Repeat("text ", 64), 200_000, `","b":1}`, ""},
			hugeVal{"standalone line of 100 MB", "ssnap", "@", strings.Repeat("y", 100), mb, "\n", ""},
		)
	}
	return vs
}

// hugeProg is a history with large values: alone in its file, after or between
// small entries, under a long test name, or among many entries.
type hugeProg struct {
	name  string
	cfgs  []core.Cfg
	tests []string
	ops   func(mark string) [][]core.Op // by test
	small int                           // entries that never change, per version
	file  func(mark string) []byte      // what the only file of the directory is to hold
}

func (c *Ctx) hugeProgs() []hugeProg {
	var out []hugeProg
	cfgs := []core.Cfg{{Dir: ptr("$CASE/d")}}
	small := core.Op{K: "snap", V: []core.Val{core.S("small\n---\n")}}
	for _, h := range c.hugeVals() {
		p := hugeProg{name: h.name + ", alone", cfgs: cfgs, tests: []string{"TestH"}, ops: func(m string) [][]core.Op {
			return [][]core.Op{{h.op(0, m)}}
		}}
		switch {
		case h.kind == "ssnap":
			p.file = func(m string) []byte { return h.val(m).Text() }
		case h.kind == "snap" && !strings.Contains(h.body, "---\n") && !strings.Contains(h.body, "/-/-/-/"):
			p.file = func(m string) []byte {
				return []byte("\n[TestH - 1]\n" + string(h.val(m).Text()) + "\n---\n")
			}
		}
		out = append(out, p)
		if h.n*len(h.body) > 8<<20 {
			continue
		}
		out = append(out, hugeProg{name: h.name + ", between", cfgs: cfgs, tests: []string{"TestB", "TestH", "TestA"}, small: 3, ops: func(m string) [][]core.Op {
			return [][]core.Op{{small}, {small, h.op(0, m)}, {small}}
		}})
	}
	for _, n := range []int{5000, 70_000, 1_200_000} {
		out = append(out, hugeProg{name: fmt.Sprintf("test name of %d bytes", n), cfgs: cfgs, tests: []string{"TestA", "TestL/" + strings.Repeat("name_", n/5), "TestZ"}, small: 2, ops: func(m string) [][]core.Op {
			return [][]core.Op{{small}, {core.Op{K: "snap", V: []core.Val{core.S("v" + m)}}, {K: "json", V: []core.Val{core.S(`"` + m + `"`)}}}, {small}}
		}})
	}
	n := c.N(1200, 6000)
	out = append(out, hugeProg{name: "many entries", cfgs: cfgs, tests: []string{"TestM", "TestN"}, small: n - 3, ops: func(m string) [][]core.Op {
		var a, b []core.Op
		for i := 0; i < n; i++ {
			v := "entry"
			if i%(n/3) == 5 {
				v += m
			}
			a = append(a, core.Op{K: "snap", V: []core.Val{core.S(v)}})
		}
		return [][]core.Op{a, b}
	}})
	return out
}

func (h *hugeProg) steps(mark string) [][]core.Exec {
	var st [][]core.Exec
	for i, ops := range h.ops(mark) {
		if len(ops) > 0 {
			st = append(st, []core.Exec{{Test: h.tests[i], Ops: ops}})
		}
	}
	return st
}

// huge records version 1, replays it, confronts it with version 2 (which is
// to fail), updates to it, and replays that: what selects the judgements to
// be made: replay (C01), change (C02), update (C04).
func (c *Ctx) huge(what string) {
	ps := c.hugeProgs()
	var cs []core.Case
	for i := range ps {
		k := c.NewCase()
		k.Cfgs = ps[i].cfgs
		k.Steps = ps[i].steps("one")
		cs = append(cs, k)
	}
	alive := make([]bool, len(ps))
	for i, rr := range c.RunCases(Mode{}, cs, 1) {
		alive[i] = !c.Crashed(rr, Mode{})
		for k := range rr.Calls {
			if outcome(&rr.Calls[k]) != "added" {
				c.Count("huge_not_recorded", 1)
				if what != "replay" || len(rr.Calls) == 1 {
					alive[i] = false
				}
			}
		}
	}
	type round struct {
		m    Mode
		mark string
		want string // outcome of what is changed
	}
	var rounds []round
	switch what {
	case "replay":
		rounds = []round{{Mode{}, "one", "passed"}, {Mode{CI: "CI=true"}, "one", "passed"}, {Upd("true"), "one", "passed"}}
	case "change":
		rounds = []round{{Mode{CI: "CI=true"}, "two", "failed"}, {Mode{}, "tw", "failed"}, {Upd("false"), "One", "failed"}}
	case "update":
		rounds = []round{{Upd("true"), "a longer mark", "updated"}, {Upd("true"), "a longer mark", "passed"}, {Mode{}, "a longer mark", "passed"}, {Upd("true"), "", "updated"}, {Mode{CI: "CI=true"}, "", "passed"}}
	}
	for ri, rd := range rounds {
		var k2 []core.Case
		var at []int
		var before []core.Tree
		for i := range cs {
			if !alive[i] {
				continue
			}
			k := cs[i]
			k.ID += fmt.Sprintf("h%d", ri)
			k.Steps = ps[i].steps(rd.mark)
			core.Age(k.Dir)
			before = append(before, core.Observe(k.Dir))
			k2 = append(k2, k)
			at = append(at, i)
		}
		for j, rr := range c.RunCases(rd.m, k2, 1) {
			i := at[j]
			if c.Crashed(rr, rd.m) {
				alive[i] = false
				continue
			}
			n := map[string]int{}
			var odd string
			for k := range rr.Calls {
				o := outcome(&rr.Calls[k])
				n[o]++
				if o != "passed" && o != rd.want {
					odd = o + ": " + clipS(callText(&rr.Calls[k]), 300)
				}
			}
			c.Eval(fmt.Sprint("huge ", ps[i].name, ri))
			c.Count("huge_calls", len(rr.Calls))
			want := len(rr.Calls)
			if rd.want != "passed" {
				want -= ps[i].small
			}
			if n[rd.want] != want || len(n) > 2 || odd != "" {
				c.Violate(map[string]any{"what": ps[i].name, "mode": rd.m.String(), "round": ri}, "%s: values %q (mode %s): %d calls should have %s: %v %s", ps[i].name, rd.mark, rd.m, want, rd.want, n, odd)
				alive[i] = false
			}
			after := core.Observe(rr.Case.Dir)
			if f := ps[i].file; f != nil && what != "change" {
				ok, n := false, 0
				for _, e := range after {
					if !e.Dir {
						n++
						ok = bytes.Equal(e.Data, f(rd.mark))
					}
				}
				if !ok || n != 1 {
					c.Violate(map[string]any{"what": ps[i].name, "mode": rd.m.String(), "round": ri}, "%s: the file does not hold the value %q (mode %s)", ps[i].name, rd.mark, rd.m)
				} else {
					c.Count("huge_files_exact", 1)
				}
			}
			if d := before[j].Diff(after, true); (len(d) > 0) != (rd.want == "updated") {
				c.Violate(map[string]any{"what": ps[i].name, "mode": rd.m.String(), "round": ri}, "%s: values %q, all %s (mode %s), but written: %v", ps[i].name, rd.mark, rd.want, rd.m, d)
				alive[i] = false
			}
		}
	}
	for i := range cs {
		os.RemoveAll(cs[i].Dir)
	}
}
