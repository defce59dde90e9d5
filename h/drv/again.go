package main

import (
	"fmt"
	"strings"

	"verifh/core"
)

// again: one process executes its tests many times (go test -count with state,
// table tests that compare against several variants): the slots flip between
// values of one length, are read back, fail, are updated by option or by
// environment. Nothing waits between two executions, so a read that trusts
// times or sizes is wrong.

const againRule = "; tests executed 5-14 times in one process whose slots flip between values of one length by Update option or environment with read-only executions in between"

// flips is a family of values that hardly differ, mostly of one length.
func flips(r *core.Rng, kind string) []core.Val {
	var out []core.Val
	base := core.Pick(r, []string{"value", "x", "line one\nline two\nline", strings.Repeat("long ", 200), "---\nend", "[TestA - 1]\n"})
	for i := 0; i < 4; i++ {
		switch kind {
		case "json", "sjson":
			out = append(out, core.S(fmt.Sprintf(`{"k":%q,"n":%d}`, strings.ReplaceAll(base, "\n", " "), 10+i)))
		case "yaml":
			out = append(out, core.S(fmt.Sprintf("k: %q\nn: %d\n", strings.ReplaceAll(base, "\n", " "), 10+i)))
		default:
			out = append(out, core.S(base+fmt.Sprint(i)))
		}
	}
	if r.Chance(0.3) {
		switch kind {
		case "json", "sjson":
			out = append(out, core.S(`{"k":1}`), core.S(`[]`))
		case "yaml":
			out = append(out, core.S("a: 1\n"))
		default:
			out = append(out, core.S(base+"0\n"), core.S(""))
		}
	}
	return out
}

func (c *Ctx) again(prop string) {
	r := c.Rng("again")
	modes := []Mode{{}, Upd("true"), Upd("clean"), {CI: "CI=true"}, {Color: true}}
	for mi, m := range modes {
		type hist struct {
			m  *Model
			tb *Table
		}
		var cs []core.Case
		var hs []hist
		n := c.N(300, 6000)
		if modeIsCI(m) {
			n /= 4
		}
		for i := 0; i < n; i++ {
			k := c.NewCase()
			k.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}, {Dir: ptr("$CASE/d"), Update: ptr(true)}, {Dir: ptr("$CASE/d"), Update: ptr(false)}}
			if r.Chance(0.3) {
				for j := range k.Cfgs {
					k.Cfgs[j].Ext = ptr(".txt")
				}
			}
			k.Build = core.Pick(r, []string{"", "", "fresh", "lazy"})
			h := hist{tb: &Table{}}
			type slot struct {
				kind string
				vals []core.Val
			}
			tests := map[string][]slot{}
			names := []string{"TestA", "TestA/s", "TestB"}[:r.Range(1, 3)]
			for _, t := range names {
				for j := r.Range(1, 4); j > 0; j-- {
					kind := core.Pick(r, []string{"snap", "snap", "json", "yaml", "ssnap", "sjson"})
					tests[t] = append(tests[t], slot{kind, flips(r, kind)})
				}
			}
			for s := r.Range(5, 14); s > 0; s-- {
				t := core.Pick(r, names)
				ex := core.Exec{Test: t}
				cfg := core.Pick(r, []int{0, 1, 1, 2})
				for _, sl := range tests[t] {
					if r.Chance(0.15) {
						cfg = r.Intn(3)
					}
					v := core.Pick(r, sl.vals[:min(len(sl.vals), core.Pick(r, []int{2, 2, 9}))])
					key := string(v.B)
					if sl.kind == "snap" || sl.kind == "ssnap" {
						key = core.Fmt(key)
					}
					ex.Ops = append(ex.Ops, h.tb.Op(PCall{Op: core.Op{K: sl.kind, C: cfg, V: []core.Val{v}}, Key: key, Exact: true}))
				}
				k.Steps = append(k.Steps, []core.Exec{ex})
			}
			h.m = newModel(k.Dir, k.Cfgs, bulkBase)
			cs = append(cs, k)
			hs = append(hs, h)
		}
		for i, rr := range c.RunCases(m, cs, 0) {
			if c.Crashed(rr, m) {
				continue
			}
			h := hs[i]
			c.Eval(shape(rr.Case) + m.String())
			c.Count("again_calls", len(rr.Calls))
			bad := c.bulkModel(h.m, h.tb, rr, m)
			bad = append(bad, h.m.CheckFiles(rr.Case.Dir, core.Observe(rr.Case.Dir), nil)...)
			// the last execution of a slot says what is stored
			bad = append(bad, c.againBodies(h.m, rr)...)
			if len(bad) > 0 {
				c.Violate(replay(rr, m), "repeated executions in one process (mode %s): %s", m, strings.Join(bad, "; "))
				if c.TooMany() {
					return
				}
			}
			if i == 0 && mi == 0 {
				c.Sample(map[string]any{"again": outcomes(rr)})
			}
		}
	}
	c.need(500, "again_calls")
}

// againBodies compares what is stored with the values the model says are.
func (c *Ctx) againBodies(m *Model, rr *Res) []string {
	var bad []string
	t := core.Observe(rr.Case.Dir)
	same := func(e *MEntry, got string) bool {
		switch e.Call.Op.K {
		case "json", "sjson":
			a, b := parseJSON(e.Call.Key), parseJSON(got)
			return a != nil && b != nil && a.Key() == b.Key()
		case "snap":
			return yUnescape(got) == e.Call.Key
		case "yaml":
			return strings.TrimSuffix(got, "\n") == strings.TrimSuffix(e.Call.Key, "\n")
		}
		return got == e.Call.Key
	}
	for f, es := range m.Multi {
		got, err := core.ParseSnap(t[c.rel(rr, f)].Data)
		if err != nil {
			continue
		}
		for _, e := range es {
			if raw, ok := core.Get(got, e.ID); ok && !same(e, raw) {
				bad = append(bad, fmt.Sprintf("[%s] holds %q, not %q", e.ID, clipS(raw, 200), clipS(e.Call.Key, 200)))
			}
		}
	}
	for f, e := range m.SA {
		if st, ok := t[c.rel(rr, f)]; ok && !same(e, string(st.Data)) {
			bad = append(bad, fmt.Sprintf("%s holds %q, not %q", f, clipS(string(st.Data), 200), clipS(e.Call.Key, 200)))
		}
	}
	return bad
}
