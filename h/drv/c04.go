package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifh/core"
)

func init() { checks["C04"] = checkC04 }

// resized is another value of the same slot that is much longer or shorter.
func resized(r *core.Rng, pc PCall) (PCall, bool) {
	op := pc.Op
	big := strings.Repeat(core.Pick(r, []string{"line\n", "---\n", "[TestA - 1]\n", "é", "/-/-/-/\n", "\n"}), core.Pick(r, []int{1, 7, 100, 20000}))
	s := core.Pick(r, []string{"", "x", "---", "\n", big, big, core.NoCR(pc.Key + big)})
	switch op.K {
	case "snap", "ssnap":
		s = core.FmtNoCR(s)
		op.V = []core.Val{core.S(s)}
		if k := core.Fmt(s); k != pc.Key || !pc.Exact {
			return PCall{Op: op, Key: k, Exact: true}, true
		}
	case "json", "sjson":
		d := &core.JVal{K: 'a'}
		for n := core.Pick(r, []int{0, 1, 50, 5000}); n > 0; n-- {
			d.Elem = append(d.Elem, &core.JVal{K: 's', S: "element"})
		}
		op.V = []core.Val{core.S(d.Text(r, false, false, false))}
		if d.Key() != pc.Key {
			return PCall{Op: op, Key: d.Key()}, true
		}
	case "yaml":
		s = "k: v\n" + strings.Repeat("# comment\n", core.Pick(r, []int{0, 1, 3000})) + core.Pick(r, []string{"", "\n", "z: 1"})
		op.V = []core.Val{core.S(s)}
		if s != pc.Key {
			return PCall{Op: op, Key: s, Exact: true}, true
		}
	}
	return pc, false
}

func checkC04(c *Ctx) {
	c.rule = "recorded programs (several tests and files, hostile bodies) updated through UPDATE_SNAPS or the Update option over random subsets of tests and calls, values near-missing, growing or shrinking (texts of up to 20 MB too); each call watched for writes; then an update run again and a read-only run; non-trivial = at least one entry rewritten, distinct by values"
	c.assume = []string{"no carriage return at the end of a line in multi-entry files", "write detection by mtime/inode/bytes of an aged tree"}
	r := c.Rng("bulk")
	n := c.N(450, 5000)
	type hist struct {
		p    *Prog
		m    *Model
		tb   *Table
		cs   core.Case
		opt  bool
		last []core.Exec
		par  bool
	}
	var hs []*hist
	var rec []core.Case
	for i := 0; i < n; i++ {
		p := genProg(r, allKinds, 5, 5)
		h := &hist{p: p, tb: &Table{}, cs: c.NewCase(), par: i%5 == 4}
		h.cs.Cfgs = p.Cfgs
		h.m = newModel(h.cs.Dir, p.Cfgs, bulkBase)
		k := h.cs
		k.Steps = nil
		for _, ti := range r.Perm(len(p.Tests)) {
			ex := core.Exec{Test: p.Tests[ti].Name}
			for _, pc := range p.Tests[ti].Calls {
				ex.Ops = append(ex.Ops, h.tb.Op(pc))
			}
			k.Steps = append(k.Steps, []core.Exec{ex})
		}
		hs = append(hs, h)
		rec = append(rec, k)
	}
	for j, rr := range c.RunCases(Mode{}, rec, 0) {
		h := hs[j]
		if c.Crashed(rr, Mode{}) {
			h.m = nil
			continue
		}
		bad := c.bulkModel(h.m, h.tb, rr, Mode{})
		bad = append(bad, h.m.CheckFiles(h.cs.Dir, core.Observe(h.cs.Dir), nil)...)
		if len(bad) > 0 {
			c.Violate(replay(rr, Mode{}), "recording: %s", strings.Join(bad, "; "))
			h.m = nil
		}
	}
	c.timed("huge", func() { c.huge("update") })
	c.rule += scaleRule
	c.timed("scale", func() { c.scale("calls|tests|configs", "") })
	c.rule += againRule
	c.timed("again", func() { c.again("C04") })
	// three update rounds, each followed by an identical update round and a
	// read-only round
	for round := 0; round < 3; round++ {
		type upd struct {
			env Mode
			opt bool
		}
		for gi, u := range []upd{{Upd("true"), false}, {Mode{}, true}, {Upd("clean"), true}, {Upd("false"), true}, {Mode{Color: true, Upd: "true", HasUpd: true}, false}} {
			var cs []core.Case
			var at []*hist
			for hi, h := range hs {
				if h.m == nil || (hi+round)%5 != gi {
					continue
				}
				k := h.cs
				k.ID = fmt.Sprintf("%su%d", h.cs.ID, round)
				k.Watch = !h.par
				h.m.Cfgs = append([]core.Cfg(nil), h.p.Cfgs...)
				if u.opt {
					for i := range h.m.Cfgs {
						h.m.Cfgs[i].Update = ptr(true)
					}
				}
				k.Cfgs = h.m.Cfgs
				k.Steps = nil
				h.last = nil
				order := r.Perm(len(h.p.Tests))
				if !h.par && r.Chance(0.4) {
					order = order[:r.Range(1, len(order))]
				}
				for _, ti := range order {
					t := &h.p.Tests[ti]
					ex := core.Exec{Test: t.Name}
					for ci := range t.Calls {
						pc := t.Calls[ci]
						if r.Chance(0.4) {
							if r.Chance(0.5) {
								if v, ok := resized(r, pc); ok {
									pc = v
								}
							} else if v := changed(r, pc, h.p.IDs); v != nil {
								pc = *v
							}
							t.Calls[ci] = pc
						}
						ex.Ops = append(ex.Ops, h.tb.Op(pc))
					}
					h.last = append(h.last, ex)
				}
				if h.par {
					k.Steps = [][]core.Exec{h.last}
				} else {
					for _, e := range h.last {
						k.Steps = append(k.Steps, []core.Exec{e})
					}
				}
				cs = append(cs, k)
				at = append(at, h)
			}
			for j, rr := range c.RunCases(u.env, cs, 0) {
				h := at[j]
				if c.Crashed(rr, u.env) {
					h.m = nil
					continue
				}
				h.m.NewProcess()
				bad := c.bulkModel(h.m, h.tb, rr, u.env)
				bad = append(bad, c.watchWrites(h.m, h.tb, rr)...)
				bad = append(bad, h.m.CheckFiles(h.cs.Dir, core.Observe(h.cs.Dir), nil)...)
				bad = append(bad, saBytes(h.m)...)
				if len(bad) > 0 {
					c.Violate(replay(rr, u.env), "update run (mode %s, option %v): %s", u.env, u.opt, strings.Join(bad, "; "))
					h.m = nil
					continue
				}
				key := ""
				if h.m.Tot["updated"] > 0 {
					key = shape(rr.Case)
				}
				c.Eval(key)
				if j == 0 && round == 0 {
					c.Sample(rr.Case)
				}
			}
			// again: converged; then read-only
			for _, again := range []struct {
				m   Mode
				opt bool
			}{{u.env, u.opt}, {Mode{}, false}} {
				var cs []core.Case
				var ah []*hist
				var before []core.Tree
				for _, h := range at {
					if h.m == nil {
						continue
					}
					k := h.cs
					k.ID = fmt.Sprintf("%su%da%v", h.cs.ID, round, again.opt || again.m.HasUpd)
					h.m.Cfgs = append([]core.Cfg(nil), h.p.Cfgs...)
					if again.opt {
						for i := range h.m.Cfgs {
							h.m.Cfgs[i].Update = ptr(true)
						}
					}
					k.Cfgs = h.m.Cfgs
					k.Steps = nil
					for _, e := range h.m.ReplaySteps(h.tb) {
						k.Steps = append(k.Steps, []core.Exec{e})
					}
					core.Age(h.cs.Dir)
					before = append(before, core.Observe(h.cs.Dir))
					cs = append(cs, k)
					ah = append(ah, h)
				}
				for j, rr := range c.RunCases(again.m, cs, 0) {
					h := ah[j]
					if c.Crashed(rr, again.m) {
						continue
					}
					h.m.NewProcess()
					bad := c.bulkModel(h.m, h.tb, rr, again.m)
					if k := allCalls(rr, "passed"); k != nil && len(bad) == 0 {
						bad = append(bad, "not everything passed: "+callText(k))
					}
					if d := before[j].Diff(core.Observe(h.cs.Dir), true); len(d) > 0 {
						bad = append(bad, "wrote: "+strings.Join(d, "; "))
					}
					c.Count("converged_calls", len(rr.Calls))
					if len(bad) > 0 {
						c.Violate(replay(rr, again.m), "the run after an update (mode %s): %s", again.m, strings.Join(bad, "; "))
						h.m = nil
					}
				}
			}
		}
	}
	if c.Counter("outcome_updated") < 300 {
		c.Inconclusive("only %d updates observed", c.Counter("outcome_updated"))
	}
}

// watchWrites checks that a call that did not create or rewrite wrote nothing,
// and one that did wrote its own file only.
func (c *Ctx) watchWrites(m *Model, tb *Table, rr *Res) []string {
	if !rr.Case.Watch {
		return nil
	}
	var bad []string
	cnt := map[[2]int]map[string]int{}
	for i := range rr.Calls {
		k := &rr.Calls[i]
		pc := tb.Get(k)
		if pc == nil {
			continue
		}
		e := [2]int{k.Step, k.Exec}
		if cnt[e] == nil {
			cnt[e] = map[string]int{}
		}
		p, sa := m.Path(&pc.Op, k.Test)
		cnt[e][p]++
		if sa {
			p = saPath(p, cnt[e][p])
		}
		o := outcome(k)
		if o == "passed" || o == "failed" {
			c.Count("watched_silent_calls", 1)
			if len(k.Wrote) > 0 {
				bad = append(bad, fmt.Sprintf("a %s call wrote %s: %s", o, strings.Join(k.Wrote, ", "), callText(k)))
			}
			continue
		}
		for _, w := range k.Wrote {
			f := w[:strings.LastIndex(w, ": ")]
			if st, err := os.Stat(f); err == nil && st.IsDir() {
				continue
			}
			if f != p {
				bad = append(bad, fmt.Sprintf("a call addressing %s wrote %s", p, w))
			}
		}
	}
	return bad
}

// saBytes: a standalone file is the formatted value (exactly known for
// strings).
func saBytes(m *Model) []string {
	var bad []string
	for f, e := range m.SA {
		if !e.Call.Exact {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil || !bytes.Equal(b, []byte(e.Call.Key)) {
			bad = append(bad, fmt.Sprintf("%s holds %q, not the value %q (%v)", filepath.Base(f), clipS(string(b), 100), clipS(e.Call.Key, 100), err))
		}
	}
	return bad
}
