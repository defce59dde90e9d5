package main

import (
	"fmt"
	"path/filepath"

	"verifh/core"
)

// Large numbers in front of Clean: thousands of skipped tests, stale entries,
// stale files, directories, calls of one test, tests, and tens of thousands of
// outcomes of each kind.

const cleanScaleRule = "; plus single processes with thousands of skipped tests, stale entries, stale files and calls, hundreds of directories, tens of thousands of executions, skips, passes, failures and updates"

func (c *Ctx) cleanScale(prop string) {
	r := c.Rng("cleanscale")
	type scaled struct {
		name string
		k    core.Case
		lc   *labCase
		m    Mode
	}
	var all []*scaled
	call := func(lc *labCase, kind string, cfg int, v string) core.Op {
		op := core.Op{K: kind, C: cfg, V: []core.Val{core.S(v)}}
		return lc.tb.Op(PCall{Op: op, Key: v, Exact: true})
	}
	ent := func(id string) core.Entry { return core.Entry{ID: id, Raw: core.Pick(r, staleBodies[:2])} }
	// tables are filled anew for every mode
	mk := func(name string, modes []Mode, build func(s *scaled)) {
		for _, m := range modes {
			s := &scaled{name: name, m: m, k: c.NewCase(), lc: &labCase{tb: &Table{}, owner: map[string]string{}, named: map[string]string{}}}
			s.k.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d"), File: ptr("f")}}
			s.k.Clean = core.Pick(r, []int{1, 2})
			s.k.Clean = 1
			s.k.Sort = r.Chance(0.5)
			s.lc.m = newModel(s.k.Dir, s.k.Cfgs, bulkBase)
			build(s)
			all = append(all, s)
		}
	}
	removing := []Mode{Upd("clean"), core.Pick(r, []Mode{{}, Upd("true"), {CI: "CI=true"}})}
	file := func(s *scaled) string { return filepath.Join(s.k.Dir, "d", "f.snap") }
	skip := func() core.Op {
		return core.Op{K: core.Pick(r, []string{"skip", "skipf", "skipnow"}), V: []core.Val{core.S("why")}}
	}
	exec := func(t string, ops ...core.Op) []core.Exec { return []core.Exec{{Test: t, Ops: ops}} }
	many := c.N(1500, 6000)
	often := c.N(66_000, 140_000)

	mk("skipped tests", removing, func(s *scaled) {
		many := c.N(5000, 20_000)
		var es []core.Entry
		for i := 0; i < many; i++ {
			t := fmt.Sprintf("TestSkip%d", i)
			s.k.Steps = append(s.k.Steps, exec(t, skip()))
			es = append(es, ent(t+" - 1"))
			if i%4 == 0 {
				es = append(es, ent(t+"/sub - 2"), ent(fmt.Sprintf("TestGone%d - 1", i)))
			}
		}
		s.k.Steps = append(s.k.Steps, exec("TestLast", call(s.lc, "snap", 0, "v")))
		PutFile(file(s), core.Render(es))
	})
	mk("skips of one test", removing[:1], func(s *scaled) {
		for i := 0; i < often; i++ {
			s.k.Steps = append(s.k.Steps, exec("TestSkip", skip()))
		}
		s.k.Steps = append(s.k.Steps, exec("TestLast", call(s.lc, "snap", 0, "v")))
		PutFile(file(s), core.Render([]core.Entry{ent("TestSkip - 1"), ent("TestSkipped - 1"), ent("TestLast - 1")}))
	})
	mk("stale entries", []Mode{Upd("clean"), {}, Upd("true"), {CI: "CI=true"}}, func(s *scaled) {
		var es []core.Entry
		for _, i := range r.Perm(often) {
			es = append(es, ent(fmt.Sprintf("TestGone%d - %d", i/3, 1+i%3)))
			if i == 100 || i == 40_000 {
				es = append(es, core.Entry{ID: fmt.Sprintf("TestKept - %d", 1+i/40_000), Raw: "kept"})
			}
		}
		PutFile(file(s), core.Render(es))
		s.k.Steps = append(s.k.Steps, exec("TestKept", call(s.lc, "snap", 0, "kept"), call(s.lc, "snap", 0, "other")))
	})
	mk("stale files", removing, func(s *scaled) {
		for i := 0; i < many; i++ {
			PutFile(filepath.Join(s.k.Dir, "d", fmt.Sprintf("old%d_test.snap", i)), core.Render([]core.Entry{ent("TestGone - 1")}))
			PutFile(filepath.Join(s.k.Dir, "d", fmt.Sprintf("TestGone_%d.snap%s", i, core.Pick(r, []string{"", ".json"}))), []byte("x"))
			PutFile(filepath.Join(s.k.Dir, "d", fmt.Sprintf("other%d.txt", i)), []byte("x"))
		}
		var ops []core.Op
		s.k.Cfgs = append(s.k.Cfgs, core.Cfg{Dir: ptr("$CASE/d")})
		for i := 0; i < many/2; i++ {
			ops = append(ops, call(s.lc, "ssnap", 1, "x"))
		}
		s.k.Steps = append(s.k.Steps, exec("TestFiles", ops...))
	})
	mk("directories", removing, func(s *scaled) {
		s.k.Cfgs = nil
		var ops []core.Op
		for i := 0; i < many/4; i++ {
			d := fmt.Sprintf("d%d/e%d", i%17, i)
			s.k.Cfgs = append(s.k.Cfgs, core.Cfg{Dir: ptr("$CASE/" + d)})
			PutFile(filepath.Join(s.k.Dir, d, "old_test.snap"), core.Render([]core.Entry{ent("TestGone - 1")}))
			PutFile(filepath.Join(s.k.Dir, "u"+d, "old_test.snap"), core.Render([]core.Entry{ent("TestGone - 1")}))
			ops = append(ops, call(s.lc, core.Pick(r, []string{"snap", "ssnap"}), i, "x"))
		}
		s.k.Steps = append(s.k.Steps, exec("TestDirs", ops...))
	})
	mk("calls", removing, func(s *scaled) {
		var es []core.Entry
		var ops []core.Op
		n := many / 2
		s.k.Cfgs = append(s.k.Cfgs, core.Cfg{Dir: ptr("$CASE/e")})
		for _, i := range r.Perm(n + 300) {
			es = append(es, core.Entry{ID: fmt.Sprintf("TestCalls - %d", i+1), Raw: "v"})
		}
		PutFile(file(s), core.Render(es))
		for i := 0; i < n; i++ {
			ops = append(ops, call(s.lc, "snap", 0, core.Pick(r, []string{"v", "v", "v", "w"})))
			PutFile(filepath.Join(s.k.Dir, "e", fmt.Sprintf("TestCalls_%d.snap", i+100)), []byte("v"))
			ops = append(ops, call(s.lc, "ssnap", 1, "v"))
		}
		s.k.Steps = append(s.k.Steps, exec("TestCalls", ops[:7]...), exec("TestCalls", ops...), exec("TestCalls", ops[:12]...))
	})
	mk("tests", removing, func(s *scaled) {
		var es []core.Entry
		n := many / 2
		for _, i := range r.Perm(2 * n) {
			t := fmt.Sprintf("TestT%d", i)
			if i%3 == 0 {
				t = fmt.Sprintf("TestT%d/s%d", i%9, i)
			}
			es = append(es, core.Entry{ID: t + " - 1", Raw: "v"})
			if i%2 == 0 {
				s.k.Steps = append(s.k.Steps, exec(t, call(s.lc, "snap", 0, "v")))
			}
		}
		PutFile(file(s), core.Render(es))
	})
	for _, what := range []string{"passed", "failed", "updated"} {
		m := Upd("clean")
		if what == "updated" {
			m = Upd("true")
		}
		mk(what+" calls", []Mode{m}, func(s *scaled) {
			PutFile(file(s), core.Render([]core.Entry{ent("TestOut - 2"), {ID: "TestOut - 1", Raw: "a"}, ent("TestOutside - 1")}))
			a, b := call(s.lc, "snap", 0, "a"), call(s.lc, "snap", 0, "b")
			for i := 0; i < often; i++ {
				switch {
				case what == "passed" || what == "updated" && i%2 == 1:
					s.k.Steps = append(s.k.Steps, exec("TestOut", a))
				default:
					s.k.Steps = append(s.k.Steps, exec("TestOut", b))
				}
			}
		})
	}
	if c.Thorough {
		mk("added calls", []Mode{Upd("clean")}, func(s *scaled) {
			s.k.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}}
			var ops []core.Op
			for i := 0; i < 66_000; i++ {
				ops = append(ops, call(s.lc, "ssnap", 0, "x"))
			}
			s.k.Steps = append(s.k.Steps, exec("TestAdded", ops...))
		})
	}
	for _, s := range all {
		s.k.ID += "cs"
	}
	by := map[string][]*scaled{}
	for _, s := range all {
		by[s.m.String()] = append(by[s.m.String()], s)
	}
	for _, key := range sortedKeys(by) {
		var part []core.Case
		for _, s := range by[key] {
			part = append(part, s.k)
		}
		for j, rr := range c.RunCases(by[key][0].m, part, 1) {
			s := by[key][j]
			if c.Crashed(rr, s.m) {
				continue
			}
			c.Eval("scale " + s.name + key)
			c.Count("scale_clean_calls", len(rr.Calls))
			s.lc.p.Case = *rr.Case
			if b := c.judgeMid(prop, s.lc, rr, s.m); len(b) > 0 {
				c.Violate(map[string]any{"what": "many " + s.name, "mode": s.m.String(), "sort": s.k.Sort, "seed": c.Seed}, "many %s: %s", s.name, clipS(b, 3000))
			}
		}
	}
}
