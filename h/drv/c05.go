package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifh/core"
)

func init() { checks["C05"] = checkC05 }

type ciEnv struct {
	env string
	ci  bool
}

// vendor variables a CI sets; CI=false switches detection off.
var ciEnvs = []ciEnv{
	{"", false}, {"CI=false", false}, {"CI=true", true}, {"CI=1", true}, {"GITHUB_ACTIONS=true", true},
	{"GITLAB_CI=true", true}, {"BUILD_NUMBER=7", true}, {"CONTINUOUS_INTEGRATION=true", true},
	{"CI=false\x00GITHUB_ACTIONS=true", false}, {"TF_BUILD=True", true}, {"CI=true\x00GITHUB_ACTIONS=true", true},
}

var updVals = []string{"\x00", "true", "clean", "false", "", "TRUE", "True", "1", "yes", "always", " true", "cleanup", "truee", "t"}

// c05fixture records: equal, different and stale entries in one file per
// update option, unsorted, plus standalone files and bystanders.
func c05fixture(cs *core.Case) {
	for _, o := range []*bool{nil, ptr(true), ptr(false)} {
		f := "f_nil"
		if o != nil {
			f = fmt.Sprintf("f_%v", *o)
		}
		cs.Cfgs = append(cs.Cfgs, core.Cfg{Dir: ptr("$CASE/d"), File: ptr(f), Update: o})
	}
}

func val(kind string, n int) core.Val {
	switch kind {
	case "json", "sjson":
		return core.S(fmt.Sprintf(`{"n":%d}`, n))
	case "yaml":
		return core.S(fmt.Sprintf("n: %d\n", n))
	}
	return core.S(fmt.Sprintf("value %d", n))
}

func checkC05(c *Ctx) {
	c.rule = "complete table: CI environment x UPDATE_SNAPS x Update option x API x {missing, equal, different, invalid input} for calls (each call watched), and CI environment x UPDATE_SNAPS x {no option, Sort false, Sort true} for Clean over stale entries, stale files and unsorted files; plus calls in a directory that does not exist yet; every cell is one evaluation"
	c.assume = []string{"CI environments are the listed vendor variables as ciinfo documents them"}
	c.exhaust = true
	type job struct {
		ci   ciEnv
		upd  string
		sort int // 0 no option, 1 false, 2 true
	}
	var jobs []job
	for ci, e := range ciEnvs {
		for ui, u := range updVals {
			// the five main update values meet every CI environment; the odd
			// spellings meet the first three
			if ui >= 5 && ci >= 3 && !c.Thorough {
				continue
			}
			for s := 0; s < 3; s++ {
				jobs = append(jobs, job{e, u, s})
			}
		}
	}
	kinds := []string{"snap", "json", "yaml", "ssnap", "sjson"}
	type hist struct {
		m    *Model
		tb   *Table
		cs   core.Case
		mode Mode
	}
	var hs []*hist
	var rec []core.Case
	for range jobs {
		h := &hist{tb: &Table{}, cs: c.NewCase()}
		c05fixture(&h.cs)
		// a config without Filename, whose file no one else addresses
		h.cs.Cfgs = append(h.cs.Cfgs, core.Cfg{Dir: ptr("$CASE/new/dir")}, core.Cfg{Dir: ptr("$CASE/new/upd"), Update: ptr(true)})
		h.m = newModel(h.cs.Dir, h.cs.Cfgs, bulkBase)
		k := h.cs
		k.Cfgs = append([]core.Cfg(nil), h.cs.Cfgs...)
		for i := range k.Cfgs {
			k.Cfgs[i].Update = nil
		}
		h.m.Cfgs = k.Cfgs
		var steps [][]core.Exec
		for _, t := range []string{"TestStale", "TestSlots", "TestA"} {
			ex := core.Exec{Test: t}
			for ci := 0; ci < 3; ci++ {
				n := 1
				if t == "TestSlots" {
					n = 2
				}
				for _, kd := range kinds {
					if t != "TestSlots" && (kd == "ssnap" || kd == "sjson") {
						continue // one Filename, one test
					}
					for i := 0; i < n; i++ {
						v := val(kd, 1)
						ex.Ops = append(ex.Ops, h.tb.Op(PCall{Op: core.Op{K: kd, C: ci, V: []core.Val{v}}, Key: kd + sval(v)}))
					}
				}
			}
			steps = append(steps, []core.Exec{ex})
		}
		k.Steps = steps
		hs = append(hs, h)
		rec = append(rec, k)
	}
	for j, rr := range c.RunCases(Mode{}, rec, 0) {
		h := hs[j]
		if c.Crashed(rr, Mode{}) {
			return
		}
		bad := c.bulkModel(h.m, h.tb, rr, Mode{})
		if len(bad) > 0 {
			c.Violate(replay(rr, Mode{}), "a missing snapshot must be created off CI: %s", strings.Join(bad, "; "))
			return
		}
		h.m.CheckFiles(h.cs.Dir, core.Observe(h.cs.Dir), nil)
		d := filepath.Join(h.cs.Dir, "d")
		PutFile(filepath.Join(d, "stale_test.snap"), []byte("\n[TestGone - 1]\nx\n---\n"))
		PutFile(filepath.Join(d, "TestGone_1.snap.json"), []byte("{}"))
		PutFile(filepath.Join(d, "notes.txt"), []byte("mine"))
		PutFile(filepath.Join(d, "sub", "x.snap"), []byte("\n[TestGone - 1]\nx\n---\n"))
		PutFile(filepath.Join(h.cs.Dir, "elsewhere", "y.snap"), []byte("\n[TestGone - 1]\nx\n---\n"))
	}
	results := make([]*Res, len(jobs))
	groups := map[string][]int{}
	var order []string
	for j, jb := range jobs {
		g := jb.ci.env + "|" + jb.upd
		if groups[g] == nil {
			order = append(order, g)
		}
		groups[g] = append(groups[g], j)
	}
	before := make([]core.Tree, len(jobs))
	cases := make([]core.Case, len(jobs))
	for j, jb := range jobs {
		h := hs[j]
		h.m.NewProcess()
		h.m.Cfgs = h.cs.Cfgs
		k := h.cs
		k.ID += "x"
		k.Watch = true
		k.Clean = 1
		k.Sort = jb.sort == 2
		k.SortArg = jb.sort > 0
		var ops []core.Op
		for ci := 0; ci < 3; ci++ {
			for _, kd := range kinds {
				// slots 1..: equal, different, then (missing) for each kind in order
				for i := 0; i < 2; i++ {
					v := val(kd, 1+i)
					ops = append(ops, h.tb.Op(PCall{Op: core.Op{K: kd, C: ci, V: []core.Val{v}}, Key: kd + sval(v)}))
				}
			}
			for _, kd := range kinds {
				v := val(kd, 9)
				ops = append(ops, h.tb.Op(PCall{Op: core.Op{K: kd, C: ci, V: []core.Val{v}}, Key: kd + sval(v)}))
			}
			ops = append(ops, h.tb.Op(PCall{Op: core.Op{K: "json", C: ci, V: []core.Val{core.S("{")}}, Bad: true}))
			ops = append(ops, h.tb.Op(PCall{Op: core.Op{K: "sjson", C: ci, V: []core.Val{core.S("{")}}, Bad: true}))
		}
		for ci := 3; ci < 5; ci++ {
			for _, kd := range kinds {
				v := val(kd, 9)
				ops = append(ops, h.tb.Op(PCall{Op: core.Op{K: kd, C: ci, V: []core.Val{v}}, Key: kd + sval(v)}))
			}
		}
		k.Steps = [][]core.Exec{{{Test: "TestSlots", Ops: ops}}, {{Test: "TestA", Ops: []core.Op{
			h.tb.Op(PCall{Op: core.Op{K: "snap", C: 0, V: []core.Val{val("snap", 1)}}, Key: "snapvalue 1"})}}}}
		cases[j] = k
	}
	// one process per case: Clean looks at everything the process addressed
	for _, g := range order {
		js := groups[g]
		jb := jobs[js[0]]
		m := Mode{}
		parts := strings.Split(jb.ci.env, "\x00")
		if parts[0] != "" {
			m.CI = parts[0]
		}
		m.Env = parts[1:]
		if jb.upd != "\x00" {
			m.HasUpd, m.Upd = true, jb.upd
		}
		var cs []core.Case
		for _, j := range js {
			core.Age(hs[j].cs.Dir)
			before[j] = core.Observe(hs[j].cs.Dir)
			cs = append(cs, cases[j])
			hs[j].mode = m
		}
		for i, rr := range c.RunCases(m, cs, 1) {
			results[js[i]] = rr
		}
	}
	for j, jb := range jobs {
		h, rr := hs[j], results[j]
		if c.Crashed(rr, h.mode) {
			continue
		}
		mm := h.mode
		if jb.ci.ci {
			mm.CI = "CI=true"
		} else {
			mm.CI = ""
		}
		label := fmt.Sprintf("env %q UPDATE_SNAPS %q sort %d", jb.ci.env, jb.upd, jb.sort)
		bad := c.bulkModel(h.m, h.tb, rr, mm)
		bad = append(bad, c.watchWrites(h.m, h.tb, rr)...)
		for i := range rr.Calls {
			c.Eval(fmt.Sprintf("%s/%d", label, i))
			if jb.ci.ci && len(rr.Calls[i].Wrote) > 0 {
				bad = append(bad, "wrote on CI: "+strings.Join(rr.Calls[i].Wrote, ", "))
			}
		}
		c.Eval(label + "/clean")
		// Clean
		if len(rr.Clean) != 1 || len(rr.CleanWrote) != 1 {
			c.Inconclusive("Clean was not observed")
		}
		del := !jb.ci.ci && (jb.upd == "true" || jb.upd == "clean")
		srt := !jb.ci.ci && jb.sort == 2
		wrote := rr.CleanWrote[0]
		if !del && !srt && len(wrote) > 0 {
			bad = append(bad, "Clean wrote: "+strings.Join(wrote, "; "))
		}
		removed := map[string]bool{}
		for _, w := range wrote {
			if strings.HasSuffix(w, ": removed") {
				removed[strings.TrimSuffix(w, ": removed")] = true
			}
		}
		for _, f := range []string{"d/stale_test.snap", "d/TestGone_1.snap.json"} {
			if removed[filepath.Join(h.cs.Dir, f)] != del {
				bad = append(bad, fmt.Sprintf("Clean: %s removed=%v, expected %v", f, !del, del))
			}
			delete(removed, filepath.Join(h.cs.Dir, f))
		}
		if len(removed) > 0 {
			bad = append(bad, fmt.Sprintf("Clean removed %v", removed))
		}
		for _, f := range []string{"d/f_nil.snap", "d/f_true.snap", "d/f_false.snap"} {
			b, err := os.ReadFile(filepath.Join(h.cs.Dir, f))
			es, perr := core.ParseSnap(b)
			if err != nil || perr != nil {
				bad = append(bad, fmt.Sprintf("%s after Clean: %v %v", f, err, perr))
				continue
			}
			_, has := core.Get(es, "TestStale - 1")
			if has == del {
				bad = append(bad, fmt.Sprintf("%s: stale entry present=%v after Clean, clean mode=%v", f, has, del))
			}
			ids := core.IDs(es)
			sorted := true
			iA, iS := indexOf(ids, "TestA - 1"), indexOf(ids, "TestSlots - 1")
			if iA >= 0 && iS >= 0 {
				sorted = iA < iS
				if sorted != srt {
					bad = append(bad, fmt.Sprintf("%s: sorted=%v, expected %v", f, sorted, srt))
				}
			}
		}
		after := core.Observe(h.cs.Dir)
		for _, f := range []string{"d/notes.txt", "d/sub/x.snap", "elsewhere/y.snap"} {
			if !bytes.Equal(after[f].Data, before[j][f].Data) || after[f].Mtime != before[j][f].Mtime && !del {
				bad = append(bad, "bystander touched: "+f)
			}
		}
		if jb.ci.ci {
			if d := before[j].Diff(after, true); len(d) > 0 {
				bad = append(bad, "CI run changed: "+strings.Join(d, "; "))
			}
		}
		if len(bad) > 0 {
			c.Violate(replay(rr, h.mode), "%s: %s", label, strings.Join(bad, "; "))
		}
		if j == 0 {
			c.Sample(rr.Case)
		}
	}
}

func indexOf(xs []string, x string) int {
	for i, y := range xs {
		if y == x {
			return i
		}
	}
	return -1
}
