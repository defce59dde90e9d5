package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/maruel/natural"

	"verifh/core"
)

const labRule = "pairs of processes under the real test runner: a recorded program of test trees, then stale entries, stale files and bystanders mixed into its directories and files, then a modified program (calls, subtests and tests removed, changed or invalid values, snaps.Skip*, t.Skip, -run, -count with differing executions, -parallel, CI, UPDATE_SNAPS) ending in one or two Clean calls, each observed before and after; non-trivial = distinct pair"

var labAssume = []string{
	"a standalone Filename is not shared by two tests",
	"no carriage return at the end of a line in multi-entry files",
	"entries of benchmarks that were not asked to run, and flattened standalone names that could belong to a skipped test, may be kept or reported",
}

func init() {
	checks["C07"] = checkC07
	checks["C08"] = checkC08
	checks["C09"] = checkC09
	checks["C10"] = checkC10
	checks["C20"] = checkC20
}

func (c *Ctx) need(min int, names ...string) {
	if len(c.viols) > 0 {
		return
	}
	for _, n := range names {
		if c.Counter(n) < min {
			c.Inconclusive("only %d %s observed", c.Counter(n), n)
		}
	}
}

func snapOp(tb *Table, kind string, cfg int, s string) core.Op {
	return tb.Op(PCall{Op: core.Op{K: kind, C: cfg, V: []core.Val{core.S(s)}}, Key: s, Exact: true})
}

func checkC07(c *Ctx) {
	c.rule, c.assume = labRule, labAssume
	c.runLab("C07", c.lab(labOpt{label: "a", n: c.N(350, 4000), run: 0.3, skip: 0.1, sort: 0.4, twice: 0.3, count: 0.5}))
	c.runLab("C07", c.lab(labOpt{label: "count", n: c.N(120, 2000), run: 0.1, skip: 0.05, sort: 0.4, twice: 0.1, count: 1}))
	c.c07links()
	c.rule += raceRule + midRule
	c.raceLabs("C07", false)
	c.timed("mid", func() { c.midLab("C07", 0.05) })
	c.rule += cleanScaleRule
	c.timed("scale", func() { c.cleanScale("C07") })
	c.need(500, "touched_entries", "touched_standalone")
}

// c07links: one directory reached through its path and through a symbolic
// link.
func (c *Ctx) c07links() {
	for _, m := range []Mode{Upd("clean"), Upd("true"), {}} {
		for _, viaFirst := range []bool{false, true} {
			tb := &Table{}
			cs := c.NewCase()
			must(os.MkdirAll(filepath.Join(cs.Dir, "real"), 0o755))
			os.Chown(filepath.Join(cs.Dir, "real"), nobody, nobody)
			must(os.Symlink("real", filepath.Join(cs.Dir, "link")))
			cs.Cfgs = []core.Cfg{{Dir: ptr("$CASE/real")}, {Dir: ptr("$CASE/link")}, {Dir: ptr("$CASE/link"), File: ptr("only")}}
			a, b := 0, 1
			if viaFirst {
				a, b = 1, 0
			}
			nodes := []core.Node{
				{Name: "TestA", Ops: []core.Op{snapOp(tb, "snap", a, "x"), snapOp(tb, "ssnap", a, "sx"), snapOp(tb, "snap", 2, "o")}},
				{Name: "TestAB", Ops: []core.Op{snapOp(tb, "snap", b, "y"), snapOp(tb, "ssnap", b, "sy")}},
			}
			// the same tests through both paths, more often through one of them
			for i, cfgs := range [][]int{{a, a, a, b}, {a, b, b, b}, {a, b, b}, {b, a, a}} {
				n := core.Node{Name: []string{"TestAb", "TestA_b"}[i%2]}
				for _, cfg := range cfgs {
					n.Ops = append(n.Ops, snapOp(tb, "snap", cfg, "z"))
				}
				if i > 1 {
					nodes[i].Ops = append(nodes[i].Ops, n.Ops...)
				} else {
					nodes = append(nodes, n)
				}
			}
			p := PCase{Case: cs, Nodes: nodes, Mode: m}
			p.Case.Clean, p.Case.Sort = 1, true
			for n := 0; n < 2; n++ {
				pr := c.RunPool([]PCase{p})[0]
				if c.PCrashed(pr) {
					return
				}
				c.Eval(fmt.Sprintf("link%v%v%d", m, viaFirst, n))
				c.Count("symlinked_directories", 1)
				sm := parseSummary(pr.Clean[0])
				var gone []string
				for f, d := range pr.Pre[0] {
					if x, ok := pr.Post[0][f]; !ok || !sameLines(x, d) {
						gone = append(gone, f)
					}
				}
				if len(gone)+len(sm.files)+len(sm.ids) > 0 {
					c.Violate(pr.replay(), "snapshots addressed through a symbolic link: lost or changed %v, listed %v %v", gone, sm.files, sm.ids)
				}
			}
		}
	}
}

// sameLines compares files that may have been sorted.
func sameLines(a, b []byte) bool {
	x, y := bytes.Split(a, []byte("\n")), bytes.Split(b, []byte("\n"))
	slices.SortFunc(x, bytes.Compare)
	slices.SortFunc(y, bytes.Compare)
	return slices.EqualFunc(x, y, bytes.Equal)
}

func checkC08(c *Ctx) {
	c.rule, c.assume = labRule, labAssume
	c.runLab("C08", c.lab(labOpt{label: "run", n: c.N(300, 4000), run: 0.85, skip: 0.1, sort: 0.2, twice: 0.2, count: 0.2}))
	c.runLab("C08", c.lab(labOpt{label: "skip", n: c.N(200, 3000), run: 0.1, skip: 0.3, sort: 0.2, twice: 0.2, count: 0.2}))
	c.rule += raceRule + midRule
	c.raceLabs("C08", true)
	c.timed("mid", func() { c.midLab("C08", 0.3) })
	c.rule += cleanScaleRule
	c.timed("scale", func() { c.cleanScale("C08") })
	c.need(500, "protected_entries", "protected_files")
	c.need(50, "stale_kin_of_skipped")
	c.c08named()
}

// c08named: nothing in a standalone file with a custom Filename tells which
// test it belongs to.
func (c *Ctx) c08named() {
	cs := c.NewCase()
	tb := &Table{}
	cs.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d"), File: ptr("named")}, {Dir: ptr("$CASE/d")}}
	op := snapOp(tb, "ssnap", 0, "x")
	other := core.Node{Name: "TestB", Ops: []core.Op{snapOp(tb, "snap", 1, "y")}}
	c.RunPool([]PCase{{Case: cs, Nodes: []core.Node{{Name: "TestA", Ops: []core.Op{op}}, other}}})
	p := PCase{Case: cs, Nodes: []core.Node{{Name: "TestA", Ops: []core.Op{{K: "skip"}, op}}, other}, Mode: Upd("clean")}
	p.Case.Clean = 1
	pr := c.RunPool([]PCase{p})[0]
	if c.PCrashed(pr) {
		return
	}
	fail := ""
	if _, ok := pr.Post[0][filepath.Join(cs.Dir, "d", "named_1.snap")]; !ok {
		fail = "the standalone file named_1.snap of the skipped test TestA was removed"
	}
	c.Known("C08-named-standalone", fail, pr.replay())
}

func checkC09(c *Ctx) {
	c.rule, c.assume = labRule, labAssume
	c.runLab("C09", c.lab(labOpt{label: "a", n: c.N(400, 5000), run: 0, skip: 0.08, sort: 0.2, twice: 0.3, count: 0.2}))
	c.runLab("C09", c.lab(labOpt{label: "noskip", n: c.N(100, 1500), run: 0, skip: 0, sort: 0.2, twice: 0.2, count: 0}))
	c.rule += raceRule + midRule
	c.raceLabs("C09", true)
	c.timed("mid", func() { c.midLab("C09", 0.1) })
	c.rule += cleanScaleRule
	c.timed("scale", func() { c.cleanScale("C09") })
	c.need(500, "stale_entries", "stale_files", "bystanders")
	c.need(50, "stale_links")
	c.timed("faults", c.c09faults)
	c.rule += "; plus stale files in directories without write permission beside others"
}

// c09faults: files that cannot be removed do not keep Clean from the others.
func (c *Ctx) c09faults() {
	if !c.dropUID {
		return
	}
	for i, n := 0, c.N(16, 80); i < n; i++ {
		tb := &Table{}
		cs := c.NewCase()
		m := []Mode{Upd("clean"), Upd("true"), Upd("clean"), {}}[i%4]
		cs.Cfgs = []core.Cfg{{Dir: ptr("$CASE/ro")}, {Dir: ptr("$CASE/rw")}, {Dir: ptr("$CASE/rw2")}}
		nodes := []core.Node{
			{Name: "TestA", Ops: []core.Op{snapOp(tb, "snap", 0, "x"), snapOp(tb, "ssnap", 0, "sx")}},
			{Name: "TestB", Ops: []core.Op{snapOp(tb, "snap", 1, "y"), snapOp(tb, "ssnap", 2, "sy")}},
		}
		c.RunPool([]PCase{{Case: cs, Nodes: nodes}})
		stale := map[string]bool{}
		for k, f := range []string{"ro/a_ghost_test.snap", "ro/Ghost_1.snap", "ro/z.snap.json", "rw/a_ghost_test.snap", "rw/Ghost_1.snap", "rw/z.snap.json", "rw2/Ghost_2.snap"} {
			if (i+k)%5 == 4 {
				continue
			}
			p := filepath.Join(cs.Dir, f)
			PutFile(p, core.Render([]core.Entry{{ID: "TestGhost - 1", Raw: "stale"}}))
			stale[p] = strings.HasPrefix(f, "rw")
		}
		nodes[1].Ops = append(nodes[1].Ops, core.Op{K: "chmod", V: []core.Val{core.S("$CASE/ro"), core.S("0555")}})
		p := PCase{Case: cs, Nodes: nodes, Mode: m}
		p.Case.Clean, p.Case.Sort = 1, i%2 == 0
		pr := c.RunPool([]PCase{p})[0]
		os.Chmod(filepath.Join(cs.Dir, "ro"), 0o755)
		if c.PCrashed(pr) {
			return
		}
		c.Eval(fmt.Sprintf("unremovable%d", i))
		sm := parseSummary(pr.Clean[0])
		listed := map[string]int{}
		for _, f := range sm.files {
			listed[filepath.Base(filepath.Dir(f))+"/"+filepath.Base(f)]++
		}
		for f, removable := range stale {
			name := filepath.Base(filepath.Dir(f)) + "/" + filepath.Base(f)
			_, still := pr.Post[0][f]
			c.Count("stale_beside_unremovable", 1)
			if listed[name] != 1 {
				c.Violate(pr.replay(), "mode %s, a directory without write permission among the visited ones: the stale file %s is listed %d times", m, name, listed[name])
			}
			if want := !removable || !modeRemoves(m); still != want {
				c.Violate(pr.replay(), "mode %s, a directory without write permission among the visited ones: the stale file %s: still there: %v", m, name, still)
			}
		}
	}
}

func checkC10(c *Ctx) {
	c.rule, c.assume = labRule+"; plus files of up to 300 entries with ids over digits and text in several initial orders, sorted in separate processes", labAssume
	c.runLab("C10", c.lab(labOpt{label: "a", n: c.N(350, 4000), run: 0.1, skip: 0.05, sort: 0.7, twice: 0.6, count: 0.1}))
	c.c10sort()
	c.rule += raceRule + midRule
	c.raceLabs("C10", true)
	c.timed("mid", func() { c.midLab("C10", 0.1) })
	c.rule += cleanScaleRule
	c.timed("scale", func() { c.cleanScale("C10") })
	c.need(300, "rewritten_files", "sorted_files")
}

var bigBodies = append([]string{strings.Repeat("long line ", 9000), strings.Repeat("many\nlines\n", 4000), strings.Repeat("\n", 50), "\x00\x01\xff\xfe", strings.Repeat("/-/-/-/\n", 30)}, staleBodies...)

func sortID(r *core.Rng) string {
	var b strings.Builder
	b.WriteString(core.Pick(r, []string{"TestA", "TestA", "TestB1", "TestÉ", "Test", "FuzzX"}))
	for n := r.Intn(4); n > 0; n-- {
		switch r.Intn(5) {
		case 0:
			fmt.Fprintf(&b, "/%d", core.Pick(r, []int{0, 1, 2, 9, 10, 11, 19, 20, 100, 101}))
		case 1:
			fmt.Fprintf(&b, "/x%dy%d", r.Intn(12), r.Intn(12))
		case 2:
			fmt.Fprintf(&b, "#%02d", r.Intn(12))
		case 3:
			b.WriteString(core.Pick(r, []string{"/a", "/A", "/_", "/ab", "/a_b", "/é", "/-", "/a-1"}))
		default:
			b.WriteString(core.Pick(r, []string{"/01", "/001", "/1a", "/01a", "/99999999999999999999999", "/1_000"}))
		}
	}
	fmt.Fprintf(&b, " - %d", core.Pick(r, []int{1, 2, 3, 9, 10, 11, 99, 100, 1000}))
	return b.String()
}

// c10sort sorts the same entries from several initial orders.
func (c *Ctx) c10sort() {
	r := c.Rng("sort")
	type grp struct {
		es    []core.Entry
		total bool
		at    []int
	}
	var gs []*grp
	var ps []PCase
	var tbs []*Table
	n := c.N(60, 900)
	for i := 0; i < n; i++ {
		g := &grp{total: true}
		seen := map[string]bool{}
		ids := []string{"TestD - 1"}
		seen[ids[0]] = true
		// names that differ only after, or only before, something long
		long := "/" + strings.Repeat(core.Pick(r, []string{"long", "/x1", "_", "9"}), core.Pick(r, []int{12, 40, 100, 400}))
		hasLong := r.Chance(0.3)
		for k := r.Range(2, core.Pick(r, []int{4, 12, 60, 300})); k > 0; k-- {
			id := sortID(r)
			if hasLong && r.Chance(0.6) {
				if cut := strings.LastIndex(id, " - "); r.Chance(0.5) {
					id = id[:cut] + long + id[cut:]
				} else {
					id = "TestA" + long + id[4:]
				}
			}
			if !seen[id] {
				seen[id] = true
				ids = append(ids, id)
			}
		}
		for _, id := range ids {
			raw := core.Pick(r, staleBodies)
			if len(ids) < 20 {
				raw = core.Pick(r, bigBodies)
			}
			if id == "TestD - 1" {
				raw = "here"
			}
			g.es = append(g.es, core.Entry{ID: id, Raw: raw})
		}
		for a := range ids {
			for b := range ids {
				if a != b && !natural.Less(ids[a], ids[b]) && !natural.Less(ids[b], ids[a]) {
					g.total = false
				}
			}
		}
		for o := 0; o < 3; o++ {
			tb := &Table{}
			cs := c.NewCase()
			cs.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d"), File: ptr("f")}}
			cs.Clean, cs.Sort = 2, true
			es := slices.Clone(g.es)
			for i, j := range r.Perm(len(es)) {
				es[i] = g.es[j]
			}
			if o == 2 {
				slices.SortFunc(es, func(a, b core.Entry) int { return strings.Compare(b.ID, a.ID) })
			}
			PutFile(filepath.Join(cs.Dir, "d", "f.snap"), core.Render(es))
			g.at = append(g.at, len(ps))
			ps = append(ps, PCase{Case: cs, Nodes: []core.Node{{Name: "TestD", Ops: []core.Op{snapOp(tb, "snap", 0, "here")}}}})
			tbs = append(tbs, tb)
		}
		gs = append(gs, g)
	}
	prs := c.RunPool(ps)
	for gi, g := range gs {
		var first []byte
		for x, i := range g.at {
			pr := prs[i]
			if c.PCrashed(pr) {
				continue
			}
			c.Eval(fmt.Sprintf("sort%d/%d", gi, x))
			lc := &labCase{tb: tbs[i], p: ps[i], m: newModel(ps[i].Case.Dir, ps[i].Case.Cfgs, baseOf)}
			if k := c.judge(lc, pr); len(k["C10"]) > 0 {
				c.Violate(pr.replay(), "sorting %d entries: %s", len(g.es), strings.Join(k["C10"], "; "))
				continue
			}
			out := pr.Post[0][filepath.Join(ps[i].Case.Dir, "d", "f.snap")]
			if first == nil {
				first = out
			} else if g.total && !bytes.Equal(first, out) {
				c.Violate(pr.replay(), "the result of sorting %d totally ordered entries depends on their initial order", len(g.es))
			}
		}
		if g.total {
			c.Count("total_orders", 1)
		}
	}
}

func checkC20(c *Ctx) {
	c.rule, c.assume = labRule+"; plus programs of up to 12 concurrent tests with 5-40 calls each", labAssume
	c.runLab("C20", c.lab(labOpt{label: "a", n: c.N(350, 4000), run: 0.2, skip: 0.15, sort: 0.2, twice: 0.3, count: 0.3}))
	c.c20conc()
	c.rule += raceRule + midRule + faultRule
	c.raceLabs("C20", true)
	c.timed("mid", func() { c.midLab("C20", 0.2) })
	c.rule += cleanScaleRule
	c.timed("scale", func() { c.cleanScale("C20") })
	c.timed("faults", func() { c.faults("C20") })
	c.need(500, "stale_entries", "stale_files")
}

// c20conc: totals under concurrency.
func (c *Ctx) c20conc() {
	r := c.Rng("conc")
	n := c.N(60, 800)
	var cs []core.Case
	for i := 0; i < n; i++ {
		k := c.NewCase()
		k.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}, {Dir: ptr("$CASE/d"), Update: ptr(true)}, {Dir: ptr("$CASE/d"), Update: ptr(false)}}
		k.Clean = r.Range(1, 2)
		calls := r.Range(5, 40)
		var step []core.Exec
		for t := r.Range(2, 12); t > 0; t-- {
			ex := core.Exec{Test: fmt.Sprintf("TestConc/%d", t)}
			for j := 0; j < calls; j++ {
				kind := core.Pick(r, []string{"snap", "snap", "json", "yaml", "ssnap", "sjson"})
				op := core.Op{K: kind, C: r.Intn(3), V: []core.Val{val(kind, r.Intn(3))}}
				if r.Chance(0.1) {
					op.V = []core.Val{core.S(core.Pick(r, []string{"{", "a: [", "\""}))}
				}
				ex.Ops = append(ex.Ops, op)
			}
			if r.Chance(0.3) {
				ex.Ops = append(ex.Ops, core.Op{K: core.Pick(r, []string{"skip", "skipf", "skipnow"}), V: []core.Val{core.S("x")}})
			}
			step = append(step, ex)
		}
		k.Steps = [][]core.Exec{step, step, step}
		cs = append(cs, k)
	}
	for _, m := range []Mode{{}, Upd("true"), {CI: "CI=true"}} {
		for i, rr := range c.RunCases(m, cs, 1) {
			if c.Crashed(rr, m) {
				continue
			}
			c.Eval(fmt.Sprintf("conc%d%v", i, m))
			tot := map[string]int{}
			var bad []string
			for j := range rr.Calls {
				k := &rr.Calls[j]
				if strings.HasPrefix(k.K, "skip") {
					tot["skipped"]++
					continue
				}
				o := outcome(k)
				tot[o]++
				switch o {
				case "passed", "failed", "added", "updated":
				default:
					bad = append(bad, callText(k)+" ended in "+o)
				}
			}
			c.Count("concurrent_calls", len(rr.Calls))
			for n, out := range rr.Clean {
				sm := parseSummary(out)
				for _, w := range []string{"passed", "failed", "added", "updated", "skipped"} {
					if sm.tot[w] != tot[w] {
						bad = append(bad, fmt.Sprintf("Clean #%d shows %d %s, observed %d", n+1, sm.tot[w], w, tot[w]))
					}
				}
			}
			if len(bad) > 0 {
				c.Violate(replay(rr, m), "concurrent calls: %s", strings.Join(bad, "; "))
			}
		}
	}
}
