package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/maruel/natural"

	"verifh/core"
)

// The clean lab: a recorded program, stale items and bystanders added to its
// directories, a second process that runs a modified program (calls and tests
// removed, skips, -run, -count, -parallel) and calls Clean once or twice. The
// judge compares what Clean printed and did with what the process was seen to
// address; every complaint is filed under the property it contradicts.

// ---- -run semantics of the testing package ----

type runPat [][]string // alternatives of path elements

func parseRun(s string) runPat {
	var b runPat
	var a []string
	cs, cp := 0, 0
	for i := 0; i < len(s); {
		switch s[i] {
		case '[':
			cs++
		case ']':
			if cs--; cs < 0 {
				cs = 0
			}
		case '(':
			if cs == 0 {
				cp++
			}
		case ')':
			if cs == 0 {
				cp--
			}
		case '\\':
			i++
		case '/', '|':
			if cs == 0 && cp == 0 {
				a = append(a, s[:i])
				if s[i] == '|' {
					b = append(b, a)
					a = nil
				}
				s = s[i+1:]
				i = 0
				continue
			}
		}
		i++
	}
	a = append(a, s)
	b = append(b, a)
	for _, x := range b {
		for i := range x {
			x[i] = strings.ReplaceAll(x[i], " ", "_")
		}
	}
	return b
}

func (p runPat) selects(test string) bool {
	elems := strings.Split(test, "/")
	for _, a := range p {
		ok := true
		for i, e := range elems {
			if i >= len(a) {
				break
			}
			if m, err := regexp.MatchString(a[i], e); err != nil || !m {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func runPattern(r *core.Rng, names []string) string {
	fixed := []string{"TestA", "^TestA$", "Test[AB]", "TestA|TestC1/s", "(TestA|TestB)/s", "/s1", "s1", "1", "Test.*/1", "(?i)testa", "TestC1?$", ".", "^$", "TestC/(x|y)", "[^/]+/A", "É", "FuzzZ", "seed", "FuzzZ/seed#0", " - 1", "- 1", "_b", "Test/", "TestA/", "[", "TestC1|", "A_b|B$", "TestA$|s"}
	if r.Chance(0.45) || len(names) == 0 {
		p := core.Pick(r, fixed)
		if p == "[" || p == "TestC1|" {
			p = "Test[/A]" // a slash inside brackets does not separate elements
		}
		return p
	}
	one := func() string {
		n := core.Pick(r, names)
		el := strings.Split(n, "/")
		el = el[:r.Range(1, len(el))]
		for i := range el {
			q := regexp.QuoteMeta(el[i])
			switch r.Intn(5) {
			case 0:
				q = "^" + q + "$"
			case 1:
				q = "^" + q
			case 2:
				q = q + "$"
			case 3:
				if r.Chance(0.4) {
					q = ""
				}
			}
			el[i] = q
		}
		return strings.Join(el, "/")
	}
	p := one()
	for r.Chance(0.25) {
		p += "|" + one()
	}
	return p
}

// ---- lab ----

type labCase struct {
	m     *Model
	tb    *Table
	rec   PCase
	p     PCase
	run   string
	hasRn bool
	bench bool              // benchmarks run as well
	skips []string          // tests that called snaps.Skip*, once judged
	owner map[string]string // default-named standalone file -> test that created it
	named map[string]string // custom-named standalone file -> test

	links  int             // stale files that are links
	spread []string        // ids of stale entries made so far
	dup    map[string]bool // ids that a file has more than once
	lost   map[string]int  // entries that had to stay and did not
}

type labOpt struct {
	label           string
	n               int
	run, skip, sort float64
	twice           float64
	count           float64
}

var staleBodies = []string{"stale", "two\nlines", "", "\n", "/-/-/-/", "//-/-/-/", "[TestA - 1]", "[TestA - 1]\nbody", "--- ", "\n\n", "%d\xff", "{\n \"a\": 1\n}", "  indented", "[x]"}

// noise puts stale entries and files and bystanders into the directories.
func (lc *labCase) noise(r *core.Rng, tests []string) {
	dir := lc.p.Case.Dir
	t := core.Observe(dir)
	dirs := map[string]bool{}
	for _, f := range t.Files() {
		full := filepath.Join(dir, f)
		dirs[filepath.Dir(full)] = true
		if _, multi := lc.m.Multi[full]; !multi || r.Chance(0.25) {
			continue
		}
		es, err := core.ParseSnap(t[f].Data)
		if err != nil {
			continue
		}
		have := map[string]bool{}
		for _, e := range es {
			have[e.ID] = true
		}
		for n := r.Range(0, 6); n > 0; n-- {
			var id string
			switch r.Intn(8) {
			case 0, 1: // later slots of a known test
				e := core.Pick(r, tests)
				id = fmt.Sprintf("%s - %d", e, r.Range(1, 14))
			case 2:
				id = fmt.Sprintf("%s%s - %d", core.Pick(r, tests), core.Pick(r, []string{"x", "_b", "1", "0", "A", "#01"}), r.Range(1, 3))
			case 3:
				id = fmt.Sprintf("%s/%s - %d", core.Pick(r, tests), core.Pick(r, []string{"ghost", "s1", "s10/z", "a_-_1"}), r.Range(1, 3))
			case 4:
				id = core.Pick(r, []string{"FuzzY/seed#0 - 1", "FuzzZ/seed#1 - 2", "TestGhost - 10", "TestGhost - 9", "TestGhost/a - 1", "TestÉ - 2", "Test - 1", "Testing/x - 3"})
			case 5:
				id = core.Pick(r, []string{"TestA - 01", "TestA - 001", "TestA/01 - 1", "TestA/1 - 1", "TestA/10 - 1", "TestA/2 - 1", "TestA - 99999999999999999999", "TestA/x2y01 - 1"})
			case 6:
				id = core.Pick(r, []string{"Test Custom - 2 - 1", "a custom name - 1", "TestA/[x] - 1", "TestA/] - 2", "BenchmarkX - 1", "BenchmarkX/s - 2", "Benchmarker - 1", "TestA/% - 1"})
			default:
				id = fmt.Sprintf("%s - %d", core.Pick(r, tests), core.Pick(r, []int{1, 2, 3, 10, 100}))
			}
			if len(lc.spread) > 0 && r.Chance(0.3) {
				// the same stale id in several files
				id = core.Pick(r, lc.spread)
			}
			if len(es) > 0 && r.Chance(0.06) {
				// as a merge can leave it: two entries with one id
				id = core.Pick(r, es).ID
			} else if have[id] {
				continue
			}
			have[id] = true
			lc.spread = append(lc.spread, id)
			e := core.Entry{ID: id, Raw: core.Pick(r, staleBodies)}
			at := r.Intn(len(es) + 1)
			es = append(es[:at], append([]core.Entry{e}, es[at:]...)...)
		}
		if r.Chance(0.5) {
			p := r.Perm(len(es))
			sh := make([]core.Entry, len(es))
			for i, j := range p {
				sh[i] = es[j]
			}
			es = sh
		}
		if r.Chance(0.2) {
			PutFile(full, core.RenderLoose(r, es))
		} else {
			PutFile(full, core.Render(es))
		}
	}
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	put := func(p, s string) {
		if _, ok := t[strings.TrimPrefix(p, dir+"/")]; !ok {
			PutFile(p, []byte(s))
		}
	}
	for _, d := range ds {
		for n := r.Range(0, 5); n > 0; n-- {
			tn := core.Pick(r, tests)
			fl := strings.ReplaceAll(tn, "/", "_")
			ent := func(id string) string {
				return string(core.Render([]core.Entry{{ID: id, Raw: core.Pick(r, staleBodies)}}))
			}
			switch r.Intn(13) {
			case 11:
				// a stale file that is a link to a file elsewhere
				l := filepath.Join(d, core.Pick(r, []string{"link_test.snap", "Ghost_2.snap", "link.snap.json", "linked_1.snap"}))
				to := filepath.Join(dir, "untouched", "linked"+core.Pick(r, []string{".txt", "_test.snap"}))
				put(to, ent("TestGhost - 1"))
				if rel, err := filepath.Rel(d, to); err == nil && r.Chance(0.5) {
					to = rel
				}
				if _, ok := t[strings.TrimPrefix(l, dir+"/")]; !ok && os.Symlink(to, l) == nil {
					lc.links++
				}
			case 0:
				put(filepath.Join(d, "old_test.snap"), ent(tn+" - 1")+ent("TestGhost - 2"))
			case 1:
				put(filepath.Join(d, "ghost_test.snap"), ent("TestGhost - 1"))
			case 2:
				put(filepath.Join(d, fmt.Sprintf("%s_%d.snap", fl, r.Range(1, 12))), core.Pick(r, staleBodies))
			case 3:
				put(filepath.Join(d, fmt.Sprintf("%s%s_%d.snap.json", fl, core.Pick(r, []string{"", "B", "_s1", "_zz"}), r.Range(1, 3))), "{}\n")
			case 4:
				put(filepath.Join(d, core.Pick(r, []string{"a.snap.bak", ".snap", "x.snapshot", "TestA.snap", "a_test.snap~", "empty.snap", "Ghost_1.snap", "_1.snap", "1.snap"})), core.Pick(r, []string{"", "junk", "[TestA - 1]", "\n[Test"}))
			case 5:
				put(filepath.Join(d, core.Pick(r, []string{"README.md", "notes.txt", "snap", "a.snp", "a_test.go", "data.json", ".gitkeep", "xsnap.txt"})), ent(tn+" - 1"))
			case 6:
				put(filepath.Join(d, "deep", core.Pick(r, []string{"x.snap", "TestA_1.snap"})), ent("TestGhost - 1"))
			case 7:
				put(filepath.Join(d, "dir.snap", "y.snap"), "x")
			case 8:
				put(filepath.Join(d, "moved_test.snap"), ent(tn+"/ghost - 1"))
			case 9:
				put(filepath.Join(d, "prefix_test.snap"), ent(tn+"x - 1")+ent(tn+"_y - 2"))
			case 10:
				put(filepath.Join(d, "custom.snap.txt"), ent("TestGhost - 1"))
			default:
				put(filepath.Join(d, "sa_"+fl+"_1.snap"), ent(tn+" - 1"))
			}
		}
	}
	put(filepath.Join(dir, "untouched", "a_test.snap"), "\n[TestGhost - 1]\nx\n---\n")
	put(filepath.Join(dir, "untouched", "TestA_1.snap"), "x")
}

func allTests(nodes []core.Node, parent string, out *[]string) {
	for i := range nodes {
		n := rewriteName(nodes[i].Name)
		if n == "FuzzZ" && parent == "" {
			n = "FuzzZ/seed#0"
		}
		if parent != "" {
			n = parent + "/" + n
		}
		*out = append(*out, n)
		for _, o := range nodes[i].Ops {
			if o.Node != nil {
				allTests([]core.Node{*o.Node}, n, out)
			}
		}
	}
}

// reshape turns a recorded program into the one the second process runs.
func (lc *labCase) reshape(r *core.Rng, n core.Node, o labOpt, iters int, g *treeGen) core.Node {
	out := core.Node{Name: n.Name}
	skip := func() core.Op {
		return core.Op{K: core.Pick(r, []string{"skip", "skipf", "skipnow"}), V: []core.Val{core.S("why")}}
	}
	some := func() []int {
		var it []int
		for i := 1; i <= iters; i++ {
			if r.Chance(0.5) {
				it = append(it, i)
			}
		}
		return it
	}
	at := -1
	if r.Chance(o.skip) {
		at = r.Intn(len(n.Ops) + 1)
	}
	for i, op := range n.Ops {
		if i == at {
			s := skip()
			if iters > 1 && r.Chance(0.5) {
				s.Iters = some()
			}
			out.Ops = append(out.Ops, s)
		}
		switch {
		case op.Node != nil:
			if r.Chance(0.15) {
				continue
			}
			sub := lc.reshape(r, *op.Node, o, iters, g)
			op.Node = &sub
		case op.Tag != "":
			if r.Chance(0.15) {
				continue
			}
			if pc := lc.tb.Calls; r.Chance(0.15) {
				k, _ := strconv.Atoi(op.Tag)
				if v := changed(r, pc[k], nil); v != nil && r.Chance(0.8) {
					it := op.Iters
					op = lc.tb.Op(*v)
					op.Iters = it
				} else if v, ok := badCall(r, pc[k]); ok {
					it := op.Iters
					op = lc.tb.Op(v)
					op.Iters = it
				}
			}
		}
		if iters > 1 && r.Chance(0.3) && op.K != "par" {
			op.Iters = some()
		}
		out.Ops = append(out.Ops, op)
	}
	if at == len(n.Ops) {
		out.Ops = append(out.Ops, skip())
	}
	if r.Chance(0.05) {
		out.Ops = append(out.Ops, core.Op{K: "tskip"})
	}
	return out
}

var cleanModes = []Mode{{}, Upd("clean"), Upd("clean"), Upd("true"), Upd("false"), Upd("1"), {CI: "CI=true"}, {CI: "GITHUB_ACTIONS=true", Upd: "clean", HasUpd: true}, {CI: "CI=true", Upd: "true", HasUpd: true}, {CI: "CI=false", Upd: "clean", HasUpd: true}}

func modeRemoves(m Mode) bool {
	return !modeIsCI(m) && m.HasUpd && (m.Upd == "true" || m.Upd == "clean")
}

func (c *Ctx) lab(o labOpt) []*labCase {
	r := c.Rng("lab" + o.label)
	var ls []*labCase
	var recs []PCase
	for i := 0; i < o.n; i++ {
		lc := &labCase{tb: &Table{}, owner: map[string]string{}, named: map[string]string{}}
		cs := c.NewCase()
		cs.Cfgs = stdCfgs(r)
		g := &treeGen{r: r, tb: lc.tb, cfgs: cs.Cfgs, flat: map[string]string{}, kinds: allKinds, iters: 1, par: r.Chance(0.4), depth: 2}
		tops := topNames()
		for _, x := range r.Perm(len(tops))[:r.Range(2, 6)] {
			g.ids = append(g.ids, core.SlotIDs([]string{tops[x]}, 3)...)
			lc.rec.Nodes = append(lc.rec.Nodes, g.node(tops[x], "", 0))
		}
		lc.rec.Case = cs
		lc.m = newModel(cs.Dir, cs.Cfgs, baseOf)
		recs = append(recs, lc.rec)
		ls = append(ls, lc)
	}
	for i, pr := range c.RunPool(recs) {
		lc := ls[i]
		if pr.Crash != "" {
			ls[i] = nil // another property's business
			continue
		}
		c.poolModel(lc.m, lc.tb, pr)
		for f, e := range lc.m.SA {
			if lc.m.cfg(e.Call.Op.C).File != nil {
				lc.named[f] = e.Test
			} else {
				lc.owner[f] = e.Test
			}
		}
		lc.p.Case = lc.rec.Case
		var tests []string
		allTests(lc.rec.Nodes, "", &tests)
		lc.noise(r, tests)
		c.Count("stale_links", lc.links)
		iters := 1
		if r.Chance(o.count) {
			iters = r.Range(2, 3)
		}
		for _, n := range lc.rec.Nodes {
			if r.Chance(0.12) {
				continue
			}
			lc.p.Nodes = append(lc.p.Nodes, lc.reshape(r, n, o, iters, nil))
		}
		lc.p.Mode = core.Pick(r, cleanModes)
		if r.Chance(0.25) {
			lc.p.Mode = Upd("clean")
		}
		lc.p.Mode.Args = []string{fmt.Sprintf("-test.count=%d", iters), fmt.Sprintf("-test.parallel=%d", core.Pick(r, []int{1, 4, 8}))}
		if r.Chance(o.run) {
			lc.run = runPattern(r, tests)
			lc.hasRn = true
			lc.p.Mode.Args = append(lc.p.Mode.Args, "-test.run="+lc.run)
		} else if r.Chance(0.2) {
			lc.bench = true
			lc.p.Mode.Args = append(lc.p.Mode.Args, "-test.bench=.", "-test.benchtime=1x")
		}
		lc.p.Case.Clean = 1
		if r.Chance(o.twice) {
			lc.p.Case.Clean = 2
		}
		lc.p.Case.Sort = r.Chance(o.sort)
		lc.p.Case.SortArg = r.Chance(0.3)
	}
	return slices.DeleteFunc(ls, func(l *labCase) bool { return l == nil })
}

// ---- the summary Clean prints ----

type summary struct {
	text   string
	tot    map[string]int
	heads  map[string]int // files tests -> announced number
	verb   map[string]string
	files  []string
	ids    []string
	titled bool
}

var reTot = regexp.MustCompile(`(\d+) snapshots? (passed|failed|added|updated|skipped)\s*$`)
var reHead = regexp.MustCompile(`(\d+) snapshot (file|test)s? (obsolete|removed)\s*$`)

func parseSummary(b []byte) *summary {
	s := &summary{text: ansi.ReplaceAllString(string(b), ""), tot: map[string]int{}, heads: map[string]int{}, verb: map[string]string{}}
	cur := ""
	for _, l := range strings.Split(s.text, "\n") {
		if cur != "" {
			if i := strings.Index(l, "• "); i >= 0 {
				it := l[i+len("• "):]
				if cur == "file" {
					s.files = append(s.files, it)
				} else {
					s.ids = append(s.ids, it)
				}
				continue
			}
			cur = ""
		}
		if strings.Contains(l, "Snapshot Summary") {
			s.titled = true
		}
		if m := reHead.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[1])
			s.heads[m[2]] += n
			s.verb[m[2]] = m[3]
			cur = m[2]
		} else if m := reTot.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[1])
			s.tot[m[2]] += n
		}
	}
	return s
}

// ---- the judge ----

type complaints map[string][]string

func (k complaints) add(prop, f string, a ...any) { k[prop] = append(k[prop], fmt.Sprintf(f, a...)) }

func testOf(id string) string {
	if i := strings.LastIndex(id, " - "); i >= 0 {
		return id[:i]
	}
	return id
}

func isSelfOrBelow(test, root string) bool {
	return test == root || strings.HasPrefix(test, root+"/")
}

var headerLine = regexp.MustCompile(`(?m)^\[(.*)\]\r?$`)

// judge returns what contradicts each property; touched is what the calls of
// the process addressed.
func (c *Ctx) judge(lc *labCase, pr *PRes) complaints {
	k := complaints{}
	lc.m.NewProcess()
	c.poolModel(lc.m, lc.tb, pr)
	touched := lc.m.Touched
	var skips []string
	outc := map[string]int{}
	nskip := 0
	for i := range pr.Calls {
		call := &pr.Calls[i]
		if call.K == "clean" || call.K == "outside" {
			continue
		}
		if strings.HasPrefix(call.K, "skip") {
			nskip++
			skips = append(skips, call.Test)
			if len(call.Errs) > 0 {
				k.add("C20", "%s reported an error: %s", call.K, callText(call))
			}
			continue
		}
		o := outcome(call)
		outc[o]++
		switch o {
		case "passed", "failed", "added", "updated":
		default:
			k.add("C20", "a call ended in %q: %s", o, callText(call))
		}
	}
	lc.skips = skips
	run := parseRun(lc.run)
	off := func(test string) bool { return lc.hasRn && lc.run != "" && !run.selects(test) }
	for _, e := range pr.Events {
		if off(e.Test) {
			c.Inconclusive("harness: %q ran under -run %q", e.Test, lc.run)
		}
	}
	skipped := func(test string) bool {
		for _, s := range skips {
			if isSelfOrBelow(test, s) {
				return true
			}
		}
		return false
	}
	safe := func(test string) bool { return skipped(test) || off(test) }
	removes := modeRemoves(pr.P.Mode)
	ci := modeIsCI(pr.P.Mode)
	sorting := pr.P.Case.Sort && !ci
	visited := map[string]bool{}
	for f := range touched {
		visited[filepath.Dir(f)] = true
	}
	if len(pr.Clean) != pr.P.Case.Clean {
		c.Inconclusive("Clean ran %d times, expected %d", len(pr.Clean), pr.P.Case.Clean)
	}
	for n := range pr.Clean {
		c.judgeOne(k, lc, pr, n, touched, visited, safe, skipped, off, removes, ci, sorting, outc, nskip)
	}
	return k
}

func (c *Ctx) judgeOne(k complaints, lc *labCase, pr *PRes, n int, touched map[string]map[string]bool, visited map[string]bool,
	safe, skipped, off func(string) bool, removes, ci, sorting bool, outc map[string]int, nskip int) {
	pre, post := pr.Pre[n], pr.Post[n]
	sm := parseSummary(pr.Clean[n])
	where := fmt.Sprintf("Clean #%d (%s, sort=%v)", n+1, pr.P.Mode, pr.P.Case.Sort)

	// C20: totals
	want := map[string]int{"passed": outc["passed"], "failed": outc["failed"], "added": outc["added"], "updated": outc["updated"], "skipped": nskip}
	for _, w := range []string{"passed", "failed", "added", "updated", "skipped"} {
		if sm.tot[w] != want[w] {
			k.add("C20", "%s: summary shows %d %s, observed %d", where, sm.tot[w], w, want[w])
		}
	}
	if sm.heads["file"] != len(sm.files) || sm.heads["test"] != len(sm.ids) {
		k.add("C20", "%s: headers announce %d files and %d tests, %d and %d listed", where, sm.heads["file"], sm.heads["test"], len(sm.files), len(sm.ids))
	}

	listedF := map[string]int{}
	for _, f := range sm.files {
		if !filepath.IsAbs(f) {
			f = filepath.Join(lc.p.Case.Dir, f)
		}
		listedF[f]++
	}
	listedI := map[string]int{}
	for _, i := range sm.ids {
		listedI[i]++
	}
	wrote := map[string]string{}
	for _, w := range pr.CleanWrote[n] {
		i := strings.LastIndex(w, ": ")
		p, what := w[:i], w[i+2:]
		if _, isFile := pre[p]; !isFile {
			if _, isFile = post[p]; !isFile {
				if what != "written" {
					k.add("C09", "%s: directory %s %s", where, p, what)
				} else if !visited[p] {
					k.add("C09", "%s: directory %s, which no test addressed, was changed", where, p)
				}
				continue
			}
		}
		wrote[p] = what
	}
	for p := range post {
		if _, ok := pre[p]; !ok {
			k.add("C09", "%s: created %s", where, p)
		}
	}
	if ci && len(wrote) > 0 {
		k.add("C09", "%s: wrote on CI: %v", where, wrote)
	}

	lc.dup, lc.lost = map[string]bool{}, map[string]int{}
	mustI, mayI := map[string]int{}, map[string]int{}
	goneI := map[string]int{}
	touchedIDs, safeIDs := map[string]bool{}, map[string]bool{}
	var paths []string
	for p := range pre {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		a := pre[p]
		b, still := post[p]
		base := filepath.Base(p)
		ids, addr := touched[p]
		_, isSA := ids[""]
		switch {
		case addr && isSA:
			c.Count("touched_standalone", 1)
			if !still || !bytes.Equal(a, b) {
				k.add("C07", "%s: standalone file %s was addressed and is %s", where, p, goneOrChanged(still))
			}
			if listedF[p] > 0 {
				k.add("C07", "%s: standalone file %s was addressed and is listed as obsolete", where, p)
			}
			if wrote[p] != "" {
				k.add("C10", "%s: standalone file %s was %s", where, p, wrote[p])
			}
			delete(listedF, p)
		case addr:
			if listedF[p] > 0 {
				k.add("C07", "%s: file %s was addressed and is listed as obsolete", where, p)
				delete(listedF, p)
			}
			es, strict, err := core.ParseAny(a)
			if err != nil {
				c.Count("unparsable_before_clean", 1)
				continue
			}
			if !still {
				k.add("C07", "%s: file %s was addressed and is gone", where, p)
				continue
			}
			after, strictAfter, err := core.ParseAny(b)
			if !strict {
				c.Count("hand_edited_files", 1)
			}
			if err != nil || strict && !strictAfter {
				k.add("C10", "%s: rewrote %s to a malformed file: %v", where, p, err)
			}
			c.judgeEntries(k, where, p, es, after, ids, safe, lc, removes, sorting, mustI, mayI, goneI, touchedIDs, safeIDs, wrote[p])
		case !visited[filepath.Dir(p)] || !strings.Contains(base, ".snap"):
			c.Count("bystanders", 1)
			if !still || !bytes.Equal(a, b) || wrote[p] != "" {
				k.add("C09", "%s: touched %s (%s), which is none of its business", where, p, goneOrChanged(still))
			}
			if listedF[p] > 0 {
				k.add("C09", "%s: lists %s, which is none of its business", where, p)
				delete(listedF, p)
			}
		default:
			must, may, prop := c.fileVerdict(lc, p, a, safe, skipped, off)
			lst := listedF[p]
			delete(listedF, p)
			if lst > 1 {
				k.add("C09", "%s: lists %s %d times", where, p, lst)
			}
			switch {
			case !must && !may:
				c.Count("protected_files", 1)
				if lst > 0 {
					k.add(prop, "%s: lists %s (%q), which belongs to a test that did not run", where, p, clipS(string(a), 600))
				}
				if !still || !bytes.Equal(a, b) {
					k.add(prop, "%s: %s (%q) belongs to a test that did not run and is %s", where, p, clipS(string(a), 600), goneOrChanged(still))
				}
			case must && lst == 0:
				k.add("C09", "%s: does not list the stale file %s", where, p)
			}
			if must {
				c.Count("stale_files", 1)
			}
			if may {
				c.Count("either_files", 1)
			}
			if (lst > 0) != !still && removes {
				k.add("C20", "%s: the file %s was listed: %v; still there: %v", where, p, lst > 0, still)
			}
			if lst > 0 && !lc.hasRn && removes == still {
				k.add("C09", "%s: the stale file %s was listed; still there: %v", where, p, still)
			}
			if !still && (lst == 0 || !removes) {
				k.add("C09", "%s: removed %s (listed: %v)", where, p, lst > 0)
			}
			if still && wrote[p] != "" {
				k.add("C09", "%s: changed the unaddressed file %s (%s)", where, p, wrote[p])
			}
		}
	}
	for f := range listedF {
		k.add("C09", "%s: lists the file %s, which does not exist", where, f)
	}
	all := map[string]bool{}
	for id := range listedI {
		all[id] = true
	}
	for id := range mustI {
		all[id] = true
	}
	for id := range goneI {
		all[id] = true
	}
	for id, n := range lc.lost {
		if n > listedI[id] {
			k.add("C10", "%s: [%s] was dropped and not listed as obsolete", where, id)
		}
	}
	var spared []string // stale, kept quiet, and akin to a skipped test
	others := map[bool]int{}
	for id := range all {
		l := listedI[id]
		if mustI[id] > 0 && lc.akin(testOf(id)) {
			if l == 0 {
				spared = append(spared, id)
			}
		} else if mustI[id] > 0 {
			others[l > 0]++
		}
		if l > mustI[id]+mayI[id] {
			p := "C09"
			if touchedIDs[id] {
				p = "C07"
			} else if safeIDs[id] {
				p = "C08"
			}
			k.add(p, "%s: lists [%s] %d times, %d such entries are stale", where, id, l, mustI[id]+mayI[id])
		}
		if l < mustI[id] {
			k.add("C09", "%s: lists [%s] %d times, %d such entries are stale", where, id, l, mustI[id])
			if l > 0 {
				k.add("C20", "%s: lists [%s] %d times, %d such entries are stale", where, id, l, mustI[id])
			}
		}
		if lc.dup[id] {
			continue
		}
		if g := goneI[id]; removes && g != l {
			if !lc.hasRn {
				k.add("C09", "%s: [%s] was listed %d times and removed %d times", where, id, l, g)
			}
			k.add("C20", "%s: [%s] was listed %d times and removed %d times", where, id, l, g)
		}
		if g := goneI[id]; removes && g != l && !lc.hasRn {
		} else if g > l {
			k.add("C10", "%s: [%s] was dropped without being judged obsolete", where, id)
		}
		if goneI[id] > 0 && !removes {
			k.add("C09", "%s: removed [%s]", where, id)
		}
	}
	if len(spared) > 0 && (others[true] > 0 || others[false] == 0) {
		sort.Strings(spared)
		k.add("C08", "%s: the skips of %q protect %q, which are neither those tests nor below them", where, lc.skips, spared)
	}
	for id := range mustI {
		if lc.akin(testOf(id)) {
			c.Count("stale_kin_of_skipped", 1)
		}
	}
	c.Count("stale_entries", len(mustI))
	if n > 0 {
		for p, w := range wrote {
			k.add("C10", "%s: the second Clean changed %s (%s)", where, p, w)
		}
	}
}

// akin: a test that no skip protects, but whose name has something in common
// with that of a skipped one.
func (lc *labCase) akin(test string) bool {
	root := func(s string) string { r, _, _ := strings.Cut(s, "/"); return r }
	ok := false
	for _, s := range lc.skips {
		if isSelfOrBelow(test, s) {
			return false
		}
		ok = ok || root(test) == root(s) || strings.HasPrefix(test, s) || strings.HasPrefix(s, test)
	}
	return ok
}

func goneOrChanged(still bool) string {
	if still {
		return "changed"
	}
	return "gone"
}

func (c *Ctx) judgeEntries(k complaints, where, p string, es, after []core.Entry, ids map[string]bool, safe func(string) bool, lc *labCase,
	removes, sorting bool, mustI, mayI, goneI map[string]int, touchedIDs, safeIDs map[string]bool, wrote string) {
	left := map[string][]string{}
	for _, e := range after {
		left[e.ID] = append(left[e.ID], e.Raw)
	}
	bodies, bodiesAfter := map[string][]string{}, map[string][]string{}
	for _, e := range es {
		bodies[e.ID] = append(bodies[e.ID], e.Raw)
	}
	for _, e := range after {
		bodiesAfter[e.ID] = append(bodiesAfter[e.ID], e.Raw)
	}
	for id, l := range bodies {
		if len(l) < 2 {
			continue
		}
		lc.dup[id] = true
		c.Count("duplicate_ids", 1)
		if a := bodiesAfter[id]; len(a) == len(l) && !slices.Equal(a, l) {
			k.add("C10", "%s: %s: the entries [%s] changed places: %q, before %q", where, p, id, a, l)
		}
	}
	seen := map[string]bool{}
	for _, e := range es {
		prop := ""
		switch {
		case ids[e.ID]:
			prop = "C07"
			touchedIDs[e.ID] = true
			c.Count("touched_entries", 1)
		case safe(testOf(e.ID)) && !strings.HasPrefix(e.ID, "Benchmark"):
			prop = "C08"
			safeIDs[e.ID] = true
			c.Count("protected_entries", 1)
		case lc.hasRn || strings.HasPrefix(e.ID, "Benchmark") && !lc.bench:
			mayI[e.ID]++
		default:
			if seen[e.ID] {
				// the second entry with an id may be reported on its own or not
				mayI[e.ID]++
			} else {
				mustI[e.ID]++
			}
			seen[e.ID] = true
			if removes && lc.dup[e.ID] && len(left[e.ID]) > 0 {
				k.add("C09", "%s: %s: the stale [%s] is still there", where, p, e.ID)
			}
		}
		l := left[e.ID]
		if len(l) == 0 {
			goneI[e.ID]++
			if prop != "" {
				k.add(prop, "%s: %s lost [%s]", where, p, e.ID)
				lc.lost[e.ID]++
				goneI[e.ID]--
			}
			continue
		}
		if !slices.Contains(l, e.Raw) {
			k.add("C10", "%s: %s: the body of [%s] changed from %q to %q", where, p, e.ID, clipS(e.Raw, 80), clipS(l[0], 80))
			if prop != "" {
				k.add(prop, "%s: %s: the body of [%s] changed from %q to %q", where, p, e.ID, clipS(e.Raw, 80), clipS(l[0], 80))
			}
			left[e.ID] = l[1:]
			continue
		}
		i := slices.Index(l, e.Raw)
		left[e.ID] = append(append([]string{}, l[:i]...), l[i+1:]...)
	}
	for id, l := range left {
		if len(l) > 0 {
			k.add("C10", "%s: %s holds [%s] %d times too often", where, p, id, len(l))
		}
	}
	// order
	if sorting {
		for i := 1; i < len(after); i++ {
			if natural.Less(after[i].ID, after[i-1].ID) {
				k.add("C10", "%s: %s is not in natural order: [%s] before [%s]", where, p, after[i-1].ID, after[i].ID)
				break
			}
		}
		c.Count("sorted_files", 1)
	} else {
		j := 0
		for _, e := range es {
			if j < len(after) && after[j].ID == e.ID {
				j++
			}
		}
		if j < len(after) {
			k.add("C10", "%s: %s: entries were reordered without sorting at [%s]", where, p, after[j].ID)
		}
	}
	inOrder := true
	for i := 1; i < len(es); i++ {
		if !natural.Less(es[i-1].ID, es[i].ID) {
			inOrder = false
		}
	}
	pruned := len(after) < len(es)
	if wrote != "" && !pruned && (inOrder || !sorting) {
		k.add("C10", "%s: %s needs neither pruning nor sorting and was %s", where, p, wrote)
	}
	if wrote != "" {
		c.Count("rewritten_files", 1)
	}
}

// fileVerdict tells whether an unaddressed .snap file of a visited directory
// must be listed, may be, or (neither) must be kept.
func (c *Ctx) fileVerdict(lc *labCase, p string, data []byte, safe, skipped, off func(string) bool) (must, may bool, prop string) {
	if es, _, err := core.ParseAny(data); err == nil && len(es) > 0 {
		for _, e := range es {
			if safe(testOf(e.ID)) && !strings.HasPrefix(e.ID, "Benchmark") {
				if _, sa := lc.m.SA[p]; sa || saName.MatchString(filepath.Base(p)) {
					return false, true, ""
				}
				return false, false, "C08"
			}
		}
	}
	if t, ok := lc.owner[p]; ok && safe(t) {
		return false, false, "C08"
	}
	if t, ok := lc.named[p]; ok && safe(t) {
		return false, true, ""
	}
	if lc.hasRn {
		return false, true, ""
	}
	// a file whose flattened name could be that of a protected test
	base := filepath.Base(p)
	for i := range base {
		m := saEnd.FindStringSubmatch(base[:i])
		if m == nil || !strings.HasPrefix(base[i:], ".snap") {
			continue
		}
		for _, t := range flatCandidates(m[1]) {
			if skipped(t) {
				return false, true, ""
			}
		}
	}
	for _, m := range headerLine.FindAllSubmatch(data, -1) {
		if safe(testOf(string(m[1]))) {
			return false, true, ""
		}
	}
	return true, false, ""
}

var saEnd = regexp.MustCompile(`^(.*)_(\d+)$`)

var saName = regexp.MustCompile(`^(.*)_(\d+)\.snap`)

// flatCandidates are the test names that flatten to s (the first few '_').
func flatCandidates(s string) []string {
	var pos []int
	for i := range s {
		if s[i] == '_' {
			pos = append(pos, i)
		}
	}
	if len(pos) > 10 {
		pos = pos[:10]
	}
	var out []string
	for m := 0; m < 1<<len(pos); m++ {
		b := []byte(s)
		for i, p := range pos {
			if m&(1<<i) != 0 {
				b[p] = '/'
			}
		}
		out = append(out, string(b))
	}
	return out
}

// runLab runs the second processes and reports the complaints of one property.
func (c *Ctx) runLab(prop string, ls []*labCase) {
	var ps []PCase
	for _, l := range ls {
		ps = append(ps, l.p)
	}
	for i, pr := range c.RunPool(ps) {
		if c.PCrashed(pr) {
			continue
		}
		k := c.judge(ls[i], pr)
		c.Eval(ls[i].p.Case.ID)
		c.Count("cleans", len(pr.Clean))
		c.Count("mode_"+strings.TrimSpace(strings.Join(append([]string{pr.P.Mode.CI}, pr.P.Mode.Upd), " ")), 1)
		if len(k[prop]) > 0 {
			c.Violate(pr.replay(), "%s", strings.Join(k[prop], "; "))
		}
		if i == 0 {
			c.Sample(map[string]any{"mode": pr.P.Mode.String(), "nodes": ls[i].p.Nodes, "summary": bstr(pr.Clean)})
		}
	}
}
