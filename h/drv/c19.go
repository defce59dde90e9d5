package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verifh/core"
)

func init() { checks["C19"] = checkC19 }

// saHist is a history of standalone calls.
type saHist struct {
	cs    core.Case
	tb    *Table
	m     *Model
	tests []string
	slots [][]PCall // per test
	fmts  map[string]string
	dead  bool
}

func checkC19(c *Ctx) {
	c.rule = "tests making 1-140 standalone calls through configs with and without names, extensions and formats, over arbitrary bytes (carriage returns, NUL, invalid UTF-8, empty, megabytes), typed Go values and JSON documents; phases create / replay on CI / partly changed values in every mode / hand-edited and pre-existing files / repeated and shorter executions, sequential, concurrent and under the real runner with -count and parallel subtests; after every phase each file's bytes are compared with the formatted value (kr/pretty, or valid JSON of the same value identical to what MatchJSON stores), every call's outcome and the files it wrote with the slot model; non-trivial = distinct value stored"
	c.assume = []string{"no two tests share a standalone file name", "the formatted value of MatchStandaloneSnapshot is kr/pretty's Sprint"}
	c.timed("bytes", c.c19bytes)
	c.timed("many", c.c19many)
	c.rule += scaleRule
	c.timed("scale", func() { c.scale("failing sjson|standalone", "") })
	c.timed("json", c.c19json)
	c.timed("pool", c.c19pool)
	c.need(2000, "files_compared", "calls_judged")
	c.need(200, "updated", "cr_values", "passed", "failed", "json_files")
	c.need(20, "preexisting", "pool_calls")
}

// saValue is a value for MatchStandaloneSnapshot.
func saValue(r *core.Rng, ids []string) PCall {
	op := core.Op{K: "ssnap"}
	var s string
	switch r.Intn(10) {
	case 0: // arbitrary bytes
		b := make([]byte, core.Pick(r, []int{0, 1, 2, 3, 10, 100, 4096, 5000}))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		s = string(b)
	case 1: // arbitrary over the separators
		for k := r.Intn(12); k > 0; k-- {
			s += core.Pick(r, []string{"\r", "\n", "\r\n", "a", "\x00", " ", "\u0085", "\u2028", "---", "\xff", "%d", "\x1b[0m", "\ufeff"})
		}
	case 2:
		v := core.Pick(r, []core.Val{goVal(r), {T: "b", B: []byte("x\r\n\xff")}, {T: "nstr", B: []byte("n\r")}, {T: "pstr", B: []byte("p\n")}, {T: "nilptr"}, {T: "nilmap"}, {T: "structs", B: []byte("1")}, {T: "floats"}, {T: "mint", B: []byte("q")}, {T: "msany", B: []byte("[1]")}})
		op.V = []core.Val{v}
		op.Fmt = true
		return PCall{Op: op, Key: v.T + ":" + string(v.B)}
	case 3:
		if r.Chance(0.1) {
			s = strings.Repeat(core.Pick(r, []string{"0123456789\r\n", "x", "line é\n", "\n"}), r.Range(10000, 60000))
			break
		}
		fallthrough
	default:
		s = core.HostileBytes(r, ids)
	}
	op.V = []core.Val{core.S(s)}
	return PCall{Op: op, Key: core.Fmt(s), Exact: true}
}

func sjValue(r *core.Rng) PCall {
	d := core.GenJSON(r, 3, true)
	v := jsonVal(r, d)
	return PCall{Op: core.Op{K: "sjson", V: []core.Val{v}}, Key: jsonKey(d, v)}
}

func saCfgs(r *core.Rng) []core.Cfg {
	var out []core.Cfg
	for i := r.Range(1, 4); i > 0; i-- {
		k := core.Cfg{Dir: ptr(core.Pick(r, []string{"$CASE/d", "$CASE/d", "$CASE", "$CASE/100%/x"}))}
		if r.Chance(0.5) {
			k.File = ptr(core.Pick(r, []string{"page", "a_1", "x.y", "50%", "%d", "%%", "é", "page_10", "my file"}))
		}
		if r.Chance(0.6) {
			k.Ext = ptr(core.Pick(r, []string{".html", ".json", ".txt", "", ".%d", "bin", ".tar.gz"}))
		}
		if r.Chance(0.3) {
			k.Update = ptr(r.Chance(0.6))
		}
		if r.Chance(0.3) {
			k.JSON = (&jGen{}).opts(r)
		}
		out = append(out, k)
	}
	return out
}

func (c *Ctx) genSA(r *core.Rng, maxCalls int) *saHist {
	h := &saHist{cs: c.NewCase(), tb: &Table{}, fmts: map[string]string{}}
	h.cs.Cfgs = saCfgs(r)
	h.m = newModel(h.cs.Dir, h.cs.Cfgs, bulkBase)
	owner := map[string]string{}
	all := core.TestNames(r, r.Range(1, 3))
	for _, t := range all {
		var slots []PCall
		for n := r.Range(1, maxCalls); n > 0; n-- {
			var pc PCall
			if r.Chance(0.75) {
				pc = saValue(r, core.SlotIDs(all, 2))
			} else {
				pc = sjValue(r)
			}
			pc.Op.C = r.Range(0, len(h.cs.Cfgs)-1)
			p, _ := h.m.Path(&pc.Op, t)
			// by the name of the first file: patterns of two tests may meet there
			if o, ok := owner[p]; ok && o != t {
				continue
			}
			owner[p] = t
			slots = append(slots, pc)
		}
		if len(slots) > 0 {
			h.tests = append(h.tests, t)
			h.slots = append(h.slots, slots)
		}
	}
	return h
}

// saChange gives another value for the same slot.
func saChange(r *core.Rng, pc PCall, ids []string) PCall {
	var n PCall
	switch {
	case pc.Op.K == "sjson":
		n = sjValue(r)
	case pc.Exact && r.Chance(0.6):
		s := string(pc.Op.V[0].B)
		if len(s) > 10000 {
			s = s[:len(s)/2]
		} else {
			switch r.Intn(6) {
			case 0:
				s = strings.ReplaceAll(s, "\n", "\r\n")
			case 1:
				s = strings.ReplaceAll(s, "\r", "")
			case 2:
				s += core.Pick(r, []string{"\n", "\r", "\r\n", " ", "\x00"})
			case 3:
				s = strings.TrimRight(s, "\r\n ")
			default:
				s = mutateRaw(r, s)
			}
		}
		n = PCall{Op: core.Op{K: "ssnap", V: []core.Val{core.S(s)}}, Key: core.Fmt(s), Exact: true}
	default:
		n = saValue(r, ids)
	}
	n.Op.C = pc.Op.C
	return n
}

func mutateRaw(r *core.Rng, s string) string {
	p := r.Intn(len(s) + 1)
	switch r.Intn(4) {
	case 0:
		return s[:p] + string([]byte{byte(r.Intn(256))}) + s[p:]
	case 1:
		return s[:p]
	case 2:
		return s[p:]
	}
	if p < len(s) {
		return s[:p] + s[p+1:]
	}
	return s + "\n"
}

// judge feeds the recorded calls of the bulk steps to the model and compares
// all files with it.
func (h *saHist) judge(c *Ctx, rr *Res, mode Mode) []string {
	var bad []string
	for i := range rr.Calls {
		k := &rr.Calls[i]
		if k.Fmt != nil {
			if pc := h.tb.Get(k); pc != nil {
				h.fmts[pc.Key] = string(k.Fmt)
			}
		}
	}
	for si, st := range rr.Case.Steps {
		for ei, ex := range st {
			cnt := map[string]int{}
			for oi := range ex.Ops {
				k := rr.Call(si, ei, oi)
				pc := h.tb.Get(k)
				path, _ := h.m.Path(&pc.Op, ex.Test)
				want := h.m.Call(cnt, mode, ex.Test, pc)
				c.Count("calls_judged", 1)
				c.Count(want, 1)
				if got := outcome(k); got != want {
					bad = append(bad, fmt.Sprintf("%s call %d of %s is %s, expected %s: %s", k.K, oi+1, ex.Test, got, want, callText(k)))
				}
				if rr.Case.Watch {
					bad = append(bad, wroteOnly(k, want, saPath(path, cnt[path]))...)
				}
			}
		}
	}
	return append(bad, saExact(c, h.m, h.fmts, rr.Case.Dir)...)
}

// wroteOnly: the call changed its file if it created or updated it, and
// nothing else (but directories leading to it).
func wroteOnly(k *core.CallRes, want, file string) []string {
	var bad []string
	did := false
	for _, w := range k.Wrote {
		p := w[:strings.LastIndex(w, ": ")]
		switch {
		case p == file:
			did = true
		case strings.HasPrefix(file, p+"/"):
		default:
			bad = append(bad, fmt.Sprintf("%s with tag %s touched %s", k.K, k.Tag, w))
		}
	}
	if did != (want == "added" || want == "updated") {
		bad = append(bad, fmt.Sprintf("%s with tag %s (%s) wrote %v", k.K, k.Tag, want, k.Wrote))
	}
	return bad
}

// saExact compares the bytes of every standalone file with the value the
// model holds for it.
func saExact(c *Ctx, m *Model, fmts map[string]string, dir string) []string {
	t := core.Observe(dir)
	var bad []string
	seen := map[string]bool{}
	for f, e := range m.SA {
		rel, _ := filepath.Rel(dir, f)
		seen[rel] = true
		st, ok := t[rel]
		if !ok || st.Dir {
			bad = append(bad, "missing file "+rel)
			continue
		}
		c.Count("files_compared", 1)
		got := string(st.Data)
		if e.Call.Op.K == "sjson" && !e.Call.Exact {
			c.Count("json_files", 1)
			g, w := parseJSON(got), parseJSON(string(e.Call.Op.V[0].B))
			switch {
			case !json.Valid(st.Data) || g == nil:
				bad = append(bad, fmt.Sprintf("%s is not valid JSON: %q", rel, clipS(got, 200)))
			case g.Key() != w.Key():
				bad = append(bad, fmt.Sprintf("%s holds %q for the document %q", rel, clipS(got, 200), clipS(string(e.Call.Op.V[0].B), 200)))
			case strings.TrimSpace(got) != got:
				bad = append(bad, fmt.Sprintf("%s has white space around the document: %q", rel, clipS(got, 200)))
			}
			c.Eval("j:" + got)
			continue
		}
		want := e.Call.Key
		if !e.Call.Exact {
			want, ok = fmts[want]
			if !ok {
				c.Inconclusive("no formatted text recorded for %s", e.Call.Key)
			}
		}
		if strings.Contains(want, "\r") {
			c.Count("cr_values", 1)
		}
		c.Eval("v:" + want)
		if got != want {
			p := 0
			for p < len(got) && p < len(want) && got[p] == want[p] {
				p++
			}
			bad = append(bad, fmt.Sprintf("%s (%d bytes) differs from the formatted value (%d bytes) at byte %d: %q instead of %q", rel, len(got), len(want), p, clipS(got[p:], 60), clipS(want[p:], 60)))
		}
	}
	for n, st := range t {
		if !st.Dir && !seen[n] {
			bad = append(bad, "unexpected file "+n)
		}
	}
	sort.Strings(bad)
	return bad
}

func (c *Ctx) c19bytes() {
	r := c.Rng("bytes")
	n := c.N(500, 6000)
	var hs []*saHist
	for i := 0; i < n; i++ {
		h := c.genSA(r, core.Pick(r, []int{2, 5, 8, 13}))
		if len(h.tests) == 0 {
			continue
		}
		if i%4 == 0 {
			// files that are already there, put by hand or another tool
			for ti, t := range h.tests {
				cnt := map[string]int{}
				for _, pc := range h.slots[ti] {
					p, _ := h.m.Path(&pc.Op, t)
					cnt[p]++
					if !pc.Exact || !r.Chance(0.5) {
						continue
					}
					f := saPath(p, cnt[p])
					s := pc.Key
					if r.Chance(0.6) {
						s = core.Pick(r, []string{s + "\n", s + "\r\n", strings.ReplaceAll(s, "\n", "\r\n"), strings.TrimSuffix(s, "\n"), "\ufeff" + s, "\n[" + t + " - 1]\n" + s + "\n---\n", s + s + s, "", mutateRaw(r, s)})
					}
					PutFile(f, []byte(s))
					chownUp(f, h.cs.Dir)
					h.m.SA[f] = &MEntry{Test: t, K: cnt[p], Call: PCall{Op: pc.Op, Key: s, Exact: true}}
					h.m.SAOf[f] = p
					c.Count("preexisting", 1)
				}
			}
		}
		hs = append(hs, h)
	}
	phases := []struct {
		mode  Mode
		what  string
		watch bool
	}{
		{Mode{}, "create", true},
		{Mode{CI: "CI=true"}, "same", true},
		{Mode{}, "mixed", false},
		{Upd("true"), "mixed", true},
		{Upd("true"), "mixed", false},
		{Upd("clean"), "mixed", true},
		{Mode{CI: "CI=true"}, "mixed", false},
		{Upd("false"), "grow", true},
		{Mode{CI: "CI=true", Upd: "true", HasUpd: true}, "current", true},
	}
	for pi, ph := range phases {
		var cs []core.Case
		var at []int
		for hi, h := range hs {
			if h.dead {
				continue
			}
			k := h.cs
			k.ID = fmt.Sprintf("%s.%d", h.cs.ID, pi)
			k.Watch = ph.watch && hi%3 == 0
			k.Steps = h.steps(c, r, ph.what, !k.Watch && r.Chance(0.5))
			cs = append(cs, k)
			at = append(at, hi)
		}
		for x, rr := range c.RunCases(ph.mode, cs, 0) {
			h := hs[at[x]]
			if c.Crashed(rr, ph.mode) {
				h.dead = true
				continue
			}
			h.m.NewProcess()
			if bad := h.judge(c, rr, ph.mode); len(bad) > 0 {
				c.Violate(replay(rr, ph.mode), "standalone (phase %d %s, mode %s): %s", pi, ph.what, ph.mode, clipS(strings.Join(bad, "; "), 2000))
				h.dead = true
			} else if pi == 3 && x < 2 {
				c.Sample(map[string]any{"mode": ph.mode.String(), "case": rr.Case})
			}
		}
	}
	for _, h := range hs {
		os.RemoveAll(h.cs.Dir)
	}
}

// chownUp gives the directories between f and top to the worker's user.
func chownUp(f, top string) {
	for d := filepath.Dir(f); strings.HasPrefix(d, top); d = filepath.Dir(d) {
		os.Chown(d, nobody, nobody)
	}
}

// steps makes the executions of one phase: every test once or several times,
// with as many calls as there are slots, fewer, or more.
func (h *saHist) steps(c *Ctx, r *core.Rng, what string, conc bool) [][]core.Exec {
	var out [][]core.Exec
	var one []core.Exec
	for ti, t := range h.tests {
		reps := 1
		if r.Chance(0.4) {
			reps = r.Range(2, 3)
		}
		if what == "grow" && len(h.slots[ti]) < 40 {
			for k := r.Intn(4); k > 0; k-- {
				base := core.Pick(r, h.slots[ti])
				h.slots[ti] = append(h.slots[ti], saChange(r, base, nil))
			}
		}
		for rep := 0; rep < reps; rep++ {
			ex := core.Exec{Test: t}
			n := len(h.slots[ti])
			if rep > 0 && r.Chance(0.4) {
				n = r.Range(1, n)
			}
			cnt := map[string]int{}
			for _, pc := range h.slots[ti][:n] {
				p, _ := h.m.Path(&pc.Op, t)
				cnt[p]++
				switch what {
				case "mixed":
					if r.Chance(0.5) {
						pc = saChange(r, pc, nil)
					}
				case "current": // what the file holds now
					if e := h.m.SA[saPath(p, cnt[p])]; e != nil && e.Call.Op.K == pc.Op.K && len(e.Call.Op.V) > 0 && (!e.Call.Exact || core.Fmt(string(e.Call.Op.V[0].B)) == e.Call.Key) {
						c2 := e.Call
						c2.Op.C = pc.Op.C
						pc = c2
					}
				}
				if r.Chance(0.05) {
					pc.Op.Depth = r.Range(1, 3)
				}
				if pc.Op.K == "sjson" && what != "same" && what != "current" && r.Chance(0.08) {
					// fails; the calls after it keep their files
					pc = PCall{Op: core.Op{K: "sjson", C: pc.Op.C, V: []core.Val{core.S(core.Pick(r, []string{"{bad", "", "[1,]"}))}}, Key: "bad", Bad: true}
				}
				ex.Ops = append(ex.Ops, h.tb.Op(pc))
			}
			if conc && rep == 0 {
				one = append(one, ex)
			} else {
				out = append(out, []core.Exec{ex})
			}
		}
	}
	if len(one) > 0 {
		out = append([][]core.Exec{one}, out...)
	}
	return out
}

// c19many: tests with more than ten (and a hundred) calls.
func (c *Ctx) c19many() {
	r := c.Rng("many")
	n := c.N(16, 80)
	var hs []*saHist
	for i := 0; i < n; i++ {
		h := c.genSA(r, 1)
		t := core.TestName(r)
		h.tests = []string{t}
		var slots []PCall
		for k := core.Pick(r, []int{9, 10, 11, 25, 101, 140}); k > 0; k-- {
			pc := saValue(r, nil)
			for len(pc.Key) > 5000 {
				pc = saValue(r, nil)
			}
			pc.Op.C = 0
			slots = append(slots, pc)
		}
		h.slots = [][]PCall{slots}
		hs = append(hs, h)
	}
	for pi, ph := range []struct {
		mode Mode
		what string
	}{{Mode{}, "create"}, {Mode{CI: "GITHUB_ACTIONS=true"}, "same"}, {Upd("true"), "mixed"}, {Mode{}, "current"}} {
		var cs []core.Case
		var at []*saHist
		for _, h := range hs {
			if h.dead {
				continue
			}
			k := h.cs
			k.ID = fmt.Sprintf("%s.%d", h.cs.ID, pi)
			k.Steps = h.steps(c, r, ph.what, false)
			cs = append(cs, k)
			at = append(at, h)
		}
		for x, rr := range c.RunCases(ph.mode, cs, 2) {
			h := at[x]
			if c.Crashed(rr, ph.mode) {
				h.dead = true
				continue
			}
			h.m.NewProcess()
			if bad := h.judge(c, rr, ph.mode); len(bad) > 0 {
				c.Violate(map[string]any{"mode": ph.mode.String(), "test": h.tests, "cfgs": h.cs.Cfgs, "complaints": bad}, "many standalone calls (mode %s): %s", ph.mode, clipS(strings.Join(bad, "; "), 2000))
				h.dead = true
			}
			c.Count("many_calls", len(rr.Calls))
		}
	}
	for _, h := range hs {
		os.RemoveAll(h.cs.Dir)
	}
}

// c19json: the standalone file holds exactly the text MatchJSON stores.
func (c *Ctx) c19json() {
	r := c.Rng("json")
	var cs []core.Case
	for i := c.N(400, 5000); i > 0; i-- {
		k := c.NewCase()
		k.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}}
		if r.Chance(0.6) {
			k.Cfgs[0].JSON = (&jGen{}).opts(r)
		}
		if r.Chance(0.3) {
			k.Cfgs[0].Ext = ptr(core.Pick(r, []string{".json", ".txt"}))
		}
		ex := core.Exec{Test: "TestJ"}
		for j := r.Range(1, 6); j > 0; j-- {
			d := jDoc(r)
			v := jsonVal(r, d)
			var ms []core.Matcher
			if d.K == 'o' && len(d.Keys) > 0 && r.Chance(0.4) && isPlain(d.Keys[0]) {
				ms = []core.Matcher{{K: "any", Paths: []string{d.Keys[0]}}}
			}
			for _, kind := range []string{"json", "sjson"} {
				ex.Ops = append(ex.Ops, core.Op{K: kind, V: []core.Val{v}, M: ms})
			}
		}
		k.Steps = [][]core.Exec{{ex}}
		cs = append(cs, k)
	}
	for _, rr := range c.RunCases(Mode{}, cs, 0) {
		if c.Crashed(rr, Mode{}) {
			continue
		}
		texts, bad := storedJSON(rr)
		if k := allCalls(rr, "added"); k != nil {
			bad = append(bad, callText(k))
		}
		for i := 0; i+1 < len(texts); i += 2 {
			c.Count("json_pairs", 1)
			c.Eval("j:" + texts[i])
			if texts[i] != texts[i+1] || !json.Valid([]byte(texts[i+1])) || !bytes.Equal(bytes.TrimSpace([]byte(texts[i+1])), []byte(texts[i+1])) {
				bad = append(bad, fmt.Sprintf("the standalone file of %s is %q, MatchJSON stores %q", valText(rr.Case, i), clipS(texts[i+1], 300), clipS(texts[i], 300)))
			}
		}
		if len(bad) > 0 {
			c.Violate(replay(rr, Mode{}), "%s", clipS(strings.Join(bad, "; "), 2000))
		}
	}
	for _, k := range cs {
		os.RemoveAll(k.Dir)
	}
}

// isPlain: the key needs no quoting in a path.
func isPlain(k string) bool {
	if k == "" {
		return false
	}
	for _, c := range k {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_') {
			return false
		}
	}
	return true
}

// c19pool: repeated executions under the real runner.
func (c *Ctx) c19pool() {
	r := c.Rng("pool")
	n := c.N(40, 500)
	type hist struct {
		m    *Model
		tb   *Table
		p    PCase
		fmts map[string]string
	}
	var hs []*hist
	for i := 0; i < n; i++ {
		h := &hist{tb: &Table{}, fmts: map[string]string{}}
		cs := c.NewCase()
		cs.Cfgs = saCfgs(r)
		g := &treeGen{r: r, tb: h.tb, cfgs: cs.Cfgs, flat: map[string]string{}, kinds: []string{"ssnap", "ssnap", "sjson"}, iters: core.Pick(r, []int{1, 2, 3, 5}), par: r.Chance(0.6), depth: 2}
		var nodes []core.Node
		tops := topNames()
		for _, x := range r.Perm(len(tops))[:r.Range(1, 4)] {
			nodes = append(nodes, g.node(tops[x], "", 0))
		}
		h.m = newModel(cs.Dir, cs.Cfgs, baseOf)
		h.p = PCase{Case: cs, Nodes: nodes, Mode: Mode{Args: []string{fmt.Sprintf("-test.count=%d", g.iters), fmt.Sprintf("-test.parallel=%d", core.Pick(r, []int{1, 4, 8}))}}}
		if r.Chance(0.2) {
			h.p.Mode.Args = append(h.p.Mode.Args, "-test.v")
		}
		for i := range h.tb.Calls {
			h.tb.Calls[i].Op.Fmt = true
		}
		fmtAll(nodes)
		hs = append(hs, h)
	}
	for _, base := range []Mode{{}, Upd("true"), {CI: "CI=true"}} {
		var ps []PCase
		for _, h := range hs {
			p := h.p
			p.Mode.CI, p.Mode.Upd, p.Mode.HasUpd = base.CI, base.Upd, base.HasUpd
			ps = append(ps, p)
		}
		for i, pr := range c.RunPool(ps) {
			h := hs[i]
			if h.m == nil || c.PCrashed(pr) {
				h.m = nil
				continue
			}
			c.Count("pool_calls", len(pr.Calls))
			h.m.NewProcess()
			for j := range pr.Calls {
				k := &pr.Calls[j]
				if pc := h.tb.Get(k); pc != nil && k.Fmt != nil {
					h.fmts[pc.Key] = string(k.Fmt)
				}
			}
			bad := c.poolModel(h.m, h.tb, pr)
			multi := false
			for range h.m.Multi {
				multi = true // treeGen falls back to MatchSnapshot where names would collide
			}
			if !multi {
				bad = append(bad, saExact(c, h.m, h.fmts, h.p.Case.Dir)...)
			} else {
				bad = append(bad, h.m.CheckFiles(h.p.Case.Dir, core.Observe(h.p.Case.Dir), nil)...)
			}
			if len(bad) > 0 {
				c.Violate(pr.replay(), "standalone under the real runner (mode %s): %s", pr.P.Mode, clipS(strings.Join(bad, "; "), 2000))
				h.m = nil
			}
		}
	}
	for _, h := range hs {
		os.RemoveAll(h.p.Case.Dir)
	}
}

func fmtAll(ns []core.Node) {
	var ops func([]core.Op)
	ops = func(os []core.Op) {
		for i := range os {
			if os[i].K == "ssnap" {
				os[i].Fmt = true
			}
			if os[i].Node != nil {
				ops(os[i].Node.Ops)
			}
			ops(os[i].Ops)
		}
	}
	for i := range ns {
		ops(ns[i].Ops)
	}
}
