package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"verifh/core"

	y3 "gopkg.in/yaml.v3"
)

func init() { checks["C17"] = checkC17 }

func checkC17(c *Ctx) {
	c.rule = "tests of 4-9 matcher calls (JSON, standalone JSON, YAML; plain and configured), each with a chain of 1-4 matchers over 1-3 paths mixing existing and missing paths (also under ErrOnMissingPath(false)), right and wrong types, callbacks that fail, paths that are no path expressions, chains used again on a close document (the same matcher objects in every second case); run in all modes (create, UPDATE_SNAPS=true/always, Update option, CI) and again with other documents and other failing calls on top of what was stored. For each call: which matchers fail is computed on a tree; a failing call must give one error naming each failing matcher with its path and write nothing; the others must be added, updated, passed or failed as the mode says, with the modelled document in their own slot; non-trivial = distinct document x chain" + largeRule
	c.assume = []string{"a matcher after a failing one is judged only where the failing one's own output does not matter", "YAML paths lead to values read alike by goccy/go-yaml and yaml.v3, not through anchors, aliases or tags", "no duplicate member names, no empty member name in a path"}
	c.timed("run", c.c17run)
	c.timed("malformed", c.c17malformed)
	c.need(300, "malformed_paths")
	c.need(15, "large_calls")
	c.need(1000, "json_failing_calls", "yaml_failing_calls", "sjson_failing_calls", "entries_kept", "slots_after_failing", "failing_paths_named")
	c.need(300, "why_missing", "why_wrong type", "why_callback", "several_failing", "ignored_missing", "updated_calls", "passed_calls", "ci_failing_calls", "chains_used_again")
}

// fOp is a call with what the model makes of it.
type fOp struct {
	kind  string
	cfg   int
	text  string
	specs []mSpec
	must  map[[2]string]int // matcher and path -> how often it fails for sure
	may   map[[2]string]bool
	why   map[string]bool
	ign   [][2]string // missing paths that are ignored
	jwant *core.JVal
	jl    map[*core.JVal]bool
	ywant []*y3.Node
	yl    map[*y3.Node]bool
	form  string
}

func (o *fOp) fails() bool { return len(o.must) > 0 }

func (o *fOp) String() string {
	return fmt.Sprintf("%s(%s %q) with %s", o.kind, o.form, clipS(o.text, 500), specText(o.specs))
}

func (o *fOp) setErrs(a, b []failing) {
	o.must, o.may, o.why = map[[2]string]int{}, map[[2]string]bool{}, map[string]bool{}
	na, nb := map[[2]string]int{}, map[[2]string]int{}
	for _, f := range a {
		na[[2]string{f.Name, f.Path}]++
		o.why[f.Why] = true
	}
	for _, f := range b {
		nb[[2]string{f.Name, f.Path}]++
	}
	for k, n := range na {
		o.may[k] = true
		if n = min(n, nb[k]); n > 0 {
			o.must[k] = n
		}
	}
	for k := range nb {
		o.may[k] = true
	}
}

// newFOp makes a call; fail says whether a matcher may fail.
func newFOp(r *core.Rng, kind string, fail bool) *fOp {
	g := mGen{ignore: 0.2, maxM: 4, maxPaths: 3}
	if fail {
		g.missing, g.wrong, g.cberr = 0.2, 0.2, 0.25
	}
	for {
		o := &fOp{kind: kind, form: core.Pick(r, []string{"s", "b"})}
		if kind == "yaml" {
			o.text = yDoc(r, r.Range(1, 3), 0.15)
			if ySlash(o.text) {
				continue
			}
			if o.specs = g.ySpecs(r, o.text); len(o.specs) == 0 {
				continue
			}
			o.ywant, _ = parseYAML([]byte(o.text))
			res := yApply(o.ywant, o.specs)
			d2, _ := parseYAML([]byte(o.text))
			res2 := yApplyX(d2, o.specs, false)
			if res.unsure || !res.direct || res2.unsure || !res2.direct {
				continue
			}
			o.yl = res.loose
			o.setErrs(res.errs, res2.errs)
			d3, _ := parseYAML([]byte(o.text))
			o.ignored(func(p []any) bool {
				for _, d := range d3 {
					if n, _ := yResolve(d, p); len(n) > 0 {
						return true
					}
				}
				return false
			})
		} else {
			d := jDoc(r)
			if len(d.Text(nil, false, false, false)) > 3000 {
				continue
			}
			o.specs = g.jSpecs(r, d.Clone())
			o.jwant = d.Clone()
			var e1 []failing
			e1, o.jl = jApply(o.jwant, o.specs)
			e2, _ := jApplyX(d.Clone(), o.specs, false)
			o.setErrs(e1, e2)
			o.text = d.Text(r, r.Chance(0.3), r.Chance(0.3), false)
			o.ignored(func(p []any) bool { return len(jResolve(d, p)) > 0 })
		}
		if fail != o.fails() || !fail && len(o.may) > 0 {
			continue
		}
		return o
	}
}

// again is a call with the same chain on a document close to that of o; nil if
// none was found.
func (o *fOp) again(r *core.Rng) *fOp {
	for _, s := range o.specs {
		if s.m.CB == "id" || s.m.CB == "rettype" {
			return nil
		}
	}
	for try := 0; try < 12; try++ {
		n := &fOp{kind: o.kind, form: o.form, specs: o.specs}
		if o.kind == "yaml" {
			ls := strings.SplitAfter(o.text, "\n")
			i := r.Intn(len(ls))
			if r.Chance(0.3) {
				ls[i] = strings.Replace(ls[i], ": ", "x: ", 1)
			} else {
				ls = append(ls[:i:i], ls[i+1:]...)
			}
			n.text = strings.Join(ls, "")
			if v, ok := yVerdict(n.text); !ok || v != 1 || n.text == o.text || ySlash(n.text) || strings.TrimSpace(n.text) == "" {
				continue
			}
			n.ywant, _ = parseYAML([]byte(n.text))
			if !yReadAlike(n.ywant, []byte(n.text)) || !yShapeAlike(n.ywant, []byte(n.text)) {
				continue
			}
			res := yApply(n.ywant, n.specs)
			d2, _ := parseYAML([]byte(n.text))
			res2 := yApplyX(d2, n.specs, false)
			if res.unsure || !res.direct || res2.unsure || !res2.direct {
				continue
			}
			n.yl = res.loose
			n.setErrs(res.errs, res2.errs)
			d3, _ := parseYAML([]byte(n.text))
			n.ignored(func(p []any) bool {
				for _, d := range d3 {
					if n, _ := yResolve(d, p); len(n) > 0 {
						return true
					}
				}
				return false
			})
		} else {
			d := parseJSON(o.text)
			for k := r.Range(1, 3); k > 0; k-- {
				s := core.Pick(r, o.specs)
				p := core.Pick(r, s.paths)
				if r.Chance(0.6) && len(p) > 0 {
					jDrop(r, d, p)
				} else {
					mutateJSON(r, d)
				}
			}
			n.text = d.Text(nil, false, false, false)
			if _, ok := jGo(d); !ok || hasDup(d) {
				continue
			}
			n.jwant = d.Clone()
			var e1 []failing
			e1, n.jl = jApply(n.jwant, n.specs)
			e2, _ := jApplyX(d.Clone(), n.specs, false)
			n.setErrs(e1, e2)
			n.ignored(func(p []any) bool { return len(jResolve(d, p)) > 0 })
		}
		if !n.fails() && len(n.may) > 0 {
			continue
		}
		return n
	}
	return nil
}

// jDrop takes something on the path out of the document or gives it another
// value.
func jDrop(r *core.Rng, d *core.JVal, p []any) {
	p = p[:r.Range(1, len(p))]
	for _, x := range jResolve(d, p[:len(p)-1]) {
		k, ok := p[len(p)-1].(string)
		if !ok || x.K != 'o' {
			continue
		}
		for i := range x.Keys {
			if x.Keys[i] == k {
				if r.Chance(0.3) {
					*x.Elem[i] = *core.Pick(r, []*core.JVal{{K: 't'}, {K: 'z'}, {K: 's', S: "another"}, {K: 'a'}, {K: 'o'}})
				} else {
					x.Keys = append(x.Keys[:i:i], x.Keys[i+1:]...)
					x.Elem = append(x.Elem[:i:i], x.Elem[i+1:]...)
				}
				break
			}
		}
	}
}

// largeFOp is a call with a large document and a long chain.
func (c *Ctx) largeFOp(r *core.Rng, kind string, i int, fail bool) *fOp {
	o := &fOp{kind: kind, form: core.Pick(r, []string{"s", "b"})}
	c.Count("large_calls", 1)
	if kind == "yaml" {
		o.text = yLarge(c, i%yShapes, "cover", "rest")
		o.specs = yLargeSpecs(c, r, i%yShapes, fail)
		o.ywant, _ = parseYAML([]byte(o.text))
		res := yApply(o.ywant, o.specs)
		d2, _ := parseYAML([]byte(o.text))
		res2 := yApplyX(d2, o.specs, false)
		o.yl = res.loose
		o.setErrs(res.errs, res2.errs)
		return o
	}
	d := jLarge(c, i%jShapes, "cover", "rest")
	o.specs = jLargeSpecs(c, r, i%jShapes, fail)
	o.jwant = d.Clone()
	var e1 []failing
	e1, o.jl = jApply(o.jwant, o.specs)
	e2, _ := jApplyX(d.Clone(), o.specs, false)
	o.setErrs(e1, e2)
	o.text = d.Text(r, r.Chance(0.3), r.Chance(0.3), false)
	return o
}

// ignored collects the missing paths that no matcher of the chain reports.
func (o *fOp) ignored(exists func([]any) bool) {
	for _, s := range o.specs {
		if s.m.Miss == nil || *s.m.Miss {
			continue
		}
		for i, p := range s.paths {
			k := [2]string{mName[s.m.K], s.m.Paths[i]}
			if !exists(p) && !o.may[k] {
				o.ign = append(o.ign, k)
			}
		}
	}
}

// named counts how often a text names a matcher together with a path.
func named(text, name, path string) int {
	n := 0
	for _, p := range []string{path, strings.Trim(strconv.Quote(path), `"`)} {
		for at := 0; ; {
			i := strings.Index(text[at:], p)
			if i < 0 {
				break
			}
			i += at
			at = i + 1
			in := func(b byte) bool {
				return b == '.' || b == '_' || b == '[' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= 0x80
			}
			if i > 0 && in(text[i-1]) || i+len(p) < len(text) && in(text[i+len(p)]) {
				continue
			}
			// the matcher named last before the path
			before := text[max(0, i-40):i]
			last := strings.LastIndex(before, name)
			for _, o := range mName {
				if strings.LastIndex(before, o) > last {
					last = -1
				}
			}
			if last >= 0 {
				n++
			}
		}
		if n > 0 {
			break
		}
	}
	return n
}

// reported judges the failure of a call.
func (o *fOp) reported(k *core.CallRes) string {
	if out := outcome(k); out != "failed" {
		return "failing matchers, but: " + out
	}
	msg := ansi.ReplaceAllString(string(k.Errs[0]), "")
	var miss []string
	for f, n := range o.must {
		if named(msg, f[0], f[1]) < n {
			miss = append(miss, fmt.Sprintf("%s(%q)", f[0], f[1]))
		}
	}
	if len(miss) > 0 {
		sort.Strings(miss)
		return fmt.Sprintf("the failure does not name %s: %q", strings.Join(miss, ", "), clipS(msg, 600))
	}
	for _, f := range o.ign {
		if named(msg, f[0], f[1]) > 0 {
			return fmt.Sprintf("an ignored missing path %s(%q) is reported: %q", f[0], f[1], clipS(msg, 600))
		}
	}
	return ""
}

// holds says how a stored text differs from what the call stores.
func (o *fOp) holds(s *string) string {
	if s == nil {
		return "not found"
	}
	if o.kind == "yaml" {
		got, err := parseYAML([]byte(yUnescape(*s)))
		if err != nil {
			return "not YAML: " + err.Error()
		}
		return yCmp(o.ywant, got, o.yl)
	}
	got := parseJSON(*s)
	if got == nil {
		return fmt.Sprintf("not JSON: %q", clipS(*s, 300))
	}
	return jCmp(o.jwant, got, o.jl, false, false, "")
}

func (c *Ctx) c17run() {
	r := c.Rng("run")
	modes := []Mode{{}, {}, Upd("true"), Upd("always"), {CI: "CI=true"}, {Color: true}}
	type fcase struct {
		cs     core.Case
		ops    [2][]*fOp
		stored []*string
		same   []bool
	}
	byMode := make([][]*fcase, len(modes))
	for n, i := c.N(2400, 30000), 0; i < n; i++ {
		f := &fcase{cs: c.NewCase()}
		f.cs.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}, {Dir: ptr("$CASE/d"), File: ptr("other")}}
		switch r.Intn(5) {
		case 0:
			f.cs.Cfgs[0].Update = ptr(true)
		case 1:
			f.cs.Cfgs[1].Update = ptr(false)
		}
		f.cs.Watch = true
		for k := r.Range(4, 9); k > 0; k-- {
			kind := core.Pick(r, []string{"json", "sjson", "yaml"})
			cfg := 0
			if kind == "yaml" && r.Chance(0.2) || kind == "json" && r.Chance(0.2) {
				cfg = 1
			}
			o := newFOp(r, kind, r.Chance(0.45))
			if i < 24 && k%5 == 0 {
				o = c.largeFOp(r, kind, i, r.Chance(0.6))
			}
			if j := len(f.ops[0]); j > 0 && r.Chance(0.35) {
				if a := core.Pick(r, f.ops[0]).again(r); a != nil && len(a.text) < 5000 {
					o = a
					if kind = a.kind; kind == "sjson" {
						cfg = 0
					}
					c.Count("chains_used_again", 1)
				}
			}
			o.cfg = cfg
			f.ops[0] = append(f.ops[0], o)
			// the second run
			o2 := o
			if same := r.Chance(0.35); !same {
				o2 = newFOp(r, kind, r.Chance(0.45))
				if r.Chance(0.3) && len(o.text) < 5000 {
					if a := o.again(r); a != nil {
						o2 = a
						c.Count("chains_used_again", 1)
					}
				}
				o2.cfg = cfg
			}
			f.ops[1] = append(f.ops[1], o2)
			f.same = append(f.same, o2 == o)
		}
		m := r.Intn(len(modes))
		byMode[m] = append(byMode[m], f)
	}
	build := func(f *fcase, ops []*fOp) {
		ex := core.Exec{Test: "TestF"}
		for _, o := range ops {
			ex.Ops = append(ex.Ops, core.Op{K: o.kind, C: o.cfg, V: []core.Val{{T: o.form, B: []byte(o.text)}}, M: specMs(o.specs)})
		}
		f.cs.Steps = [][]core.Exec{{ex}}
	}
	judge := func(f *fcase, rr *Res, m Mode, ops []*fOp, first bool) {
		var bad []string
		stored := c.storedTexts(rr)
		failedBefore := false
		for i, o := range ops {
			k := rr.Call(0, 0, i)
			c.Eval(o.text + specText(o.specs))
			say := func(s string) { bad = append(bad, fmt.Sprintf("call %d %s: %s", i+1, o, s)) }
			if k == nil {
				say("not made")
				continue
			}
			var prev *string
			if !first {
				prev = f.stored[i]
			}
			create, update := perms(m, f.cs.Cfgs[o.cfg])
			kept := func() bool {
				return prev == nil && stored[i] == nil || prev != nil && stored[i] != nil && *prev == *stored[i]
			}
			if len(k.Wrote) > 0 && outcome(k) != "added" && outcome(k) != "updated" {
				say("wrote " + strings.Join(k.Wrote, ", "))
			}
			if o.fails() {
				if s := o.reported(k); s != "" {
					say(s)
				}
				if !kept() {
					say(fmt.Sprintf("changed its entry from %s to %s", ptrText(prev), ptrText(stored[i])))
				}
				c.Count(o.kind+"_failing_calls", 1)
				for w := range o.why {
					c.Count("why_"+w, 1)
				}
				for _, n := range o.must {
					c.Count("failing_paths_named", n)
				}
				if len(o.must) > 1 {
					c.Count("several_failing", 1)
				}
				if modeIsCI(m) {
					c.Count("ci_failing_calls", 1)
				}
				if prev != nil {
					c.Count("entries_kept", 1)
				}
				failedBefore = true
				continue
			}
			c.Count("ignored_missing", len(o.ign))
			out := outcome(k)
			if o.kind == "yaml" && out == "failed" && strings.Contains(callText(k), "leaves an invalid yaml") {
				c.Count("yaml_refused", 1)
				if !kept() {
					say("a refused call changed its entry")
				}
				continue
			}
			want := ""
			switch {
			case prev == nil && create:
				want = "added"
			case prev == nil:
				want = "failed"
			case f.same[i] || out == "passed" && o.holds(prev) == "":
				want = "passed"
			case update:
				want = "updated"
			default:
				want = "failed"
			}
			if out != want {
				say(fmt.Sprintf("expected %s, got %s (stored before: %s): %s", want, out, ptrText(prev), callText(k)))
				continue
			}
			switch out {
			case "added", "updated":
				if s := o.holds(stored[i]); s != "" {
					say(fmt.Sprintf("%s, but its slot holds %s: %s", out, ptrText(stored[i]), s))
				}
			default:
				if !kept() {
					say(fmt.Sprintf("%s, but changed its entry from %s to %s", out, ptrText(prev), ptrText(stored[i])))
				}
			}
			c.Count(out+"_calls", 1)
			if failedBefore {
				c.Count("slots_after_failing", 1)
			}
		}
		f.stored = stored
		if len(bad) > 0 {
			c.Violate(replay(rr, m), "mode %s: %s", m, clipS(strings.Join(bad, "; "), 2500))
		}
	}
	for mi, m := range modes {
		fs := byMode[mi]
		var cs []core.Case
		for _, f := range fs {
			build(f, f.ops[0])
			cs = append(cs, f.cs)
		}
		rs := c.RunCases(m, cs, 0)
		ok := make([]bool, len(fs))
		for i, rr := range rs {
			if c.Crashed(rr, m) {
				continue
			}
			ok[i] = true
			judge(fs[i], rr, m, fs[i].ops[0], true)
		}
		if mi == 0 && len(rs) > 0 {
			c.Sample(map[string]any{"calls": fmt.Sprint(fs[0].ops[0]), "outcomes": outcomes(rs[0])})
		}
		// on top of what was stored, in every mode
		for m2i, m2 := range []Mode{{}, Upd("true"), {CI: "CI=true"}} {
			var sub []*fcase
			cs = nil
			for i, f := range fs {
				if !ok[i] || i%3 != m2i {
					continue
				}
				build(f, f.ops[1])
				f.cs.ID += "b"
				core.Age(f.cs.Dir)
				cs = append(cs, f.cs)
				sub = append(sub, f)
			}
			for i, rr := range c.RunCases(m2, cs, 0) {
				if !c.Crashed(rr, m2) {
					judge(sub[i], rr, m2, sub[i].ops[1], false)
				}
			}
			if c.TooMany() {
				return
			}
		}
		for _, f := range fs {
			os.RemoveAll(f.cs.Dir)
		}
	}
	if n, of := c.Counter("yaml_refused"), c.Counter("added_calls")+c.Counter("updated_calls"); n*50 > of+n {
		c.Violate(map[string]any{"refused": n, "of": of}, "matchers on existing paths refused %d calls", n)
	}
}

// c17malformed: paths that are no path expressions, alone and between matchers
// that are satisfied.
func (c *Ctx) c17malformed() {
	r := c.Rng("malformed")
	bad := map[string][]string{
		"yaml": {"", "a", "id", "user.name", "$[", "$.id[", "$[x]", "$id", "[0]", "..", "id.$", "$.id[-1", "$.'id", "/id", " $.id", "$.nope", "$.id.nope", "$.list[9]", "$.list.x"},
		"json": {"", "nope", "$.id", "id.nope", "list.9", "list.x.y", ".id", "id.", "/id", " id", "user..name"},
	}
	bad["sjson"] = bad["json"]
	doc := map[string]string{"yaml": "id: 1\nuser:\n  name: n\nlist:\n- a\n- b\n", "json": `{"id":1,"user":{"name":"n"},"list":["a","b"]}`}
	doc["sjson"] = doc["json"]
	for _, kind := range []string{"json", "yaml", "sjson"} {
		good := func() core.Matcher {
			p := core.Pick(r, []string{"id", "user.name", "list"})
			if kind == "yaml" {
				p = "$." + p
			}
			return core.Matcher{K: "any", Paths: []string{p}}
		}
		for _, m := range []Mode{{}, Upd("true"), {CI: "CI=true"}} {
			var cs []core.Case
			var paths []string
			for _, b := range bad[kind] {
				for _, mk := range []string{"any", "type", "custom"} {
					cas := c.NewCase()
					cas.Watch = true
					cas.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}}
					op := func(ms ...core.Matcher) core.Op {
						return core.Op{K: kind, V: []core.Val{core.S(doc[kind])}, M: ms}
					}
					x := core.Matcher{K: mk, Paths: []string{b}}
					switch mk {
					case "type":
						x.Type = "any"
					case "custom":
						x.CB, x.Ph = "ret", ptr(core.S("x"))
					}
					ms := []core.Matcher{x}
					for k := r.Intn(3); k > 0; k-- {
						ms = append(ms, good())
						if r.Chance(0.5) {
							ms[0], ms[len(ms)-1] = ms[len(ms)-1], ms[0]
						}
					}
					cas.Steps = [][]core.Exec{{{Test: "TestM", Ops: []core.Op{op(), op(ms...), op()}}}}
					cs = append(cs, cas)
					paths = append(paths, b)
				}
			}
			for i, rr := range c.RunCases(m, cs, 0) {
				if c.Crashed(rr, m) {
					continue
				}
				c.Eval(fmt.Sprintf("malformed %s %v %q %s", kind, m, paths[i], specKinds(cs[i].Steps[0][0].Ops[1].M)))
				c.Count("malformed_paths", 1)
				want := []string{"added", "failed", "added"}
				if modeIsCI(m) {
					want[0], want[2] = "failed", "failed"
				}
				for j := range want {
					k := rr.Call(0, 0, j)
					if k == nil || outcome(k) != want[j] {
						c.Violate(replay(rr, m), "%s: the call in the middle has a matcher with the path %q, which is none of the document (mode %s): call %d: expected %s, got %s", kind, paths[i], m, j+1, want[j], callText(k))
						break
					}
					if j == 1 && len(k.Wrote) > 0 {
						c.Violate(replay(rr, m), "%s: a call with the path %q wrote %v (mode %s)", kind, paths[i], k.Wrote, m)
					}
					if j == 1 && !strings.Contains(ansi.ReplaceAllString(string(k.Errs[0]), ""), paths[i]) {
						c.Violate(replay(rr, m), "%s: the failure does not name the path %q (mode %s): %s", kind, paths[i], m, callText(k))
					}
				}
				// the failing call has no entry, the third one has its own
				if t := c.storedTexts(rr); !modeIsCI(m) && (len(t) != 3 || t[0] == nil || t[1] != nil || t[2] == nil) {
					c.Violate(replay(rr, m), "%s: slots after a call with the path %q (mode %s): %v", kind, paths[i], m, t)
				}
				os.RemoveAll(cs[i].Dir)
			}
		}
	}
}

func specKinds(ms []core.Matcher) string {
	var s []string
	for _, m := range ms {
		s = append(s, m.K+" "+strings.Join(m.Paths, ","))
	}
	return strings.Join(s, ";")
}

func ptrText(s *string) string {
	if s == nil {
		return "nothing"
	}
	return fmt.Sprintf("%q", clipS(*s, 400))
}

func outcomes(rr *Res) []string {
	var out []string
	for i := range rr.Calls {
		out = append(out, outcome(&rr.Calls[i]))
	}
	return out
}
