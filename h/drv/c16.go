package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"verifh/core"

	y3 "gopkg.in/yaml.v3"
)

func init() { checks["C16"] = checkC16 }

func checkC16(c *Ctx) {
	c.rule = "pairs of documents A, B and a chain of 1-4 matchers over existing paths: B differs from A at covered places (other values, shorter and longer, of another type for Any and Custom, of the same type for Type), U differs from A at a place that is not covered as well; the model of the chain says what is left of each. A and B must leave byte-identical stored text in neighbouring slots, pass against each other's snapshot on CI, and in update mode without a write; U must fail on CI and be stored as an update; JSON, standalone JSON (string, []byte, RawMessage, Go value, two formats) and YAML (edited in place in the text: scalars, flow collections, block scalars); non-trivial = distinct pair x chain" + largeRule
	c.assume = []string{"the value of a Custom matcher's callback is its own (constant, or derived from the value's type)", "no duplicate member names, no empty member name in a path, no path with wildcards", "a comment is not a path: documents differing in comments are not judged", "YAML values at covered paths are read alike by goccy/go-yaml and yaml.v3", "YAML values are exchanged for values written on one line as well (flow, quoted, plain) or within the same block scalar, no null for another value: what goccy/go-yaml prints around a value otherwise depends on how it was written (known findings C16-yaml-*)"}
	c.timed("json", c.c16json)
	c.timed("yaml", c.c16yaml)
	c.c16known()
	if n, of := c.Counter("yaml_refused"), c.Counter("yaml_same_text"); n*100 > of+n {
		c.Violate(map[string]any{"refused": n, "of": of}, "matchers on existing paths refused %d documents out of %d", n, of+n)
	}
	c.need(1000, "json_same_text", "json_cross_passed", "json_unmasked_failed", "yaml_same_text", "yaml_cross_passed", "yaml_unmasked_failed")
}

// maskPair is a pair of inputs with the chain and whether the chain leaves the
// same of both.
type maskPair struct {
	a, b, u core.Val
	specs   []mSpec
	kind    string
	cfg     int
	what    string
}

// mask16 makes chains that hide what they cover.
func mask16(specs []mSpec) bool {
	for _, s := range specs {
		if s.m.K == "custom" && s.m.CB == "id" {
			return false
		}
	}
	return true
}

// jLike is another value that the matcher takes like v.
func jLike(r *core.Rng, m core.Matcher, v *core.JVal) *core.JVal {
	if m.K == "any" || m.K == "custom" && m.CB == "ret" {
		switch r.Intn(4) {
		case 0:
			return core.GenJSON(r, 0, true)
		case 1:
			return &core.JVal{K: 's', S: strings.Repeat("long ", r.Range(1, 60))}
		case 2:
			return core.GenJSON(r, 2, true)
		}
		return core.Pick(r, []*core.JVal{{K: 'z'}, {K: 't'}, {K: 'f'}, {K: 's'}, {K: 'n', S: "0"}, {K: 'o'}, {K: 'a'}, {K: 's', S: "<Any value>"}})
	}
	for i := 0; i < 30; i++ {
		if w := core.GenJSON(r, core.Pick(r, []int{0, 0, 1, 2}), true); w.K == v.K || (w.K == 't' || w.K == 'f') && (v.K == 't' || v.K == 'f') || m.Type == "any" && w.K != 'z' {
			return w
		}
	}
	return v.Clone()
}

// jVary changes values the chain covers.
func jVary(r *core.Rng, d *core.JVal, specs []mSpec) {
	for _, s := range specs {
		for _, p := range s.paths {
			for _, n := range jResolve(d, p) {
				if r.Chance(0.8) {
					*n = *jLike(r, s.m, n)
				}
			}
		}
	}
}

func (c *Ctx) c16json() {
	r := c.Rng("json")
	g := mGen{ignore: 0.1, maxM: 4, maxPaths: 3}
	var ps []maskPair
	for n := c.N(9000, 120000); len(ps) < n; {
		d := jDoc(r)
		if len(d.Text(nil, false, false, false)) > 4000 && r.Chance(0.9) {
			continue
		}
		specs := g.jSpecs(r, d.Clone())
		if !mask16(specs) {
			continue
		}
		b := d.Clone()
		jVary(r, b, specs)
		u := b.Clone()
		for k := r.Range(1, 2); k > 0; k-- {
			mutateJSON(r, u)
		}
		eq := func(x, y *core.JVal) bool {
			x, y = x.Clone(), y.Clone()
			e1, _ := jApply(x, specs)
			e2, _ := jApply(y, specs)
			return len(e1)+len(e2) == 0 && x.Key() == y.Key()
		}
		if !eq(d, d) {
			continue // nothing to cover
		}
		if !eq(d, b) {
			// the change reached something that is not covered
			c.Count("json_variant_dropped", 1)
			continue
		}
		if eq(d, u) {
			u = nil
		}
		p := maskPair{specs: specs, kind: core.Pick(r, []string{"json", "sjson"}), cfg: r.Intn(2)}
		forms := []string{"s", "b"}
		if p.cfg == 0 && r.Chance(0.25) && !hasBig(d) && !hasBig(b) && (u == nil || !hasBig(u)) && d.K != 's' && b.K != 's' && (u == nil || u.K != 's') {
			forms = []string{"js"}
		} else if r.Chance(0.2) {
			forms = []string{"raw"}
		}
		val := func(x *core.JVal) core.Val {
			return core.Val{T: core.Pick(r, forms), B: []byte(x.Text(r, r.Chance(0.5), p.cfg == 0 && r.Chance(0.5), false))}
		}
		p.a, p.b = val(d), val(b)
		if u != nil {
			p.u = val(u)
		}
		ps = append(ps, p)
	}
	ps = append(ps, c.largePairs(false)...)
	c.c16run("json", ps, []core.Cfg{{Dir: ptr("$CASE/d")}, {Dir: ptr("$CASE/f"), JSON: &core.JSONOpt{Width: 80, Indent: "  "}}})
}

// c16run records A and B in neighbouring slots and swaps them.
func (c *Ctx) c16run(lang string, ps []maskPair, cfgs []core.Cfg) {
	const per = 6
	var cs []core.Case
	var at [][]maskPair
	for lo := 0; lo < len(ps); lo += per {
		part := ps[lo:min(lo+per, len(ps))]
		k := c.NewCase()
		k.Cfgs = cfgs
		ex := core.Exec{Test: "TestM"}
		for _, p := range part {
			for _, v := range []core.Val{p.a, p.b} {
				ex.Ops = append(ex.Ops, core.Op{K: p.kind, C: p.cfg, V: []core.Val{v}, M: specMs(p.specs)})
			}
		}
		k.Steps = [][]core.Exec{{ex}}
		cs = append(cs, k)
		at = append(at, part)
	}
	desc := func(p *maskPair) string {
		return fmt.Sprintf("%s %s(%q) / %s(%q) with %s", p.kind, p.a.T, clipS(string(p.a.B), 700), p.b.T, clipS(string(p.b.B), 700), specText(p.specs))
	}
	drop := make([][]bool, len(cs)) // pairs whose recording was already reported
	for i, rr := range c.RunCases(Mode{}, cs, 0) {
		drop[i] = make([]bool, len(at[i]))
		if c.Crashed(rr, Mode{}) {
			for x := range drop[i] {
				drop[i][x] = true
			}
			continue
		}
		stored := c.storedTexts(rr)
		for x := range at[i] {
			p := &at[i][x]
			c.Eval(string(p.a.B) + "\x00" + string(p.b.B) + specText(p.specs))
			ka, kb := rr.Call(0, 0, 2*x), rr.Call(0, 0, 2*x+1)
			sa, sb := stored[2*x], stored[2*x+1]
			fail := ""
			if lang == "yaml" && outcome(ka) == "failed" && outcome(kb) == "failed" && strings.Contains(callText(ka), "leaves an invalid yaml") && strings.Contains(callText(kb), "leaves an invalid yaml") {
				// reported for both: the matchers are not satisfied
				drop[i][x] = true
				c.Count("yaml_refused", 1)
				continue
			}
			switch {
			case outcome(ka) != "added" || outcome(kb) != "added":
				fail = fmt.Sprintf("not stored: %s %s / %s %s", outcome(ka), callText(ka), outcome(kb), callText(kb))
			case sa == nil || sb == nil:
				fail = "reported as added but not found"
			case *sa != *sb:
				fail = fmt.Sprintf("stored %q and %q", clipS(*sa, 700), clipS(*sb, 700))
			}
			if fail != "" {
				drop[i][x] = true
				c.Violate(map[string]any{"pair": desc(p), "case": rr.Case}, "documents that differ at covered paths only: %s: %s", desc(p), fail)
				continue
			}
			c.Count(lang+"_same_text", 1)
		}
		if i == 0 && stored[0] != nil {
			c.Sample(map[string]any{"pair": desc(&at[i][0]), "stored": *stored[0]})
		}
		if c.TooMany() {
			return
		}
	}
	// each against the other's snapshot
	for _, m := range []Mode{{CI: "CI=true"}, Upd("true")} {
		var k2 []core.Case
		var idx []int
		var before []core.Tree
		for i, k := range cs {
			if m.HasUpd && i%2 == 1 {
				continue
			}
			k.ID += "x" + m.CI
			ex := core.Exec{Test: "TestM"}
			for x, p := range at[i] {
				for _, v := range []core.Val{p.b, p.a} {
					if drop[i][x] {
						v = core.S("{}")
					}
					ex.Ops = append(ex.Ops, core.Op{K: p.kind, C: p.cfg, V: []core.Val{v}, M: specMs(p.specs)})
				}
			}
			k.Steps = [][]core.Exec{{ex}}
			core.Age(k.Dir)
			before = append(before, core.Observe(k.Dir))
			k2 = append(k2, k)
			idx = append(idx, i)
		}
		for n, rr := range c.RunCases(m, k2, 0) {
			i := idx[n]
			if c.Crashed(rr, m) {
				continue
			}
			dropped := false
			for x := range at[i] {
				if drop[i][x] {
					dropped = true
					continue
				}
				p := &at[i][x]
				for y := 0; y < 2; y++ {
					if k := rr.Call(0, 0, 2*x+y); outcome(k) != "passed" {
						c.Violate(map[string]any{"pair": desc(p), "case": rr.Case}, "documents that differ at covered paths only: %s: %s against the other's snapshot (mode %s): %s", desc(p), outcome(k), m, callText(k))
					} else {
						c.Count(lang+"_cross_passed", 1)
					}
				}
			}
			if d := before[n].Diff(core.Observe(rr.Case.Dir), true); len(d) > 0 && !dropped {
				c.Violate(replay(rr, m), "a difference at covered paths only was written (mode %s): %v", m, d)
			}
		}
	}
	// a difference that is not covered
	for _, m := range []Mode{{CI: "CI=true"}, Upd("true")} {
		var k2 []core.Case
		var idx []int
		for i, k := range cs {
			k.ID += "u" + m.CI
			ex := core.Exec{Test: "TestM"}
			for x, p := range at[i] {
				u := p.u
				if u.T == "" || drop[i][x] {
					u = p.a
				}
				for y := 0; y < 2; y++ {
					ex.Ops = append(ex.Ops, core.Op{K: p.kind, C: p.cfg, V: []core.Val{u}, M: specMs(p.specs)})
				}
			}
			k.Steps = [][]core.Exec{{ex}}
			k2 = append(k2, k)
			idx = append(idx, i)
		}
		for n, rr := range c.RunCases(m, k2, 0) {
			i := idx[n]
			if c.Crashed(rr, m) {
				continue
			}
			for x := range at[i] {
				p := &at[i][x]
				if p.u.T == "" || drop[i][x] {
					continue
				}
				for y := 0; y < 2; y++ {
					k := rr.Call(0, 0, 2*x+y)
					o := outcome(k)
					if o == "failed" || m.HasUpd && o == "updated" {
						c.Count(lang+"_unmasked_failed", 1)
						continue
					}
					c.Violate(map[string]any{"pair": desc(p), "case": rr.Case}, "documents that differ at a path that is not covered: %s against the snapshot of %s: %s(%q) %s (mode %s)", o, desc(p), p.u.T, clipS(string(p.u.B), 700), callText(k), m)
				}
			}
		}
	}
	for _, k := range cs {
		os.RemoveAll(k.Dir)
	}
}

// c16known: how goccy/go-yaml prints a document depends on how the replaced
// value was written.
func (c *Ctx) c16known() {
	for _, w := range []struct {
		id, a, b string
		m        core.Matcher
	}{
		{"C16-yaml-blank-line", "a: 'x\n\n  y'\nb: 2\n", "a: z\nb: 2\n", core.Matcher{K: "any", Paths: []string{"$.a"}}},
		{"C16-yaml-indent", "a: 1\nb: 2\n", "a:\n  - 1\nb: 2\n", core.Matcher{K: "any", Paths: []string{"$.a"}, Ph: &core.Val{T: "js", B: []byte(`{"k":1}`)}}},
		{"C16-yaml-comment", "# head\na: 1 # c\nb: 2\n", "# head\na: 'x\n\n  y' # c\nb: 2\n", core.Matcher{K: "any", Paths: []string{"$.a"}}},
	} {
		k := c.NewCase()
		k.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}}
		k.Steps = [][]core.Exec{{{Test: "TestM", Ops: []core.Op{
			{K: "yaml", V: []core.Val{core.S(w.a)}, M: []core.Matcher{w.m}},
			{K: "yaml", V: []core.Val{core.S(w.b)}, M: []core.Matcher{w.m}},
		}}}}
		rr := c.RunCases(Mode{}, []core.Case{k}, 0)[0]
		if c.Crashed(rr, Mode{}) {
			continue
		}
		st, fail := c.storedTexts(rr), ""
		if st[0] == nil || st[1] == nil {
			fail = "not stored: " + callText(rr.Call(0, 0, 0)) + callText(rr.Call(0, 0, 1))
		} else if *st[0] != *st[1] {
			fail = fmt.Sprintf("%q and %q are stored as %q and %q", w.a, w.b, *st[0], *st[1])
		}
		c.Known(w.id, fail, replay(rr, Mode{}))
	}
}

// yEdit replaces the text of a node in place; "" if the node is not written in
// a way that can be edited.
func yEdit(r *core.Rng, text string, n *y3.Node, to string) string {
	ls := strings.SplitAfter(text, "\n")
	if n.Line < 1 || n.Line > len(ls) || n.Anchor != "" {
		return ""
	}
	l := ls[n.Line-1]
	// yaml.v3 counts columns in characters
	rs := []rune(l)
	if n.Column < 1 || n.Column > len(rs) {
		return ""
	}
	pre, rest := string(rs[:n.Column-1]), string(rs[n.Column-1:])
	end := -1
	switch {
	case n.Kind == y3.ScalarNode && n.Style&(y3.LiteralStyle|y3.FoldedStyle) != 0:
		// lengthen the first line of the body that has text
		for i := n.Line; i < len(ls); i++ {
			if t := strings.TrimRight(ls[i], "\n"); strings.TrimSpace(t) != "" {
				ls[i] = t + " x" + strings.TrimSpace(strings.ReplaceAll(strings.Trim(to, `"'`), "\n", " ")) + ls[i][len(t):]
				return strings.Join(ls, "")
			}
		}
		return ""
	case n.Kind == y3.ScalarNode && n.Style&y3.DoubleQuotedStyle != 0:
		for i := 1; i < len(rest); i++ {
			if rest[i] == '\\' {
				i++
			} else if rest[i] == '"' {
				end = i + 1
				break
			}
		}
	case n.Kind == y3.ScalarNode && n.Style&y3.SingleQuotedStyle != 0:
		for i := 1; i < len(rest); i++ {
			if rest[i] == '\'' {
				if i+1 < len(rest) && rest[i+1] == '\'' {
					i++
					continue
				}
				end = i + 1
				break
			}
		}
	case n.Kind == y3.ScalarNode && n.Style == 0 && n.Value != "" && strings.HasPrefix(rest, n.Value):
		end = len(n.Value)
	case n.Style&y3.FlowStyle != 0:
		depth, q := 0, byte(0)
	scan:
		for i := 0; i < len(rest); i++ {
			ch := rest[i]
			switch {
			case q == '"' && ch == '\\':
				i++
			case q != 0:
				if ch == q {
					q = 0
				}
			case ch == '"' || ch == '\'':
				q = ch
			case ch == '[' || ch == '{':
				depth++
			case ch == ']' || ch == '}':
				depth--
				if depth == 0 {
					end = i + 1
					break scan
				}
			}
		}
	}
	if end < 0 {
		return ""
	}
	if strings.Contains(rest[:end], "\n") || (n.Tag == "!!null") != (to == "null") {
		return "" // the known findings C16-yaml-*
	}
	ls[n.Line-1] = pre + to + rest[end:]
	return strings.Join(ls, "")
}

// plainText: letters and spaces only, nothing another tag would be given for.
func plainText(s string) bool {
	for _, w := range []string{"null", "true", "false", "yes", "no", "on", "off", "y", "n"} {
		if strings.EqualFold(s, w) {
			return false
		}
	}
	return s != "" && strings.Trim(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ ") == "" && strings.TrimSpace(s) == s
}

var yOther = []string{"9007199254740992", "9007199254740993", "9223372036854775807", "18446744073709551615", "1", "42", "-7", "3.5", "true", "false", "null", "other", "two more words", `"dq"`, `'s q'`, `"a # b"`, `"esc \" \\ \n"`, `""`, "é", `{}`, `[]`, `[1, 2]`, `{x: 1}`, `{x: {y: [1, "a"]}}`, `"` + "long " + strings.Repeat("text ", 40) + `"`, "0.25", "1234567", "2020-01-01"}

// yNodes lists the nodes with their paths.
func (c *Ctx) yVary(r *core.Rng, text string, specs []mSpec, covered bool) (string, bool) {
	docs, err := parseYAML([]byte(text))
	if err != nil {
		return "", false
	}
	var n *y3.Node
	var m core.Matcher
	if covered {
		s := core.Pick(r, specs)
		m = s.m
		p := core.Pick(r, s.paths)
		for _, d := range docs {
			if o, direct := yResolve(d, p); len(o) == 1 && direct {
				n = o[0]
			}
		}
	} else {
		var all []*y3.Node
		var walk func(n *y3.Node)
		walk = func(n *y3.Node) {
			all = append(all, n)
			for i, e := range n.Content {
				if n.Kind == y3.MappingNode && i%2 == 0 && r.Chance(0.8) {
					continue
				}
				walk(e)
			}
		}
		for _, d := range docs {
			walk(d)
		}
		n = core.Pick(r, all)
	}
	if n == nil || n.Kind == y3.DocumentNode || n.Kind == y3.AliasNode || n.Style&y3.TaggedStyle != 0 {
		return "", false
	}
	// a place inside it
	if covered && len(n.Content) > 0 && n.Style&y3.FlowStyle == 0 {
		for len(n.Content) > 0 {
			if n.Kind == y3.MappingNode {
				n = n.Content[r.Intn(len(n.Content)/2)*2+1]
			} else {
				n = core.Pick(r, n.Content)
			}
			if n.Kind == y3.AliasNode {
				return "", false
			}
		}
	}
	_ = m
	to := core.Pick(r, yOther)
	if n.Kind == y3.ScalarNode && n.Style == 0 && r.Chance(0.5) {
		// hardly another one
		switch n.ShortTag() {
		case "!!int", "!!float":
			if _, err := strconv.ParseInt(n.Value, 10, 64); err == nil {
				to = nearNumber(r, n.Value)
			}
		case "!!str":
			if t := strings.ToUpper(n.Value); t != n.Value && plainText(t) {
				to = t
			} else if plainText(n.Value) {
				to = n.Value + core.Pick(r, []string{"x", " x", ".", "\u200b"})
			}
		}
	}
	out := yEdit(r, text, n, to)
	return out, out != ""
}

func (c *Ctx) c16yaml() {
	r := c.Rng("yaml")
	g := mGen{ignore: 0.1, maxM: 3, maxPaths: 2}
	var ps []maskPair
	for n := c.N(4500, 60000); len(ps) < n; {
		text := yDoc(r, r.Range(1, 4), 0.2)
		if ySlash(text) {
			continue
		}
		specs := g.ySpecs(r, text)
		if len(specs) == 0 || !mask16(specs) {
			continue
		}
		// what the chain leaves of a text
		left := func(t string) (string, bool) {
			ds, err := parseYAML([]byte(t))
			if err != nil {
				return "", false
			}
			if ok, err := goccyOK([]byte(t)); !ok || err != nil {
				return "", false
			}
			res := yApply(ds, specs)
			if res.unsure || !res.direct || len(res.errs) > 0 {
				return "", false
			}
			return yKeys(ds, res.loose), true
		}
		la, ok := left(text)
		if !ok {
			c.Count("yaml_chain_not_clear", 1)
			continue
		}
		b, u := text, ""
		for k := 0; k < 4; k++ {
			if v, ok := c.yVary(r, b, specs, true); ok {
				if lb, ok := left(v); ok && lb == la {
					b = v
				}
			}
		}
		if b == text {
			c.Count("yaml_no_variant", 1)
			continue
		}
		for k := 0; k < 6 && u == ""; k++ {
			if v, ok := c.yVary(r, b, specs, false); ok {
				if lu, ok := left(v); ok && lu != la {
					u = v
				}
			}
		}
		p := maskPair{specs: specs, kind: "yaml"}
		val := func(s string) core.Val { return core.Val{T: core.Pick(r, []string{"s", "b"}), B: []byte(s)} }
		p.a, p.b = val(text), val(b)
		if r.Chance(0.5) {
			p.a, p.b = p.b, p.a
		}
		if u != "" {
			p.u = val(u)
		}
		ps = append(ps, p)
	}
	ps = append(ps, c.largePairs(true)...)
	c.c16run("yaml", ps, []core.Cfg{{Dir: ptr("$CASE/d")}})
}
