package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	"verifh/core"
)

func init() { checks["C18"] = checkC18 }

func checkC18(c *Ctx) {
	c.rule = "YAML streams in many styles (comments, key orders, anchors, block scalars with hostile lines, `---` and `/-/-/-/` lines, flow sequences that look like entry headers, leading and trailing blank lines, with and without a final newline, lines beyond 64 KiB) as string and []byte, several per file and test, without matchers and with matchers that have nothing to replace: the stored entry must be the document line by line (separator lines in a fixed, injective spelling), pass on CI and in update mode without a write, and fail (or be updated) for a document differing in one character, line or final newline; Go values of 20 types: one text over repeated calls and processes, which itself replays; texts over a YAML alphabet, corruptions and unmarshalable values: rejected by both parsers -> one error and no write in every mode, accepted by both -> stored; non-trivial = distinct document, value or candidate text" + "; plus texts of up to hundreds of documents, keys, elements, comments, blank lines, levels and anchors"
	c.assume = []string{"a text is judged valid if goccy/go-yaml and yaml.v3 both read it and invalid if both reject it; texts they disagree on are only checked for consistency (stored verbatim, or one error and no write)", "no carriage return at the end of a line (documented limitation) where a document is replayed", "Go maps have no two keys of the same text, no pointer keys and no nil key"}
	c.timed("verbatim", c.c18verbatim)
	c.timed("go", c.c18go)
	c.timed("valid", c.c18valid)
	c.c18known()
	c.need(60, "large_texts")
	c.need(1000, "stored_verbatim", "replayed", "other_document_failed", "invalid_rejected", "valid_accepted")
	c.need(100, "separator_lines", "header_lines", "no_final_newline", "multi_documents", "comments", "noop_matchers", "go_texts_compared", "crlf_stored")
	c.need(30, "long_lines")
}

var sepLine = regexp.MustCompile(`^/*(---|-/-/-/)$`)

// spellings of separator lines seen so far, in both directions
var sepTo, sepFrom = map[string]string{}, map[string]string{}

// verb says how a stored entry differs from the document. Lines that could be
// taken for the separator of entries may be spelled otherwise, but always in
// the same way, and no two in the same way.
func (c *Ctx) verb(doc, raw string) string {
	a, b := strings.Split(doc, "\n"), strings.Split(raw, "\n")
	for i := 0; i < len(a) && i < len(b); i++ {
		if sepLine.MatchString(a[i]) {
			if _, ok := sepTo[a[i]]; !ok {
				sepTo[a[i]] = b[i]
			}
			if _, ok := sepFrom[b[i]]; !ok {
				sepFrom[b[i]] = a[i]
			}
			if b[i] == "---" || sepTo[a[i]] != b[i] || sepFrom[b[i]] != a[i] {
				return fmt.Sprintf("line %d: %q is spelled %q (elsewhere %q, and %q is the spelling of %q)", i+1, a[i], b[i], sepTo[a[i]], b[i], sepFrom[b[i]])
			}
			c.Count("separator_lines", 1)
			continue
		}
		if a[i] != b[i] {
			return fmt.Sprintf("line %d: %q instead of %q", i+1, clipS(b[i], 200), clipS(a[i], 200))
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%d lines instead of %d", len(b), len(a))
	}
	return ""
}

// yHostile makes a valid stream around hostile lines.
func yHostile(r *core.Rng) string {
	ids := []string{"TestY - 1", "TestY - 2", "TestY - 3", "TestZ/y - 1", "TestY - 10"}
	block := func(ind string) string {
		s := ""
		for k := r.Range(1, 6); k > 0; k-- {
			l := core.Pick(r, []string{"---", "/-/-/-/", "//-/-/-/", "", " ", "[" + core.Pick(r, ids) + "]", "# x", "--- ", "a: b", "é", "...", "- z", "\ttab", "%d", "@@", strings.Repeat("x", r.Intn(120))})
			if r.Intn(60) == 0 {
				l = strings.Repeat("long ", 14000)
			}
			if l != "" || r.Chance(0.5) {
				l = ind + l
			}
			s += l + "\n"
		}
		return s
	}
	doc := func() string {
		switch r.Intn(12) {
		case 0:
			return "[" + core.Pick(r, ids) + "]\n"
		case 1:
			return "k: |" + core.Pick(r, []string{"", "-", "+", "2"}) + "\n" + block("  ")
		case 2:
			return "- >" + core.Pick(r, []string{"", "-", "+"}) + "\n  t\n" + block("  ")
		case 3:
			return "k: |\n" + block("    ") + "z: 1\na: 2\n"
		case 4:
			return "# " + core.Pick(r, ids) + "\n\n" + core.Pick(r, []string{"# ---\n", "#[TestY - 1]\n", "#\n"}) + "a: 1 # c\n"
		case 5:
			return "/-/-/-/\n"
		case 6:
			return core.Pick(r, []string{"//-/-/-/\n", "-/-/-/\n", "/-/-/-/: x\n", "- /-/-/-/\n", "\"---\"\n", "'\n  ---\n\n  x'\n"})
		case 7:
			return "list:\n- [" + core.Pick(r, ids) + "]\n-\n  - [x]\n"
		case 8:
			return strings.Repeat("\n", r.Range(1, 3)) + "a: 1\n" + strings.Repeat("\n", r.Intn(4))
		case 9:
			return "z: 1\nb: 2\na: 3\n" + core.Pick(r, []string{" ", "  \n", "# end", "#\n\n", ""})
		case 10:
			return "a: &x {b: [1, 2]}\nc: *x\nd: !!str 1\n"
		default:
			return core.GenYAML(r, r.Range(1, 3), false)
		}
	}
	var b strings.Builder
	if r.Chance(0.15) {
		b.WriteString(core.Pick(r, []string{"---\n", "--- # head\n", "# c\n---\n", "%YAML 1.2\n---\n", "%YAML 1.1\n---\n", "%YAML 1.2 # v\n--- # d\n", "# c\n%YAML 1.2\n---\n"}))
	}
	b.WriteString(doc())
	if r.Chance(0.35) {
		for k := r.Range(1, 4); k > 0; k-- {
			if s := b.String(); s[len(s)-1] != '\n' {
				b.WriteString("\n")
			}
			b.WriteString(core.Pick(r, []string{"---\n", "---\n", "---\n", "--- # d\n", "...\n---\n", "...\n%YAML 1.2\n---\n"}))
			b.WriteString(doc())
		}
		if r.Chance(0.1) {
			b.WriteString(core.Pick(r, []string{"---\n", "---", "...\n", "..."}))
		}
	}
	s := b.String()
	if r.Chance(0.35) {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

var yVersion = regexp.MustCompile(`(?m)^%YAML 1\.[0-3]\b`)

// yVerdict: 1 both parsers read the text, -1 both reject it, 0 they disagree.
// ok is false if goccy/go-yaml panics.
func yVerdict(s string) (v int, ok bool) {
	ok, err := goccyOK([]byte(s))
	// yaml.v3 knows version 1.1 only
	_, err3 := parseYAML([]byte(yVersion.ReplaceAllString(s, "%YAML 1.1")))
	switch {
	case err == nil && err3 == nil:
		v = 1
	case err != nil && err3 != nil:
		v = -1
	}
	return v, ok
}

func (c *Ctx) yAny(r *core.Rng) string {
	for {
		var s string
		switch r.Intn(8) {
		case 0:
			s = core.YAMLText(r)
		case 1, 2, 3:
			s = core.GenYAML(r, r.Range(1, 4), r.Chance(0.3))
		case 4:
			s = core.GenJSON(r, 3, true).Text(r, r.Chance(0.5), false, r.Chance(0.5))
		default:
			s = yHostile(r)
		}
		if r.Chance(0.1) {
			s += core.Pick(r, []string{"\n", "\n\n", " ", "\n ", "# x", "\n#", "\n# y\n\n"})
		}
		if v, ok := yVerdict(s); ok && v == 1 {
			return s
		}
		c.Count("generated_not_valid", 1)
	}
}

// yNear is another document close to s, "" if none is found.
func yNear(r *core.Rng, s string) string {
	for try := 0; try < 12; try++ {
		ls := strings.Split(s, "\n")
		i := r.Intn(len(ls))
		t := s
		switch r.Intn(10) {
		case 0:
			if strings.HasSuffix(s, "\n") {
				t = s[:len(s)-1]
			} else {
				t = s + "\n"
			}
		case 1:
			t = s + core.Pick(r, []string{"\n", " ", "\n\n", "# c", "\n# c\n"})
		case 2:
			t = core.Pick(r, []string{"\n", "# c\n", "---\n", " "}) + s
		case 3:
			ls[i] += core.Pick(r, []string{" ", " # c", "#", "x"})
			t = strings.Join(ls, "\n")
		case 4:
			for k := range ls {
				switch {
				case ls[k] == "---" && r.Chance(0.7):
					ls[k] = "/-/-/-/"
				case ls[k] == "/-/-/-/" && r.Chance(0.7):
					ls[k] = core.Pick(r, []string{"---", "//-/-/-/"})
				}
			}
			t = strings.Join(ls, "\n")
		case 5:
			ls = append(ls[:i:i], append([]string{core.Pick(r, []string{"", "# new", "  "})}, ls[i:]...)...)
			t = strings.Join(ls, "\n")
		case 6:
			if i+1 < len(ls) {
				ls[i], ls[i+1] = ls[i+1], ls[i]
				t = strings.Join(ls, "\n")
			}
		case 7:
			ls = append(ls[:i:i], ls[i+1:]...)
			t = strings.Join(ls, "\n")
		default:
			t = core.Mutate(r, s, nil)
		}
		if v, ok := yVerdict(t); ok && v == 1 && t != s && core.NoCR(t) == t {
			return t
		}
	}
	return ""
}

// yNoop are matchers that have nothing to replace.
func yNoop(r *core.Rng) []core.Matcher {
	var out []core.Matcher
	for k := r.Range(1, 3); k > 0; k-- {
		m := core.Matcher{K: core.Pick(r, []string{"any", "type", "custom"}), Miss: ptr(false), Paths: []string{core.Pick(r, []string{"$.missing_path", "$.zz.yy", "$[77777]", "$.nope[3]"})}}
		switch m.K {
		case "type":
			m.Type = "string"
		case "custom":
			m.CB = "ret"
			m.Ph = &core.Val{T: "s", B: []byte("x")}
		}
		out = append(out, m)
	}
	return out
}

func (c *Ctx) c18verbatim() {
	r := c.Rng("verbatim")
	type fcase struct {
		cs   core.Case
		docs []string
		othr []bool
	}
	modes := []Mode{{}, {}, Upd("true"), {Color: true}, {CI: "CI=false"}}
	form := func(s string) core.Val {
		if r.Chance(0.4) {
			return core.By(s)
		}
		return core.S(s)
	}
	n := c.N(1500, 20000)
	byMode := make([][]*fcase, len(modes))
	scaled := 0
	for i := 0; i < n; i++ {
		f := &fcase{cs: c.NewCase()}
		f.cs.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}, {Dir: ptr("$CASE/d"), File: ptr("other"), Ext: ptr(".yaml")}}
		if r.Chance(0.2) {
			f.cs.Cfgs[1].Update = ptr(true)
		}
		f.cs.Watch = true
		ex := core.Exec{Test: "TestY"}
		for k := r.Range(3, 11); k > 0; k-- {
			s := c.yAny(r)
			if i < 60 && k%2 == 0 {
				if t := c.yScaled(r, scaled); true {
					if v, ok := yVerdict(t); ok && v == 1 {
						s = t
						c.Count("large_texts", 1)
					} else {
						c.Count("large_not_valid", 1)
					}
				}
				scaled++
			}
			op := core.Op{K: "yaml", C: b2i(r.Chance(0.25))}
			if core.NoCR(s) != s {
				s = core.NoCR(s)
				if v, ok := yVerdict(s); !ok || v != 1 {
					continue
				}
			}
			op.V = []core.Val{form(s)}
			if r.Chance(0.2) || len(s) > 200 && r.Chance(0.4) {
				op.M = yNoop(r)
				c.Count("noop_matchers", 1)
			}
			f.docs = append(f.docs, s)
			ex.Ops = append(ex.Ops, op)
			for _, l := range strings.Split(s, "\n") {
				if strings.HasPrefix(l, "[Test") && strings.HasSuffix(l, "]") {
					c.Count("header_lines", 1)
				}
				if len(l) > 65536 {
					c.Count("long_lines", 1)
				}
			}
			c.Count("no_final_newline", b2i(!strings.HasSuffix(s, "\n")))
			c.Count("multi_documents", b2i(strings.Contains(s, "\n---")))
			c.Count("comments", b2i(strings.Contains(s, "# ")))
			c.Eval(s)
		}
		f.cs.Steps = [][]core.Exec{{ex}}
		m := r.Intn(len(modes))
		byMode[m] = append(byMode[m], f)
	}
	check := func(f *fcase, rr *Res, m Mode, want func(i int) string, docs []string) bool {
		var bad []string
		st := c.storedTexts(rr)
		for i, s := range docs {
			k := rr.Call(0, 0, i)
			w := want(i)
			if w == "" {
				continue
			}
			if o := outcome(k); o != w {
				bad = append(bad, fmt.Sprintf("call %d: expected %s for %q: %s %s", i+1, w, clipS(s, 600), o, callText(k)))
				continue
			}
			if w != "added" && w != "updated" && len(k.Wrote) > 0 {
				bad = append(bad, fmt.Sprintf("call %d: %s, but wrote %v for %q", i+1, w, k.Wrote, clipS(s, 600)))
			}
			if w == "failed" {
				continue
			}
			if st[i] == nil {
				bad = append(bad, fmt.Sprintf("call %d: nothing stored for %q", i+1, clipS(s, 600)))
			} else if d := c.verb(s, *st[i]); d != "" {
				bad = append(bad, fmt.Sprintf("call %d (%s): %q is stored as %q: %s", i+1, w, clipS(s, 600), clipS(*st[i], 600), d))
			} else if w != "passed" {
				c.Count("stored_verbatim", 1)
			}
		}
		if len(bad) > 0 {
			c.Violate(replay(rr, m), "mode %s: %s", m, clipS(strings.Join(bad, "; "), 2500))
		}
		return len(bad) == 0
	}
	always := func(w string) func(int) string { return func(int) string { return w } }
	for mi, m := range modes {
		var cs []core.Case
		for _, f := range byMode[mi] {
			cs = append(cs, f.cs)
		}
		var good []*fcase
		for i, rr := range c.RunCases(m, cs, 0) {
			f := byMode[mi][i]
			if !c.Crashed(rr, m) && check(f, rr, m, always("added"), f.docs) {
				good = append(good, f)
			}
			if mi == 0 && i == 0 {
				c.Sample(map[string]any{"document": f.docs[0], "stored": ptrText(c.storedTexts(rr)[0])})
			}
		}
		// the same documents again
		for _, m2 := range []Mode{{CI: "CI=true"}, Upd("true"), {Color: true}} {
			cs = nil
			for _, f := range good {
				ex := core.Exec{Test: "TestY", Ops: append([]core.Op(nil), f.cs.Steps[0][0].Ops...)}
				for i := range ex.Ops {
					ex.Ops[i].V = []core.Val{form(f.docs[i])}
					if r.Chance(0.2) || len(f.docs[i]) > 200 && r.Chance(0.4) {
						ex.Ops[i].M = yNoop(r)
					} else {
						ex.Ops[i].M = nil
					}
				}
				f.cs.Steps = [][]core.Exec{{ex}}
				f.cs.ID += "r"
				core.Age(f.cs.Dir)
				cs = append(cs, f.cs)
			}
			var before []core.Tree
			for _, k := range cs {
				before = append(before, core.Observe(k.Dir))
			}
			for i, rr := range c.RunCases(m2, cs, 0) {
				if c.Crashed(rr, m2) {
					continue
				}
				check(good[i], rr, m2, always("passed"), good[i].docs)
				c.Count("replayed", len(rr.Calls))
				if d := before[i].Diff(core.Observe(rr.Case.Dir), true); len(d) > 0 {
					c.Violate(replay(rr, m2), "the same documents wrote (mode %s): %v", m2, d)
				}
			}
		}
		// other documents
		for _, f := range good {
			ex := core.Exec{Test: "TestY", Ops: append([]core.Op(nil), f.cs.Steps[0][0].Ops...)}
			other := make([]bool, len(f.docs))
			docs := append([]string(nil), f.docs...)
			for i := range ex.Ops {
				if t := yNear(r, f.docs[i]); t != "" && r.Chance(0.8) {
					docs[i], other[i] = t, true
					ex.Ops[i].V = []core.Val{form(t)}
				}
			}
			f.cs.Steps = [][]core.Exec{{ex}}
			f.cs.ID += "o"
			f.docs, f.othr = docs, other
		}
		for _, m2 := range []Mode{{CI: "CI=true"}, Upd("always"), Upd("true")} {
			cs = nil
			for _, f := range good {
				f.cs.ID += "o"
				core.Age(f.cs.Dir)
				cs = append(cs, f.cs)
			}
			var before []core.Tree
			for _, k := range cs {
				before = append(before, core.Observe(k.Dir))
			}
			for i, rr := range c.RunCases(m2, cs, 0) {
				if c.Crashed(rr, m2) {
					continue
				}
				f := good[i]
				updates := false
				check(f, rr, m2, func(x int) string {
					_, upd := perms(m2, f.cs.Cfgs[f.cs.Steps[0][0].Ops[x].C])
					switch {
					case !f.othr[x]:
						return "passed"
					case upd:
						updates = true
						c.Count("other_document_updated", 1)
						return "updated"
					}
					c.Count("other_document_failed", 1)
					return "failed"
				}, f.docs)
				if d := before[i].Diff(core.Observe(rr.Case.Dir), true); len(d) > 0 && !updates {
					c.Violate(replay(rr, m2), "a document that differs was written (mode %s): %v", m2, d)
				}
				// what was updated is now what is stored
				for x := range f.othr {
					if _, upd := perms(m2, f.cs.Cfgs[f.cs.Steps[0][0].Ops[x].C]); upd {
						f.othr[x] = false
					}
				}
			}
		}
		for _, f := range byMode[mi] {
			os.RemoveAll(f.cs.Dir)
		}
	}
}

// yGoForms are the types of Go values; the text they are made from is a JSON
// document.
var yGoForms = []string{"js", "js", "js", "user", "puser", "users", "mss", "msi", "mint", "ymint", "ymany", "ymany", "ymbool", "ymstr", "ymstr", "yslice", "yinl", "ymtime", "i", "u64", "f", "bool", "nil", "nstr", "nbytes", "pstr", "ppany", "array", "msany", "floats", "nilptr", "nilmap", "nilsl", "jnum", "structs", "time"}

func (c *Ctx) yGoVal(r *core.Rng) core.Val {
	t := core.Pick(r, yGoForms)
	d := core.GenJSONObj(r, r.Range(1, 3), true)
	if r.Chance(0.3) {
		for k := r.Range(5, 60); k > 0; k-- {
			d.Keys = append(d.Keys, fmt.Sprintf("key_%d", r.Intn(100000)))
			d.Elem = append(d.Elem, core.GenJSON(r, 0, false))
		}
	}
	seen := map[string]bool{}
	for i := 0; i < len(d.Keys); i++ {
		if seen[d.Keys[i]] {
			d.Keys, d.Elem = append(d.Keys[:i:i], d.Keys[i+1:]...), append(d.Elem[:i:i], d.Elem[i+1:]...)
			i--
			continue
		}
		seen[d.Keys[i]] = true
	}
	v := formVal(r, t, d.Text(nil, false, false, false))
	switch t {
	case "msi":
		v.B = []byte(`{"b":2,"a":1,"10":3,"9":4,"é":5,"---":6,"":7}`)
	case "mss":
		v.B = []byte(`{"k1":"v\n---","k2":"[TestY - 1]","a":"b","zz":"1","y":"/-/-/-/\n","x":"---\n\n"}`)
	case "u64":
		v.B = []byte("18446744073709551615")
	}
	return v
}

// c18go: Go values give one text.
func (c *Ctx) c18go() {
	r := c.Rng("go")
	n, per := c.N(1800, 30000), 6
	var vals []core.Val
	for len(vals) < n {
		if v := c.yGoVal(r); !strings.Contains(string(v.B), `\r`) && !strings.Contains(string(v.B), `\u000d`) {
			vals = append(vals, v)
		}
	}
	// two processes record, each value several times; one of them with other
	// values in between
	var recs [2][]core.Case
	texts := [2][][]*string{}
	const times = 3
	for p := 0; p < 2; p++ {
		for lo := 0; lo < n; lo += per {
			k := c.NewCase()
			k.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}}
			ex := core.Exec{Test: "TestG"}
			for i := lo; i < min(lo+per, n); i++ {
				for x := 0; x < times; x++ {
					ex.Ops = append(ex.Ops, core.Op{K: "yaml", V: []core.Val{vals[i]}})
				}
			}
			k.Steps = [][]core.Exec{{ex}}
			recs[p] = append(recs[p], k)
		}
		for i, rr := range c.RunCases(Mode{}, recs[p], 20) {
			if c.Crashed(rr, Mode{}) {
				texts[p] = append(texts[p], nil)
				continue
			}
			var bad []string
			st := c.storedTexts(rr)
			for x := range rr.Case.Steps[0][0].Ops {
				k := rr.Call(0, 0, x)
				c.Count("go_texts_compared", 1)
				c.Eval(valText(rr.Case, x))
				if o := outcome(k); o != "added" || st[x] == nil {
					bad = append(bad, fmt.Sprintf("%s: %s %s", valText(rr.Case, x), o, callText(k)))
					continue
				}
				if a := st[x/times*times]; a != nil && *a != *st[x] {
					bad = append(bad, fmt.Sprintf("%s is stored as %q and as %q", valText(rr.Case, x), clipS(*a, 600), clipS(*st[x], 600)))
				}
				if p == 1 && i < len(texts[0]) && texts[0][i] != nil && texts[0][i][x] != nil && *texts[0][i][x] != *st[x] {
					bad = append(bad, fmt.Sprintf("%s is stored as %q by one process and as %q by another", valText(rr.Case, x), clipS(*texts[0][i][x], 600), clipS(*st[x], 600)))
				}
			}
			if len(bad) > 0 {
				c.Violate(replay(rr, Mode{}), "%s", clipS(strings.Join(bad, "; "), 2500))
				st = nil
			}
			texts[p] = append(texts[p], st)
		}
	}
	// replayed, also as the text that was stored
	for mi, m := range []Mode{{CI: "CI=true"}, Upd("true")} {
		var cs []core.Case
		for i, k := range recs[mi] {
			if i >= len(texts[mi]) || texts[mi][i] == nil {
				continue
			}
			k.ID += "r"
			ex := core.Exec{Test: "TestG", Ops: append([]core.Op(nil), k.Steps[0][0].Ops...)}
			for x := range ex.Ops {
				if x%times == 2 {
					s := yStored(*texts[mi][i][x])
					if v, ok := yVerdict(s); ok && v == 1 && core.NoCR(s) == s {
						ex.Ops[x].V = []core.Val{core.S(s)}
						c.Count("go_text_replayed", 1)
					}
				}
			}
			k.Steps = [][]core.Exec{{ex}}
			core.Age(k.Dir)
			cs = append(cs, k)
		}
		var before []core.Tree
		for _, k := range cs {
			before = append(before, core.Observe(k.Dir))
		}
		for i, rr := range c.RunCases(m, cs, 0) {
			if c.Crashed(rr, m) {
				continue
			}
			c.Count("replayed", len(rr.Calls))
			if k := allCalls(rr, "passed"); k != nil {
				c.Violate(replay(rr, m), "a Go value, or its text, does not pass (mode %s): %s: %s", m, valText(rr.Case, k.Op), callText(k))
			}
			if d := before[i].Diff(core.Observe(rr.Case.Dir), true); len(d) > 0 {
				c.Violate(replay(rr, m), "an equal value was written (mode %s): %v", m, d)
			}
		}
	}
	for p := range recs {
		for _, k := range recs[p] {
			os.RemoveAll(k.Dir)
		}
	}
}

// yStored undoes the spelling of separator lines.
func yStored(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if f, ok := sepFrom[l]; ok {
			ls[i] = f
		}
	}
	return strings.Join(ls, "\n")
}

var yBadForms = []string{"chan", "fn", "errjson"}

// c18valid gives texts that are or are not YAML.
func (c *Ctx) c18valid() {
	r := c.Rng("valid")
	alpha := []string{"a", "b: ", "- ", "\n", " ", "[", "]", "{", "}", ",", ":", "#", "---", "|", ">", "'", "\"", "&x", "*x", "!", "?", "%", "@", "`", "\t", "\\", "1", "\x00", "\xff"}
	cur := []string{""}
	var cands []string
	for k := 1; k <= 3; k++ {
		var next []string
		for _, p := range cur {
			for _, a := range alpha {
				next = append(next, p+a)
			}
		}
		cands = append(cands, next...)
		cur = next
	}
	cands = append(cands, "", " ", "\n", "a: b: c", "a: 1\n b: 2", "a: [1, 2", "a: {b: 1", "a: 'x", "a: \"x", "- a\nb: 1", "a:\n\t- b", "*x", "a: *x", "a: &x 1\nb: *y", "a: 1\na: 2\n", "{a: 1, a: 2}", "a: 1\n---\nb: [", "a: 1\n---\nb: *z\n", "---\n---\n[", "k: |\n  x\n y\n", "\"\\x\"", "a: 1\n  - b\n", "[1\n---\n]", "{\n---\n}", "a: }", "%YAML 9.9\n", "? [", "!!", "a: 'b' c", "a: \"b\" c", "[a]b: 1")
	for i := c.N(14000, 200000); i > 0; i-- {
		s := []byte(c.yAny(r))
		if len(s) > 4000 {
			continue
		}
		for k := r.Range(1, 3); k > 0; k-- {
			p := r.Intn(len(s) + 1)
			switch r.Intn(6) {
			case 0:
				s = append(s[:p:p], append([]byte(core.Pick(r, alpha)), s[p:]...)...)
			case 1:
				if p < len(s) {
					s = append(s[:p:p], s[p+1:]...)
				}
			case 2:
				if p < len(s) {
					s[p] = byte(r.Intn(256))
				}
			case 3:
				s = s[:p]
			case 4:
				s = append(s, s[p:]...)
			case 5:
				if p+1 < len(s) {
					s[p], s[p+1] = s[p+1], s[p]
				}
			}
		}
		cands = append(cands, string(s))
	}
	for i := c.N(400, 5000); i > 0; i-- {
		// CRLF documents are stored as they are
		cands = append(cands, strings.ReplaceAll(core.NoCR(c.yAny(r)), "\n", "\r\n"))
	}
	cands = dedup(cands)
	verdict := map[string]int{}
	var vals, bads []core.Val
	for i, s := range cands {
		v, ok := yVerdict(s)
		if !ok {
			c.Count("parser_panics_skipped", 1)
			continue
		}
		verdict[s] = v
		x := core.S(s)
		if i%2 == 1 {
			x = core.By(s)
		}
		vals = append(vals, x)
		if v < 0 {
			bads = append(bads, x)
		}
	}
	for i := 0; i < 25; i++ {
		for _, t := range yBadForms {
			vals = append(vals, core.Val{T: t, B: []byte("1")})
			bads = append(bads, core.Val{T: t, B: []byte("1")})
		}
	}
	want := func(v core.Val) int {
		if v.T == "s" || v.T == "b" {
			return verdict[string(v.B)]
		}
		return -1
	}
	r.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
	var cs []core.Case
	const per = 80
	for lo := 0; lo < len(vals); lo += per {
		k := c.NewCase()
		k.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}}
		k.Watch = true
		ex := core.Exec{Test: "TestV"}
		for i := lo; i < min(lo+per, len(vals)); i++ {
			ex.Ops = append(ex.Ops, core.Op{K: "yaml", V: []core.Val{vals[i]}})
			if r.Chance(0.1) {
				ex.Ops[len(ex.Ops)-1].M = yNoop(r)
			}
		}
		k.Steps = [][]core.Exec{{ex}}
		cs = append(cs, k)
	}
	for _, rr := range c.RunCases(Mode{}, cs, 0) {
		if c.Crashed(rr, Mode{}) {
			continue
		}
		var bad []string
		st := c.storedTexts(rr)
		for x, op := range rr.Case.Steps[0][0].Ops {
			k := rr.Call(0, 0, x)
			v := op.V[0]
			o, w := outcome(k), want(v)
			c.Eval(v.T + string(v.B))
			switch {
			case w > 0 && o == "added":
				c.Count("valid_accepted", 1)
			case w < 0 && o == "failed":
				c.Count("invalid_rejected", 1)
			case w == 0 && (o == "added" || o == "failed"):
				c.Count("disputed_"+o, 1)
			default:
				bad = append(bad, fmt.Sprintf("%s, which %s: %s %s", valText(rr.Case, x), map[int]string{1: "both parsers read", -1: "both parsers reject", 0: "the parsers disagree on"}[w], o, callText(k)))
				continue
			}
			switch {
			case o == "failed" && (len(k.Wrote) > 0 || st[x] != nil):
				bad = append(bad, fmt.Sprintf("%s failed, but wrote %v", valText(rr.Case, x), k.Wrote))
			case o == "added" && st[x] == nil:
				bad = append(bad, fmt.Sprintf("%s: nothing stored", valText(rr.Case, x)))
			case o == "added" && (v.T == "s" || v.T == "b"):
				if d := c.verb(string(v.B), *st[x]); d != "" {
					bad = append(bad, fmt.Sprintf("%s is stored as %q: %s", valText(rr.Case, x), clipS(*st[x], 400), d))
				} else if strings.Contains(string(v.B), "\r\n") {
					c.Count("crlf_stored", 1)
				}
			}
		}
		if len(bad) > 0 {
			c.Violate(replay(rr, Mode{}), "%s", clipS(strings.Join(bad, "; "), 2500))
		}
		if c.TooMany() {
			break
		}
	}
	// invalid input against existing slots
	for mi, m := range []Mode{Upd("true"), {CI: "CI=true"}, {}} {
		var k2 []core.Case
		var before []core.Tree
		for i, k := range cs {
			if i%3 != mi {
				continue
			}
			k.ID += "u"
			ex := core.Exec{Test: "TestV"}
			for range k.Steps[0][0].Ops {
				op := core.Op{K: "yaml", V: []core.Val{core.Pick(r, bads)}}
				if r.Chance(0.2) {
					op.M = yNoop(r)
				}
				ex.Ops = append(ex.Ops, op)
			}
			k.Steps = [][]core.Exec{{ex}}
			core.Age(k.Dir)
			before = append(before, core.Observe(k.Dir))
			k2 = append(k2, k)
		}
		for i, rr := range c.RunCases(m, k2, 0) {
			if c.Crashed(rr, m) {
				continue
			}
			c.Count("invalid_rejected", len(rr.Calls))
			if k := allCalls(rr, "failed"); k != nil {
				c.Violate(replay(rr, m), "invalid input (mode %s): %s: %s %s", m, outcome(k), valText(rr.Case, k.Op), callText(k))
			}
			if d := before[i].Diff(core.Observe(rr.Case.Dir), true); len(d) > 0 {
				c.Violate(replay(rr, m), "invalid input wrote (mode %s): %v", m, d)
			}
		}
	}
	for _, k := range cs {
		os.RemoveAll(k.Dir)
	}
}

// c18known: texts that are not YAML which goccy/go-yaml reads.
func (c *Ctx) c18known() {
	for _, s := range []string{"}", ",", "a: }\n", "a: 1\n---\n]\n"} {
		k := c.NewCase()
		k.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}}
		k.Steps = [][]core.Exec{{{Test: "TestK", Ops: []core.Op{{K: "yaml", V: []core.Val{core.S(s)}}}}}}
		rr := c.RunCases(Mode{}, []core.Case{k}, 0)[0]
		if c.Crashed(rr, Mode{}) {
			continue
		}
		if o := outcome(rr.Call(0, 0, 0)); o != "failed" {
			c.Known("C18-lenient-parser", fmt.Sprintf("%q is not YAML, but is %s", s, o), replay(rr, Mode{}))
			break
		}
	}
	// keys of different types that have the same text
	k := c.NewCase()
	k.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}}
	ex := core.Exec{Test: "TestK"}
	for i := 0; i < 60; i++ {
		ex.Ops = append(ex.Ops, core.Op{K: "yaml", V: []core.Val{{T: "ycollide", B: []byte("{}")}}})
	}
	k.Steps = [][]core.Exec{{ex}}
	rr := c.RunCases(Mode{}, []core.Case{k}, 0)[0]
	if c.Crashed(rr, Mode{}) {
		return
	}
	fail, first := "", ""
	for i, s := range c.storedTexts(rr) {
		switch {
		case s == nil:
			fail = "not stored: " + callText(rr.Call(0, 0, i))
		case i == 0:
			first = *s
		case *s != first:
			fail = fmt.Sprintf("map[any]any{1: _, \"1\": _, 1.0: _} is stored as %q and as %q", first, *s)
		}
	}
	c.Known("C18-colliding-keys", fail, replay(rr, Mode{}))
}
