package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifh/core"
)

func init() { checks["C14"] = checkC14 }

// goForms are the Go value types used as JSON input; each is also given as
// its standard encoding.
var goForms = []string{"raw", "js", "user", "puser", "nstr", "nbytes", "pstr", "pbytes", "ppany", "stringer", "jnum", "nilptr", "nilmap", "nilsl", "nilraw", "prraw", "array", "msany", "mint", "rune", "floats", "embed", "structs", "i", "f", "bool", "nil", "cust", "time", "mss", "users"}
var badForms = []string{"chan", "fn", "nan", "mchan", "cyclic", "mbool", "badraw", "badnum", "badcust", "errjson"}

func formVal(r *core.Rng, t string, doc string) core.Val {
	switch t {
	case "user", "puser":
		return core.Val{T: t, B: []byte(userJSON(r))}
	case "users":
		return core.Val{T: t, B: []byte("[" + userJSON(r) + "," + userJSON(r) + "]")}
	case "i":
		return core.Val{T: t, B: []byte(fmt.Sprint(r.Intn(1e9)))}
	case "f":
		return core.Val{T: t, B: []byte(core.Pick(r, []string{"0.1", "1e21", "-3", "1e-9"}))}
	case "bool":
		return core.Val{T: t, B: []byte("true")}
	case "mss":
		return core.Val{T: t, B: []byte(`{"b":"<x>","a":"1","Z":""}`)}
	}
	return core.Val{T: t, B: []byte(doc)}
}

func (v *jGen) opts(r *core.Rng) *core.JSONOpt {
	return &core.JSONOpt{Width: core.Pick(r, []int{0, 1, 4, 20, 80, 1000, -1}), Indent: core.Pick(r, []string{"", " ", "  ", "\t", "    ", " \t "}), SortKeys: r.Chance(0.5)}
}

type jGen struct{}

// jGroup is a set of calls that must store the same text.
type jGroup struct {
	what string
	ops  []int      // op indices
	doc  *core.JVal // nil: not known
}

type jCase struct {
	cs     core.Case
	groups []jGroup
	alt    []core.Op // the same calls with other members of their group
}

func checkC14(c *Ctx) {
	c.rule = "random documents (nesting down to hundreds of levels, hundreds of members, odd and escaped keys, numbers of every shape, unicode, empty containers, long arrays around the width limit) in whitespace, member-order and escape-preserving presentations as string and []byte, and 30 Go types against their standard encoding, under default and random format options, for both APIs: one stored text per group, equal value by encoding/json, replay with another member of the group passes; all strings of <=4 bytes over a JSON alphabet and random corruptions, deep and wide texts: stored iff encoding/json accepts them, otherwise one error and no write in every mode; non-trivial = distinct document x format, distinct candidate text"
	c.assume = []string{"no object with duplicate member names (their JSON value is not defined)", "format indentation is white space", "nesting below the 10000 levels encoding/json accepts"}
	c.timed("docs", c.c14docs)
	c.timed("valid", c.c14valid)
	c.need(1000, "texts_compared", "values_compared", "invalid_rejected", "valid_accepted")
	c.need(100, "format_options", "go_values", "deep_and_wide")
	c.need(16, "deep_documents")
}

func (c *Ctx) c14docs() {
	r := c.Rng("docs")
	n := c.N(1800, 25000)
	var js []*jCase
	for i := 0; i < n; i++ {
		j := &jCase{cs: c.NewCase()}
		j.cs.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}, {Dir: ptr("$CASE/f"), JSON: (&jGen{}).opts(r)}}
		if r.Chance(0.1) {
			j.cs.Cfgs[1].JSON = &core.JSONOpt{}
		}
		d := jDoc(r)
		if i < 16 {
			d = jDeep(c, r, i)
		}
		ex := core.Exec{Test: "TestJ"}
		for cfg := 0; cfg < 2; cfg++ {
			if cfg == 1 {
				c.Count("format_options", 1)
			}
			for _, kind := range []string{"json", "sjson"} {
				g := jGroup{what: fmt.Sprintf("presentations of one document (%s, format %v)", kind, j.cs.Cfgs[cfg].JSON), doc: d}
				add := func(v core.Val) {
					g.ops = append(g.ops, len(ex.Ops))
					ex.Ops = append(ex.Ops, core.Op{K: kind, C: cfg, V: []core.Val{v}})
				}
				add(core.S(d.Text(r, false, false, false)))
				add(core.By(d.Text(r, false, false, false)))
				for k := 0; k < 2; k++ {
					add(core.S(d.Text(r, true, cfg == 0, false)))
					add(core.By(d.Text(r, true, cfg == 0, false)))
				}
				j.groups = append(j.groups, g)
				// Go values against their encoding
				for k := 0; k < 2; k++ {
					t := core.Pick(r, goForms)
					if k == 0 {
						t = core.Pick(r, []string{"raw", "js"})
					}
					if t == "js" && d.K == 's' {
						t = "ppany" // a plain Go string is a document
					}
					v := formVal(r, t, d.Text(r, t == "raw" && r.Chance(0.3), false, false))
					g := jGroup{what: fmt.Sprintf("a Go value (%s) and its encoding (%s)", t, kind)}
					if t == "raw" || t == "cust" {
						g.doc = d
					}
					for _, form := range []string{"", "ms:", "mb:"} {
						w := v
						w.T = form + v.T
						g.ops = append(g.ops, len(ex.Ops))
						ex.Ops = append(ex.Ops, core.Op{K: kind, C: cfg, V: []core.Val{w}})
					}
					c.Count("go_values", 1)
					j.groups = append(j.groups, g)
				}
			}
		}
		j.cs.Steps = [][]core.Exec{{ex}}
		js = append(js, j)
	}
	var cs []core.Case
	for _, j := range js {
		cs = append(cs, j.cs)
	}
	for i, rr := range c.RunCases(Mode{}, cs, 0) {
		j := js[i]
		if c.Crashed(rr, Mode{}) {
			j.groups = nil
			continue
		}
		c.Eval(j.groups[0].doc.Key() + fmt.Sprint(*j.cs.Cfgs[1].JSON))
		texts, bad := storedJSON(rr)
		for gi := range j.groups {
			g := &j.groups[gi]
			for x, oi := range g.ops {
				k := rr.Call(0, 0, oi)
				if o := outcome(k); o != "added" {
					bad = append(bad, fmt.Sprintf("%s: %s %s", g.what, o, callText(k)))
					continue
				}
				c.Count("texts_compared", 1)
				if texts[oi] != texts[g.ops[0]] {
					bad = append(bad, fmt.Sprintf("%s: %s stores %q, %s stores %q", g.what, valText(rr.Case, oi), clipS(texts[oi], 200), valText(rr.Case, g.ops[0]), clipS(texts[g.ops[0]], 200)))
				}
				if x > 0 {
					continue
				}
				p := parseJSON(texts[oi])
				c.Count("values_compared", 1)
				if p == nil {
					bad = append(bad, fmt.Sprintf("%s: stored text is not JSON: %q", g.what, clipS(texts[oi], 200)))
				} else if g.doc != nil && p.Key() != g.doc.Key() {
					bad = append(bad, fmt.Sprintf("%s: stored text %q has another value than %s", g.what, clipS(texts[oi], 300), valText(rr.Case, oi)))
				} else if g.doc == nil {
					// the encoding is given as text by the second call: same
					// text, so only validity is left to see
				}
			}
		}
		if len(bad) > 0 {
			c.Violate(replay(rr, Mode{}), "%s", clipS(strings.Join(bad, "; "), 2500))
			j.groups = nil
			continue
		}
		if i == 0 {
			c.Sample(map[string]any{"document": j.groups[0].doc.Key(), "stored": texts[0], "format": j.cs.Cfgs[1].JSON})
		}
	}
	// replay with the members of each group rotated
	for _, m := range []Mode{{CI: "CI=true"}, Upd("true")} {
		cs = nil
		var at []int
		for i, j := range js {
			if j.groups == nil || (m.CI == "" && i%3 > 0) {
				continue
			}
			k := j.cs
			k.ID += "r" + m.CI
			ex := core.Exec{Test: "TestJ", Ops: append([]core.Op(nil), j.cs.Steps[0][0].Ops...)}
			for _, g := range j.groups {
				rot := r.Range(1, len(g.ops)-1)
				for x, oi := range g.ops {
					ex.Ops[oi] = j.cs.Steps[0][0].Ops[g.ops[(x+rot)%len(g.ops)]]
				}
			}
			k.Steps = [][]core.Exec{{ex}}
			core.Age(k.Dir)
			cs = append(cs, k)
			at = append(at, i)
		}
		var before []core.Tree
		for _, k := range cs {
			before = append(before, core.Observe(k.Dir))
		}
		for x, rr := range c.RunCases(m, cs, 0) {
			if c.Crashed(rr, m) {
				continue
			}
			c.Count("replayed", len(rr.Calls))
			if k := allCalls(rr, "passed"); k != nil {
				c.Violate(replay(rr, m), "another presentation of the stored document does not pass (mode %s): %s", m, callText(k))
			}
			if d := before[x].Diff(core.Observe(rr.Case.Dir), true); len(d) > 0 {
				c.Violate(replay(rr, m), "an equal document was rewritten (mode %s): %v", m, d)
			}
		}
	}
	for _, j := range js {
		os.RemoveAll(j.cs.Dir)
	}
}

// jDeep is a deep or a wide document.
func jDeep(c *Ctx, r *core.Rng, i int) *core.JVal {
	c.Count("deep_documents", 1)
	if i%2 == 1 {
		return jLarge(c, i/2%jShapes, "cover", "rest")
	}
	d := &core.JVal{K: 's', S: "bottom"}
	for k := []int{40, 70, 130, 205, 260, 300, 400, 520}[i/2%8]; k > 0; k-- {
		if r.Chance(0.5) {
			d = &core.JVal{K: 'a', Elem: []*core.JVal{d}}
		} else {
			d = &core.JVal{K: 'o', Keys: []string{"a"}, Elem: []*core.JVal{d}}
		}
	}
	return d
}

func valText(cs *core.Case, oi int) string {
	v := cs.Steps[0][0].Ops[oi].V[0]
	return fmt.Sprintf("%s(%q)", v.T, clipS(string(v.B), 200))
}

// jDoc is a document; some have arrays whose length is near the width limit.
func jDoc(r *core.Rng) *core.JVal {
	d := core.GenJSON(r, r.Range(1, 5), r.Chance(0.5))
	if r.Chance(0.3) {
		a := &core.JVal{K: 'a'}
		for k := r.Intn(30); k > 0; k-- {
			a.Elem = append(a.Elem, core.GenJSON(r, core.Pick(r, []int{0, 0, 0, 0, 1}), false))
		}
		d = &core.JVal{K: 'o', Keys: []string{"list", "doc"}, Elem: []*core.JVal{a, d}}
	}
	if r.Chance(0.01) {
		a := &core.JVal{K: 'a'}
		for k := r.Range(2000, 5000); k > 0; k-- {
			a.Elem = append(a.Elem, core.GenJSON(r, 0, false))
		}
		d = &core.JVal{K: 'o', Keys: []string{"long", "list", "doc"}, Elem: []*core.JVal{{K: 's', S: strings.Repeat("0123456789", 7000)}, a, d}}
	}
	if r.Chance(0.05) {
		for k := r.Range(5, 60); k > 0; k-- {
			d = &core.JVal{K: 'a', Elem: []*core.JVal{d}}
			if r.Chance(0.5) {
				d = &core.JVal{K: 'o', Keys: []string{"n"}, Elem: d.Elem}
			}
		}
	}
	return d
}

// storedJSON reads back what every op of the only exec stored.
func storedJSON(rr *Res) ([]string, []string) {
	var bad []string
	ops := rr.Case.Steps[0][0].Ops
	out := make([]string, len(ops))
	cnt := map[string]int{}
	parsed := map[string][]core.Entry{}
	t := core.Observe(rr.Case.Dir)
	m := newModel(rr.Case.Dir, rr.Case.Cfgs, bulkBase)
	for i := range ops {
		p, sa := m.Path(&ops[i], rr.Case.Steps[0][0].Test)
		cnt[p]++
		k := cnt[p]
		if sa {
			rel, _ := filepath.Rel(rr.Case.Dir, saPath(p, k))
			st, ok := t[rel]
			if !ok {
				bad = append(bad, "missing file "+rel)
			}
			out[i] = string(st.Data)
			continue
		}
		rel, _ := filepath.Rel(rr.Case.Dir, p)
		if parsed[p] == nil {
			es, err := core.ParseSnap(t[rel].Data)
			if err != nil {
				bad = append(bad, err.Error())
			}
			parsed[p] = append(es, core.Entry{})
		}
		raw, ok := core.Get(parsed[p], fmt.Sprintf("%s - %d", rr.Case.Steps[0][0].Test, k))
		if !ok {
			bad = append(bad, fmt.Sprintf("missing entry %d in %s", k, rel))
		}
		out[i] = raw
	}
	return out, bad
}

// c14valid gives texts that are or are not JSON.
func (c *Ctx) c14valid() {
	r := c.Rng("valid")
	alpha := []string{"{", "}", "[", "]", "\"", ",", ":", "0", "1", "-", ".", "e", "+", " ", "\n", "\\", "a", "\x00", "\x80", "/"}
	var cands []string
	cur := []string{""}
	max := c.N(3, 4)
	for k := 1; k <= max; k++ {
		var next []string
		for _, p := range cur {
			for _, a := range alpha {
				next = append(next, p+a)
			}
		}
		cands = append(cands, next...)
		cur = next
	}
	// deeper over fewer symbols
	few := []string{"\"", "\\", "u", "0", "[", "]", "-", "."}
	cur = []string{""}
	for k := 1; k <= c.N(4, 6); k++ {
		var next []string
		for _, p := range cur {
			for _, a := range few {
				next = append(next, p+a)
			}
		}
		if k > 3 {
			cands = append(cands, next...)
		}
		cur = next
	}
	cands = append(cands, "", " ", "nul", "null", "nulll", "true", "tru", "false", "True", "NaN", "Infinity", "-", "01", "1.", ".5", "+1", "1e", "1e+", "0x1", "'a'", "{a:1}", "{\"a\":1,}", "[1,]", "[,1]", "{\"a\"}", "{\"a\":}", "\"\\x\"", "\"\\u12\"", "\"\\ud800\"", "\"\x01\"", "\"\n\"", "\"\t\"", "// c\n1", "/*c*/1", "1 2", "{}{}", "[]x", "\ufeff1", "\"\x7f\"", "\"\xff\"", "\v1", "1\f", "1\u00a0", "\u20281", "{\"a\":1 \"b\":2}", "[1 2]", "{1:2}", "{null:1}", "\"abc", "abc\"", "[[[[", "{\"a\":{\"b\":[}}", "-0", "-01", "1E400", "1.0e-10", "[1]]", "\x00", "1\x00", "{\"a\":1}\n---\n", "\"\\\"", "undefined")
	for i := c.N(6000, 80000); i > 0; i-- {
		s := []byte(core.GenJSON(r, 3, true).Text(r, r.Chance(0.5), false, r.Chance(0.5)))
		for k := r.Range(1, 2); k > 0; k-- {
			p := r.Intn(len(s) + 1)
			switch r.Intn(6) {
			case 0:
				s = append(s[:p:p], append([]byte(core.Pick(r, alpha)), s[p:]...)...)
			case 1:
				if p < len(s) {
					s = append(s[:p:p], s[p+1:]...)
				}
			case 2:
				if p < len(s) {
					s[p] = byte(r.Intn(256))
				}
			case 3:
				s = s[:p]
			case 4:
				s = append(s, s[p:]...)
			case 5:
				if p+1 < len(s) {
					s[p], s[p+1] = s[p+1], s[p]
				}
			}
		}
		cands = append(cands, string(s))
	}
	for i := c.N(2500, 20000); i > 0; i-- {
		cands = append(cands, core.GenJSON(r, 3, true).Text(r, r.Chance(0.5), false, true))
	}
	// deep and wide documents
	for _, n := range []int{20, 33, 65, 100, 129, 200, 201, 255, 256, 257, 300, 511, 513, 1000, 1025} {
		o, m := strings.Repeat(`{"a":`, n), strings.Repeat(`[{"k":`, n)
		cands = append(cands,
			strings.Repeat("[", n)+strings.Repeat("]", n), strings.Repeat("[", n)+"1"+strings.Repeat(" ]", n),
			strings.Repeat("[", n)+strings.Repeat("]", n-1), strings.Repeat("[", n)+strings.Repeat("]", n+1),
			o+"null"+strings.Repeat("}", n), o+strings.Repeat("}", n), o+"1"+strings.Repeat("}", n-1),
			m+`""`+strings.Repeat("}]", n), m+`""`+strings.Repeat("}]", n-1),
			"["+strings.Repeat("[],", n)+"{}]", "["+strings.Repeat("1, ", n)+"2]", "["+strings.Repeat("1, ", n)+"]",
			"["+strings.Repeat("\"[{\",", n)+"0]", "\""+strings.Repeat("[", n)+"\"", "\""+strings.Repeat("\\\"", n)+"\"", strings.Repeat("1", n), strings.Repeat(" ", n)+"1"+strings.Repeat("\n", n), "0."+strings.Repeat("0", n)+"1")
		c.Count("deep_and_wide", 18)
	}
	cands = dedup(cands)
	var vals []core.Val
	for i, s := range cands {
		if i%2 == 0 {
			vals = append(vals, core.S(s))
		} else {
			vals = append(vals, core.By(s))
		}
	}
	for i := 0; i < 20; i++ {
		for _, t := range badForms {
			vals = append(vals, core.Val{T: t, B: []byte("1")})
		}
	}
	r.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
	bad := func(v core.Val) bool {
		if v.T == "s" || v.T == "b" {
			return !json.Valid(v.B)
		}
		return true
	}
	var cs []core.Case
	per := 120
	for lo := 0; lo < len(vals); lo += per {
		k := c.NewCase()
		k.Cfgs = []core.Cfg{{Dir: ptr("$CASE")}}
		ex := core.Exec{Test: "TestV"}
		for i := lo; i < min(lo+per, len(vals)); i++ {
			ex.Ops = append(ex.Ops, core.Op{K: core.Pick(r, []string{"json", "sjson"}), V: []core.Val{vals[i]}})
		}
		k.Steps = [][]core.Exec{{ex}}
		cs = append(cs, k)
	}
	for i, rr := range c.RunCases(Mode{}, cs, 0) {
		if c.Crashed(rr, Mode{}) {
			continue
		}
		// slots of rejected calls stay empty, the others hold their document
		m := newModel(rr.Case.Dir, rr.Case.Cfgs, bulkBase)
		t := core.Observe(rr.Case.Dir)
		es, err := core.ParseSnap(t["main_test.snap"].Data)
		var msgs []string
		if err != nil {
			msgs = append(msgs, err.Error())
		}
		cnt := map[string]int{}
		stored := 0
		ops := rr.Case.Steps[0][0].Ops
		for oi := range ops {
			v := ops[oi].V[0]
			p, sa := m.Path(&ops[oi], "TestV")
			cnt[p]++
			want := "added"
			if bad(v) {
				want = "failed"
				c.Count("invalid_rejected", 1)
			} else {
				stored++
				c.Count("valid_accepted", 1)
			}
			c.Eval(v.T + string(v.B))
			k := rr.Call(0, 0, oi)
			if o := outcome(k); o != want {
				msgs = append(msgs, fmt.Sprintf("%s of %s: %s, expected %s", k.K, valText(rr.Case, oi), o, want))
				continue
			}
			var text string
			var ok bool
			if sa {
				rel, _ := filepath.Rel(rr.Case.Dir, saPath(p, cnt[p]))
				st, o := t[rel]
				text, ok = string(st.Data), o
			} else {
				text, ok = core.Get(es, fmt.Sprintf("TestV - %d", cnt[p]))
			}
			if ok != (want == "added") {
				msgs = append(msgs, fmt.Sprintf("%s of %s: stored=%v", k.K, valText(rr.Case, oi), ok))
				continue
			}
			if ok {
				d, e := parseJSON(text), parseJSON(string(v.B))
				if d == nil || (e != nil && !hasDup(e) && d.Key() != e.Key()) {
					msgs = append(msgs, fmt.Sprintf("%s of %s stores %q", k.K, valText(rr.Case, oi), clipS(text, 200)))
				}
			}
		}
		if n := len(es) + len(t.Files()) - b2i(len(es) > 0); n != stored {
			msgs = append(msgs, fmt.Sprintf("%d documents stored, %d were valid", n, stored))
		}
		if len(msgs) > 0 {
			c.Violate(map[string]any{"complaints": msgs, "case": rr.Case}, "%s", clipS(strings.Join(msgs, "; "), 2000))
		}
		_ = i
	}
	// invalid input against existing slots, in modes that may write
	for _, m := range []Mode{Upd("true"), {CI: "CI=true"}, {}} {
		var k2 []core.Case
		var before []core.Tree
		for i, k := range cs {
			if i%4 != 0 {
				continue
			}
			k.ID += "u" + m.String()
			ex := core.Exec{Test: "TestV"}
			for _, o := range k.Steps[0][0].Ops {
				x := vals[r.Intn(len(vals))]
				for !bad(x) {
					x = vals[r.Intn(len(vals))]
				}
				o.V = []core.Val{x}
				ex.Ops = append(ex.Ops, o)
			}
			k.Steps = [][]core.Exec{{ex}}
			core.Age(k.Dir)
			before = append(before, core.Observe(k.Dir))
			k2 = append(k2, k)
		}
		for i, rr := range c.RunCases(m, k2, 0) {
			if c.Crashed(rr, m) {
				continue
			}
			c.Count("invalid_rejected", len(rr.Calls))
			if k := allCalls(rr, "failed"); k != nil {
				c.Violate(replay(rr, m), "invalid input (mode %s): %s: %s %s", m, outcome(k), valText(rr.Case, k.Op), callText(k))
			}
			if d := before[i].Diff(core.Observe(rr.Case.Dir), true); len(d) > 0 {
				c.Violate(replay(rr, m), "invalid input wrote (mode %s): %v", m, d)
			}
		}
	}
	for _, k := range cs {
		os.RemoveAll(k.Dir)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// hasDup: some object has two members with the same (decoded) name.
func hasDup(v *core.JVal) bool {
	seen := map[string]bool{}
	for _, k := range v.Keys {
		if seen[k] {
			return true
		}
		seen[k] = true
	}
	for _, e := range v.Elem {
		if hasDup(e) {
			return true
		}
	}
	return false
}
