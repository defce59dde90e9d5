package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"

	"verifh/core"

	goccy "github.com/goccy/go-yaml"
	y3 "gopkg.in/yaml.v3"
)

func init() { checks["C15"] = checkC15 }

func checkC15(c *Ctx) {
	c.rule = "random JSON documents (odd and escaped keys, numbers beyond float64, nesting) and YAML streams (block and flow styles, literals, comments, anchors, several documents) with chains of 1-4 matchers over 1-3 existing paths each (also wildcards and paths into earlier placeholders), applied directly and through MatchJSON / MatchStandaloneJSON / MatchYAML as string, []byte, RawMessage and Go value; expected document computed on the parsed tree, left to right; bytes given to every matcher (48 bytes of spare capacity included) compared before and after; non-trivial = distinct document x chain" + largeRule
	c.assume = []string{"no duplicate member names, no empty member name in a path", "YAML documents valid under both goccy/go-yaml and yaml.v3", "a reported error instead of a replacement is allowed by the property (C16 and C17 decide when an error may be reported)"}
	c.c15known()
	c.timed("json", c.c15json)
	c.timed("yaml", c.c15yaml)
	c.need(15, "large_documents")
	c.need(1000, "json_chains_compared", "yaml_chains_compared", "buffers_watched")
	c.need(100, "json_calls_compared", "yaml_calls_compared", "replaced_shorter", "replaced_longer", "custom_values_seen")
}

// mChain is a document with a chain and what the model makes of it.
type mChain struct {
	text  string
	specs []mSpec
	base  *core.JVal
	want  *core.JVal
	errs  []failing
	loose map[*core.JVal]bool
}

func newJChain(r *core.Rng, g mGen, d *core.JVal) *mChain {
	m := &mChain{base: d}
	m.specs = g.jSpecs(r, d.Clone())
	m.want = d.Clone()
	m.errs, m.loose = jApply(m.want, m.specs)
	return m
}

func (m *mChain) multi() bool {
	for _, s := range m.specs {
		for _, p := range s.paths {
			for _, e := range p {
				if _, ok := e.(allStep); ok {
					return true
				}
			}
		}
	}
	return false
}

// dirty reports what a call did to the caller's data.
func (c *Ctx) dirty(k *core.CallRes) string {
	if k == nil {
		return "the call was not made"
	}
	c.Count("buffers_watched", 1)
	if k.Buf != "" {
		return k.Buf
	}
	if k.Panic != "" {
		return "panic: " + clipS(k.Panic, 600)
	}
	return ""
}

// c15known: gjson reads the text of a string element for what follows #.
func (c *Ctx) c15known() {
	k := c.NewCase()
	k.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}}
	k.Steps = [][]core.Exec{{{Test: "TestK", Ops: []core.Op{{K: "mj", V: []core.Val{core.By(`{"list":["[1]",["a"]],"a":1}`)}, M: []core.Matcher{{K: "any", Paths: []string{"list.#.0"}}}}}}}}
	rr := c.RunCases(Mode{}, []core.Case{k}, 0)[0]
	if c.Crashed(rr, Mode{}) {
		return
	}
	fail := ""
	want := `{"list":["[1]",["<Any value>"]],"a":1}`
	if o := rr.Call(0, 0, 0); o == nil || len(o.Outs) != 1 || string(o.Outs[0].Out) != want {
		fail = "any(list.#.0) does not give " + want
		if o != nil && len(o.Outs) == 1 {
			fail += fmt.Sprintf(" but %q %v", o.Outs[0].Out, o.Outs[0].Errs)
		}
	}
	c.Known("C15-gjson-strings", fail, replay(rr, Mode{}))
}

func (c *Ctx) c15json() {
	r := c.Rng("json")
	g := mGen{ignore: 0.1, multi: 0.1, maxM: 4, maxPaths: 3}
	type jcase struct {
		cs     core.Case
		chains []*mChain // one per op
		order  []bool
	}
	var js []*jcase
	for i := 0; i < c.N(5000, 60000); i++ {
		j := &jcase{cs: c.NewCase()}
		j.cs.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}, {Dir: ptr("$CASE/f"), JSON: &core.JSONOpt{Width: 80, Indent: " ", SortKeys: false}}}
		ex := core.Exec{Test: "TestJ"}
		add := func(op core.Op, m *mChain, ordered bool) {
			op.M = specMs(m.specs)
			ex.Ops = append(ex.Ops, op)
			j.chains = append(j.chains, m)
			j.order = append(j.order, ordered)
		}
		var d *core.JVal
		if i%2 == 0 {
			d = core.GenJSONObj(r, r.Range(1, 4), true)
		} else {
			d = jDoc(r)
		}
		for k := 0; k < 3; k++ {
			m := newJChain(r, g, d)
			if i < jShapes && k < 2 {
				d = jLarge(c, i%jShapes, "cover", "rest")
				m = &mChain{base: d, specs: jLargeSpecs(c, r, i%jShapes, false), want: d.Clone()}
				m.errs, m.loose = jApply(m.want, m.specs)
				c.Count("large_documents", 1)
			}
			m.text = d.Text(r, r.Chance(0.4), false, r.Chance(0.3))
			add(core.Op{K: "mj", V: []core.Val{core.By(m.text)}}, m, true)
			if k == 0 {
				// the same matcher values on a second document
				add(core.Op{K: "mj", V: []core.Val{core.By(d.Text(r, true, false, false)), core.By(m.text)}}, m, true)
			}
			if k < 2 {
				v := core.Val{T: core.Pick(r, []string{"s", "b", "b", "raw"}), B: []byte(m.text)}
				add(core.Op{K: core.Pick(r, []string{"json", "sjson"}), C: 1, V: []core.Val{v}}, m, v.T != "raw")
				v.T = core.Pick(r, []string{"s", "b", "raw", "js"})
				if v.T == "js" && (d.K == 's' || hasNum(d, "1e400") || hasBig(d)) {
					v.T = "raw"
				}
				add(core.Op{K: core.Pick(r, []string{"json", "sjson"}), C: 0, V: []core.Val{v}}, m, false)
			}
		}
		j.cs.Steps = [][]core.Exec{{ex}}
		js = append(js, j)
	}
	var cs []core.Case
	for _, j := range js {
		cs = append(cs, j.cs)
	}
	for i, rr := range c.RunCases(Mode{}, cs, 0) {
		j := js[i]
		if c.Crashed(rr, Mode{}) {
			continue
		}
		var bad []string
		stored := c.storedTexts(rr)
		for oi, m := range j.chains {
			op := &rr.Case.Steps[0][0].Ops[oi]
			k := rr.Call(0, 0, oi)
			if d := c.dirty(k); d != "" {
				bad = append(bad, fmt.Sprintf("%s %s with %s: %s", op.K, valText(rr.Case, oi), specText(m.specs), d))
				continue
			}
			c.Eval(m.base.Key() + specText(m.specs))
			var outs [][]byte
			if op.K == "mj" {
				for _, o := range k.Outs {
					if len(o.Errs) == 0 {
						outs = append(outs, o.Out)
					}
				}
			} else if outcome(k) == "added" {
				if s := stored[oi]; s != nil {
					outs = append(outs, []byte(*s))
				} else {
					bad = append(bad, "reported as added but not found: "+valText(rr.Case, oi))
				}
			}
			if len(outs) == 0 {
				c.Count("json_errors_reported", 1)
				if len(m.errs) == 0 && !m.multi() {
					c.Count("json_errors_not_predicted", 1)
				}
				continue
			}
			if len(m.errs) > 0 {
				c.Count("json_errors_missed", 1)
				continue
			}
			for _, o := range outs {
				got := parseJSON(string(o))
				what := fmt.Sprintf("%s %s with %s gives %q", op.K, valText(rr.Case, oi), specText(m.specs), clipS(string(o), 500))
				if got == nil {
					bad = append(bad, what+": not valid JSON")
					continue
				}
				if d := jCmp(m.want, got, m.loose, false, j.order[oi], ""); d != "" {
					bad = append(bad, what+": "+d)
					continue
				}
				if op.K == "mj" {
					c.Count("json_chains_compared", 1)
					if len(o) < len(m.text) {
						c.Count("replaced_shorter", 1)
					} else {
						c.Count("replaced_longer", 1)
					}
				} else {
					c.Count("json_calls_compared", 1)
				}
			}
			c.Count("custom_values_seen", len(k.CBs))
		}
		if len(bad) > 0 {
			c.Violate(replay(rr, Mode{}), "%s", clipS(strings.Join(bad, "; "), 2500))
			if c.TooMany() {
				return
			}
		}
		if i == 0 {
			c.Sample(map[string]any{"document": j.chains[0].text, "chain": specText(j.chains[0].specs), "result": string(rr.Call(0, 0, 0).Outs[0].Out)})
		}
	}
}

func hasNum(v *core.JVal, s string) bool {
	if v.K == 'n' && v.S == s {
		return true
	}
	for _, e := range v.Elem {
		if hasNum(e, s) {
			return true
		}
	}
	return false
}

// hasBig: decoding into float64 and encoding again would change a number's text.
func hasBig(v *core.JVal) bool {
	if v.K == 'n' {
		x, ok := jGo(v)
		return !ok || fmt.Sprint(x) != v.S
	}
	for _, e := range v.Elem {
		if hasBig(e) {
			return true
		}
	}
	return false
}

// storedTexts gives the text stored by every call of the single exec that
// succeeded; nil where there is none. Calls of failing matchers take a slot too.
func (c *Ctx) storedTexts(rr *Res) []*string {
	ops := rr.Case.Steps[0][0].Ops
	out := make([]*string, len(ops))
	cnt := map[string]int{}
	parsed := map[string][]core.Entry{}
	t := core.Observe(rr.Case.Dir)
	m := newModel(rr.Case.Dir, rr.Case.Cfgs, bulkBase)
	for i := range ops {
		if ops[i].K == "mj" || ops[i].K == "my" {
			continue
		}
		test := rr.Case.Steps[0][0].Test
		p, sa := m.Path(&ops[i], test)
		cnt[p]++
		k := cnt[p]
		if sa {
			if st, ok := t[c.rel(rr, saPath(p, k))]; ok {
				out[i] = ptr(string(st.Data))
			}
			continue
		}
		if parsed[p] == nil {
			es, err := core.ParseSnap(t[c.rel(rr, p)].Data)
			if err != nil {
				continue
			}
			parsed[p] = append(es, core.Entry{})
		}
		if raw, ok := core.Get(parsed[p], fmt.Sprintf("%s - %d", test, k)); ok {
			out[i] = ptr(raw)
		}
	}
	return out
}

func (c *Ctx) rel(rr *Res, p string) string {
	return strings.TrimPrefix(p, strings.TrimSuffix(rr.Case.Dir, "/")+"/")
}

// yDoc makes a stream both parsers read.
func yDoc(r *core.Rng, depth int, multi float64) string {
	for {
		var s string
		if r.Chance(0.15) {
			s = core.YAMLText(r)
		} else {
			s = core.GenYAML(r, depth, r.Chance(multi))
		}
		ns, err := parseYAML([]byte(s))
		if err != nil || len(ns) == 0 {
			continue
		}
		if ok, err := goccyOK([]byte(s)); !ok || err != nil {
			continue
		}
		// some texts are folded in another way by goccy/go-yaml
		if yReadAlike(ns, []byte(s)) {
			if r.Chance(multi * 0.4) {
				return emptyDocs(r, s)
			}
			return s
		}
	}
}

// emptyDocs puts documents without anything in them before, between or behind
// those of the stream.
func emptyDocs(r *core.Rng, s string) string {
	e := core.Pick(r, []string{"---\n", "---\n---\n", "---\n\n", "--- # nothing\n", "---\n# only this\n", "---\n---\n\n---\n"})
	t := s
	if i := strings.Index(s, "\n---"); i >= 0 && r.Chance(0.7) {
		t = s[:i+1] + e + s[i+1:]
	} else if strings.HasPrefix(s, "---") {
		t = e + s
	} else if strings.HasSuffix(s, "\n") && r.Chance(0.7) {
		t = s + strings.TrimSuffix(e, core.Pick(r, []string{"\n", ""}))
	} else if !strings.HasPrefix(s, "%") {
		t = e + "---\n" + s
	}
	if v, ok := yVerdict(t); !ok || v != 1 {
		return s
	}
	return t
}

// yReadAlike: both parsers see the same strings of several words.
func yReadAlike(ns []*y3.Node, s []byte) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	a, b := map[string]bool{}, map[string]bool{}
	var nodes func(n *y3.Node)
	nodes = func(n *y3.Node) {
		if n.Kind == y3.ScalarNode && n.ShortTag() == "!!str" && strings.ContainsAny(n.Value, " \n") {
			a[n.Value] = true
		}
		for _, e := range n.Content {
			nodes(e)
		}
	}
	for _, n := range ns {
		nodes(n)
	}
	var values func(v any)
	values = func(v any) {
		switch x := v.(type) {
		case string:
			if strings.ContainsAny(x, " \n") {
				b[x] = true
			}
		case map[string]any:
			for k, e := range x {
				values(k)
				values(e)
			}
		case map[any]any:
			for k, e := range x {
				values(k)
				values(e)
			}
		case []any:
			for _, e := range x {
				values(e)
			}
		}
	}
	d := goccy.NewDecoder(bytes.NewReader(s))
	for {
		var v any
		err := d.Decode(&v)
		if err == io.EOF {
			break
		}
		if err != nil {
			return false
		}
		values(v)
	}
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// yShapeAlike: both parsers see collections of the same sizes.
func yShapeAlike(ns []*y3.Node, s []byte) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	var shape func(v any) string
	shape = func(v any) string {
		var p []string
		switch x := v.(type) {
		case map[string]any:
			for k, e := range x {
				p = append(p, k+":"+shape(e))
			}
			sort.Strings(p)
			return "{" + strings.Join(p, ",") + "}"
		case map[any]any:
			for _, e := range x {
				p = append(p, shape(e))
			}
			sort.Strings(p)
			return "?" + strings.Join(p, ",") + "}"
		case []any:
			for _, e := range x {
				p = append(p, shape(e))
			}
			return "[" + strings.Join(p, ",") + "]"
		case nil:
			return "-"
		}
		return "."
	}
	d := goccy.NewDecoder(bytes.NewReader(s))
	for _, n := range ns {
		var a, b any
		if d.Decode(&a) != nil || n.Decode(&b) != nil || shape(a) != shape(b) {
			return false
		}
	}
	return true
}

// ySlash: the text has lines that the snapshot file has to escape apart from
// plain separators.
func ySlash(s string) bool {
	return strings.Contains(s, "-/-/-/") || strings.Contains(s, "\r")
}

func yUnescape(s string) string {
	ls := strings.Split(s, "\n")
	for i := range ls {
		if ls[i] == "/-/-/-/" {
			ls[i] = "---"
		}
	}
	return strings.Join(ls, "\n")
}

type yChain struct {
	text  string
	specs []mSpec
	want  []*y3.Node
	res   yRes
}

func newYChain(r *core.Rng, g mGen, text string) *yChain {
	m := &yChain{text: text, specs: g.ySpecs(r, text)}
	if m.specs == nil {
		return nil
	}
	m.want, _ = parseYAML([]byte(text))
	m.res = yApply(m.want, m.specs)
	return m
}

func (c *Ctx) c15yaml() {
	r := c.Rng("yaml")
	g := mGen{ignore: 0.1, multi: 0.07, maxM: 3, maxPaths: 2}
	type ycase struct {
		cs     core.Case
		chains []*yChain
	}
	var ys []*ycase
	for len(ys) < c.N(4000, 40000) {
		y := &ycase{cs: c.NewCase()}
		y.cs.Cfgs = []core.Cfg{{Dir: ptr("$CASE/d")}}
		ex := core.Exec{Test: "TestY"}
		text := yDoc(r, r.Range(1, 4), 0.25)
		if len(ys) < yShapes {
			text = yLarge(c, len(ys)%yShapes, "cover", "rest")
		}
		for k := 0; k < 3; k++ {
			m := newYChain(r, g, text)
			if len(ys) < yShapes && k < 2 {
				m = &yChain{text: text, specs: yLargeSpecs(c, r, len(ys)%yShapes, false)}
				m.want, _ = parseYAML([]byte(text))
				m.res = yApply(m.want, m.specs)
				c.Count("large_documents", 1)
			}
			if m == nil {
				break
			}
			ex.Ops = append(ex.Ops, core.Op{K: "my", V: []core.Val{core.By(text)}, M: specMs(m.specs)})
			y.chains = append(y.chains, m)
			if k == 0 {
				ex.Ops = append(ex.Ops, core.Op{K: "my", V: []core.Val{core.By(text), core.By(text)}, M: specMs(m.specs)})
				y.chains = append(y.chains, m)
			}
			if k < 2 && !ySlash(text) {
				ex.Ops = append(ex.Ops, core.Op{K: "yaml", V: []core.Val{{T: core.Pick(r, []string{"s", "b"}), B: []byte(text)}}, M: specMs(m.specs)})
				y.chains = append(y.chains, m)
			}
		}
		if len(ex.Ops) == 0 {
			continue
		}
		y.cs.Steps = [][]core.Exec{{ex}}
		ys = append(ys, y)
	}
	var cs []core.Case
	for _, y := range ys {
		cs = append(cs, y.cs)
	}
	for i, rr := range c.RunCases(Mode{}, cs, 0) {
		y := ys[i]
		if c.Crashed(rr, Mode{}) {
			continue
		}
		var bad []string
		stored := c.storedTexts(rr)
		for oi, m := range y.chains {
			op := &rr.Case.Steps[0][0].Ops[oi]
			k := rr.Call(0, 0, oi)
			if d := c.dirty(k); d != "" {
				bad = append(bad, fmt.Sprintf("%s %q with %s: %s", op.K, m.text, specText(m.specs), d))
				continue
			}
			c.Eval(m.text + specText(m.specs))
			var outs [][]byte
			if op.K == "my" {
				for _, o := range k.Outs {
					if len(o.Errs) == 0 {
						outs = append(outs, o.Out)
					}
				}
			} else if outcome(k) == "added" {
				if s := stored[oi]; s != nil {
					outs = append(outs, []byte(yUnescape(*s)))
				} else {
					bad = append(bad, "reported as added but not found: "+valText(rr.Case, oi))
				}
			}
			switch {
			case len(outs) == 0:
				c.Count("yaml_errors_reported", 1)
				if len(m.res.errs) == 0 && m.res.direct && !m.res.unsure {
					c.Count("yaml_errors_not_predicted", 1)
					if os.Getenv("VERIF_SHOW") != "" {
						fmt.Printf("ERR %q %s: %v\n", m.text, specText(m.specs), k.Outs)
					}
				}
				continue
			case m.res.unsure:
				c.Count("yaml_ambiguous_values", 1)
				continue
			case len(m.res.errs) > 0:
				c.Count("yaml_errors_missed", 1)
				continue
			}
			for _, o := range outs {
				what := fmt.Sprintf("%s %q with %s gives %q", op.K, m.text, specText(m.specs), clipS(string(o), 600))
				got, err := parseYAML(o)
				if err != nil {
					bad = append(bad, what+": not valid YAML: "+err.Error())
					continue
				}
				if d := yCmp(m.want, got, m.res.loose); d != "" {
					bad = append(bad, what+": "+d)
					continue
				}
				if bytes.HasSuffix(o, []byte("\n")) != strings.HasSuffix(m.text, "\n") {
					c.Count("yaml_final_newline_differs", 1)
				}
				if op.K == "my" {
					c.Count("yaml_chains_compared", 1)
				} else {
					c.Count("yaml_calls_compared", 1)
				}
			}
			c.Count("custom_values_seen", len(k.CBs))
		}
		if len(bad) > 0 {
			c.Violate(replay(rr, Mode{}), "%s", clipS(strings.Join(bad, "; "), 2500))
			if c.TooMany() {
				return
			}
		}
		if i == 0 {
			c.Sample(map[string]any{"document": y.chains[0].text, "chain": specText(y.chains[0].specs), "result": fmt.Sprint(rr.Call(0, 0, 0).Outs)})
		}
	}
}
