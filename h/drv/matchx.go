package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifh/core"

	y3 "gopkg.in/yaml.v3"
)

// Reference model of matcher chains: documents are trees, a matcher replaces
// the nodes its paths lead to.

// allStep leads to every element of an array.
type allStep struct{}

// mSpec is a matcher together with its paths as steps.
type mSpec struct {
	m     core.Matcher
	paths [][]any
}

func specMs(ss []mSpec) []core.Matcher {
	var out []core.Matcher
	for _, s := range ss {
		out = append(out, s.m)
	}
	return out
}

func specText(ss []mSpec) string {
	var p []string
	for _, s := range ss {
		t := s.m.K + "(" + strings.Join(s.m.Paths, ", ") + ")"
		if s.m.K == "type" {
			t = "type[" + s.m.Type + "](" + strings.Join(s.m.Paths, ", ") + ")"
		}
		if s.m.Ph != nil {
			t += fmt.Sprintf("->%s %q", s.m.Ph.T, s.m.Ph.B)
		}
		if s.m.CB != "" {
			t += " cb=" + s.m.CB
		}
		if s.m.Miss != nil {
			t += fmt.Sprintf(" errOnMissing=%v", *s.m.Miss)
		}
		p = append(p, t)
	}
	return strings.Join(p, "; ")
}

// failing names a matcher and path that must be reported.
type failing struct {
	M    int
	Name string
	Path string
	Why  string
}

var mName = map[string]string{"any": "Any", "type": "Type", "custom": "Custom"}

var typeText = map[string]string{"string": "string", "float64": "float64", "bool": "bool", "map": "map[string]interface {}", "slice": "[]interface {}", "int": "int", "uint64": "uint64", "int64": "int64", "any": "interface {}"}

// goType says if a value has the type a Type matcher asks for.
func goType(v any, t string) bool {
	switch v.(type) {
	case nil:
		return false
	case string:
		return t == "string" || t == "any"
	case float64:
		return t == "float64" || t == "any"
	case bool:
		return t == "bool" || t == "any"
	case map[string]any:
		return t == "map" || t == "any"
	case []any:
		return t == "slice" || t == "any"
	case uint64:
		return t == "uint64" || t == "any"
	case int64:
		return t == "int64" || t == "any"
	}
	panic(fmt.Sprintf("harness: goType %T", v))
}

var allTypes = []string{"string", "float64", "bool", "map", "slice", "int", "uint64", "int64", "any", "jnum", "strs", "mss", "mai", "nstr", "f32", "bytes", "error", "stringer", "pstr"}

// phGo is the Go value of a placeholder.
func phGo(v *core.Val, def any) any {
	if v == nil {
		return def
	}
	switch v.T {
	case "s":
		return string(v.B)
	case "js":
		var x any
		must(json.Unmarshal(v.B, &x))
		return x
	case "i":
		n, _ := strconv.Atoi(string(v.B))
		return n
	case "f":
		f, _ := strconv.ParseFloat(string(v.B), 64)
		return f
	case "bool":
		return string(v.B) == "true"
	case "nil", "nilptr", "nilmap":
		return nil
	case "raw":
		return json.RawMessage(v.B)
	case "u64":
		n, _ := strconv.ParseUint(string(v.B), 10, 64)
		return n
	case "i64":
		n, _ := strconv.ParseInt(string(v.B), 10, 64)
		return n
	case "time":
		return time.Unix(0, 0).UTC()
	case "jnum":
		return json.Number("12345678901234567890.5")
	case "floats":
		return []float64{0, 1, 1e21, 1e-7, -0.5, 123456789, 1.7976931348623157e308}
	case "mint":
		return map[int]string{3: "c", 10: "j", 1: string(v.B)}
	case "chan":
		return make(chan int)
	}
	panic("harness: placeholder type " + v.T)
}

// cbResult: what the callback of a custom matcher makes of a value.
func cbResult(m core.Matcher, v any) (any, bool) {
	switch m.CB {
	case "err":
		return nil, false
	case "id":
		return v, true
	case "rettype":
		return fmt.Sprintf("<%T>", v), true
	}
	return phGo(m.Ph, nil), true
}

// newVal gives the value a matcher replaces v with, or why it fails.
func newVal(m core.Matcher, v func() any) (any, string) {
	switch m.K {
	case "any":
		return phGo(m.Ph, "<Any value>"), ""
	case "type":
		if !goType(v(), m.Type) {
			return nil, "wrong type"
		}
		return "<Type:" + typeText[m.Type] + ">", ""
	}
	x, ok := cbResult(m, v())
	if !ok {
		return nil, "callback"
	}
	return x, ""
}

// ---- JSON ----

func jPathText(p []any) string {
	var out []string
	for _, e := range p {
		switch x := e.(type) {
		case int:
			out = append(out, strconv.Itoa(x))
		case allStep:
			out = append(out, "#")
		case string:
			var b strings.Builder
			for i := 0; i < len(x); i++ {
				c := x[i]
				if !(c <= ' ' || c > '~' || c == '_' || c == '-' || c == ':' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
					b.WriteByte('\\')
				}
				b.WriteByte(c)
			}
			out = append(out, b.String())
		}
	}
	return strings.Join(out, ".")
}

func jResolve(v *core.JVal, p []any) []*core.JVal {
	if len(p) == 0 {
		return []*core.JVal{v}
	}
	var out []*core.JVal
	switch x := p[0].(type) {
	case string:
		if v.K == 'o' {
			for i, k := range v.Keys {
				if k == x {
					return jResolve(v.Elem[i], p[1:])
				}
			}
		}
		// a path says the same for an index and for a member of that name;
		// both are met where # leads to elements of several kinds
		if n, err := strconv.ParseUint(x, 10, 31); v.K == 'a' && err == nil && int(n) < len(v.Elem) {
			return jResolve(v.Elem[n], p[1:])
		}
	case int:
		if v.K == 'a' && x < len(v.Elem) {
			return jResolve(v.Elem[x], p[1:])
		}
		if v.K == 'o' {
			return jResolve(v, append([]any{strconv.Itoa(x)}, p[1:]...))
		}
	case allStep:
		if v.K == 'a' {
			for _, e := range v.Elem {
				out = append(out, jResolve(e, p[1:])...)
			}
		}
	}
	return out
}

// jInString: # leads into a string that holds what looks like a document
// (C15-gjson-strings).
func jInString(v *core.JVal, p []any) bool {
	for i, e := range p {
		if _, ok := e.(allStep); ok {
			for _, n := range jResolve(v, p[:i+1]) {
				if n.K == 's' && strings.ContainsAny(n.S, "[{") {
					return true
				}
			}
		}
	}
	return false
}

// jPaths lists the paths of a document that can be written (empty member
// names cannot).
func jPaths(v *core.JVal) [][]any {
	var out [][]any
	var walk func(v *core.JVal, p []any)
	walk = func(v *core.JVal, p []any) {
		for i, e := range v.Elem {
			var s any = i
			if v.K == 'o' {
				if v.Keys[i] == "" {
					continue
				}
				s = v.Keys[i]
			}
			q := append(p[:len(p):len(p)], s)
			out = append(out, q)
			walk(e, q)
		}
	}
	walk(v, nil)
	return out
}

// jGo is the Go value of a document as encoding/json decodes it; false if it
// has a number beyond float64.
func jGo(v *core.JVal) (any, bool) {
	var x any
	err := json.Unmarshal([]byte(v.Text(nil, false, false, false)), &x)
	return x, err == nil
}

// jApply applies the chain to doc in place and says which matchers fail and
// which nodes were replaced.
func jApply(doc *core.JVal, specs []mSpec) (errs []failing, loose map[*core.JVal]bool) {
	return jApplyX(doc, specs, true)
}

// jApplyX: without rollback a failing matcher keeps what it replaced.
func jApplyX(doc *core.JVal, specs []mSpec, rollback bool) (errs []failing, loose map[*core.JVal]bool) {
	loose = map[*core.JVal]bool{}
	for i, s := range specs {
		type undo struct {
			n     *core.JVal
			old   core.JVal
			loose bool
		}
		var us []undo
		bad := false
		for pi, p := range s.paths {
			fail := func(why string) {
				bad = true
				errs = append(errs, failing{i, mName[s.m.K], s.m.Paths[pi], why})
			}
			ns := jResolve(doc, p)
			if len(ns) == 0 {
				if s.m.Miss == nil || *s.m.Miss {
					fail("missing")
				}
				continue
			}
			for _, n := range ns {
				v, why := newVal(s.m, func() any { x, _ := jGo(n); return x })
				if why != "" {
					fail(why)
					break
				}
				b, err := json.Marshal(v)
				if err != nil {
					fail("placeholder")
					break
				}
				us = append(us, undo{n, *n, loose[n]})
				*n = *parseJSON(string(b))
				loose[n] = true
			}
		}
		if bad && rollback {
			for k := len(us) - 1; k >= 0; k-- {
				*us[k].n = us[k].old
				loose[us[k].n] = us[k].loose
			}
		}
	}
	return errs, loose
}

// jCmp compares a document with the expected one: untouched numbers by their
// text, replaced ones by value.
func jCmp(want, got *core.JVal, loose map[*core.JVal]bool, in, ordered bool, at string) string {
	in = in || loose[want]
	diff := func() string {
		return fmt.Sprintf("at %q: want %s, got %s", at, clipS(want.Text(nil, false, false, false), 200), clipS(got.Text(nil, false, false, false), 200))
	}
	if want.K != got.K || len(want.Elem) != len(got.Elem) {
		return diff()
	}
	switch want.K {
	case 'o':
		for i, k := range want.Keys {
			j := i
			if in || !ordered {
				for j = 0; j < len(got.Keys) && got.Keys[j] != k; j++ {
				}
			}
			if j >= len(got.Keys) || got.Keys[j] != k {
				return diff()
			}
			if d := jCmp(want.Elem[i], got.Elem[j], loose, in, ordered, at+"."+k); d != "" {
				return d
			}
		}
	case 'a':
		for i := range want.Elem {
			if d := jCmp(want.Elem[i], got.Elem[i], loose, in, ordered, fmt.Sprintf("%s.%d", at, i)); d != "" {
				return d
			}
		}
	case 's':
		if want.S != got.S {
			return diff()
		}
	case 'n':
		if want.S != got.S && !(in && sameNum(want.S, got.S)) {
			return diff()
		}
	}
	return ""
}

func sameNum(a, b string) bool {
	x, ok := new(big.Rat).SetString(a)
	y, ok2 := new(big.Rat).SetString(b)
	return ok && ok2 && x.Cmp(y) == 0
}

// ---- YAML ----

func yPathText(p []any) string {
	s := "$"
	for _, e := range p {
		switch e.(type) {
		case allStep:
			s += "[*]"
		default:
			s += yPath{e}.Text()[1:]
		}
	}
	return s
}

func yResolve(n *y3.Node, p []any) (out []*y3.Node, direct bool) {
	direct = true
	if n.Kind == y3.DocumentNode {
		if len(n.Content) == 0 {
			return nil, true
		}
		return yResolve(n.Content[0], p)
	}
	if len(p) == 0 {
		return []*y3.Node{n}, n.Anchor == "" && n.Kind != y3.AliasNode
	}
	if n.Anchor != "" || n.Style&y3.TaggedStyle != 0 {
		direct = false
	}
	for n.Kind == y3.AliasNode {
		n, direct = n.Alias, false
	}
	switch x := p[0].(type) {
	case string:
		if n.Kind == y3.MappingNode {
			for i := 0; i+1 < len(n.Content); i += 2 {
				if n.Content[i].Kind == y3.ScalarNode && n.Content[i].Value == x {
					o, d := yResolve(n.Content[i+1], p[1:])
					return o, d && direct
				}
			}
			for i := 0; i+1 < len(n.Content); i += 2 {
				if n.Content[i].ShortTag() == "!!merge" {
					direct = false
				}
			}
		}
	case int:
		if n.Kind == y3.SequenceNode && x < len(n.Content) {
			o, d := yResolve(n.Content[x], p[1:])
			return o, d && direct
		}
	case allStep:
		if n.Kind == y3.SequenceNode {
			for _, e := range n.Content {
				o, d := yResolve(e, p[1:])
				out, direct = append(out, o...), direct && d
			}
		}
	}
	return out, direct
}

var (
	yInt   = regexp.MustCompile(`^(0|-?[1-9][0-9]{0,14})$`)
	yFloat = regexp.MustCompile(`^-?[0-9]{1,6}\.[0-9]{1,6}$`)
	yPlain = regexp.MustCompile(`^[a-zA-Z_ ]*$`)
	yWords = map[string]bool{"y": true, "n": true, "yes": true, "no": true, "on": true, "off": true, "null": true, "true": true, "false": true, "t": true, "f": true}
)

// yGo is the Go value of a node; false where YAML versions read it
// differently.
func yGo(n *y3.Node) (any, bool) {
	if n.Anchor != "" || n.Style&y3.TaggedStyle != 0 {
		return nil, false
	}
	switch n.Kind {
	case y3.MappingNode:
		m := map[string]any{}
		for i := 0; i+1 < len(n.Content); i += 2 {
			k, ok := yGo(n.Content[i])
			ks, str := k.(string)
			v, ok2 := yGo(n.Content[i+1])
			if !ok || !str || !ok2 {
				return nil, false
			}
			m[ks] = v
		}
		return m, true
	case y3.SequenceNode:
		l := []any{}
		for _, e := range n.Content {
			v, ok := yGo(e)
			if !ok {
				return nil, false
			}
			l = append(l, v)
		}
		return l, true
	case y3.ScalarNode:
		quoted := n.Style&(y3.SingleQuotedStyle|y3.DoubleQuotedStyle) != 0
		switch n.ShortTag() {
		case "!!str":
			if strings.Contains(n.Value, "\n") || n.Style&(y3.LiteralStyle|y3.FoldedStyle) != 0 {
				return nil, false
			}
			return n.Value, quoted || yPlain.MatchString(n.Value) && !yWords[strings.ToLower(n.Value)] && n.Value != ""
		case "!!int":
			if !yInt.MatchString(n.Value) {
				return nil, false
			}
			i, _ := strconv.ParseInt(n.Value, 10, 64)
			if i < 0 {
				return i, true
			}
			return uint64(i), true
		case "!!float":
			f, _ := strconv.ParseFloat(n.Value, 64)
			return f, yFloat.MatchString(n.Value)
		case "!!bool":
			return n.Value == "true", n.Value == "true" || n.Value == "false"
		case "!!null":
			return nil, n.Value == "null"
		}
	}
	return nil, false
}

// yNode is the node of a Go value; a float stays one.
func yNode(v any) *y3.Node {
	sc := func(tag, t string) *y3.Node { return &y3.Node{Kind: y3.ScalarNode, Tag: tag, Value: t} }
	switch x := v.(type) {
	case nil:
		return sc("!!null", "null")
	case bool:
		return sc("!!bool", fmt.Sprint(x))
	case string:
		n := sc("!!str", x)
		n.Style = y3.DoubleQuotedStyle
		return n
	case int, int64, uint64:
		return sc("!!int", fmt.Sprint(x))
	case float64:
		t := strconv.FormatFloat(x, 'f', -1, 64)
		if !strings.Contains(t, ".") {
			t += ".0"
		}
		return sc("!!float", t)
	case []any:
		n := &y3.Node{Kind: y3.SequenceNode, Tag: "!!seq"}
		for _, e := range x {
			n.Content = append(n.Content, yNode(e))
		}
		return n
	case map[string]any:
		n := &y3.Node{Kind: y3.MappingNode, Tag: "!!map"}
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			n.Content = append(n.Content, yNode(k), yNode(x[k]))
		}
		return n
	}
	panic(fmt.Sprintf("harness: yNode %T", v))
}

// yRes is what a chain does to the documents of a stream.
type yRes struct {
	errs   []failing
	loose  map[*y3.Node]bool
	unsure bool // a value is read differently by different YAML versions
	direct bool // no path leads through or to an anchor, alias or tag
}

func yApply(docs []*y3.Node, specs []mSpec) yRes { return yApplyX(docs, specs, true) }

func yApplyX(docs []*y3.Node, specs []mSpec, rollback bool) yRes {
	res := yRes{loose: map[*y3.Node]bool{}, direct: true}
	for i, s := range specs {
		type undo struct {
			n     *y3.Node
			old   y3.Node
			loose bool
		}
		var us []undo
		bad := false
		for pi, p := range s.paths {
			fail := func(why string) {
				bad = true
				res.errs = append(res.errs, failing{i, mName[s.m.K], s.m.Paths[pi], why})
			}
			var ns []*y3.Node
			for _, d := range docs {
				o, direct := yResolve(d, p)
				ns = append(ns, o...)
				res.direct = res.direct && direct
			}
			if len(ns) == 0 {
				if s.m.Miss == nil || *s.m.Miss {
					fail("missing")
				}
				continue
			}
			for _, n := range ns {
				if hasAnchor(n) {
					res.direct = false
				}
				v, why := newVal(s.m, func() any {
					x, ok := yGo(n)
					res.unsure = res.unsure || !ok
					return x
				})
				if why != "" {
					fail(why)
					break
				}
				us = append(us, undo{n, *n, res.loose[n]})
				*n = *yNode(v)
				res.loose[n] = true
			}
		}
		if bad && rollback {
			for k := len(us) - 1; k >= 0; k-- {
				*us[k].n = us[k].old
				res.loose[us[k].n] = us[k].loose
			}
		}
	}
	return res
}

func hasAnchor(n *y3.Node) bool {
	if n.Anchor != "" {
		return true
	}
	for _, c := range n.Content {
		if hasAnchor(c) {
			return true
		}
	}
	return false
}

// yCmp compares two streams.
func yCmp(want, got []*y3.Node, loose map[*y3.Node]bool) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d documents instead of %d", len(got), len(want))
	}
	for i := range want {
		if d := yCmp1(want[i], got[i], loose, "$"); d != "" {
			return fmt.Sprintf("document %d %s", i, d)
		}
	}
	return ""
}

func yCmp1(want, got *y3.Node, loose map[*y3.Node]bool, at string) string {
	if loose[want] {
		if g, w := yLoose(got), yLoose(want); g != w || got.Anchor != "" {
			return fmt.Sprintf("at %s: want %s, got %s", at, w, clipS(g, 300))
		}
		return ""
	}
	if want.Kind != got.Kind || len(want.Content) != len(got.Content) {
		return fmt.Sprintf("at %s: want %s, got %s", at, clipS(yKey(want, nil), 200), clipS(yKey(got, nil), 200))
	}
	if len(want.Content) == 0 {
		if g, w := yKey(got, nil), yKey(want, nil); g != w {
			return fmt.Sprintf("at %s: want %s, got %s", at, w, g)
		}
		return ""
	}
	if want.Anchor != got.Anchor || yTag(want) != yTag(got) {
		return fmt.Sprintf("at %s: want %s, got %s", at, clipS(yKey(want, nil), 200), clipS(yKey(got, nil), 200))
	}
	for i := range want.Content {
		n := strconv.Itoa(i)
		if want.Kind == y3.MappingNode {
			n = want.Content[i&^1].Value
		}
		if d := yCmp1(want.Content[i], got.Content[i], loose, at+"."+n); d != "" {
			return d
		}
	}
	return ""
}

// ---- generation ----

// mGen makes matcher chains; the rates are for each path or matcher.
type mGen struct {
	missing  float64 // a path that does not exist
	ignore   float64 // ErrOnMissingPath(false) on a matcher
	wrong    float64 // Type with another type
	cberr    float64
	multi    float64 // "#" / [*]
	maxM     int
	maxPaths int
}

var phVals = []core.Val{core.S(""), core.S("x"), core.S("<Any value>"), core.S(strings.Repeat("a long placeholder ", 20)), core.S("quote \" backslash \\ / <&>"), core.S("é 日本 😀"), core.S("a\nb"), core.S("---"), core.S("[TestA - 1]"), core.S("true"), core.S("12"), core.S("a: b"), core.S("# c"), core.S("{}"), core.S("null"), core.S("%d"), core.S("multi\n\n  line\n"),
	{T: "i", B: []byte("0")}, {T: "i", B: []byte("-123456789")}, {T: "f", B: []byte("1.5")}, {T: "bool", B: []byte("true")}, {T: "bool", B: []byte("false")}, {T: "nil"},
	core.JS(`{}`), core.JS(`[]`), core.JS(`{"k":"v","n":{"a":[1,2,{"z":null}]}}`), core.JS(`["x",["y"],{}]`), core.JS(`{"b":1,"a":"two words"}`)}

func ph(r *core.Rng) *core.Val { v := core.Pick(r, phVals); return &v }

// phJSON are placeholders of other Go types; the last ones have no JSON.
var phJSON = []core.Val{{T: "raw", B: []byte(` {"k" : [1, "two  words"],"a":null}`)}, {T: "raw", B: []byte(`"x"`)}, {T: "u64", B: []byte("18446744073709551615")}, {T: "i64", B: []byte("-9007199254740993")}, {T: "time"}, {T: "jnum"}, {T: "floats"}, {T: "mint", B: []byte("a \"b\" <c>")}, {T: "nilptr"}, {T: "nilmap"},
	{T: "chan"}, {T: "raw", B: []byte(`{"k":`)}, {T: "f", B: []byte("NaN")}, {T: "f", B: []byte("-Inf")}}

func (g mGen) phJ(r *core.Rng) *core.Val {
	if r.Chance(0.85) {
		return ph(r)
	}
	vs := phJSON
	if g.cberr == 0 {
		vs = vs[:len(vs)-4]
	}
	v := core.Pick(r, vs)
	return &v
}

// jSpecs makes a chain for the document, which is left as the chain makes it.
func (g mGen) jSpecs(r *core.Rng, doc *core.JVal) []mSpec {
	var out []mSpec
	n := r.Range(1, g.maxM)
	for len(out) < n {
		s := mSpec{m: core.Matcher{K: core.Pick(r, []string{"any", "any", "type", "custom"})}}
		np := 1
		if s.m.K != "custom" {
			np = r.Range(1, g.maxPaths)
		}
		if s.m.K == "any" && r.Chance(0.7) {
			s.m.Ph = g.phJ(r)
		}
		if r.Chance(g.ignore) {
			s.m.Miss = ptr(false)
		} else if r.Chance(0.1) {
			s.m.Miss = ptr(true)
		}
		work := doc.Clone()
		for k := 0; k < np; k++ {
			ps := jPaths(work)
			if r.Chance(g.missing) || s.m.Miss != nil && !*s.m.Miss && r.Chance(0.4) || len(ps) == 0 {
				s.paths = append(s.paths, missingPath(r, ps, func(p []any) bool { return len(jResolve(work, p)) > 0 }))
				continue
			}
			p := core.Pick(r, ps)
			v := jResolve(work, p)[0]
			gv, ok := jGo(v)
			switch {
			case s.m.K == "any" && r.Chance(g.multi):
				q := append([]any(nil), p...)
				for i := range q {
					if _, n := q[i].(int); n && r.Chance(0.6) {
						q[i] = allStep{}
						break
					}
				}
				if _, last := q[len(q)-1].(allStep); !last && !jInString(work, q) {
					p = q
				}
			case s.m.K == "type":
				if s.m.Type == "" {
					s.m.Type = g.typ(r, gv)
				}
				if !goType(gv, s.m.Type) && !r.Chance(g.wrong) {
					continue
				}
			case s.m.K == "custom":
				g.cb(r, &s.m, ok)
			}
			s.paths = append(s.paths, p)
			t := s
			t.paths = s.paths[len(s.paths)-1:]
			t.m.Paths = []string{""}
			jApply(work, []mSpec{t})
		}
		if len(s.paths) == 0 {
			continue
		}
		if s.m.Type == "" && s.m.K == "type" {
			s.m.Type = core.Pick(r, allTypes)
		}
		for _, p := range s.paths {
			s.m.Paths = append(s.m.Paths, jPathText(p))
		}
		jApply(doc, []mSpec{s})
		out = append(out, s)
	}
	return out
}

// typ picks a type that fits the value, or not.
func (g mGen) typ(r *core.Rng, v any) string {
	wrong := r.Chance(g.wrong) || v == nil
	for {
		t := core.Pick(r, allTypes)
		if goType(v, t) != wrong || v == nil {
			return t
		}
	}
}

func (g mGen) cb(r *core.Rng, m *core.Matcher, exact bool) {
	switch {
	case r.Chance(g.cberr):
		m.CB, m.Err = "err", core.Pick(r, []string{"boom", "callback failed: 100%", "multi\nline"})
	case exact && r.Chance(0.3):
		m.CB = "id"
	case exact && r.Chance(0.3):
		m.CB = "rettype"
	default:
		m.Ph = ph(r)
		m.CB = "ret"
	}
}

// missingPath makes a path that does not exist.
func missingPath(r *core.Rng, ps [][]any, exists func([]any) bool) []any {
	for {
		var p []any
		if len(ps) > 0 && r.Chance(0.7) {
			p = append(p, core.Pick(r, ps)...)
			if r.Chance(0.5) {
				p = p[:len(p)-1]
			}
		}
		if r.Chance(0.6) || len(p) == 0 {
			p = append(p, core.Pick(r, []string{"missing", "nope", "Name", "zz"}))
		} else {
			p = append(p, r.Range(40, 60))
		}
		if !exists(p) {
			return p
		}
	}
}

// ySpecs makes a chain for the stream, which is left as the chain makes it;
// nil if nothing suitable was found.
func (g mGen) ySpecs(r *core.Rng, text string) []mSpec {
	docs, err := parseYAML([]byte(text))
	if err != nil {
		return nil
	}
	var out []mSpec
	n := r.Range(1, g.maxM)
	for try := 0; len(out) < n && try < 20; try++ {
		s := mSpec{m: core.Matcher{K: core.Pick(r, []string{"any", "any", "type", "custom"})}}
		np := 1
		if s.m.K != "custom" {
			np = r.Range(1, g.maxPaths)
		}
		if s.m.K == "any" && r.Chance(0.7) {
			s.m.Ph = ph(r)
		}
		if r.Chance(g.ignore) {
			s.m.Miss = ptr(false)
		} else if r.Chance(0.1) {
			s.m.Miss = ptr(true)
		}
		var ps [][]any
		for _, d := range docs {
			for _, p := range yPaths(d) {
				ps = append(ps, p)
			}
		}
		exists := func(p []any) bool {
			for _, d := range docs {
				if n, _ := yResolve(d, p); len(n) > 0 {
					return true
				}
			}
			return false
		}
		for k := 0; k < np; k++ {
			if r.Chance(g.missing) || s.m.Miss != nil && !*s.m.Miss && r.Chance(0.4) || len(ps) == 0 {
				s.paths = append(s.paths, missingPath(r, ps, exists))
				continue
			}
			p := core.Pick(r, ps)
			gv, ok := any(nil), true
			for _, d := range docs {
				if ns, direct := yResolve(d, p); len(ns) > 0 {
					v, o := yGo(ns[0])
					gv, ok = v, ok && o && direct
				}
			}
			if s.m.K != "any" && !ok {
				continue
			}
			switch {
			case s.m.K == "any" && r.Chance(g.multi):
				q := append([]any(nil), p...)
				for i := range q {
					if _, n := q[i].(int); n && r.Chance(0.6) {
						q[i] = allStep{}
						break
					}
				}
				p = q
			case s.m.K == "type":
				if s.m.Type == "" {
					s.m.Type = g.typ(r, gv)
				}
				if !goType(gv, s.m.Type) && !r.Chance(g.wrong) {
					continue
				}
			case s.m.K == "custom":
				g.cb(r, &s.m, true)
			}
			s.paths = append(s.paths, p)
		}
		if len(s.paths) == 0 {
			continue
		}
		if s.m.Type == "" && s.m.K == "type" {
			s.m.Type = core.Pick(r, allTypes)
		}
		for _, p := range s.paths {
			s.m.Paths = append(s.m.Paths, yPathText(p))
		}
		yApply(docs, []mSpec{s})
		out = append(out, s)
	}
	return out
}
