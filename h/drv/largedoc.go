package main

import (
	"fmt"
	"strings"

	"verifh/core"
)

// Large documents and long chains: hundreds of elements, members, documents
// of a stream, paths of a matcher, matchers of a call, deep nesting. cover is
// the text at what the chain covers, rest the text at something it does not.

const largeRule = "; plus documents of hundreds of elements, members, levels and documents with chains of up to hundreds of paths and dozens of matchers"

const jShapes, yShapes = 6, 6

// The real code works through a whole document for every path.
func jLargeN(c *Ctx, shape int) int {
	switch shape {
	case 1: // many matchers
		return c.N(70, 300)
	case 2, 5:
		return c.N(260, 2000)
	}
	return c.N(140, 600)
}

func yLargeN(c *Ctx, shape int) int {
	switch shape {
	case 0, 3:
		return c.N(90, 500)
	}
	return c.N(40, 200)
}

func str(s string) *core.JVal { return &core.JVal{K: 's', S: s} }

// jLarge is the document of a shape; the last uncovered value is rest.
func jLarge(c *Ctx, shape int, cover, rest string) *core.JVal {
	n := jLargeN(c, shape)
	o := &core.JVal{K: 'o'}
	put := func(o *core.JVal, k string, v *core.JVal) {
		o.Keys = append(o.Keys, k)
		o.Elem = append(o.Elem, v)
	}
	at := func(i int) string {
		if i == n-1 {
			return rest
		}
		return fmt.Sprint("rest ", i)
	}
	switch shape {
	case 0, 1, 5: // elements with covered and uncovered members
		a := &core.JVal{K: 'a'}
		for i := 0; i < n; i++ {
			e := &core.JVal{K: 'o'}
			put(e, "t", str(fmt.Sprint(cover, i)))
			put(e, "id", &core.JVal{K: 'n', S: fmt.Sprint(i)})
			put(e, "s", str(cover))
			put(e, "r", str(at(i)))
			a.Elem = append(a.Elem, e)
		}
		put(o, "items", a)
	case 2: // members
		for i := 0; i < n; i++ {
			put(o, fmt.Sprintf("k%d", i), str(fmt.Sprint(cover, i)))
			put(o, fmt.Sprintf("r%d", i), str(at(i)))
		}
	case 3: // levels
		for i := 0; i < n/4; i++ {
			p := &core.JVal{K: 'o'}
			put(p, "t", str(cover))
			put(p, "a", o)
			o = p
		}
		put(o, "r", str(rest))
	case 4: // one long value covered
		put(o, "b", str(rest))
		put(o, "a", str(strings.Repeat(cover+" long ", 40_000)))
		put(o, "c", str(strings.Repeat("not covered ", 9_000)))
	}
	return o
}

func anySpec(ps ...[]any) mSpec { return mSpec{m: core.Matcher{K: "any"}, paths: ps} }
func typeSpec(t string, ps ...[]any) mSpec {
	return mSpec{m: core.Matcher{K: "type", Type: t}, paths: ps}
}

func texts(ss []mSpec, f func([]any) string) []mSpec {
	for i := range ss {
		for _, p := range ss[i].paths {
			ss[i].m.Paths = append(ss[i].m.Paths, f(p))
		}
	}
	return ss
}

// jLargeSpecs covers what jLarge varies; fail mixes in what cannot be applied.
func jLargeSpecs(c *Ctx, r *core.Rng, shape int, fail bool) []mSpec {
	n := jLargeN(c, shape)
	var out []mSpec
	var ts, ss [][]any
	switch shape {
	case 0, 1, 5:
		for i := 0; i < n; i++ {
			ts = append(ts, []any{"items", i, "t"})
			ss = append(ss, []any{"items", i, "s"})
		}
		switch shape {
		case 0:
			out = []mSpec{anySpec(ts...), typeSpec("string", ss...)}
		case 1: // many matchers
			for i := range ts {
				out = append(out, anySpec(ts[i]), typeSpec("string", ss[i]))
			}
		default:
			out = []mSpec{anySpec([]any{"items"})}
			if r.Chance(0.5) {
				out = []mSpec{anySpec(append(ts, ss...)...)}
			}
		}
	case 2:
		for i := 0; i < n; i++ {
			ts = append(ts, []any{fmt.Sprintf("k%d", i)})
		}
		out = []mSpec{anySpec(ts[:n/2]...), typeSpec("string", ts[n/2:]...)}
	case 3:
		p := []any{}
		for i := 0; i < n/4; i++ {
			ts = append(ts, append(append([]any{}, p...), "t"))
			p = append(p, "a")
		}
		out = []mSpec{anySpec(ts...)}
	case 4:
		out = []mSpec{anySpec([]any{"a"})}
	}
	if fail {
		var miss [][]any
		for i := 0; i < min(n, 60); i++ {
			miss = append(miss, []any{fmt.Sprintf("missing%d", i)})
		}
		wrong := typeSpec("float64", ts...)
		if shape == 4 {
			wrong = anySpec([]any{"none"})
		}
		out = append(out, anySpec(miss...), wrong)
		for i := 0; i < min(n/4, 20); i++ {
			out = append(out, anySpec([]any{fmt.Sprintf("gone%d", i)}))
		}
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return texts(out, jPathText)
}

func yLarge(c *Ctx, shape int, cover, rest string) string {
	n := yLargeN(c, shape)
	var b strings.Builder
	at := func(i int) string {
		if i == n-1 {
			return rest
		}
		return fmt.Sprintf("rest%d", i)
	}
	switch shape {
	case 0, 1:
		b.WriteString("items:\n")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "  - t: %s%d\n    id: %d\n    s: %s\n    r: %s\n", cover, i, i, cover, at(i))
		}
		if shape == 0 {
			fmt.Fprintf(&b, "last: %s\n", rest)
		}
	case 2:
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "k%d: %s%d\nr%d: %s\n", i, cover, i, i, at(i))
		}
	case 3: // a stream
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString("---\n")
			}
			fmt.Fprintf(&b, "t: %s%d\nid: %d\nr: %s\n", cover, i, i, at(i))
		}
	case 4: // levels
		for i := 0; i < n/3; i++ {
			in := strings.Repeat(" ", i)
			fmt.Fprintf(&b, "%st: %s\n%sa:\n", in, cover, in)
		}
		fmt.Fprintf(&b, "%sr: %s\n", strings.Repeat(" ", n/3), rest)
	case 5:
		fmt.Fprintf(&b, "b: %s\na: %s\nc: %s\n", rest, strings.Repeat(cover+"long", 10_000), strings.Repeat("uncovered", 9_000))
	}
	return b.String()
}

func yLargeSpecs(c *Ctx, r *core.Rng, shape int, fail bool) []mSpec {
	n := yLargeN(c, shape)
	var out []mSpec
	var ts, ss [][]any
	switch shape {
	case 0:
		ts = [][]any{{"items"}}
		out = []mSpec{anySpec(ts...)}
	case 1:
		for i := 0; i < n; i++ {
			ts = append(ts, []any{"items", i, "t"})
			ss = append(ss, []any{"items", i, "s"})
		}
		out = []mSpec{anySpec(ts...)}
		for i := range ss {
			out = append(out, typeSpec("string", ss[i]))
		}
	case 2:
		for i := 0; i < n; i++ {
			ts = append(ts, []any{fmt.Sprintf("k%d", i)})
		}
		out = []mSpec{anySpec(ts[:n/2]...), typeSpec("string", ts[n/2:]...)}
	case 3:
		ts = [][]any{{"t"}}
		out = []mSpec{anySpec(ts...)}
	case 4:
		p := []any{}
		for i := 0; i < n/3; i++ {
			ts = append(ts, append(append([]any{}, p...), "t"))
			p = append(p, "a")
		}
		out = []mSpec{anySpec(ts...)}
	case 5:
		ts = [][]any{{"a"}}
		out = []mSpec{anySpec(ts...)}
	}
	if fail {
		var miss [][]any
		for i := 0; i < min(n, 60); i++ {
			miss = append(miss, []any{fmt.Sprintf("missing%d", i)})
		}
		out = append(out, anySpec(miss...), typeSpec("bool", ts...))
		for i := 0; i < min(n/4, 20); i++ {
			out = append(out, anySpec([]any{fmt.Sprintf("gone%d", i)}))
		}
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return texts(out, yPathText)
}

// largePairs are the pairs of C16.
func (c *Ctx) largePairs(yaml bool) (ps []maskPair) {
	r := c.Rng("large")
	if yaml {
		for s := 0; s < yShapes; s++ {
			v := func(cover, rest string) core.Val {
				return core.Val{T: core.Pick(r, []string{"s", "b"}), B: []byte(yLarge(c, s, cover, rest))}
			}
			ps = append(ps, maskPair{specs: yLargeSpecs(c, r, s, false), kind: "yaml", a: v("one", "rest"), b: v("another", "rest"), u: v("another", "other")})
		}
		return ps
	}
	for s := 0; s < jShapes; s++ {
		v := func(cover, rest string) core.Val {
			return core.Val{T: core.Pick(r, []string{"s", "b", "raw"}), B: []byte(jLarge(c, s, cover, rest).Text(r, r.Chance(0.3), r.Chance(0.5), false))}
		}
		p := maskPair{specs: jLargeSpecs(c, r, s, false), kind: core.Pick(r, []string{"json", "sjson"}), a: v("one", "rest"), b: v("another", "rest"), u: v("another", "other")}
		if s == 5 && len(p.specs[0].paths) == 1 {
			p.u = core.Val{}
		}
		if p.a.T == "raw" || p.b.T == "raw" || p.u.T == "raw" {
			p.a.T, p.b.T = "raw", "raw"
			if p.u.T != "" {
				p.u.T = "raw"
			}
		}
		ps = append(ps, p)
	}
	return ps
}

// yScaled is a YAML text that is large in one respect.
func (c *Ctx) yScaled(r *core.Rng, i int) string {
	n := core.Pick(r, []int{12, 17, 20, 33, 40, 65, 70, 130, 260, 300})
	if c.Thorough && r.Chance(0.5) {
		n = r.Range(1000, 4000)
	}
	var b strings.Builder
	end := core.Pick(r, []string{"", "\n", "\n", "\n\n", "\n# end"})
	rep := func(f string, a ...any) { fmt.Fprintf(&b, f, a...) }
	switch i % 12 {
	case 0: // documents
		for i := 0; i < n; i++ {
			rep("---\na: %d\nb: [x, %d]\n", i, i)
		}
		rep("---\nlast: 1")
	case 1:
		for i := 0; i < n; i++ {
			rep("%d # comment %d\n---\n", i, i)
		}
		rep("last")
	case 2: // keys
		for i := 0; i < n; i++ {
			rep("k%d:   v%d\n", i, i)
		}
		rep("z:  1")
	case 3: // elements
		for i := 0; i < n; i++ {
			rep("-   {a: %d,  b: 'x'}\n", i)
		}
		rep("- 'z'")
	case 4: // comments
		for i := 0; i < n; i++ {
			rep("# comment %d\n", i)
		}
		rep("a: 1")
	case 5: // blank lines
		rep("a: 1%s", strings.Repeat("\n", n))
		rep("b: 2")
	case 6: // levels
		d := min(n, 130)
		for i := 0; i < d; i++ {
			rep("%sk: # %d\n", strings.Repeat(" ", i), i)
		}
		rep("%sz: 1", strings.Repeat(" ", d))
	case 7: // a flow collection
		rep("%s1%s", strings.Repeat("[", min(n, 130)), strings.Repeat("]", min(n, 130)))
	case 8: // a block scalar
		rep("a: |\n")
		for i := 0; i < n; i++ {
			rep("  line %d\n", i)
		}
		rep("b: 1")
	case 9: // anchors
		for i := 0; i < n; i++ {
			rep("k%d: &a%d %d\nr%d: *a%d\n", i, i, i, i, i)
		}
		rep("z: 1")
	case 10: // lines that look like entries
		rep("---\n")
		for i := 0; i < n; i++ {
			rep("[TestY - %d]\n---\n", i)
		}
		rep("[z]")
	default: // folded and quoted lines
		rep("a: \"x\n")
		for i := 0; i < n; i++ {
			rep("  word%d\n", i)
		}
		rep("  y\"\nb: >-\n  %s", strings.Repeat("z ", n)+"z")
	}
	return b.String() + end
}
