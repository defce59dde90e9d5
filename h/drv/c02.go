package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"verifh/core"
)

func init() { checks["C02"] = checkC02 }

// noUpdateModes are environments in which nothing may be updated.
var noUpdateModes = []Mode{{}, {Color: true}, {CI: "CI=true"}, Upd("clean"), Upd("false"), {Color: true, CI: "CI=true"}}

// changed makes a call of the same slot whose value formats to other text
// (nil if none was found).
func changed(r *core.Rng, pc PCall, ids []string) *PCall {
	op := pc.Op
	switch op.K {
	case "snap", "ssnap":
		if pc.Exact {
			m := core.Mutate(r, pc.Key, ids)
			if op.K == "ssnap" && r.Chance(0.3) {
				m = core.Pick(r, []string{pc.Key + "\r", "\r" + pc.Key, strings.ReplaceAll(pc.Key, "\n", "\r\n"), strings.ReplaceAll(pc.Key, "\r\n", "\n")})
			}
			if core.Fmt(m) == pc.Key {
				m += "x"
			}
			op.V = []core.Val{core.S(m)}
			return &PCall{Op: op, Key: core.Fmt(m), Exact: true}
		}
		op.V = []core.Val{core.S("changed " + fmt.Sprint(r.Intn(1000)))}
		return &PCall{Op: op, Key: sval(op.V[0]), Exact: true}
	case "json", "sjson":
		d := parseJSON(sval(op.V[0]))
		if d == nil {
			return nil
		}
		k := d.Key()
		e := d.Clone()
		mutateJSON(r, e)
		if e.Key() == k {
			e = &core.JVal{K: 'a', Elem: []*core.JVal{d}}
		}
		op.V = []core.Val{jsonVal(r, e)}
		return &PCall{Op: op, Key: jsonKey(e, op.V[0])}
	case "yaml":
		s := sval(op.V[0])
		if !pc.Exact {
			op.V = []core.Val{core.S("changed: " + fmt.Sprint(r.Intn(1000)) + "\n")}
			return &PCall{Op: op, Key: sval(op.V[0]), Exact: true}
		}
		m := s
		switch r.Intn(5) {
		case 0:
			m = strings.TrimSuffix(s, "\n")
		case 1:
			m = s + "\n"
		case 2:
			m = s + "\n# comment"
		case 3:
			m = "# c\n" + s
		default:
			m = core.NoCR(core.YAMLText(r))
		}
		if m == s || strings.HasPrefix(s, "%") {
			m = "other: doc\n"
		}
		op.V = []core.Val{core.S(m)}
		return &PCall{Op: op, Key: m, Exact: true}
	}
	return nil
}

func checkC02(c *Ctx) {
	c.rule = "every stored value is confronted, in a new process, with a different one (near misses: one byte, newline at an end, terminator <-> escape, other value, one of up to 5000 values; parts of texts of up to 20 MB); all ordered pairs of texts of <=2 lines over a hostile line alphabet and of <=3 bytes over a byte alphabet; 5 APIs; non-trivial = distinct (stored, given) pair"
	c.assume = []string{"no carriage return at the end of a line in multi-entry files (documented)"}
	r := c.Rng("prog")

	// 1. random programs
	n := c.N(500, 6000)
	var progs []*Prog
	var rec []core.Case
	for i := 0; i < n; i++ {
		p := genProg(r, allKinds, 4, 5)
		progs = append(progs, p)
		cs := c.NewCase()
		cs.Cfgs = p.Cfgs
		cs.Steps = p.seqSteps(ident(len(p.Tests)))
		rec = append(rec, cs)
	}
	recorded := c.RunCases(Mode{}, rec, 0)
	for mi, m := range noUpdateModes {
		var cs []core.Case
		var before []core.Tree
		var chg [][]map[int]bool
		var at []int
		for i := range rec {
			if mi > 1 && i%4 != mi-2 {
				continue
			}
			if c.Crashed(recorded[i], Mode{}) || allCalls(recorded[i], "added") != nil {
				c.Count("not_recorded", 1)
				continue
			}
			p := progs[i]
			k := rec[i]
			k.ID += fmt.Sprintf("m%d", mi)
			var steps [][]core.Exec
			var marks []map[int]bool
			for _, t := range p.Tests {
				ex := core.Exec{Test: t.Name}
				mk := map[int]bool{}
				for oi, pc := range t.Calls {
					op := pc.Op
					if r.Chance(0.7) {
						if nc := changed(r, pc, p.IDs); nc != nil {
							op = nc.Op
							mk[oi] = true
						}
					}
					ex.Ops = append(ex.Ops, op)
				}
				steps = append(steps, []core.Exec{ex})
				marks = append(marks, mk)
			}
			k.Steps = steps
			core.Age(k.Dir)
			before = append(before, core.Observe(k.Dir))
			cs = append(cs, k)
			chg = append(chg, marks)
			at = append(at, i)
		}
		for j, rr := range c.RunCases(m, cs, 0) {
			if c.Crashed(rr, m) {
				continue
			}
			for ki := range rr.Calls {
				k := &rr.Calls[ki]
				want := "passed"
				if chg[j][k.Step][k.Op] {
					want = "failed"
					c.Eval(fmt.Sprintf("%s/%d/%d/%d", rr.Case.ID, k.Step, k.Op, mi))
				}
				if o := outcome(k); o != want {
					if want == "failed" {
						rp := replay(rr, m)
						rp.Extra = map[string]any{"recorded": progs[at[j]].Tests[k.Step].Calls[k.Op].Op}
						c.Violate(rp, "a changed value did not fail exactly once (mode %s): %s: %s", m, o, callText(k))
					} else {
						c.Count("unchanged_not_passed", 1) // C01's concern
					}
				}
			}
			if d := before[j].Diff(core.Observe(rr.Case.Dir), true); len(d) > 0 {
				c.Violate(replay(rr, m), "a failing call wrote (mode %s): %s", m, strings.Join(d, "; "))
			}
			if j == 0 && mi < 2 {
				c.Sample(rr.Case)
			}
		}
	}

	c.timed("huge", func() { c.huge("change") })
	// 2. all pairs of small texts
	lines := []string{"", "---", "/-/-/-/", "//-/-/-/", "a", "\xff", "[TestP - 1]", " "}
	var texts []string
	for _, a := range lines {
		texts = append(texts, a)
		for _, b := range lines {
			texts = append(texts, a+"\n"+b)
		}
	}
	three := []string{"---", "/-/-/-/", "", "a"}
	if c.Thorough {
		three = lines
	}
	for _, a := range three {
		for _, b := range three {
			for _, d := range three {
				texts = append(texts, a+"\n"+b+"\n"+d)
			}
		}
	}
	c.pairs("lines", "snap", texts)
	bytesA := []string{"a", "-", "\n", "\xff", "\xfe", "\x00"}
	texts = []string{""}
	for _, a := range bytesA {
		texts = append(texts, a)
		for _, b := range bytesA {
			texts = append(texts, a+b)
			for _, d := range bytesA {
				if c.Thorough || (a != "a" && d != "-") {
					texts = append(texts, a+b+d)
				}
			}
		}
	}
	c.pairs("bytes", "snap", texts)
	texts = nil
	for _, a := range []string{"\r", "\n", "a", "\xff", "\xc3", "\xa9", "\u00e9", "\ufffd"} {
		texts = append(texts, a)
		for _, b := range []string{"\r", "\n", "a", "\xff", "\xc3", "\xa9"} {
			texts = append(texts, a+b)
		}
	}
	texts = append(texts, uniqueBig(r, c.N(12, 60))...)
	c.pairs("standalone", "ssnap", dedup(texts))
	c.timed("lookalikes", c.c02lookalikes)
	c.timed("values", c.c02values)
	c.need(2000, "changed_among_many")
	var big []string
	for _, b := range uniqueBig(r, c.N(10, 50)) {
		big = append(big, core.NoCR(b))
	}
	c.pairs("big", "snap", dedup(big))
}

func dedup(xs []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// uniqueBig makes long texts at small distance from each other: beyond 200
// lines with repeated lines, and single very long lines.
func uniqueBig(r *core.Rng, n int) []string {
	var out []string
	base := make([]string, 260)
	for i := range base {
		base[i] = core.Pick(r, []string{"x", "x", "y", "", "line", fmt.Sprint("u", i)})
	}
	out = append(out, strings.Join(base, "\n"))
	for len(out) < n/2 {
		l := append([]string(nil), base...)
		for k := r.Range(1, 3); k > 0; k-- {
			i := r.Intn(len(l))
			l[i] = core.Pick(r, []string{"x", "y", "", "line"})
		}
		out = append(out, strings.Join(l, "\n"))
	}
	long := strings.Repeat("0123456789", 7000)
	out = append(out, long)
	for len(out) < n {
		i := r.Intn(len(long))
		out = append(out, long[:i]+core.Pick(r, []string{"", "x", "\xff", "\n"})+long[i+1:])
	}
	return dedup(out)
}

// c02lookalikes confronts texts that are easily taken for the same.
func (c *Ctx) c02lookalikes() {
	var multi, all, docs, yamls []string
	str := func(s string) string { b, err := json.Marshal(s); must(err); return string(b) }
	for _, g := range core.Lookalikes {
		for _, s := range g {
			for _, t := range []string{s, s + "\nmore\n", "first\n" + s + "\nlast"} {
				// what the printer makes of it counts
				if t = core.Fmt(t); core.Fmt(t) != t {
					continue
				}
				all = append(all, t)
				if core.NoCR(t) == t {
					multi = append(multi, t)
				}
			}
			if utf8.ValidString(s) && s != "\ufeffx" && s != "x\ufeff" {
				docs = append(docs, "{\"k\": ["+str(s)+"]}")
				if len(s) < 1000 && strings.IndexFunc(s, func(r rune) bool { return r < ' ' || r == '\\' || r == '"' || r > '~' }) < 0 {
					yamls = append(yamls, "k: \""+s+"\"\n", "# "+s+"\nk: v\n")
				}
			}
		}
	}
	docs = append(docs, "1", "1.0", "10", "1e1", "-0", "0", "0.0", "-0.0", "0e5", "100", "1e2", "9007199254740992", "9007199254740993", "9007199254740993.0", "18446744073709551615", "18446744073709551616", "1e400", "1e401", "0.1", "0.10", "1E1", "1e+1", "true", "false", "null", "\"\"", "\"null\"", "\"1\"", "\"true\"", "[]", "{}", "[[]]", "[{}]", "[null]", "[1]", "{\"a\":null}", "{\"a\":[]}", "{\"a\":{}}", "{\"A\":{}}", "{\"\":{}}", "[1,2]", "[2,1]", "[1,1]", "{\"a\":1,\"b\":2}", "{\"a\":2,\"b\":1}")
	yamls = append(yamls, "a: 1\n", "a: 1", "a: 1\n\n", "a:  1\n", "a: 1 \n", "a: 1.0\n", "a: '1'\n", "a: \"1\"\n", "a: 0x1\n", "a: +1\n", "{a: 1}\n", "---\na: 1\n", "a: 1\n---\n", "a: 1\n...\n", "a: 1 # c\n", "# c\na: 1\n", "a: 1\n# c\n", "a: 1\nb: 2\n", "b: 2\na: 1\n", "a: ~\n", "a: null\n", "a:\n", "a: yes\n", "a: true\n", "a: |\n  x\n", "a: >\n  x\n", "a: |-\n  x\n", "a: x\n", "a: [1, 2]\n", "a:\n- 1\n- 2\n", "a:\n  - 1\n  - 2\n", "? a\n: 1\n", "\"a\": 1\n", "a: &x 1\n", "a: !!int 1\n")
	c.pairs("lookalikes", "snap", c.some("look", multi, 120))
	c.pairs("lookalikes_standalone", "ssnap", c.some("looks", all, 120))
	c.pairs("lookalikes_json", "json", c.some("lookj", docs, 90))
	c.pairs("lookalikes_sjson", "sjson", c.some("lookk", docs, 60))
	c.pairs("lookalikes_yaml", "yaml", c.some("looky", yamls, 90))
	// neighbours only, all of them
	for k, xs := range map[string][]string{"snap": multi, "ssnap": all, "json": docs, "yaml": yamls} {
		for i := 0; i < len(xs); i += 24 {
			c.pairs("lookalikes_near_"+k, k, xs[i:min(len(xs), i+28)])
		}
	}
}

// some is a random choice of at most n of the texts (all when thorough).
// c02values: calls with many values, one of which is changed, dropped, added or
// changes places with its neighbour.
func (c *Ctx) c02values() {
	r := c.Rng("values")
	counts := []int{2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 300, 1000, 1025, 5000}
	for _, kind := range []string{"snap", "ssnap"} {
		cs := c.NewCase()
		cs.Cfgs = []core.Cfg{{Dir: ptr("$CASE")}}
		ex := core.Exec{Test: "TestN"}
		val := func(i int) core.Val {
			switch i % 5 {
			case 1:
				return core.Val{T: "i", B: []byte(strconv.Itoa(i))}
			case 3:
				return core.S(fmt.Sprintf("v%d\nsecond line", i))
			}
			return core.S(fmt.Sprintf("v%d", i))
		}
		for _, n := range counts {
			if kind == "ssnap" {
				// one value only
				n = 1
			}
			var vs []core.Val
			for i := 0; i < n; i++ {
				vs = append(vs, val(i))
			}
			ex.Ops = append(ex.Ops, core.Op{K: kind, V: vs})
			if kind == "ssnap" {
				break
			}
		}
		cs.Steps = [][]core.Exec{{ex}}
		rr := c.RunCases(Mode{}, []core.Case{cs}, 0)[0]
		if c.Crashed(rr, Mode{}) {
			continue
		}
		if k := allCalls(rr, "added"); k != nil {
			c.Inconclusive("values: could not record: %s", callText(k))
		}
		core.Age(cs.Dir)
		before := core.Observe(cs.Dir)
		for mi, m := range noUpdateModes {
			var cases []core.Case
			for v := 0; v < c.N(14, 60); v++ {
				k := core.Case{ID: fmt.Sprintf("%s-%s-%d-%d", cs.ID, kind, mi, v), Dir: cs.Dir, Cfgs: cs.Cfgs}
				e := core.Exec{Test: "TestN"}
				for _, op := range ex.Ops {
					vs := append([]core.Val(nil), op.V...)
					n := len(vs)
					i := r.Intn(n)
					if v%3 == 0 {
						i = n - 1
					}
					switch x := v % 5; {
					case x == 1 && n > 1:
						vs = append(vs[:i:i], vs[i+1:]...)
					case x == 2:
						vs = append(vs[:i:i], append([]core.Val{core.S("more")}, vs[i:]...)...)
					case x == 3 && n > 1:
						j := (i + 1) % n
						vs[i], vs[j] = vs[j], vs[i]
					default:
						vs[i] = core.S("changed")
					}
					e.Ops = append(e.Ops, core.Op{K: kind, V: vs})
				}
				k.Steps = [][]core.Exec{{e}}
				cases = append(cases, k)
			}
			for _, rr := range c.RunCases(m, cases, 0) {
				if c.Crashed(rr, m) {
					continue
				}
				for ki := range rr.Calls {
					k := &rr.Calls[ki]
					c.Count("changed_among_many", 1)
					c.Eval(fmt.Sprintf("%s/%d", rr.Case.ID, k.Op))
					if o := outcome(k); o != "failed" {
						c.Violate(replay(rr, m), "one of the %d values of call %d is another one (mode %s): %s instead of exactly one failure", len(ex.Ops[k.Op].V), k.Op+1, m, o)
					}
				}
			}
		}
		if d := before.Diff(core.Observe(cs.Dir), true); len(d) > 0 {
			c.Violate(map[string]any{"case": cs.ID}, "failing calls wrote: %s", strings.Join(d, "; "))
		}
	}
}

func (c *Ctx) some(label string, xs []string, n int) []string {
	r := c.Rng(label)
	xs = dedup(xs)
	if c.Thorough {
		n *= 5
	}
	var out []string
	for _, i := range r.Perm(len(xs)) {
		if len(out) < n {
			out = append(out, xs[i])
		}
	}
	return out
}

// pairs records each text in its own slot and confronts every slot with every
// text: exactly the diagonal passes.
func (c *Ctx) pairs(label, kind string, texts []string) {
	texts = dedup(texts)
	cs := c.NewCase()
	cs.Cfgs = []core.Cfg{{Dir: ptr("$CASE")}}
	ex := core.Exec{Test: "TestP"}
	for _, t := range texts {
		ex.Ops = append(ex.Ops, core.Op{K: kind, V: []core.Val{core.S(t)}})
	}
	cs.Steps = [][]core.Exec{{ex}}
	rr := c.RunCases(Mode{}, []core.Case{cs}, 0)[0]
	if c.Crashed(rr, Mode{}) {
		return
	}
	if k := allCalls(rr, "added"); k != nil {
		c.Inconclusive("pairs %s: could not record: %s", label, callText(k))
	}
	core.Age(cs.Dir)
	before := core.Observe(cs.Dir)
	for _, m := range []Mode{{}, {Color: true}} {
		var cases []core.Case
		for g := range texts {
			k := core.Case{ID: fmt.Sprintf("%s-%s-%d-%v", cs.ID, label, g, m.Color), Dir: cs.Dir, Cfgs: cs.Cfgs}
			e := core.Exec{Test: "TestP"}
			for range texts {
				e.Ops = append(e.Ops, core.Op{K: kind, V: []core.Val{core.S(texts[g])}})
			}
			k.Steps = [][]core.Exec{{e}}
			cases = append(cases, k)
		}
		for g, rr := range c.RunCases(m, cases, 0) {
			if c.Crashed(rr, m) {
				continue
			}
			for ki := range rr.Calls {
				k := &rr.Calls[ki]
				want := "failed"
				if k.Op == g {
					want = "passed"
				}
				c.Eval("")
				if o := outcome(k); o != want && want == "failed" {
					w := map[string]any{"mode": m.String(), "kind": kind, "stored": []byte(texts[k.Op]), "given": []byte(texts[g])}
					c.Violate(w, "%s: stored %q, given %q (mode %s): %s instead of exactly one failure", kind, clipS(texts[k.Op], 80), clipS(texts[g], 80), m, o)
				}
			}
		}
		c.Count("pairs_"+label, len(texts)*len(texts))
		c.mu.Lock()
		for i := range texts {
			for j := range texts {
				if i != j {
					c.distinct[fmt.Sprintf("%s/%d/%d/%v", label, i, j, m.Color)] = true
				}
			}
		}
		c.mu.Unlock()
	}
	if d := before.Diff(core.Observe(cs.Dir), true); len(d) > 0 {
		c.Violate(map[string]any{"case": cs.ID}, "failing calls wrote: %s", strings.Join(d, "; "))
	}
}
