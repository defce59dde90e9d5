package core

import (
	"fmt"
	"strings"
)

// GenYAML writes a YAML stream in many styles. Not every text it returns is
// valid for every parser; callers filter.
func GenYAML(r *Rng, depth int, multi bool) string {
	g := &ygen{r: r, depth: depth}
	docs := 1
	if multi {
		docs = r.Range(2, 4)
	}
	var b strings.Builder
	for i := 0; i < docs; i++ {
		if i > 0 || r.Chance(0.15) {
			b.WriteString("---")
			if r.Chance(0.1) {
				b.WriteString(" # doc")
			}
			b.WriteString("\n")
		}
		if r.Chance(0.15) {
			b.WriteString("# head\n")
		}
		if r.Chance(0.05) {
			b.WriteString("\n")
		}
		b.WriteString(g.root())
		if r.Chance(0.1) {
			b.WriteString("# tail\n")
		}
		if r.Chance(0.05) {
			b.WriteString("\n")
		}
	}
	s := b.String()
	if r.Chance(0.3) {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

type ygen struct {
	r     *Rng
	depth int
	n     int
	anch  []string
}

func (g *ygen) root() string {
	g.anch = nil
	switch g.r.Intn(10) {
	case 0, 1:
		return g.seq(0, g.depth)
	case 2:
		return g.flow(g.depth) + "\n"
	default:
		return g.mapping(0, g.depth)
	}
}

var ykeys = []string{"a", "b", "c", "name", "age", "user", "items", "id", "x-y", "k_1", "Z", "é", "日本"}
var yoddkeys = []string{"key with space", `"quoted"`, `'single'`, `"a.b"`, `'x*y'`, "1", "true", "'1'", `"c:d"`, "a.b", "/path", "k[0]", `"é\u0041"`, "x#y", "'it''s'", "-k", "?q", `"- x"`, "$d", "~t"}

func (g *ygen) key() string {
	if g.r.Chance(0.15) {
		return Pick(g.r, yoddkeys)
	}
	return Pick(g.r, ykeys)
}

func (g *ygen) keys(n int) []string {
	seen := map[string]bool{}
	var out []string
	for i := 0; i < n; i++ {
		k := g.key()
		u := strings.Trim(k, `"'`)
		if seen[u] {
			continue
		}
		seen[u] = true
		out = append(out, k)
	}
	return out
}

func (g *ygen) comment() string {
	if g.r.Chance(0.08) {
		return " # " + Pick(g.r, []string{"c", "x: y", "- z", "[TestA - 1]", "---"})
	}
	return ""
}

func (g *ygen) mapping(ind, depth int) string {
	var b strings.Builder
	pad := strings.Repeat(" ", ind)
	for _, k := range g.keys(g.r.Range(1, 4)) {
		if g.r.Chance(0.05) {
			b.WriteString(pad + "# about " + strings.Trim(k, `"'`) + "\n")
		}
		if g.r.Chance(0.03) {
			b.WriteString("\n")
		}
		b.WriteString(pad + k + ":" + g.value(ind, depth-1, true))
	}
	return b.String()
}

func (g *ygen) seq(ind, depth int) string {
	var b strings.Builder
	pad := strings.Repeat(" ", ind)
	for i := g.r.Range(1, 4); i > 0; i-- {
		if g.r.Chance(0.04) {
			b.WriteString(pad + "# item\n")
		}
		if depth > 0 && g.r.Chance(0.3) { // compact nested collection
			var in string
			if g.r.Chance(0.7) {
				in = g.mapping(ind+2, depth-1)
			} else {
				in = g.seq(ind+2, depth-1)
			}
			if strings.HasPrefix(in, pad+"  ") && in[ind+2] != '#' && in[ind+2] != ' ' {
				b.WriteString(pad + "- " + in[ind+2:])
				continue
			}
		}
		b.WriteString(pad + "-" + g.value(ind, depth-1, false))
	}
	return b.String()
}

// value is what follows "key:" or "-": rest of the line and following lines.
func (g *ygen) value(ind, depth int, inMap bool) string {
	r := g.r
	pre := " "
	if r.Chance(0.04) {
		g.n++
		a := fmt.Sprintf("a%d", g.n)
		g.anch = append(g.anch, a)
		pre = " &" + a + " "
	}
	if depth > 0 {
		switch r.Intn(8) {
		case 0, 1:
			return strings.TrimRight(pre, " ") + g.comment() + "\n" + g.mapping(ind+Pick(r, []int{2, 2, 2, 4, 1}), depth)
		case 2, 3:
			d := 2
			if inMap && r.Chance(0.4) {
				d = 0
			}
			return strings.TrimRight(pre, " ") + g.comment() + "\n" + g.seq(ind+d, depth)
		case 4:
			return pre + g.flow(depth) + g.comment() + "\n"
		}
	}
	if len(g.anch) > 0 && pre == " " && r.Chance(0.05) {
		return " *" + Pick(r, g.anch) + "\n"
	}
	switch r.Intn(12) {
	case 0: // literal or folded
		h := Pick(r, []string{"|", "|-", "|+", ">", ">-", ">+"})
		pad := strings.Repeat(" ", ind+2)
		var b strings.Builder
		b.WriteString(pre + h + g.comment() + "\n")
		n := r.Range(1, 4)
		for i := 0; i < n; i++ {
			l := Pick(r, []string{"text", "two words", "---", "[TestA - 1]", "a: b", "- x", "# no comment", "  more", "", "é", "\"q\"", "/-/-/-/"})
			if l == "" && i == 0 {
				l = "first"
			}
			if l == "  more" && i == 0 {
				l = "more"
			}
			if l == "" {
				b.WriteString("\n")
			} else {
				b.WriteString(pad + l + "\n")
			}
		}
		return b.String()
	case 1: // multi-line plain or quoted
		pad := strings.Repeat(" ", ind+2)
		switch r.Intn(3) {
		case 0:
			return pre + "plain\n" + pad + "more plain\n"
		case 1:
			return pre + "\"dq\n" + pad + "more\\n x\"\n"
		default:
			return pre + "'sq\n\n" + pad + "more'\n"
		}
	case 2:
		if inMap && r.Chance(0.5) {
			return strings.TrimRight(pre, " ") + "\n"
		}
	case 3:
		if r.Chance(0.3) {
			return pre + Pick(r, []string{"!!str 1", "!!int \"2\"", "!custom x", "!!float 1"}) + "\n"
		}
	}
	return pre + g.scalar(false) + g.comment() + "\n"
}

func (g *ygen) scalar(flow bool) string {
	s := Pick(g.r, []string{
		"1", "0", "-1", "42", "3.14", "-0.5", "1e3", "12345678901234567890", "0x1F", "0o14", "true", "false", "null", "~",
		"text", "two words", "\"dq\"", "'sq'", "\"\"", "''", "\"esc\\n\\t\\\"x\\u00e9\"", "'it''s'", "é", "日本",
		"2020-01-01", "12:30:45", "2001-12-14t21:59:43.10-05:00", "yes", "no", "on", ".inf", "http://x.y/z?q#f", "a:b", "x#y", "<any>", "100%", "-x", "\"---\"", "\"[TestA - 1]\"", "1.0", "1_000", "007", "+5", "'1'", "\"true\"", "'a: b'", "\"#\"", "@at_is_reserved"[1:], "x\\y", "---", "...", "$x", "'$1'", "\"${x}\"", "a$$b", "'{{.x}}'", "'%[1]d'", "{{"[2:] + "z",
	})
	if flow && strings.ContainsAny(s, "?:#") && s[0] != '"' && s[0] != '\'' {
		return "f"
	}
	return s
}

func (g *ygen) flow(depth int) string {
	var parts []string
	n := g.r.Intn(4)
	if g.r.Chance(0.5) {
		for i := 0; i < n; i++ {
			parts = append(parts, g.flowVal(depth))
		}
		return g.wrap("[", parts, "]")
	}
	for _, k := range g.keys(n) {
		if strings.ContainsAny(k, "[]#?") {
			continue
		}
		parts = append(parts, k+": "+g.flowVal(depth))
	}
	return g.wrap("{", parts, "}")
}

func (g *ygen) wrap(o string, parts []string, c string) string {
	switch g.r.Intn(8) {
	case 0:
		if len(parts) > 0 {
			return o + " " + strings.Join(parts, " , ") + " " + c
		}
	case 1:
		return o + strings.Join(parts, ",") + c
	}
	return o + strings.Join(parts, ", ") + c
}

func (g *ygen) flowVal(depth int) string {
	if depth > 0 && g.r.Chance(0.35) {
		return g.flow(depth - 1)
	}
	return g.scalar(true)
}
