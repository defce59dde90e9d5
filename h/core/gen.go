package core

import (
	"github.com/kr/pretty"

	"fmt"
	"strings"
)

// Text generators. ids are the entry ids of the case, so that bodies can
// contain lines that look exactly like the headers of other entries.

var longLine = strings.Repeat("long line é ", 9000) // > 64 KiB, the default scanner limit

// texts that a template, a format, a shell or a regular expression takes for
// more than themselves
var Templates = []string{"$1", "${x}", "$$", "${1}", "$ID", "$HOME", "${", "$", "\\1", "\\0", "&", "{{.X}}", "{{", "}}", "%[1]d", "%!s(MISSING)", "$(x)", "`x`", "#{x}", "<no value>", "~/x", "${{ x }}", "%PATH%", "\\x41", "\\u0041", "&amp;", "%20", "a+b", "<!-- -->", "// x", "# x", "; x", "\\", "\\\\"}

func hostileLine(r *Rng, ids []string) string {
	switch r.Intn(25) {
	case 23:
		return Pick(r, []string{"", "a ", "x=", "\""}) + Pick(r, Templates) + Pick(r, []string{"", " b", "\"", Pick(r, Templates)})
	case 0, 1:
		return ""
	case 2:
		return Pick(r, []string{" ", "\t", "  ", " \t "})
	case 3, 4:
		return "---"
	case 5, 6:
		return "/-/-/-/"
	case 7:
		return Pick(r, []string{"//-/-/-/", "///-/-/-/", "/-/-/-/ ", " /-/-/-/", "-/-/-/", "/-/-/-"})
	case 8:
		return Pick(r, []string{"--- ", " ---", "----", "--", "-", "---\t"})
	case 9, 10, 11:
		if len(ids) > 0 {
			return "[" + Pick(r, ids) + "]"
		}
		return "[TestX - 1]"
	case 12:
		return Pick(r, []string{"[", "]", "[]", "[Test - ]", "[x - 1]", "[Test - 1", "Test - 1]", "[TestA - 1] ", "[TestZ/sub - 12]"})
	case 13:
		return Pick(r, []string{"\xff\xfe", "\x00", "a\x80b", "\xc3\x28", "\xed\xa0\x80", "\xff"})
	case 14:
		return Pick(r, []string{"%d", "%s %v %!", "100%", "%%", "%1"})
	case 15:
		return Pick(r, []string{"\x1b[31mred\x1b[0m", "\x1b[0m", "↵", "\u2028", "\u0085", "\ufeff", "\v\f"})
	case 16:
		return Pick(r, []string{"- a", "+ a", "@@ -1 +1 @@", "at x:1", "  x"})
	case 17:
		return Pick(r, []string{"a\rb", "\rb"})
	case 18:
		if r.Intn(12) == 0 {
			return longLine[:70000+r.Intn(3000)]
		}
		return strings.Repeat("x", r.Intn(200))
	default:
		return Pick(r, []string{"a", "b", "foo", "hello world", "{", "}", "1", "key: value", "é", "日本語", "null", "\"q\"", "\\n"})
	}
}

// NoCR removes carriage returns at the end of lines (documented limitation).
func NoCR(s string) string {
	for strings.Contains(s, "\r\n") {
		s = strings.ReplaceAll(s, "\r\n", "\n")
	}
	return strings.TrimRight(s, "\r")
}

// HostileText makes a body.
func HostileText(r *Rng, ids []string) string {
	switch r.Intn(12) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("\n", r.Range(1, 4))
	case 2:
		b := make([]byte, r.Intn(40))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return NoCR(string(b))
	}
	n := r.Range(1, 7)
	if r.Intn(20) == 0 {
		n = r.Range(20, 60)
	}
	ls := make([]string, n)
	for i := range ls {
		ls[i] = hostileLine(r, ids)
	}
	return NoCR(strings.Join(ls, "\n"))
}

// HostileBytes makes arbitrary content for standalone snapshots (carriage
// returns included).
func HostileBytes(r *Rng, ids []string) string {
	s := HostileText(r, ids)
	switch r.Intn(5) {
	case 0:
		return strings.ReplaceAll(s, "\n", "\r\n")
	case 1:
		return s + "\r"
	case 2:
		return "\r\n" + s + "\n"
	}
	return s
}

// Mutate returns a near miss of s: a different text at small distance.
func Mutate(r *Rng, s string, ids []string) string {
	for try := 0; ; try++ {
		m := mutate1(r, s, ids)
		if m != s && NoCR(m) == m && FmtNoCR(m) == m {
			return m
		}
		if try > 50 {
			return s + "!"
		}
	}
}

func mutate1(r *Rng, s string, ids []string) string {
	ls := strings.Split(s, "\n")
	i := r.Intn(len(ls))
	switch r.Intn(16) {
	case 0:
		return s + "\n"
	case 1:
		return "\n" + s
	case 2:
		return s + " "
	case 3:
		return strings.TrimSuffix(s, "\n")
	case 4:
		return strings.TrimPrefix(s, "\n")
	case 5:
		// swap terminator and its escape
		for k, l := range ls {
			switch l {
			case "---":
				ls[k] = "/-/-/-/"
				return strings.Join(ls, "\n")
			case "/-/-/-/":
				ls[k] = Pick(r, []string{"---", "//-/-/-/"})
				return strings.Join(ls, "\n")
			case "//-/-/-/":
				ls[k] = "/-/-/-/"
				return strings.Join(ls, "\n")
			}
		}
		return s + "\n---"
	case 6:
		ls[i] = hostileLine(r, ids)
		return strings.Join(ls, "\n")
	case 7:
		ls = append(ls[:i], ls[i+1:]...)
		return strings.Join(ls, "\n")
	case 8:
		ls = append(ls[:i+1], ls[i:]...)
		return strings.Join(ls, "\n")
	case 9:
		j := r.Intn(len(ls))
		ls[i], ls[j] = ls[j], ls[i]
		return strings.Join(ls, "\n")
	case 10, 11:
		if len(s) == 0 {
			return "x"
		}
		b := []byte(s)
		b[r.Intn(len(b))] = byte(r.Intn(256))
		return string(b)
	case 12:
		if len(s) == 0 {
			return " "
		}
		p := r.Intn(len(s))
		return s[:p] + s[p+1:]
	case 13:
		p := r.Intn(len(s) + 1)
		return s[:p] + Pick(r, []string{" ", "\t", "\x00", "\xff", "\xfe", "\ufffd", "x", "\n", "\u200b", "\x1b[0m", "\x1b[31m", Pick(r, Templates)}) + s[p:]
	case 14:
		return strings.ToUpper(s)
	default:
		ls[i] = strings.TrimSpace(ls[i])
		return strings.Join(ls, "\n")
	}
}

// Test names as the testing package would produce them, prefix related on purpose.
var nameHeads = []string{"TestA", "TestAB", "TestA1", "TestA10", "TestB", "Test", "Testé", "TestLong_name", "FuzzZ", "BenchmarkQ", "ExampleE"}
var nameTails = []string{"", "", "", "/a", "/a_-_1", "/a#01", "/a/b", "/A", "/x]", "/[x", "/%d", "/1", "/10", "/2", "/é", "/case_1_-_2", "/a_b", "/100%", "/---", "/..", "/!(NOVERB)", "/a+b", "/aab", "/a.b", "/(x)", "/a|b", "/*", "/$", "/^a", "/{2}", "/\\d", "/a.snap", "/a_2.snap_b"}

func TestName(r *Rng) string { return Pick(r, nameHeads) + Pick(r, nameTails) }

// TestNames returns n distinct names.
func TestNames(r *Rng, n int) []string {
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		x := TestName(r)
		if len(out) > 0 && r.Chance(0.25) {
			x = KinName(r, Pick(r, out))
		}
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// KinName is a test name that something lenient could take for x.
func KinName(r *Rng, x string) string {
	root, sub, below := strings.Cut(x, "/")
	switch r.Intn(9) {
	case 0: // another case
		if !below {
			return root + "Q/sub"
		}
		return root + "/" + swapCase(sub)
	case 1:
		if len(root) > 5 {
			b := []byte(root)
			i := len(b) - 1
			if c := b[i] | 0x20; c >= 'a' && c <= 'z' {
				b[i] ^= 0x20
			}
			return strings.TrimSuffix(string(b)+"/"+sub, "/")
		}
		return x + "x"
	case 2:
		return x + "#01"
	case 3:
		return x + Pick(r, []string{"_", "__", ".", "-", "+"})
	case 4:
		return x + "/" + Pick(r, []string{"s", "_", "1", "a", "#00"})
	case 5:
		return x + Pick(r, []string{"0", "1", "_1", "/1"})
	case 6:
		if below {
			return root + "/" + sub + "/" + sub
		}
		return root + "/" + root
	case 7:
		return root
	}
	if below && len(sub) > 1 && sub[len(sub)-1] < 0x80 {
		return root + "/" + sub[:len(sub)-1]
	}
	return x + "/x"
}

func swapCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if l := c | 0x20; l >= 'a' && l <= 'z' {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

// SlotIDs lists plausible entry ids of the given tests.
func SlotIDs(names []string, max int) []string {
	var out []string
	for _, n := range names {
		for k := 1; k <= max; k++ {
			out = append(out, fmt.Sprintf("%s - %d", n, k))
		}
	}
	return out
}

// ---- JSON documents ----

// JVal is an ordered JSON document.
type JVal struct {
	K    byte // o a s n t f z(null)
	Keys []string
	Elem []*JVal
	S    string // raw number text, or decoded string
}

var jkeys = []string{"a", "b", "c", "name", "age", "user", "items", "z", "A", "k1", "k10", "k2", "é", "x y", "_id", "dash-ed"}
var jodd = []string{"a.b", "*", "?x", "#", "|p", "q\"uote", "back\\slash", "", ":1", "@this", "~", "0", "1", "-1", "tab\t", "nl\n", "\u2028", "ctl\u0001"}
var jnums = []string{"0", "1", "-1", "10", "3.14", "1e3", "1E+2", "-0", "0.10", "12345678901234567890", "1e400", "9007199254740993", "1.0", "100000000000000000000.5", "1e-7"}
var jstrs = []string{"", "x", "hello", "a b", "\"", "\\", "/", "<>&", "é", "日本", "\u2028", "\n", "\t", "\x01", "---", "null", "1", "[TestA - 1]", "{\"x\":1}", "%d", "😀", "a,b", "key: v", "#c", "\u007f"}

func GenJSON(r *Rng, depth int, odd bool) *JVal {
	if depth > 0 {
		switch r.Intn(5) {
		case 0, 1:
			v := &JVal{K: 'o'}
			seen := map[string]bool{}
			n := r.Intn(5)
			for i := 0; i < n; i++ {
				k := Pick(r, jkeys)
				if odd && r.Chance(0.3) {
					k = Pick(r, jodd)
				}
				if seen[k] {
					continue
				}
				seen[k] = true
				v.Keys = append(v.Keys, k)
				v.Elem = append(v.Elem, GenJSON(r, depth-1, odd))
			}
			return v
		case 2:
			v := &JVal{K: 'a'}
			n := r.Intn(5)
			for i := 0; i < n; i++ {
				v.Elem = append(v.Elem, GenJSON(r, depth-1, odd))
			}
			return v
		}
	}
	switch r.Intn(6) {
	case 0, 1:
		return &JVal{K: 'n', S: Pick(r, jnums)}
	case 2, 3:
		if r.Chance(0.12) {
			return &JVal{K: 's', S: Pick(r, jlook)}
		}
		if r.Chance(0.08) {
			return &JVal{K: 's', S: Pick(r, Templates)}
		}
		return &JVal{K: 's', S: Pick(r, jstrs)}
	case 4:
		return &JVal{K: Pick(r, []byte{'t', 'f'})}
	default:
		return &JVal{K: 'z'}
	}
}

// GenJSONObj forces a top level object with members.
func GenJSONObj(r *Rng, depth int, odd bool) *JVal {
	for {
		v := GenJSON(r, depth, odd)
		if v.K == 'o' && len(v.Keys) >= 2 {
			return v
		}
	}
}

func (v *JVal) Clone() *JVal {
	w := *v
	w.Keys = append([]string(nil), v.Keys...)
	w.Elem = nil
	for _, e := range v.Elem {
		w.Elem = append(w.Elem, e.Clone())
	}
	return &w
}

// Key is a canonical text of the value (member order ignored, number text kept).
func (v *JVal) Key() string {
	var b strings.Builder
	v.key(&b)
	return b.String()
}

func (v *JVal) key(b *strings.Builder) {
	switch v.K {
	case 'o':
		idx := make([]int, len(v.Keys))
		for i := range idx {
			idx[i] = i
		}
		for i := 1; i < len(idx); i++ {
			for j := i; j > 0 && v.Keys[idx[j]] < v.Keys[idx[j-1]]; j-- {
				idx[j], idx[j-1] = idx[j-1], idx[j]
			}
		}
		b.WriteString("{")
		for _, i := range idx {
			fmt.Fprintf(b, "%q:", v.Keys[i])
			v.Elem[i].key(b)
			b.WriteString(",")
		}
		b.WriteString("}")
	case 'a':
		b.WriteString("[")
		for _, e := range v.Elem {
			e.key(b)
			b.WriteString(",")
		}
		b.WriteString("]")
	case 's':
		fmt.Fprintf(b, "%q", v.S)
	case 'n':
		b.WriteString("n" + v.S)
	default:
		b.WriteByte(v.K)
	}
}

// Text renders the document. ws adds random insignificant whitespace, shuffle
// permutes object members, esc varies string escapes.
func (v *JVal) Text(r *Rng, ws, shuffle, esc bool) string {
	var b strings.Builder
	v.text(&b, r, ws, shuffle, esc)
	if ws && r != nil && r.Chance(0.3) {
		return gap(r) + b.String() + gap(r)
	}
	return b.String()
}

func gap(r *Rng) string {
	return Pick(r, []string{"", "", " ", "\n", "\t", "  \n ", "\r\n", "\n\n"})
}

func (v *JVal) text(b *strings.Builder, r *Rng, ws, shuffle, esc bool) {
	g := func() {
		if ws {
			b.WriteString(gap(r))
		}
	}
	switch v.K {
	case 'o':
		idx := make([]int, len(v.Keys))
		for i := range idx {
			idx[i] = i
		}
		if shuffle {
			r.Shuffle(len(idx), func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
		}
		b.WriteByte('{')
		for n, i := range idx {
			if n > 0 {
				b.WriteByte(',')
			}
			g()
			b.WriteString(JStr(v.Keys[i], r, esc))
			g()
			b.WriteByte(':')
			g()
			v.Elem[i].text(b, r, ws, shuffle, esc)
			g()
		}
		if len(idx) == 0 {
			g()
		}
		b.WriteByte('}')
	case 'a':
		b.WriteByte('[')
		for n, e := range v.Elem {
			if n > 0 {
				b.WriteByte(',')
			}
			g()
			e.text(b, r, ws, shuffle, esc)
			g()
		}
		if len(v.Elem) == 0 {
			g()
		}
		b.WriteByte(']')
	case 's':
		b.WriteString(JStr(v.S, r, esc))
	case 'n':
		b.WriteString(v.S)
	case 't':
		b.WriteString("true")
	case 'f':
		b.WriteString("false")
	default:
		b.WriteString("null")
	}
}

// JStr encodes a string; with esc some runes are spelled \uXXXX.
func JStr(s string, r *Rng, esc bool) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"':
			b.WriteString(`\"`)
		case c == '\\':
			b.WriteString(`\\`)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\t':
			b.WriteString(`\t`)
		case c < 0x20:
			fmt.Fprintf(&b, `\u%04x`, c)
		case esc && c < 0x10000 && r.Chance(0.2):
			fmt.Fprintf(&b, `\u%04x`, c)
		case esc && c == '/' && r.Chance(0.5):
			b.WriteString(`\/`)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// ---- YAML documents (text) ----

var yamlDocs = []string{
	"a: 1\nb: two\n",
	"a: 1\nb: two",
	"# comment\na: 1 # trailing\nb:\n  - x\n  - y\n",
	"z: 1\na: 2\nm: 3\n",
	"- 1\n- two\n- three: 3\n",
	"just a scalar\n",
	"42",
	"a: |\n  multi\n  line\nb: >\n  folded\n  text\n",
	"a: 'single'\nb: \"double\\n\"\nc: ~\nd: true\ne: 1.5\n",
	"a: {x: 1, y: [1, 2, 3]}\n",
	"a: &anchor\n  x: 1\nb: *anchor\n",
	"a: 1\n---\nb: 2\n",
	"---\na: 1\n",
	"---\na: 1\n---\nb: 2\n---\nc: 3\n",
	"a: 1\n\n\nb: 2\n\n",
	"\n\na: 1\n",
	"key with space: v\n\"quoted key\": w\n",
	"é: ü\n日本: 語\n",
	"a:\n    deep:\n        deeper: x\n",
	"empty: \nn: null\n",
	"/-/-/-/: x\n",
	"a: '[TestA - 1]'\n",
	"- [TestA - 1]\n- [x]\n",
	"[TestA - 1]\n",
	"[a, b]\n",
	"{a: 1}\n",
	"d: 2020-01-01\nt: 12:30:45\no: 0o14\nh: 0x1F\n",
	"s: \"\"\nl: []\nm: {}\n",
	"a: |-\n  x\n\n  y\nb: |+\n  keep\n\n",
	"%YAML 1.2\n---\na: 1\n",
	"/-/-/-/\n",
	"//-/-/-/\n",
	"a: 1\n...\n",
	"# only a comment\n",
	"\ufeffa: 1\n",
	"a: \u00a0x\u200b\n",
	"a: \u2028\nb: \"\u0085\"\n",
	"a: x  \nb: y\t\n",
	"",
}

// YAMLText returns a valid document (as accepted by the library).
func YAMLText(r *Rng) string {
	if r.Chance(0.5) {
		return Pick(r, yamlDocs)
	}
	var b strings.Builder
	n := r.Range(1, 6)
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "k%d: %s\n", i, Pick(r, []string{"1", "x", "\"q\"", "[1, 2]", "{a: b}", "~", "true", "3.5", "'s'", "\n  - i\n  - j", "\n  n: m", "|\n  t\n  u", "x # c", "$x", "a ${x} b", "'$1'", "'{{.x}}'", "'100%d'", "\"$$\""}))
		if r.Intn(5) == 0 {
			b.WriteString(Pick(r, []string{"\n", "# c\n", "---\n"}))
		}
	}
	s := b.String()
	if r.Chance(0.4) {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

func YAMLCorpus() []string { return yamlDocs }

// FmtNoCR drops carriage returns from a value whose formatted text would have
// one at the end of a line.
func FmtNoCR(s string) string {
	if f := Fmt(s); NoCR(f) != f {
		return strings.ReplaceAll(s, "\r", "")
	}
	return s
}

// Fmt is the formatted text of MatchSnapshot/MatchStandaloneSnapshot string
// values: each goes through kr/pretty (which expands tabs), joined by newlines.
func Fmt(parts ...string) string {
	out := make([]string, len(parts))
	for i, p := range parts {
		out[i] = pretty.Sprint(p)
	}
	return strings.Join(out, "\n")
}
