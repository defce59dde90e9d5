package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"

	"verifh/core"
)

func init() { checks["C13"] = checkC13 }

var reportHead = regexp.MustCompile(`^\n- Snapshot ( *)- (\d+)\n\+ Received ( *)\+ (\d+)\n\n`)
var rangeHead = regexp.MustCompile(`^@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@$`)
var reportFoot = regexp.MustCompile(`\nat [^\n]*:\d+\n$`)

type repLine struct {
	op   byte // - + space
	text string
	hunk *[4]int // set on the first line after a range header
}

// parseReport splits a NO_COLOR report into its lines.
func parseReport(s string) (lines []repLine, del, ins int, err error) {
	h := reportHead.FindStringSubmatch(s)
	if h == nil {
		return nil, 0, 0, fmt.Errorf("no header: %q", clipS(s, 120))
	}
	del, _ = strconv.Atoi(h[2])
	ins, _ = strconv.Atoi(h[4])
	body := s[len(h[0]):]
	if f := reportFoot.FindStringIndex(body); f != nil {
		body = body[:f[0]]
	} else if strings.HasSuffix(body, "\n") {
		body = body[:len(body)-1]
	} else {
		return nil, 0, 0, fmt.Errorf("no final newline")
	}
	if body == "" {
		return nil, del, ins, nil
	}
	if !strings.HasSuffix(body, "\n") {
		return nil, 0, 0, fmt.Errorf("the body does not end a line: %q", clipS(tail(body, 60), 60))
	}
	var pend *[4]int
	for rest := body; rest != ""; {
		i := strings.IndexByte(rest, '\n')
		l := rest[:i]
		rest = rest[i+1:]
		if strings.HasPrefix(l, "@@") {
			m := rangeHead.FindStringSubmatch(l)
			if m == nil {
				return nil, 0, 0, fmt.Errorf("odd range line %q", l)
			}
			num := func(s string, d int) int {
				if s == "" {
					return d
				}
				n, _ := strconv.Atoi(s)
				return n
			}
			pend = &[4]int{num(m[1], 0), num(m[2], 1), num(m[3], 0), num(m[4], 1)}
			rest = strings.TrimPrefix(rest, "\n")
			continue
		}
		if len(l) < 2 || l[1] != ' ' || (l[0] != '-' && l[0] != '+' && l[0] != ' ') {
			return nil, 0, 0, fmt.Errorf("odd line %q", clipS(l, 100))
		}
		lines = append(lines, repLine{l[0], l[2:], pend})
		pend = nil
	}
	return lines, del, ins, nil
}

// checkReport says what is wrong with the report on texts a (stored) and b
// (received); "" if nothing.
func checkReport(rep, a, b string) string {
	ls, del, ins, err := parseReport(rep)
	if err != nil {
		return err.Error()
	}
	nd, ni := 0, 0
	for _, l := range ls {
		if l.op == '-' {
			nd++
		} else if l.op == '+' {
			ni++
		}
	}
	if nd != del || ni != ins {
		return fmt.Sprintf("the header says -%d +%d, %d and %d lines are shown", del, ins, nd, ni)
	}
	if nd+ni == 0 {
		return "no changed line is shown"
	}
	A, B := strings.Split(a, "\n"), strings.Split(b, "\n")
	e := embed(ls, A, B)
	if e != "" {
		// the compared texts may both carry the newline that ends an entry
		if embed(ls, append(A, ""), append(B, "")) == "" {
			return ""
		}
	}
	return e
}

// embed looks for an alignment of A and B in which the report's lines appear
// in order and everything not shown is common to both.
func embed(ls []repLine, A, B []string) string {
	in := map[string]bool{}
	for _, l := range A {
		in["-"+l] = true
	}
	for _, l := range B {
		in["+"+l] = true
	}
	for _, l := range ls {
		if l.op != ' ' && !in[string(l.op)+l.text] {
			return fmt.Sprintf("line %q is shown as %c but is no line of that text", clipS(l.text, 100), l.op)
		}
	}
	// ranges must fit the lines they introduce
	for i, l := range ls {
		if l.hunk == nil {
			continue
		}
		a, b := 0, 0
		for j := i; j < len(ls) && (j == i || ls[j].hunk == nil); j++ {
			if ls[j].op != '+' {
				a++
			}
			if ls[j].op != '-' {
				b++
			}
		}
		if a != l.hunk[1] || b != l.hunk[3] {
			return fmt.Sprintf("range -%d,%d +%d,%d introduces %d and %d lines", l.hunk[0], l.hunk[1], l.hunk[2], l.hunk[3], a, b)
		}
	}
	type st struct{ x, i int }
	seen := map[st]bool{}
	shift := 0 // j - i before line x depends on x only
	sh := make([]int, len(ls)+1)
	for x, l := range ls {
		sh[x] = shift
		if l.op == '-' {
			shift--
		} else if l.op == '+' {
			shift++
		}
	}
	sh[len(ls)] = shift
	todo := []st{{0, 0}}
	best := 0
	for len(todo) > 0 {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[s] {
			continue
		}
		seen[s] = true
		if s.x > best {
			best = s.x
		}
		i, j := s.i, s.i+sh[s.x]
		if s.x == len(ls) && i == len(A) && j == len(B) {
			return ""
		}
		if i < len(A) && j >= 0 && j < len(B) && A[i] == B[j] {
			todo = append(todo, st{s.x, i + 1})
		}
		if s.x == len(ls) {
			continue
		}
		l := ls[s.x]
		if h := l.hunk; h != nil {
			// a range of no lines names the line before
			wa, wb := h[0]-1, h[2]-1
			if h[1] == 0 {
				wa = h[0]
			}
			if h[3] == 0 {
				wb = h[2]
			}
			if wa != i || wb != j {
				continue
			}
		}
		switch l.op {
		case '-':
			if i < len(A) && A[i] == l.text {
				todo = append(todo, st{s.x + 1, i + 1})
			}
		case '+':
			if j >= 0 && j < len(B) && B[j] == l.text {
				todo = append(todo, st{s.x + 1, i})
			}
		default:
			if i < len(A) && j >= 0 && j < len(B) && A[i] == B[j] && (A[i] == l.text || (A[i] == "" && l.text == "↵")) {
				todo = append(todo, st{s.x + 1, i + 1})
			}
		}
	}
	return fmt.Sprintf("no alignment of the texts shows these lines (fits up to line %d of %d)", best, len(ls))
}

func checkC13(c *Ctx) {
	c.rule = "every ordered pair of texts of <=5 lines over {a, b, empty} (132k pairs) and random families of related texts (hostile lines, invalid UTF-8, whitespace, >10 and >200 lines, repeated lines, JSON and YAML documents, thousands of lines that differ in one to all lines) is compared through the API in NO_COLOR mode, parsed and embedded in an alignment of both texts; empty-iff-equal also in colour; the edit script is driven through an overlay test: tiling, equality, replay, grouping at several context sizes; non-trivial = distinct unequal pair"
	c.assume = []string{"what is compared is the text stored on disk (terminator escaping undone) and the text the same value stores"}
	c.timed("exhaustive", c.c13exhaustive)
	c.timed("random", c.c13random)
	c.timed("long", c.c13long)
	c.timed("difflib", c.c13difflib)
	c.need(1000, "reports_checked")
	c.need(100, "reports_with_ranges", "reports_of_invalid_utf8", "coloured_compared", "long_reports")
}

func c13letters(max int) []string {
	letters := []string{"a", "b", ""}
	var texts []string
	cur := []string{}
	for k := 1; k <= max; k++ {
		var next []string
		if k == 1 {
			next = letters
		} else {
			for _, p := range cur {
				for _, l := range letters {
					next = append(next, p+"\n"+l)
				}
			}
		}
		texts = append(texts, next...)
		cur = next
	}
	return dedup(texts)
}

func (c *Ctx) c13exhaustive() {
	texts := c13letters(5)
	var vals []core.Val
	for _, t := range texts {
		vals = append(vals, core.S(t))
	}
	n := c.reportMatrix("ssnap", "x", vals, []Mode{{}}, true)
	if n == len(texts)*len(texts) {
		c.Count("exhaustive_pairs", n)
	}
	vals = vals[:0]
	for _, t := range c13letters(3) {
		vals = append(vals, core.S(t))
	}
	c.reportMatrix("snap", "x3", vals, []Mode{{}, {Color: true}}, true)
	c.reportMatrix("ssnap", "x3s", vals, []Mode{{Color: true}}, true)
}

// family makes texts related by small edits.
func family(r *core.Rng, n int) []string {
	lines := r.Range(1, 9)
	switch r.Intn(5) {
	case 0:
		lines = 1
	case 1:
		lines = r.Range(9, 40)
	case 2:
		lines = r.Range(190, 300)
	}
	pool := []string{"", "a", "b", "same", "x y", "x  y", "x y ", "\tx", "\xff", "\xfe\xff", "a\xc3", "é", "- minus", "+ plus", "  two", "@@ -1 +1 @@", "at f:1", "↵", "---", "/-/-/-/", "[TestA - 1]", "\x1b[31mred\x1b[0m", "Snapshot - 1", "x\x00y", "100%d", strings.Repeat("long ", 400)}
	if r.Chance(0.3) {
		pool = pool[:r.Range(1, 4)]
	}
	if r.Chance(0.12) {
		// lines longer than any buffer
		long := strings.Repeat("long ", core.Pick(r, []int{900, 1800, 3500, 7000, 14000}))
		pool = append(pool, long, long, long+"x", long[:len(long)-1])
		lines = min(lines, 12)
	}
	if r.Chance(0.4) {
		for _, s := range core.Lookalike(r) {
			pool = append(pool, strings.Split(s, "\n")...)
		}
	}
	if r.Chance(0.15) {
		pool = nil
		for len(pool) < 4 {
			for _, s := range core.Lookalike(r) {
				pool = append(pool, strings.Split(s, "\n")...)
			}
		}
	}
	gen := func() string {
		if r.Chance(0.15) {
			return fmt.Sprint("u", r.Intn(1000))
		}
		return core.Pick(r, pool)
	}
	base := make([]string, lines)
	for i := range base {
		base[i] = gen()
	}
	var out []string
	for len(out) < n {
		l := append([]string(nil), base...)
		for k := r.Intn(5); k > 0; k-- {
			i := r.Intn(len(l) + 1)
			j := min(len(l), i+r.Range(1, 3))
			switch r.Intn(7) {
			case 0:
				l = append(l[:i:i], append([]string{gen()}, l[i:]...)...)
			case 1:
				l = append(l[:i:i], l[j:]...)
			case 2:
				if i < len(l) {
					l[i] = gen()
				}
			case 3:
				l = append(l[:i:i], append(append([]string(nil), l[i:j]...), l[i:]...)...)
			case 4:
				if i < len(l) {
					l[i] += core.Pick(r, []string{" ", "x", "\xff", "\t", "\n"})
				}
			case 5: // move a block to the end
				l = append(append(l[:i:i], l[j:]...), l[i:j]...)
			case 6:
				if i < len(l) && len(l[i]) > 1 {
					l[i] = l[i][1:]
				}
			}
		}
		if r.Chance(0.1) {
			l = nil
			for k := r.Range(0, 12); k > 0; k-- {
				l = append(l, gen())
			}
		}
		s := strings.Join(l, "\n")
		if r.Chance(0.2) {
			s += strings.Repeat("\n", r.Range(1, 3))
		}
		out = append(out, s)
	}
	return dedup(out)
}

func (c *Ctx) c13random() {
	r := c.Rng("rand")
	n := c.N(150, 3000)
	for i := 0; i < n && !c.TooMany(); i++ {
		kind := core.Pick(r, []string{"ssnap", "ssnap", "snap", "snap", "yaml", "json", "sjson"})
		var vals []core.Val
		switch kind {
		case "ssnap", "snap":
			for _, s := range family(r, 9) {
				if kind == "snap" {
					s = core.FmtNoCR(s)
				}
				vals = append(vals, core.S(s))
			}
		case "yaml":
			base := core.NoCR(core.YAMLText(r))
			vals = append(vals, core.S(base), core.S(core.NoCR(core.YAMLText(r))), core.S("a: 1\n---\nb: 2\n"), core.S("a: 1\n---\nb: 3"))
		default:
			d := core.GenJSONObj(r, 4, false)
			for k := 0; k < 6; k++ {
				e := d.Clone()
				for z := r.Intn(4); z > 0; z-- {
					mutateJSON(r, e)
				}
				vals = append(vals, core.S(e.Text(r, false, false, false)))
			}
		}
		modes := []Mode{{}, {Color: true}}
		if i%3 == 0 {
			modes = append(modes, Mode{CI: "CI=true"})
		}
		c.reportMatrix(kind, fmt.Sprintf("r%d", i), vals, modes, false)
	}
}

// c13long: texts of thousands of lines that differ in many places.
func (c *Ctx) c13long() {
	r := c.Rng("long")
	for i, n := range c.longSizes() {
		var fam []string
		base := make([]string, n)
		for j := range base {
			base[j] = fmt.Sprintf("line %d %s", j, core.Pick(r, []string{"", "x", "\t", " trailing ", "é"}))
			if r.Chance(0.05) {
				base[j] = ""
			}
		}
		fam = append(fam, strings.Join(base, "\n"))
		// every line, every fourth line, a few, the rear half; fewer lines
		for _, rate := range []float64{1, 0.25, 0.01} {
			o := append([]string(nil), base...)
			for j := range o {
				if rate == 1 || r.Chance(rate) {
					o[j] = fmt.Sprintf("other %d", j)
				}
			}
			fam = append(fam, strings.Join(o, "\n"))
		}
		switch i % 3 {
		case 0:
			fam = append(fam, strings.Join(base[n/2:], "\n"))
		case 1:
			fam = append(fam, "x")
		case 2:
			fam = append(fam, strings.Join(append(base[n/3:n:n], base[:n/3]...), "\n")+"\n")
		}
		var vals []core.Val
		for _, s := range fam {
			vals = append(vals, core.S(s))
		}
		kind := []string{"snap", "ssnap"}[i%2]
		c.Count("long_reports", c.reportMatrix(kind, fmt.Sprintf("long%d", n), vals, []Mode{{}, {Color: true}}, true))
	}
}

func (c *Ctx) longSizes() []int {
	if c.Thorough {
		return []int{100, 257, 600, 1025, 1500, 3000, 5000, 9000, 12000, 20000}
	}
	return []int{100, 600, 1100, 3000, 6000}
}

// reportMatrix stores every value and confronts every slot with every value.
func (c *Ctx) reportMatrix(kind, label string, vals []core.Val, modes []Mode, big bool) int {
	cs := c.NewCase()
	defer os.RemoveAll(cs.Dir)
	cs.Cfgs = []core.Cfg{{Dir: ptr("$CASE")}}
	ex := core.Exec{Test: "TestP"}
	for _, v := range vals {
		ex.Ops = append(ex.Ops, core.Op{K: kind, V: []core.Val{v}})
	}
	cs.Steps = [][]core.Exec{{ex}}
	rr := c.RunCases(Mode{}, []core.Case{cs}, 0)[0]
	if c.Crashed(rr, Mode{}) {
		return 0
	}
	if k := allCalls(rr, "added"); k != nil {
		c.Inconclusive("%s: could not record: %s", label, callText(k))
	}
	// what is stored
	texts := make([][]string, len(vals)) // possible readings of the stored text
	t := core.Observe(cs.Dir)
	var es []core.Entry
	if kind == "snap" || kind == "json" || kind == "yaml" {
		var err error
		es, err = core.ParseSnap(t["main_test.snap"].Data)
		if err != nil {
			c.Violate(replay(rr, Mode{}), "recording left a malformed file: %v", err)
			return 0
		}
	}
	for i, v := range vals {
		switch kind {
		case "ssnap":
			texts[i] = []string{string(t[fmt.Sprintf("TestP_%d.snap", i+1)].Data)}
		case "sjson":
			texts[i] = []string{string(t[fmt.Sprintf("TestP_%d.snap.json", i+1)].Data)}
		default:
			raw, ok := core.Get(es, fmt.Sprintf("TestP - %d", i+1))
			if !ok {
				c.Violate(replay(rr, Mode{}), "recording lost an entry")
				return 0
			}
			texts[i] = []string{raw}
			if kind == "snap" {
				texts[i] = []string{core.Fmt(sval(v))}
			} else if kind == "yaml" {
				texts[i] = append(texts[i], sval(v))
			}
		}
	}
	done := 0
	for _, m := range modes {
		var cases []core.Case
		for g := range vals {
			k := core.Case{ID: fmt.Sprintf("%s-%d-%v%s", cs.ID, g, m.Color, m.CI), Dir: cs.Dir, Cfgs: cs.Cfgs}
			e := core.Exec{Test: "TestP"}
			for range vals {
				e.Ops = append(e.Ops, core.Op{K: kind, V: []core.Val{vals[g]}})
			}
			k.Steps = [][]core.Exec{{e}}
			cases = append(cases, k)
		}
		chunk := 0
		if !big {
			chunk = len(cases)
		}
		for g, rr := range c.RunCases(m, cases, chunk) {
			if c.Crashed(rr, m) {
				continue
			}
			for ki := range rr.Calls {
				k := &rr.Calls[ki]
				done++
				a, b := texts[k.Op], texts[g]
				w := map[string]any{"mode": m.String(), "kind": kind, "stored": []byte(a[0]), "received": []byte(b[0])}
				if len(k.Errs) > 0 {
					w["report"] = k.Errs[0]
				}
				o := outcome(k)
				if same := a[0] == b[0]; same != (o == "passed") || (o != "passed" && o != "failed") {
					c.Violate(w, "stored %q, received %q (mode %s): the call %s", clipS(a[0], 80), clipS(b[0], 80), m, o)
					continue
				}
				if o == "passed" {
					c.Eval("")
					continue
				}
				if a[0] == "" || b[0] == "" {
					c.Count("one_side_empty", 1)
				}
				if strings.ToValidUTF8(a[0]+b[0], "") != a[0]+b[0] {
					c.Count("reports_of_invalid_utf8", 1)
				}
				rep := string(k.Errs[0])
				if m.Color {
					c.Count("coloured_compared", 1)
					c.Eval("")
					if strings.TrimSpace(ansi.ReplaceAllString(rep, "")) == "" {
						c.Violate(w, "empty report for stored %q, received %q", clipS(a[0], 80), clipS(b[0], 80))
					}
					continue
				}
				if big {
					c.Eval(label + strconv.Itoa(g) + "/" + strconv.Itoa(k.Op))
				} else {
					c.Eval(a[0] + "\x00" + b[0])
				}
				c.Count("reports_checked", 1)
				if strings.Contains(rep, "\n@@ ") {
					c.Count("reports_with_ranges", 1)
				}
				bad := checkReport(rep, a[0], b[0])
				if bad != "" && len(a) > 1 && checkReport(rep, a[1], b[1]) == "" {
					bad = ""
				}
				if bad != "" {
					c.Violate(w, "report on stored %q, received %q: %s\n%s", clipS(a[0], 200), clipS(b[0], 200), bad, clipS(rep, 600))
					if c.TooMany() {
						return done
					}
				}
				if g == 1 && ki == 0 {
					c.Sample(map[string]any{"stored": a[0], "received": b[0], "report": rep})
				}
			}
		}
	}
	return done
}

// c13difflib drives the edit script of package difflib through a test file
// laid over the package. If the package no longer offers the functions the
// driver uses the reports above remain.
func (c *Ctx) c13difflib() {
	d := c.dir("difflib")
	src := filepath.Join(c.Home, "h/tmpl/difflib_verif_test.go.tmpl")
	dst := filepath.Join(d, "difflib_verif_test.go")
	must(copyFile(dst, src))
	ov := filepath.Join(d, "overlay.json")
	must(os.WriteFile(ov, []byte(fmt.Sprintf(`{"Replace":{%q:%q}}`, filepath.Join(c.Repo, "internal/difflib/zz_verif_test.go"), dst)), 0o644))
	bin := filepath.Join(d, "difflib.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, "./internal/difflib")
	cmd.Dir = c.Repo
	cmd.Env = c.goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Printf("note: the edit script driver does not build, reports only: %s\n", clipS(string(out), 300))
		c.Count("difflib_unavailable", 1)
		return
	}
	cmd = exec.Command(bin, "-test.run=^TestVerifDifflib$", "-test.timeout=600s")
	cmd.Dir = d
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + d, "TMPDIR=" + d, fmt.Sprintf("VERIF_SEED=%d", c.Seed), fmt.Sprintf("VERIF_N=%d", c.N(3000, 60000))}
	if c.dropUID {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	n := 0
	for _, l := range strings.Split(out.String(), "\n") {
		var a, b int
		if k, _ := fmt.Sscanf(l, "VERIF-OBSERVED scripts=%d popular=%d", &a, &b); k == 2 {
			n = a
			c.Count("edit_scripts", a)
			c.Count("edit_scripts_with_popular_lines", b)
			c.mu.Lock()
			c.evals += a
			c.mu.Unlock()
		}
		if strings.HasPrefix(l, "VERIF-BAD ") {
			c.Violate(map[string]any{"edit script": l[10:]}, "edit script: %s", clipS(l[10:], 1000))
			if c.TooMany() {
				return
			}
		}
	}
	if n == 0 || err != nil {
		if strings.Contains(out.String(), "panic:") {
			c.Violate(map[string]any{"output": tail(out.String(), 4000)}, "the edit script panicked: %s", crashText(out.String()))
			return
		}
		c.Inconclusive("difflib driver: %v %s", err, tail(out.String(), 2000))
	}
}
