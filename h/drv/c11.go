package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifh/core"
)

func init() { checks["C11"] = checkC11 }

// locCall is one generated Match* call with what it must address.
type locCall struct {
	kind  string // snap json yaml ssnap sjson
	cfg   *core.Cfg
	style string
	val   string
	test  string // runtime name
	path  string // pattern with \x00 for standalone calls
	k     int
}

type locFile struct {
	dir, base string // package directory, file name without _test.go suffix's extension
	calls     []*locCall
	src       string
}

type locMod struct {
	root   string
	abs    string // directory used by absolute Dir options
	pkgs   []string
	files  []*locFile
	seed   int
	before core.Tree
}

var locStyles = []string{"direct", "direct", "func", "samepkg", "samepkgdeep", "otherpkg", "otherpkgdeep", "callback", "callback2", "generic", "method", "iface", "closure", "defer", "goroutine", "sub", "subsub", "subpar", "chdir", "inline", "helpergo", "variadic", "reflect", "std", "std", "stdhelper", "stdhelper", "subcleanup"}

// helperSrc is a non-test source file with helpers between the test function
// and the call.
func helperSrc(pkg string) string {
	return "package " + pkg + `

import (
	"encoding/json"
	"io/fs"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/quick"
	"text/template"

	"github.com/gkampitakis/go-snaps/snaps"
)

type marshals struct{ f func() }

func (m marshals) MarshalJSON() ([]byte, error) { m.f(); return []byte("1"), nil }

// Std calls f once from within a package of the standard library.
func Std(how int, f func()) {
	done := false
	once := func() {
		if !done {
			done = true
			f()
		}
	}
	switch how {
	case 0:
		testing.AllocsPerRun(1, once)
	case 1:
		quick.Check(func(int) bool { once(); return true }, &quick.Config{MaxCount: 1})
	case 2:
		new(sync.Once).Do(once)
	case 3:
		sort.Slice([]int{2, 1, 3}, func(i, j int) bool { once(); return i < j })
	case 4:
		regexp.MustCompile("a").ReplaceAllStringFunc("bab", func(s string) string { once(); return s })
	case 5:
		template.Must(template.New("").Funcs(template.FuncMap{"f": func() string { once(); return "" }}).Parse("{{f}}")).Execute(new(strings.Builder), nil)
	case 6:
		json.Marshal(map[string]any{"k": []any{marshals{once}}})
	case 7:
		filepath.WalkDir(".", func(string, fs.DirEntry, error) error { once(); return fs.SkipAll })
	case 8:
		reflect.MakeFunc(reflect.TypeOf(func() {}), func([]reflect.Value) []reflect.Value { once(); return nil }).Call(nil)
	case 9:
		func() {
			defer func() { recover() }()
			defer once()
			panic("x")
		}()
	default:
		strings.Map(func(r rune) rune { once(); return r }, "abc")
	}
}

func StdCall(how int, t *testing.T, c *snaps.Config, kind, v string) {
	Std(how, func() { Call(t, c, kind, v) })
}

// Call makes the call of the given kind.
func Call(t *testing.T, c *snaps.Config, kind, v string) {
	t.Helper()
	if c == nil {
		switch kind {
		case "snap":
			snaps.MatchSnapshot(t, v)
		case "json":
			snaps.MatchJSON(t, v)
		case "yaml":
			snaps.MatchYAML(t, v)
		case "ssnap":
			snaps.MatchStandaloneSnapshot(t, v)
		case "sjson":
			snaps.MatchStandaloneJSON(t, v)
		}
		return
	}
	switch kind {
	case "snap":
		c.MatchSnapshot(t, v)
	case "json":
		c.MatchJSON(t, v)
	case "yaml":
		c.MatchYAML(t, v)
	case "ssnap":
		c.MatchStandaloneSnapshot(t, v)
	case "sjson":
		c.MatchStandaloneJSON(t, v)
	}
}

func Deep(n int, t *testing.T, c *snaps.Config, kind, v string) {
	if n > 0 {
		Deep(n-1, t, c, kind, v)
		return
	}
	Call(t, c, kind, v)
}

func Do(f func())  { f() }
func Do2(f func()) { Do(func() { Do(f) }) }

func Generic[T any](x T, f func(T)) { f(x) }

type Runner struct{ T *testing.T }

func (r Runner) Call(c *snaps.Config, kind, v string) { Call(r.T, c, kind, v) }

type Caller interface {
	Call(c *snaps.Config, kind, v string)
}

func Iface(r Caller, c *snaps.Config, kind, v string) { r.Call(c, kind, v) }

func Reflect(t *testing.T, c *snaps.Config, kind, v string) {
	reflect.ValueOf(Call).Call([]reflect.Value{reflect.ValueOf(t), reflect.ValueOf(c), reflect.ValueOf(kind), reflect.ValueOf(v)})
}

func Inline(t *testing.T, c *snaps.Config, kind, v string) { Call(t, c, kind, v) }
`
}

func cfgExpr(c *core.Cfg, abs string) string {
	if c == nil {
		return "nil"
	}
	var o []string
	if c.File != nil {
		o = append(o, fmt.Sprintf("snaps.Filename(%q)", *c.File))
	}
	if c.Dir != nil {
		o = append(o, fmt.Sprintf("snaps.Dir(%q)", strings.ReplaceAll(*c.Dir, "$ABS", abs)))
	}
	if c.Ext != nil {
		o = append(o, fmt.Sprintf("snaps.Ext(%q)", *c.Ext))
	}
	return "snaps.WithConfig(" + strings.Join(o, ", ") + ")"
}

func directCall(k *locCall, abs string) string {
	fn := map[string]string{"snap": "MatchSnapshot", "json": "MatchJSON", "yaml": "MatchYAML", "ssnap": "MatchStandaloneSnapshot", "sjson": "MatchStandaloneJSON"}[k.kind]
	recv := "snaps"
	if k.cfg != nil {
		recv = cfgExpr(k.cfg, abs)
	}
	return fmt.Sprintf("%s.%s(t, %q)", recv, fn, k.val)
}

// locDir is the documented location.
func locPath(k *locCall, pkgDir, base, abs string) string {
	dir, ext, name := "__snapshots__", "", ""
	if k.cfg != nil {
		if k.cfg.Dir != nil {
			dir = strings.ReplaceAll(*k.cfg.Dir, "$ABS", abs)
		}
		if k.cfg.Ext != nil {
			ext = *k.cfg.Ext
		}
		if k.cfg.File != nil {
			name = *k.cfg.File
		}
	}
	if !filepath.IsAbs(dir) {
		dir = filepath.Join(pkgDir, dir)
	}
	if k.kind == "ssnap" || k.kind == "sjson" {
		if k.kind == "sjson" && ext == "" {
			ext = ".json"
		}
		if name == "" {
			name = strings.ReplaceAll(k.test, "/", "_")
		}
		return filepath.Join(dir, name) + "\x00.snap" + ext
	}
	if name == "" {
		name = base
	}
	return filepath.Join(dir, name) + ".snap" + ext
}

// genLoc generates a module of test packages at several depths.
func (c *Ctx) genLoc(r *core.Rng, seed int) *locMod {
	m := &locMod{root: c.dir("loc", fmt.Sprint(seed), "m"), abs: c.dir("loc", fmt.Sprint(seed), "abs"), seed: seed}
	gm, err := os.ReadFile(filepath.Join(c.Home, "h/go.mod"))
	must(err)
	gm = bytes.Replace(gm, []byte("=> /repo"), []byte("=> "+c.Repo), 1)
	gm = bytes.Replace(gm, []byte("module verifh"), []byte("module example.com/loc"), 1)
	put := func(p, s string) {
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(s), 0o644))
	}
	put(filepath.Join(m.root, "go.mod"), string(gm))
	must(copyFile(filepath.Join(m.root, "go.sum"), filepath.Join(c.Home, "h/go.sum")))
	put(filepath.Join(m.root, "helpers/sub/h.go"), helperSrc("sub"))
	dirs := []string{"", "p", core.Pick(r, []string{"p/q", "a.b", "x_test"}), core.Pick(r, []string{"deep/er/and/deeper", "internal/z", "d-e/f_g"})}
	files := []string{"a_test.go", "my.file_test.go", "x_y_test.go", "snap_test.go", "UPPER_test.go", "_test.go"}
	owner := map[string]string{} // standalone path -> test (no two tests share one)
	n := 0
	for pi, d := range dirs {
		pkgDir := filepath.Join(m.root, d)
		m.pkgs = append(m.pkgs, d)
		pkg := "pk"
		put(filepath.Join(pkgDir, "code.go"), helperSrc(pkg))
		ext := r.Chance(0.3) // external test package
		par := r.Chance(0.5)
		for fi, x := range r.Perm(len(files) - 1)[:2] {
			fn := files[x]
			f := &locFile{dir: pkgDir, base: strings.TrimSuffix(fn, ".go")}
			pn := pkg
			q := ""
			imp := ""
			if ext {
				pn, q = pkg+"_test", pkg+"."
				imp = "\n\t" + pkg + fmt.Sprintf(" %q", strings.TrimSuffix("example.com/loc/"+d, "/"))
			}
			var b strings.Builder
			fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"os\"\n\t\"testing\"\n\n\t\"example.com/loc/helpers/sub\"\n\t\"github.com/gkampitakis/go-snaps/snaps\"%s\n)\n\nvar _ = os.Chdir\nvar _ = sub.Do\nvar _ = %sCall\n\n", pn, imp, q)
			fmt.Fprintf(&b, "func local%d(t *testing.T, c *snaps.Config, kind, v string) { sub.Call(t, c, kind, v) }\n\n", fi)
			for ti := 0; ti < 3; ti++ {
				test := fmt.Sprintf("Test%s%d%d%d", core.Pick(r, []string{"", "_x", "É", "Case"}), pi, fi, ti)
				end := "}\n\n"
				if ti == 2 {
					// the seed corpus of a fuzz target
					test = "Fuzz" + test[len("Test"):]
					fmt.Fprintf(&b, "func %s(f *testing.F) {\n\tf.Add(1)\n\tf.Fuzz(func(t *testing.T, _ int) {\n", test)
					test, end = test+"/seed#0", "})\n"+end
				} else {
					fmt.Fprintf(&b, "func %s(t *testing.T) {\n", test)
				}
				cnt := map[string]int{}
				if ti < 2 && par && r.Chance(0.4) {
					b.WriteString("\tt.Parallel()\n")
				}
				for j := r.Range(3, 7); j > 0; j-- {
					k := &locCall{kind: core.Pick(r, []string{"snap", "snap", "json", "yaml", "ssnap", "ssnap", "sjson"}), style: core.Pick(r, locStyles), test: test}
					if strings.Contains(b.String()[strings.LastIndex(b.String(), "(t *testing.T) {\n"):], "\tt.Parallel") && (k.style == "chdir") {
						k.style = "direct"
					}
					n++
					switch k.kind {
					case "snap", "ssnap":
						k.val = fmt.Sprintf("value %d of %d", n, seed)
					case "json", "sjson":
						k.val = fmt.Sprintf(`{"n":%d}`, n)
					default:
						k.val = fmt.Sprintf("n: %d", n)
					}
					if r.Chance(0.7) {
						k.cfg = &core.Cfg{}
						if r.Chance(0.4) {
							k.cfg.File = ptr(core.Pick(r, []string{"custom", "with.dots", "100%", "%d", "sp ace", "sub/name", "", "ünï", "x_test.go"}))
						}
						if r.Chance(0.5) {
							k.cfg.Dir = ptr(core.Pick(r, []string{"snaps", ".", "", "../up", "a/b/../c", "$ABS", "$ABS/deep", "100%d", "./__snapshots__/", "$ABS/x/../y", "%s/z"}))
						}
						if r.Chance(0.4) {
							k.cfg.Ext = ptr(core.Pick(r, []string{".txt", ".json", ".snap", "plain", ".%s", ""}))
						}
					}
					sub := ""
					switch k.style {
					case "sub", "subcleanup":
						sub = core.Pick(r, []string{"s", "a b", "x/y", "100%", "é", "..", "a.b", "%d", "a/b/c/d/e", "1/2/3/4/5/6/7/8/9/10/11/12", strings.Repeat("long name ", 15), strings.Repeat("n", 210), strings.Repeat("é/", 70) + "z", "x//y", "/"})
					case "subsub", "subpar":
						sub = "o/" + core.Pick(r, []string{"s", "z/z", "%v", "p/q/r/s/t/u", "é/é/é/é"})
					}
					if sub != "" {
						// one name per use: go test would number equal ones
						sub = fmt.Sprintf("%s%d", sub, n)
						k.test = test + "/" + rewriteName(sub)
						if k.style == "subsub" || k.style == "subpar" {
							k.test = test + "/o" + fmt.Sprint(n) + "/" + rewriteName(sub[2:])
							sub = fmt.Sprintf("o%d/%s", n, sub[2:])
						}
					}
					k.path = locPath(k, pkgDir, f.base, m.abs)
					if strings.Contains(k.path, "\x00") {
						if o, ok := owner[k.path]; ok && o != pkgDir+k.test {
							continue
						}
						owner[k.path] = pkgDir + k.test
					} else if o, ok := owner[k.path]; ok && o != pkgDir {
						// two packages in one file: ordinals would clash only for
						// equal test names; package runs are separate processes
						continue
					} else {
						owner[k.path] = pkgDir
					}
					ck := k.test + "\x00" + k.path
					cnt[ck]++
					k.k = cnt[ck]
					f.calls = append(f.calls, k)
					b.WriteString(stmt(k, sub, q, fi, r, m.abs, par))
				}
				b.WriteString(end)
			}
			f.src = b.String()
			put(filepath.Join(pkgDir, fn), f.src)
			m.files = append(m.files, f)
		}
	}
	return m
}

// stmt is the statement that makes the call in its style.
//
// testing.AllocsPerRun (0) refuses to run beside parallel tests.
func stmt(k *locCall, sub, q string, fi int, r *core.Rng, abs string, par bool) string {
	how := r.Range(1, 10)
	if !par && r.Chance(0.5) {
		how = 0
	}
	d := directCall(k, abs)
	args := fmt.Sprintf("t, %s, %q, %q", cfgExpr(k.cfg, abs), k.kind, k.val)
	args3 := fmt.Sprintf("%s, %q, %q", cfgExpr(k.cfg, abs), k.kind, k.val)
	any := core.Pick(r, []string{d, "sub.Call(" + args + ")", q + "Call(" + args + ")"})
	switch k.style {
	case "func":
		return fmt.Sprintf("\tlocal%d(%s)\n", fi, args)
	case "samepkg":
		return fmt.Sprintf("\t%sCall(%s)\n", q, args)
	case "samepkgdeep":
		return fmt.Sprintf("\t%sDeep(%d, %s)\n", q, r.Range(1, 40), args)
	case "otherpkg":
		return fmt.Sprintf("\tsub.Call(%s)\n", args)
	case "otherpkgdeep":
		return fmt.Sprintf("\tsub.Deep(%d, %s)\n", r.Range(1, 120), args)
	case "std":
		return fmt.Sprintf("\tsub.Std(%d, func() { %s })\n", how, any)
	case "stdhelper":
		return fmt.Sprintf("\t%sStdCall(%d, %s)\n", core.Pick(r, []string{"sub.", q}), how, args)
	case "callback":
		return fmt.Sprintf("\tsub.Do(func() { %s })\n", any)
	case "callback2":
		return fmt.Sprintf("\tsub.Do2(func() { %sDo(func() { %s }) })\n", q, any)
	case "generic":
		return fmt.Sprintf("\tsub.Generic(%d, func(int) { %s })\n", r.Intn(9), any)
	case "method":
		return fmt.Sprintf("\t%sRunner{t}.Call(%s)\n", q, args3)
	case "iface":
		return fmt.Sprintf("\tsub.Iface(%sRunner{t}, %s)\n", q, args3)
	case "closure":
		return fmt.Sprintf("\tfunc() { func() { %s }() }()\n", any)
	case "defer":
		return fmt.Sprintf("\tfunc() { defer func() { %s }() }()\n", any)
	case "goroutine":
		return fmt.Sprintf("\tfunc() { ch := make(chan int); go func() { defer close(ch); %s }(); <-ch }()\n", any)
	case "helpergo":
		return fmt.Sprintf("\tfunc() { ch := make(chan int); go func() { defer close(ch); sub.Do(func() { sub.Deep(3, %s) }) }(); <-ch }()\n", args)
	case "chdir":
		return fmt.Sprintf("\tfunc() { w, _ := os.Getwd(); defer os.Chdir(w); os.Chdir(%q); %s }()\n", abs, any)
	case "inline":
		return fmt.Sprintf("\t%sInline(%s)\n", q, args)
	case "reflect":
		return fmt.Sprintf("\tsub.Reflect(%s)\n", args)
	case "sub":
		return fmt.Sprintf("\tt.Run(%q, func(t *testing.T) { %s })\n", sub, any)
	case "subcleanup":
		return fmt.Sprintf("\tt.Run(%q, func(t *testing.T) { t.Cleanup(func() { %s }) })\n", sub, any)
	case "subsub", "subpar":
		par := ""
		if k.style == "subpar" {
			par = "t.Parallel(); "
		}
		i := strings.IndexByte(sub, '/')
		return fmt.Sprintf("\tt.Run(%q, func(t *testing.T) { t.Run(%q, func(t *testing.T) { %s%s }) })\n", sub[:i], sub[i+1:], par, any)
	}
	return "\t" + d + "\n"
}

type locRun struct {
	name string
	trim bool
	cwd  string // "" the package directory
	env  []string
}

func checkC11(c *Ctx) {
	c.rule = "generated modules: packages at depths 0-4, internal and external test packages, two test files each, calls of all five APIs in 24 call styles, from tests and fuzz targets, (helpers in test and non-test files and other packages, through standard-library callbacks, recursion, callbacks, generics, methods, interfaces, reflection, defer, goroutines, subtests, after os.Chdir) with Dir/Filename/Ext options; built with and without -trimpath, run from the package directory and from elsewhere; the exact set of files, entries and contents found anywhere in the scratch tree is compared with the documented location; non-trivial = distinct call site x run"
	c.assume = []string{"the call is made from a goroutine started in a test file", "with -trimpath the test starts in the directory of its package, as go test does", "a standalone Filename is not shared by two tests", "helpers in a different _test.go file than the test function are not used (which of them is `the calling test file` is open)"}
	n := c.N(3, 24)
	c.writeMod()
	for i := 0; i < n && !c.TooMany(); i++ {
		r := c.Rng(fmt.Sprintf("loc%d", i))
		m := c.genLoc(r, i)
		elsewhere := c.dir("loc", fmt.Sprint(i), "elsewhere")
		goroot := strings.TrimSpace(c.goOut(m.root, "env", "GOROOT"))
		runs := []locRun{
			{"plain", false, "", nil},
			{"plain, GOROOT unset", false, elsewhere, nil},
			{"-trimpath", true, "", []string{"GOROOT=" + goroot}},
			{"-trimpath, GOROOT unset", true, "", nil},
			{"plain, GOROOT set", false, "/", []string{"GOROOT=" + goroot}},
		}
		for _, trim := range []bool{false, true} {
			c.locBuild(m, trim)
		}
		for _, ru := range runs {
			c.locCheck(m, ru, nil)
		}
		// recorded one way, read back another way
		c.locCheck(m, runs[0], nil)
		for _, ru := range runs[1:] {
			c.locRead(m, ru)
		}
		os.RemoveAll(filepath.Join(c.Scratch, "loc", fmt.Sprint(i)))
	}
	c.need(50, "calls_located")
}

func (c *Ctx) goOut(dir string, args ...string) string {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = c.goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		c.Inconclusive("go %v: %v\n%s", args, err, out)
	}
	return string(out)
}

func (m *locMod) bin(d string, trim bool) string {
	return filepath.Join(filepath.Dir(m.root), fmt.Sprintf("bin-%s-%v.test", strings.ReplaceAll(d, "/", "+"), trim))
}

func (c *Ctx) locBuild(m *locMod, trim bool) {
	for _, d := range m.pkgs {
		args := []string{"test", "-c", "-vet=off", "-o", m.bin(d, trim)}
		if trim {
			args = append(args, "-trimpath")
		}
		c.goOut(m.root, append(args, "./"+d)...)
	}
	filepath.Walk(filepath.Dir(m.root), func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			os.Chown(p, nobody, nobody)
		}
		return nil
	})
}

// locExec runs one package's tests; it returns the output and whether they
// passed.
func (c *Ctx) locExec(m *locMod, d string, ru locRun, ci bool) (string, bool) {
	cmd := exec.Command(m.bin(d, ru.trim), "-test.timeout=60s")
	cmd.Dir = filepath.Join(m.root, d)
	if ru.cwd != "" {
		cmd.Dir = ru.cwd
	}
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TMPDIR=" + m.abs, "NO_COLOR=1"}, ru.env...)
	if ci {
		cmd.Env = append(cmd.Env, "CI=true")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if c.dropUID {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	must(cmd.Start())
	t := time.AfterFunc(90*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	t.Stop()
	return ansi.ReplaceAllString(out.String(), ""), err == nil
}

func (m *locMod) wipe(before core.Tree) {
	top := filepath.Dir(m.root)
	var dirs []string
	for n, st := range core.Observe(top) {
		if _, ok := before[n]; ok {
			continue
		}
		if st.Dir {
			dirs = append(dirs, filepath.Join(top, n))
		} else {
			os.Remove(filepath.Join(top, n))
		}
	}
	sort.Sort(sort.Reverse(sort.StringSlice(dirs)))
	for _, d := range dirs {
		os.Remove(d)
	}
}

// locCheck records everything and compares the tree with the documentation;
// the recorded files stay until the next locCheck.
func (c *Ctx) locCheck(m *locMod, ru locRun, _ any) {
	top := filepath.Dir(m.root)
	if m.before == nil {
		m.before = core.Observe(top)
	}
	m.wipe(m.before)
	for _, d := range m.pkgs {
		out, ok := c.locExec(m, d, ru, false)
		if !ok {
			c.Violate(map[string]any{"run": ru.name, "package": d, "output": out, "module": m.srcs(d)}, "%s: recording failed in package %q: %s", ru.name, d, clipS(out, 1500))
			return
		}
	}
	want := map[string]map[string]string{} // file -> id ("" standalone) -> value
	for _, f := range m.files {
		for _, k := range f.calls {
			p, id := k.path, fmt.Sprintf("%s - %d", k.test, k.k)
			if strings.Contains(p, "\x00") {
				p, id = saPath(p, k.k), ""
			}
			if want[p] == nil {
				want[p] = map[string]string{}
			}
			want[p][id] = k.val
			c.Count("calls_located", 1)
			c.Eval(fmt.Sprintf("%s/%s/%d/%d/%s", k.path, k.style, k.k, m.seed, ru.name))
		}
	}
	var bad []string
	after := core.Observe(top)
	for n, st := range after {
		if _, ok := m.before[n]; ok || st.Dir {
			continue
		}
		full := filepath.Join(top, n)
		w, ok := want[full]
		if !ok {
			bad = append(bad, "unexpected file "+full)
			continue
		}
		if v, sa := w[""]; sa {
			if !sameValue(string(st.Data), v) {
				bad = append(bad, fmt.Sprintf("%s holds %q, expected %q", full, clipS(string(st.Data), 100), v))
			}
			continue
		}
		es, err := core.ParseSnap(st.Data)
		if err != nil {
			bad = append(bad, fmt.Sprintf("%s: %v", full, err))
		}
		got := map[string]bool{}
		for _, e := range es {
			got[e.ID] = true
			if v, ok := w[e.ID]; !ok || !sameValue(e.Raw, v) {
				bad = append(bad, fmt.Sprintf("%s: entry [%s] = %q, expected %q", full, e.ID, clipS(e.Raw, 100), v))
			}
		}
		for id := range w {
			if !got[id] {
				bad = append(bad, fmt.Sprintf("%s: no entry [%s]", full, id))
			}
		}
	}
	for p := range want {
		rel, _ := filepath.Rel(top, p)
		if _, ok := after[rel]; !ok {
			bad = append(bad, "missing file "+p)
		}
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		c.Violate(map[string]any{"run": ru.name, "module": m.srcs(""), "complaints": bad}, "%s: %s", ru.name, clipS(strings.Join(bad, "; "), 3000))
	}
	if len(c.samples) == 0 {
		c.Sample(map[string]any{"run": ru.name, "file": m.files[0].src})
	}
}

func sameValue(got, want string) bool {
	if got == want {
		return true
	}
	strip := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r == ' ' || r == '\n' {
				return -1
			}
			return r
		}, s)
	}
	return strings.HasPrefix(want, "{") && strip(got) == strip(want)
}

// locRead reads everything back on CI in another build or working directory.
func (c *Ctx) locRead(m *locMod, ru locRun) {
	for _, d := range m.pkgs {
		before := core.Observe(filepath.Dir(m.root))
		out, ok := c.locExec(m, d, ru, true)
		c.Count("packages_read_back", 1)
		if !ok {
			c.Violate(map[string]any{"run": ru.name, "package": d, "output": out, "module": m.srcs(d)}, "recorded with a plain build, %s does not find the snapshots of %q: %s", ru.name, d, clipS(out, 1500))
			return
		}
		if df := before.Diff(core.Observe(filepath.Dir(m.root)), false); len(df) > 0 {
			c.Violate(map[string]any{"run": ru.name, "package": d}, "%s changed %v on CI", ru.name, df)
			return
		}
	}
}

func (m *locMod) srcs(d string) map[string]string {
	out := map[string]string{}
	for _, f := range m.files {
		if d == "" || f.dir == filepath.Join(m.root, d) {
			out[filepath.Join(f.dir, f.base+".go")] = f.src
		}
	}
	return out
}
