// Command drv decides one property: it builds the workers from the current
// tree, generates cases from VERIF_SEED, runs them and judges what was
// observed.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifh/core"
)

const (
	slots  = 8
	nobody = 65534
)

// Ctx is the state of one check run.
type Ctx struct {
	ID       string
	Seed     int64
	Thorough bool
	Repo     string
	Home     string // /verif
	Scratch  string
	start    time.Time

	mu       sync.Mutex
	viols    []viol
	notes    []string
	evals    int
	distinct map[string]bool
	samples  []any
	counters map[string]int
	rule     string
	assume   []string
	built    map[string]bool
	known    map[string]Finding
	caseSeq  int
	exhaust  bool
	sigs     map[uint64]bool
	dropUID  bool
}

type viol struct {
	Msg    string
	Replay any
}

type Finding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
}

type inconclusive struct{ msg string }

func (c *Ctx) Inconclusive(f string, a ...any) { panic(inconclusive{fmt.Sprintf(f, a...)}) }

// Violate records a violation of the property.
func (c *Ctx) Violate(replay any, f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.viols) < 50 {
		c.viols = append(c.viols, viol{fmt.Sprintf(f, a...), replay})
	}
}

func (c *Ctx) TooMany() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viols) >= 20
}

// Eval counts one evaluation; key identifies it if it is non-trivial ("" if
// trivial).
func (c *Ctx) Eval(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if key != "" {
		c.distinct[key] = true
	}
}

func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

func (c *Ctx) Counter(name string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.counters[name]
}

func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 4 {
		b, _ := json.Marshal(v)
		if len(b) < 6000 {
			c.samples = append(c.samples, v)
		}
	}
}

func (c *Ctx) Rng(label string) *core.Rng { return core.NewRng(c.Seed, c.ID+"/"+label) }

// N picks the quick or the thorough size.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Known runs the verdict of a fixed witness: fail describes the failure ("" =
// the property holds on it).
func (c *Ctx) Known(id, fail string, replay any) {
	if fail == "" {
		return
	}
	if f, ok := c.known[id]; ok {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, id, f.What)
		c.Count("known_findings_seen", 1)
		return
	}
	c.Violate(replay, "%s (witness %s)", fail, id)
}

// ---- building ----

func (c *Ctx) goEnv() []string {
	get := func(k, d string) string {
		if v := os.Getenv(k); v != "" {
			return v
		}
		return d
	}
	return []string{
		"PATH=" + os.Getenv("PATH"), "HOME=" + get("HOME", "/root"),
		"GOTOOLCHAIN=local", "GOSUMDB=off", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off",
		"GOPATH=" + get("GOPATH", "/root/go"), "GOMODCACHE=" + get("GOMODCACHE", "/root/go/pkg/mod"),
		"GOCACHE=" + get("GOCACHE", "/root/.cache/go-build"), "CGO_ENABLED=1",
	}
}

func copyFile(dst, src string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	return os.WriteFile(dst, b, 0o644)
}

func (c *Ctx) writeMod() {
	mod := filepath.Join(c.Scratch, "mod")
	if c.built["mod"] {
		return
	}
	c.built["mod"] = true
	must(os.MkdirAll(mod, 0o755))
	gm, err := os.ReadFile(filepath.Join(c.Home, "h/go.mod"))
	must(err)
	gm = bytes.Replace(gm, []byte("=> /repo"), []byte("=> "+c.Repo), 1)
	must(os.WriteFile(filepath.Join(mod, "go.mod"), gm, 0o644))
	must(copyFile(filepath.Join(mod, "go.sum"), filepath.Join(c.Home, "h/go.sum")))
	for _, p := range []string{"core", "wk"} {
		must(os.MkdirAll(filepath.Join(mod, p), 0o755))
		fs, _ := filepath.Glob(filepath.Join(c.Home, "h", p, "*.go"))
		for _, f := range fs {
			must(copyFile(filepath.Join(mod, p, filepath.Base(f)), f))
		}
	}
	mt, err := os.ReadFile(filepath.Join(c.Home, "h/tmpl/main_test.go.tmpl"))
	must(err)
	for i := 0; i < slots; i++ {
		d := c.Pkg(i)
		must(os.MkdirAll(d, 0o755))
		must(os.WriteFile(filepath.Join(d, "main_test.go"), mt, 0o644))
		must(os.WriteFile(filepath.Join(d, "w.go"), []byte("package w\n"), 0o644))
		for name, src := range poolFiles() {
			must(os.WriteFile(filepath.Join(d, name), []byte(src), 0o644))
		}
	}
}

// Pkg is the source directory of worker slot i.
func (c *Ctx) Pkg(i int) string { return filepath.Join(c.Scratch, "mod", fmt.Sprintf("w%d", i)) }

// poolTests lists the real test functions of the worker package by file.
var poolTests = map[string][]string{
	"a": {"TestA", "TestAB", "TestAb", "TestA_b"},
	"b": {"TestB", "TestC", "TestC1", "TestC2", "TestC10"},
	"c": {"TestD", "TestÉtat"},
}

func poolFiles() map[string]string {
	out := map[string]string{}
	for f, tests := range poolTests {
		var b strings.Builder
		up := strings.ToUpper(f)
		fmt.Fprintf(&b, "package w\n\nimport (\n\t\"testing\"\n\n\t\"verifh/core\"\n\t\"verifh/wk\"\n)\n\n")
		fmt.Fprintf(&b, "func run%s(t *testing.T, n *core.Node) { wk.Interp(t, n) }\n\nfunc init() { wk.Register(%q, run%s, %q", up, f, up, tests[0])
		for _, t := range tests[1:] {
			fmt.Fprintf(&b, ", %q", t)
		}
		if f == "c" {
			fmt.Fprintf(&b, ", %q", "FuzzZ")
		}
		fmt.Fprintf(&b, ") }\n\n")
		for _, t := range tests {
			fmt.Fprintf(&b, "func %s(t *testing.T) { run%s(t, wk.Top(%q)) }\n", t, up, t)
		}
		if f == "c" {
			fmt.Fprintf(&b, "\nfunc FuzzZ(f *testing.F) {\n\tf.Add(1)\n\tf.Fuzz(func(t *testing.T, _ int) { runC(t, wk.Top(\"FuzzZ\")) })\n}\n")
		}
		out[f+"_test.go"] = b.String()
	}
	return out
}

// Build compiles the workers: variant "" | "race" | "yield" | "yieldrace".
func (c *Ctx) Build(variant string) {
	if out := c.tryBuild(variant); out != "" {
		c.Inconclusive("build of workers (%s) failed: %s", variant, out)
	}
}

// tryBuild returns what the compiler said if it failed.
func (c *Ctx) tryBuild(variant string) string {
	c.writeMod()
	if c.built["v"+variant] {
		return ""
	}
	bin := filepath.Join(c.Scratch, "bin"+variant)
	must(os.MkdirAll(bin, 0o755))
	args := []string{"test", "-c", "-vet=off", "-o", bin + "/"}
	if strings.HasSuffix(variant, "race") {
		args = append(args, "-race")
	}
	if strings.HasPrefix(variant, "yield") {
		ov := c.instrument()
		args = append(args, "-tags", "verifyield", "-overlay", ov)
	}
	for i := 0; i < slots; i++ {
		args = append(args, fmt.Sprintf("./w%d", i))
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(c.Scratch, "mod")
	cmd.Env = c.goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Sprintf("%v\n%s", err, out)
	}
	c.built["v"+variant] = true
	for i := 0; i < slots; i++ {
		os.Chown(c.Pkg(i), nobody, nobody)
	}
	return ""
}

func must(err error) {
	if err != nil {
		panic(inconclusive{"harness: " + err.Error()})
	}
}

// ---- running ----

// Mode is the environment of one worker process.
type Mode struct {
	CI      string // "" off; else VAR=VAL
	Upd     string // UPDATE_SNAPS value
	HasUpd  bool
	Color   bool
	Env     []string
	Args    []string // test flags
	Variant string
	Race    bool
	Cwd     string
}

func (m Mode) String() string {
	s := []string{}
	if m.CI != "" {
		s = append(s, m.CI)
	}
	if m.HasUpd {
		s = append(s, "UPDATE_SNAPS="+m.Upd)
	}
	if m.Color {
		s = append(s, "color")
	}
	s = append(s, m.Env...)
	s = append(s, m.Args...)
	if m.Variant != "" {
		s = append(s, "build:"+m.Variant)
	}
	return strings.Join(s, " ")
}

func Upd(v string) Mode { return Mode{Upd: v, HasUpd: true} }

// Res is everything observed for one case.
type Res struct {
	Case           *core.Case
	Calls          []core.CallRes
	Started, Ended bool
	Crash          string
	Clean          [][]byte
	CleanWrote     [][]string
	Pre, Post      []map[string][]byte
	Yields         []int
	Stuck          int
	Sigs           []uint64
	Runs           []string
	RunIters       map[string]int
	Race           []string
}

// Call finds the record of an op.
func (r *Res) Call(step, ex, op int) *core.CallRes {
	for i := range r.Calls {
		k := &r.Calls[i]
		if k.Step == step && k.Exec == ex && k.Op == op {
			return k
		}
	}
	return nil
}

type procOut struct {
	lines  []core.Line
	stderr string
	code   int
	killed bool
	race   []string
}

var procSeq int
var procMu sync.Mutex

func (c *Ctx) dir(elem ...string) string {
	d := filepath.Join(append([]string{c.Scratch}, elem...)...)
	must(os.MkdirAll(d, 0o755))
	os.Chown(d, nobody, nobody)
	return d
}

func (c *Ctx) proc(slot int, m Mode, job *core.Job, timeout time.Duration) procOut {
	procMu.Lock()
	procSeq++
	n := procSeq
	procMu.Unlock()
	pd := c.dir("proc", strconv.Itoa(n))
	defer os.RemoveAll(pd)
	job.Out = filepath.Join(pd, "out.jsonl")
	jb, err := json.Marshal(job)
	must(err)
	jf := filepath.Join(pd, "job.json")
	must(os.WriteFile(jf, jb, 0o644))
	bin := filepath.Join(c.Scratch, "bin"+m.Variant, fmt.Sprintf("w%d.test", slot))
	cmd := exec.Command(bin, m.Args...)
	cmd.Dir = c.Pkg(slot)
	if m.Cwd != "" {
		cmd.Dir = m.Cwd
	}
	env := []string{"PATH=/usr/bin:/bin", "HOME=" + pd, "TMPDIR=" + pd, "VERIF_JOB=" + jf, "GOTRACEBACK=all"}
	if m.CI != "" {
		env = append(env, m.CI)
	}
	if m.HasUpd {
		env = append(env, "UPDATE_SNAPS="+m.Upd)
	}
	if !m.Color {
		env = append(env, "NO_COLOR=1")
	}
	if strings.HasSuffix(m.Variant, "race") {
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+pd+"/race")
	}
	env = append(env, m.Env...)
	cmd.Env = env
	ef, err := os.Create(filepath.Join(pd, "stderr"))
	must(err)
	defer ef.Close()
	cmd.Stderr = ef
	cmd.Stdout = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if c.dropUID {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var po procOut
	select {
	case err = <-done:
	case <-time.After(timeout):
		po.killed = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case err = <-done:
		case <-time.After(10 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			err = <-done
		}
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		po.code = ee.ExitCode()
	} else if err != nil {
		c.Inconclusive("worker: %v", err)
	}
	sb, _ := os.ReadFile(filepath.Join(pd, "stderr"))
	po.stderr = string(sb)
	of, err := os.Open(job.Out)
	if err == nil {
		sc := bufio.NewReaderSize(of, 1<<20)
		for {
			b, err := sc.ReadBytes('\n')
			if len(b) > 0 && b[len(b)-1] == '\n' {
				var l core.Line
				if json.Unmarshal(b, &l) == nil {
					po.lines = append(po.lines, l)
				}
			}
			if err != nil {
				break
			}
		}
		of.Close()
	}
	rf, _ := filepath.Glob(pd + "/race*")
	for _, f := range rf {
		b, _ := os.ReadFile(f)
		po.race = append(po.race, raceBlocks(string(b))...)
	}
	if po.code == 97 {
		c.Inconclusive("worker: %s", tail(po.stderr, 2000))
	}
	return po
}

func raceBlocks(s string) []string {
	var out []string
	for _, b := range strings.Split(s, "==================") {
		if strings.Contains(b, "WARNING: DATA RACE") {
			out = append(out, b)
		}
	}
	return out
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// headAndSnaps keeps the part of a crash dump that matters.
func crashText(s string) string {
	i := strings.Index(s, "fatal error:")
	if j := strings.Index(s, "panic:"); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		return tail(s, 3000)
	}
	s = s[i:]
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

// RunCases runs the cases in worker processes (chunks of at most chunk cases
// each) and returns what was observed, by case.
func (c *Ctx) RunCases(m Mode, cases []core.Case, chunk int) []*Res {
	c.Build(m.Variant)
	out := make([]*Res, len(cases))
	for i := range cases {
		out[i] = &Res{Case: &cases[i]}
		if cases[i].ID == "" {
			c.mu.Lock()
			c.caseSeq++
			cases[i].ID = fmt.Sprintf("k%d", c.caseSeq)
			c.mu.Unlock()
		}
	}
	type span struct{ lo, hi int }
	ch := make(chan span, len(cases)+1)
	if chunk <= 0 {
		chunk = (len(cases) + slots - 1) / slots
		if chunk > 400 {
			chunk = 400
		}
	}
	for lo := 0; lo < len(cases); lo += chunk {
		hi := lo + chunk
		if hi > len(cases) {
			hi = len(cases)
		}
		ch <- span{lo, hi}
	}
	close(ch)
	var wg sync.WaitGroup
	var pmu sync.Mutex
	var pan any
	for s := 0; s < slots; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					pmu.Lock()
					pan = r
					pmu.Unlock()
					for range ch {
					}
				}
			}()
			for sp := range ch {
				c.runSpan(s, m, cases, out, sp.lo, sp.hi)
			}
		}()
	}
	wg.Wait()
	if pan != nil {
		panic(pan)
	}
	return out
}

func (c *Ctx) runSpan(slot int, m Mode, cases []core.Case, out []*Res, lo, hi int) {
	for lo < hi {
		for i := lo; i < hi; i++ {
			c.caseDir(&cases[i])
		}
		po := c.proc(slot, m, &core.Job{Mode: "bulk", Cases: cases[lo:hi]}, 240*time.Second)
		idx := map[string]int{}
		for i := lo; i < hi; i++ {
			idx[cases[i].ID] = i
		}
		cur := -1
		done := false
		for _, l := range po.lines {
			switch {
			case l.Start != "":
				cur = idx[l.Start]
				out[cur].Started = true
			case l.Done:
				done = true
			case l.End != "":
				out[idx[l.End]].Ended = true
			case l.Call != nil:
				r := out[cur]
				if l.Call.Case != "" {
					r = out[idx[l.Call.Case]]
				}
				r.Calls = append(r.Calls, *l.Call)
			case l.CleanN > 0:
				out[cur].Clean = append(out[cur].Clean, l.Clean)
				out[cur].CleanWrote = append(out[cur].CleanWrote, l.CleanWrote)
				out[cur].Pre = append(out[cur].Pre, l.PreTree)
				out[cur].Post = append(out[cur].Post, l.PostTree)
			case l.Yields != nil:
				out[cur].Yields = l.Yields
				out[cur].Stuck += l.Stuck
				out[cur].Sigs = append(out[cur].Sigs, l.Sig)
			}
		}
		if len(po.race) > 0 {
			out[lo].Race = append(out[lo].Race, po.race...)
		}
		if done && po.code == 0 {
			return
		}
		if cur < 0 {
			c.Inconclusive("worker died before the first case (code %d): %s", po.code, tail(po.stderr, 3000))
		}
		txt := crashText(po.stderr)
		if po.killed {
			txt = "no progress within the watchdog\n" + txt
		}
		if !strings.Contains(po.stderr, "go-snaps") || (po.killed && !blocked.MatchString(po.stderr)) {
			c.Inconclusive("worker died outside go-snaps in case %s (code %d): %s", cases[cur].ID, po.code, txt)
		}
		out[cur].Crash = txt
		lo = cur + 1
	}
}

// CaseDir returns (and creates) the directory of a case.
func (c *Ctx) caseDir(cs *core.Case) {
	if cs.Dir == "" {
		cs.Dir = filepath.Join(c.Scratch, "run", cs.ID)
	}
	must(os.MkdirAll(cs.Dir, 0o755))
	os.Chown(filepath.Dir(cs.Dir), nobody, nobody)
	os.Chown(cs.Dir, nobody, nobody)
}

// NewCase allocates an id and a fresh directory.
func (c *Ctx) NewCase() core.Case {
	c.mu.Lock()
	c.caseSeq++
	n := c.caseSeq
	c.mu.Unlock()
	cs := core.Case{ID: fmt.Sprintf("k%d", n), Share: n%2 == 0}
	c.caseDir(&cs)
	return cs
}

// PutFile writes a file owned by the worker's user.
func PutFile(p string, b []byte) {
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	os.Chown(filepath.Dir(p), nobody, nobody)
	must(os.WriteFile(p, b, 0o644))
	os.Chown(p, nobody, nobody)
}

// Crashed reports a panic or crash inside go-snaps as a violation.
func (c *Ctx) Crashed(r *Res, m Mode) bool {
	if r.Crash != "" {
		c.Violate(replay(r, m), "process died inside go-snaps: %s", r.Crash)
		return true
	}
	for _, k := range r.Calls {
		if k.Panic != "" {
			c.Violate(replay(r, m), "%s panicked: %s", k.K, tail(k.Panic, 2500))
			return true
		}
	}
	if !r.Ended {
		c.Inconclusive("case %s did not finish", r.Case.ID)
	}
	return false
}

type Replay struct {
	Mode  string
	Case  any
	Calls []core.CallRes `json:",omitempty"`
	Extra any            `json:",omitempty"`
}

func replay(r *Res, m Mode) Replay { return Replay{Mode: m.String(), Case: r.Case, Calls: r.Calls} }

// ---- main ----

var checks = map[string]func(*Ctx){}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: drv <property>")
		os.Exit(2)
	}
	id := os.Args[1]
	fn := checks[id]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	c := &Ctx{
		ID: id, Seed: seed, Thorough: os.Getenv("VERIF_TIER") == "thorough",
		Repo: "/repo", Home: os.Getenv("VERIF_HOME"), start: time.Now(),
		distinct: map[string]bool{}, counters: map[string]int{}, built: map[string]bool{}, known: map[string]Finding{},
	}
	if r := os.Getenv("VERIF_REPO"); r != "" {
		c.Repo = r
	}
	if c.Home == "" {
		c.Home = "/verif"
	}
	if b, err := os.ReadFile(filepath.Join(c.Home, "known_findings.json")); err == nil {
		var kf struct {
			Findings []Finding `json:"findings"`
		}
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
		for _, f := range kf.Findings {
			if f.Property == id {
				c.known[f.ID] = f
			}
		}
	}
	s, err := os.MkdirTemp("", "vfh-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Chmod(s, 0o755)
	c.Scratch = s
	c.dropUID = os.Getuid() == 0 && canDrop()
	if old, _ := filepath.Glob(filepath.Join(c.Home, "evidence", "replay-"+id+"-*.json")); len(old) > 0 {
		for _, f := range old {
			os.Remove(f)
		}
	}
	code := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if i, ok := r.(inconclusive); ok {
					fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", i.msg)
				} else {
					fmt.Fprintf(os.Stderr, "panic: %v\n%s", r, debug.Stack())
				}
				code = 2
			}
		}()
		fn(c)
	}()
	if len(c.viols) > 0 {
		code = 1 // a witnessed violation stands even if the rest was cut short
	}
	c.finish(code)
	if os.Getenv("VERIF_KEEP") == "" {
		os.RemoveAll(s)
	} else {
		fmt.Println("kept", s)
	}
	os.Exit(code)
}

func canDrop() bool {
	cmd := exec.Command("/bin/true")
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	return cmd.Run() == nil
}

func (c *Ctx) finish(code int) {
	ev := filepath.Join(c.Home, "evidence")
	os.MkdirAll(ev, 0o755)
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	cov := map[string]any{
		"evaluations": c.evals, "distinct_nontrivial": len(c.distinct), "rule": c.rule, "samples": c.samples,
	}
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	obs := map[string]int{}
	for k, v := range c.counters {
		obs[k] = v
	}
	cov["observed"] = obs
	if c.exhaust {
		cov["exhaustive"] = true
	}
	lvl := "exploration"
	e := map[string]any{
		"property": c.ID, "tier": tier, "seed": c.Seed, "level": lvl, "coverage": cov,
		"assumptions": append([]string{}, c.assume...), "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viols),
	}
	b, _ := json.MarshalIndent(e, "", " ")
	os.WriteFile(filepath.Join(ev, c.ID+".json"), append(b, '\n'), 0o644)
	for i, v := range c.viols {
		if i >= 5 && os.Getenv("VERIF_SHOW") == "" {
			break
		}
		p := filepath.Join(ev, fmt.Sprintf("replay-%s-%d.json", c.ID, i))
		b, _ := json.MarshalIndent(map[string]any{"property": c.ID, "seed": c.Seed, "tier": tier, "violation": v.Msg, "witness": v.Replay}, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		fmt.Printf("  %s\n", strings.ReplaceAll(clipS(v.Msg, 1500), "\n", "\n  "))
	}
	keys := make([]string, 0, len(c.counters))
	for k := range c.counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s: evaluations=%d distinct=%d violations=%d wall=%.1fs", c.ID, c.evals, len(c.distinct), len(c.viols), time.Since(c.start).Seconds())
	for _, k := range keys {
		fmt.Printf(" %s=%d", k, c.counters[k])
	}
	fmt.Println(" exit", code)
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

var blocked = regexp.MustCompile(`goroutine \d+ [^\n]*\[(sync\.|semacquire|chan)[^\]]*\]:\n[^\n]*\n[^\n]*\n(?:[^\n]+\n)*[^\n]*go-snaps`)
var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")
