// Package wk executes job programs against the real go-snaps and records what
// is observable at the client boundary.
package wk

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/kr/pretty"

	"verifh/core"
)

var (
	outMu sync.Mutex
	outF  *os.File
	clock atomic.Int64
)

func emit(l core.Line) {
	b, err := json.Marshal(l)
	if err != nil {
		panic(err)
	}
	b = append(b, '\n')
	outMu.Lock()
	defer outMu.Unlock()
	if outF != nil {
		outF.Write(b)
	}
}

// LoadJob reads the job named by VERIF_JOB.
func LoadJob() *core.Job {
	b, err := os.ReadFile(os.Getenv("VERIF_JOB"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(97)
	}
	j := &core.Job{}
	if err := json.Unmarshal(b, j); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(97)
	}
	outF, err = os.OpenFile(j.Out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o666)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(97)
	}
	return j
}

func Done() { emit(core.Line{Done: true}) }

// API is what the recording T offers to go-snaps and to the interpreter.
type API interface {
	Helper()
	Skip(...any)
	Skipf(string, ...any)
	SkipNow()
	Name() string
	Error(...any)
	Log(...any)
	Cleanup(func())
}

type sink struct {
	mu  sync.Mutex
	cur *core.CallRes
}

func (s *sink) set(c *core.CallRes) {
	s.mu.Lock()
	s.cur = c
	s.mu.Unlock()
}

func (s *sink) rec(f func(c *core.CallRes)) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.cur == nil {
		// outside a call: attribute to a synthetic record
		c := &core.CallRes{K: "outside"}
		f(c)
		emit(core.Line{Call: c})
		return
	}
	f(s.cur)
}

func text(args []any) []byte {
	s := fmt.Sprintln(args...)
	return []byte(s[:len(s)-1])
}

// fakeT is a recording testing.T with any name.
type fakeT struct {
	sink
	name  string
	clean []func()
}

func (t *fakeT) Helper()      {}
func (t *fakeT) Name() string { return t.name }
func (t *fakeT) Error(a ...any) {
	b := text(a)
	t.rec(func(c *core.CallRes) { c.Errs = append(c.Errs, b) })
}
func (t *fakeT) Log(a ...any) {
	b := text(a)
	t.rec(func(c *core.CallRes) { c.Logs = append(c.Logs, b) })
}
func (t *fakeT) Skip(...any)          { t.skip() }
func (t *fakeT) Skipf(string, ...any) { t.skip() }
func (t *fakeT) SkipNow()             { t.skip() }
func (t *fakeT) skip() {
	t.rec(func(c *core.CallRes) { c.Skips++ })
	runtime.Goexit()
}
func (t *fakeT) Cleanup(f func()) {
	t.mu.Lock()
	t.clean = append(t.clean, f)
	t.mu.Unlock()
}
func (t *fakeT) runCleanups() {
	for {
		t.mu.Lock()
		n := len(t.clean)
		if n == 0 {
			t.mu.Unlock()
			return
		}
		f := t.clean[n-1]
		t.clean = t.clean[:n-1]
		t.mu.Unlock()
		f()
	}
}

// viewT is a fakeT used from one of several goroutines of a test.
type viewT struct {
	*fakeT
	own sink
}

func (t *viewT) Error(a ...any) {
	b := text(a)
	t.own.rec(func(c *core.CallRes) { c.Errs = append(c.Errs, b) })
}
func (t *viewT) Log(a ...any) {
	b := text(a)
	t.own.rec(func(c *core.CallRes) { c.Logs = append(c.Logs, b) })
}

// realT records what go-snaps does to a real *testing.T; errors and logs are
// recorded, not forwarded.
type realT struct {
	sink
	*testing.T
}

func (t *realT) Error(a ...any) {
	b := text(a)
	t.rec(func(c *core.CallRes) { c.Errs = append(c.Errs, b) })
}
func (t *realT) Log(a ...any) {
	b := text(a)
	t.rec(func(c *core.CallRes) { c.Logs = append(c.Logs, b) })
}
func (t *realT) Skip(a ...any)            { t.noteSkip(); t.T.Skip(a...) }
func (t *realT) Skipf(f string, a ...any) { t.noteSkip(); t.T.Skipf(f, a...) }
func (t *realT) SkipNow()                 { t.noteSkip(); t.T.SkipNow() }
func (t *realT) noteSkip()                { t.rec(func(c *core.CallRes) { c.Skips++ }) }

type env struct {
	cs    *core.Case
	mu    sync.Mutex
	cfgs  []*snaps.Config
	spawn func(func())

	shared map[string]*sharedMatcher // Case.Share
	paths  map[string][]string
	serial bool // no two calls at a time
}

// sharedMatcher is used by several calls, cur is the present one.
type sharedMatcher struct {
	both
	cur *core.CallRes
}

// matcher gives a matcher of a call.
func (e *env) matcher(m core.Matcher, idx int, res *core.CallRes) both {
	if !e.cs.Share || m.K == "custom" && !e.serial {
		return matcher(m, idx, &res)
	}
	k, _ := json.Marshal(m)
	key := string(k)
	if m.K == "custom" {
		key += fmt.Sprint(idx)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.shared == nil {
		e.shared, e.paths = map[string]*sharedMatcher{}, map[string][]string{}
	}
	s := e.shared[key]
	if s == nil {
		p := strings.Join(m.Paths, "\x00")
		if e.paths[p] == nil {
			e.paths[p] = m.Paths
		}
		m.Paths = e.paths[p]
		s = &sharedMatcher{}
		s.both = matcher(m, idx, &s.cur)
		e.shared[key] = s
	}
	if e.serial {
		s.cur = res
	}
	return s.both
}

// cfg gives the config a call is made through (nil: the package level
// function).
func (e *env) cfg(i int) *snaps.Config {
	if i < 0 || i >= len(e.cfgs) {
		return nil
	}
	if e.cs.Build == "fresh" {
		return config(e.cs.Cfgs[i], e.cs.Dir)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.cfgs[i] == nil {
		e.cfgs[i] = config(e.cs.Cfgs[i], e.cs.Dir)
	}
	return e.cfgs[i]
}

func config(c core.Cfg, dir string) *snaps.Config { return snaps.WithConfig(options(c, dir)...) }

func options(c core.Cfg, dir string) []func(*snaps.Config) {
	var o []func(*snaps.Config)
	if c.File != nil {
		o = append(o, snaps.Filename(*c.File))
	}
	if c.Dir != nil {
		o = append(o, snaps.Dir(strings.ReplaceAll(*c.Dir, "$CASE", dir)))
	}
	if c.Ext != nil {
		o = append(o, snaps.Ext(*c.Ext))
	}
	if c.Update != nil {
		o = append(o, snaps.Update(*c.Update))
	}
	if c.JSON != nil {
		o = append(o, snaps.JSON(snaps.JSONConfig{Width: c.JSON.Width, Indent: c.JSON.Indent, SortKeys: c.JSON.SortKeys}))
	}
	return o
}

func newEnv(cs *core.Case, spawn func(func())) *env {
	e := &env{cs: cs, spawn: spawn, cfgs: make([]*snaps.Config, len(cs.Cfgs)), serial: len(cs.Steps) > 0 && cs.Repeat < 2}
	for _, st := range cs.Steps {
		e.serial = e.serial && len(st) < 2
		for i := range st {
			for _, op := range st[i].Ops {
				e.serial = e.serial && op.K != "gopar"
			}
		}
	}
	switch cs.Build {
	case "fresh", "lazy":
	case "optshare":
		// the same option values serve every config that has them
		shared := map[string]func(*snaps.Config){}
		for i := len(cs.Cfgs) - 1; i >= 0; i-- {
			c := cs.Cfgs[i]
			var o []func(*snaps.Config)
			add := func(one core.Cfg) {
				k, _ := json.Marshal(one)
				if shared[string(k)] == nil {
					shared[string(k)] = options(one, cs.Dir)[0]
				}
				o = append([]func(*snaps.Config){shared[string(k)]}, o...)
			}
			if c.File != nil {
				add(core.Cfg{File: c.File})
			}
			if c.Dir != nil {
				add(core.Cfg{Dir: c.Dir})
			}
			if c.Ext != nil {
				add(core.Cfg{Ext: c.Ext})
			}
			if c.Update != nil {
				add(core.Cfg{Update: c.Update})
			}
			if c.JSON != nil {
				add(core.Cfg{JSON: c.JSON})
			}
			e.cfgs[i] = snaps.WithConfig(o...)
		}
	default:
		for i := range cs.Cfgs {
			e.cfg(i)
		}
	}
	return e
}

type both interface {
	match.JSONMatcher
	match.YAMLMatcher
}

func typeM[T any](m core.Matcher) both {
	x := match.Type[T](m.Paths...)
	if m.Miss != nil {
		x = x.ErrOnMissingPath(*m.Miss)
	}
	return x
}

func matcher(m core.Matcher, idx int, cur **core.CallRes) both {
	switch m.K {
	case "any":
		x := match.Any(m.Paths...)
		if m.Ph != nil {
			v, _ := value(*m.Ph)
			x = x.Placeholder(v)
		}
		if m.Miss != nil {
			x = x.ErrOnMissingPath(*m.Miss)
		}
		return x
	case "type":
		switch m.Type {
		case "string":
			return typeM[string](m)
		case "float64":
			return typeM[float64](m)
		case "bool":
			return typeM[bool](m)
		case "map":
			return typeM[map[string]any](m)
		case "slice":
			return typeM[[]any](m)
		case "int":
			return typeM[int](m)
		case "uint64":
			return typeM[uint64](m)
		case "int64":
			return typeM[int64](m)
		case "any":
			return typeM[any](m)
		// types no value of a document has
		case "jnum":
			return typeM[json.Number](m)
		case "strs":
			return typeM[[]string](m)
		case "mss":
			return typeM[map[string]string](m)
		case "mai":
			return typeM[map[any]any](m)
		case "nstr":
			return typeM[namedString](m)
		case "f32":
			return typeM[float32](m)
		case "bytes":
			return typeM[[]byte](m)
		case "error":
			return typeM[error](m)
		case "stringer":
			return typeM[fmt.Stringer](m)
		case "pstr":
			return typeM[*string](m)
		}
	case "custom":
		x := match.Custom(m.Paths[0], func(v any) (any, error) {
			res := *cur
			res.CBs = append(res.CBs, core.CBRec{M: idx, Typ: fmt.Sprintf("%T", v), Val: fmt.Sprintf("%#v", v)})
			switch m.CB {
			case "err":
				return nil, errors.New(m.Err)
			case "id":
				return v, nil
			case "rettype":
				return fmt.Sprintf("<%T>", v), nil
			}
			if m.Ph == nil {
				return nil, nil
			}
			r, _ := value(*m.Ph)
			return r, nil
		})
		if m.Miss != nil {
			x = x.ErrOnMissingPath(*m.Miss)
		}
		return x
	}
	panic("harness: unknown matcher")
}

// deep adds helper frames between the test function and the call.
func deep(n int, f func()) {
	if n > 0 {
		deep(n-1, f)
		return
	}
	f()
}

func (e *env) call(t API, op *core.Op, res *core.CallRes) (guards []*guard) {
	var vals []any
	for _, v := range op.V {
		x, g := value(v)
		vals = append(vals, x)
		if g != nil {
			guards = append(guards, g)
		}
	}
	if op.Fmt {
		res.Fmt = []byte(pretty.Sprint(vals...))
	}
	var jm []match.JSONMatcher
	var ym []match.YAMLMatcher
	for i, m := range op.M {
		x := e.matcher(m, i, res)
		jm = append(jm, x)
		ym = append(ym, x)
	}
	first := func() any {
		if len(vals) == 0 {
			return nil
		}
		return vals[0]
	}
	cfg := e.cfg(op.C)
	deep(op.Depth, func() {
		switch op.K {
		case "snap":
			if cfg != nil {
				cfg.MatchSnapshot(t, vals...)
			} else {
				snaps.MatchSnapshot(t, vals...)
			}
		case "ssnap":
			if cfg != nil {
				cfg.MatchStandaloneSnapshot(t, first())
			} else {
				snaps.MatchStandaloneSnapshot(t, first())
			}
		case "json":
			if cfg != nil {
				cfg.MatchJSON(t, first(), jm...)
			} else {
				snaps.MatchJSON(t, first(), jm...)
			}
		case "sjson":
			if cfg != nil {
				cfg.MatchStandaloneJSON(t, first(), jm...)
			} else {
				snaps.MatchStandaloneJSON(t, first(), jm...)
			}
		case "yaml":
			if cfg != nil {
				cfg.MatchYAML(t, first(), ym...)
			} else {
				snaps.MatchYAML(t, first(), ym...)
			}
		case "mj", "my":
			for _, v := range vals {
				res.Outs = append(res.Outs, chain(op.K, v, jm, ym, res))
			}
		case "skip":
			snaps.Skip(t, vals...)
		case "skipf":
			snaps.Skipf(t, "%v", vals...)
		case "skipnow":
			snaps.SkipNow(t)
		default:
			panic("harness: unknown op " + op.K)
		}
	})
	return guards
}

// chain applies matchers the way the Match* functions do: left to right, the
// result of a failing matcher is not used.
func chain(kind string, v any, jm []match.JSONMatcher, ym []match.YAMLMatcher, res *core.CallRes) (o core.MOut) {
	var b []byte
	switch x := v.(type) {
	case string:
		b = []byte(x)
	case []byte:
		b = x
	case json.RawMessage:
		b = x
	default:
		panic("harness: chain needs text")
	}
	for i := range jm {
		before := append([]byte(nil), b[:cap(b)]...)
		var out []byte
		var errs []match.MatcherError
		if kind == "mj" {
			out, errs = jm[i].JSON(b)
		} else {
			out, errs = ym[i].YAML(b)
		}
		if !bytes.Equal(before, b[:cap(b)]) {
			res.Buf = fmt.Sprintf("matcher %d changed the bytes it was given: %q -> %q", i, clip(before), clip(b[:cap(b)]))
		}
		for _, e := range errs {
			o.Errs = append(o.Errs, core.MErr{M: i, Name: e.Matcher, Path: e.Path, Reason: fmt.Sprint(e.Reason)})
		}
		if len(errs) == 0 {
			b = out
		}
	}
	o.Out = append([]byte(nil), b...)
	return o
}

// one runs one go-snaps call and records it.
func (e *env) one(t API, s *sink, op *core.Op, res *core.CallRes) {
	var before core.Tree
	var dirs []string
	if e.cs.Watch {
		dirs = e.cs.Watched
		if len(dirs) == 0 {
			dirs = []string{e.cs.Dir}
		}
		before = core.Tree{}
		for _, d := range dirs {
			core.Age(d)
			for n, st := range core.Observe(d) {
				before[filepath.Join(d, n)] = st
			}
		}
	}
	s.set(res)
	res.T0 = clock.Add(1)
	finished := false
	var guards []*guard
	finish := func() {
		res.T1 = clock.Add(1)
		s.set(nil)
		for _, g := range guards {
			if d := g.check(); d != "" {
				res.Buf = d
			}
		}
		if e.cs.Watch {
			after := core.Tree{}
			for _, d := range dirs {
				for n, st := range core.Observe(d) {
					after[filepath.Join(d, n)] = st
				}
			}
			for _, d := range before.Diff(after, true) {
				res.Wrote = append(res.Wrote, d)
			}
		}
		emit(core.Line{Call: res})
	}
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if strings.HasPrefix(msg, "harness:") {
				fmt.Fprintln(os.Stderr, msg)
				os.Exit(97)
			}
			res.Panic = msg + "\n" + string(debug.Stack())
		}
		_ = finished
		finish()
	}()
	if op.Lim > 0 {
		defer fileLimit(op.Lim)()
	}
	guards = e.call(t, op, res)
	finished = true
}

// fileLimit limits the size of written files; the call it returns lifts it.
func fileLimit(n int) func() {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic("harness: " + err.Error())
	}
	lim := old
	lim.Cur = uint64(n)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic("harness: " + err.Error())
	}
	return func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }
}

// ---- bulk ----

var curYield atomic.Pointer[sched]

func (e *env) runExec(step, ei int, ex *core.Exec, iter int) {
	t := &fakeT{name: ex.Test}
	defer t.runCleanups()
	e.ops(t, &t.sink, ex.Test, ex.Ops, step, ei, 0, iter)
}

func (e *env) ops(t API, s *sink, test string, ops []core.Op, step, ei, base, iter int) {
	for i := range ops {
		op := &ops[i]
		if len(op.Iters) > 0 {
			ok := false
			for _, x := range op.Iters {
				ok = ok || x == iter
			}
			if !ok {
				continue
			}
		}
		switch op.K {
		case "cleanup":
			o := op
			b := base + (i+1)*1000
			t.Cleanup(func() { e.ops(t, s, test, o.Ops, step, ei, b, iter) })
			continue
		case "go":
			done := make(chan struct{})
			o := op
			b := base + (i+1)*1000
			e.spawn(func() {
				defer close(done)
				e.ops(t, s, test, o.Ops, step, ei, b, iter)
			})
			<-done
			continue
		case "gopar":
			ft, ok := t.(*fakeT)
			if !ok {
				panic("harness: gopar needs the recording T")
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			for j := range op.Ops {
				v := &viewT{fakeT: ft}
				wg.Add(1)
				b := base + (i+1)*1000 + j*10
				o := op.Ops[j : j+1]
				e.spawn(func() {
					defer wg.Done()
					<-start
					e.ops(v, &v.own, test, o, step, ei, b, iter)
				})
			}
			close(start)
			wg.Wait()
			continue
		case "chdir":
			if err := os.Chdir(strings.ReplaceAll(string(op.V[0].B), "$CASE", e.cs.Dir)); err != nil {
				panic("harness: " + err.Error())
			}
			continue
		case "rmsnaps":
			os.RemoveAll(strings.ReplaceAll(string(op.V[0].B), "$CASE", e.cs.Dir))
			continue
		case "chmod":
			// V[0] = path, V[1] = octal mode
			var m uint32
			fmt.Sscanf(string(op.V[1].B), "%o", &m)
			os.Chmod(strings.ReplaceAll(string(op.V[0].B), "$CASE", e.cs.Dir), os.FileMode(m))
			continue
		case "sub":
			rt, ok := t.(*realT)
			if !ok {
				panic("harness: sub needs the real runner")
			}
			rt.T.Run(op.Node.Name, func(t *testing.T) { poolSelf[topFile(t.Name())](t, op.Node) })
			continue
		case "par":
			t.(*realT).T.Parallel()
			continue
		case "tskip":
			t.(*realT).T.Skip("plain")
			continue
		case "tfail":
			t.(*realT).T.Fail()
			continue
		case "sleep":
			time.Sleep(time.Duration(len(op.V[0].B)) * time.Millisecond)
			continue
		case "gate":
			gate(string(op.V[0].B), string(op.V[1].B))
			continue
		}
		res := &core.CallRes{Case: e.cs.ID, Step: step, Exec: ei, Op: base + i, Test: t.Name(), Iter: iter, K: op.K, Tag: op.Tag}
		e.one(t, s, op, res)
	}
}

// gates let a pool program order parallel tests deterministically.
var (
	gateMu sync.Mutex
	gates  = map[string]chan struct{}{}
)

func gate(what, name string) {
	gateMu.Lock()
	ch, ok := gates[name]
	if !ok {
		ch = make(chan struct{})
		gates[name] = ch
	}
	gateMu.Unlock()
	if what == "open" {
		close(ch)
		return
	}
	select {
	case <-ch:
	case <-time.After(5 * time.Second):
	}
}

// RunBulk executes all cases of the job; spawn must be a closure in a _test.go
// file so that go-snaps sees a test frame on the stack.
func RunBulk(j *core.Job, spawn func(func()), m *testing.M) {
	for i := range j.Cases {
		runCase(&j.Cases[i], spawn, m)
	}
	Done()
}

func runCase(cs *core.Case, spawn func(func()), m *testing.M) {
	emit(core.Line{Start: cs.ID})
	for _, l := range cs.Links {
		to := filepath.Join(cs.Dir, l[1])
		os.MkdirAll(to, 0o755)
		os.Symlink(to, filepath.Join(cs.Dir, l[0]))
	}
	e := newEnv(cs, spawn)
	for si, step := range cs.Steps {
		if slices.Contains(cs.CleanAfter, si-1) {
			k := *cs
			k.Clean = 1
			DoClean(&k, m)
		}
		if len(step) == 1 {
			done := make(chan struct{})
			spawn(func() {
				defer close(done)
				e.runExec(si, 0, &step[0], 1)
			})
			<-done
			continue
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		sc := newSched(cs.Sched, len(step))
		curYield.Store(sc)
		var ready sync.WaitGroup
		for xi := range step {
			wg.Add(1)
			ready.Add(1)
			spawn(func() {
				defer wg.Done()
				sc.enter(xi)
				ready.Done()
				<-start
				defer sc.leave(xi)
				e.runExec(si, xi, &step[xi], 1)
			})
		}
		ready.Wait()
		close(start)
		wg.Wait()
		curYield.Store(nil)
		if y := sc.yields(); y != nil {
			emit(core.Line{Yields: y, Mask: si, Stuck: int(sc.stuck.Load()), Sig: sc.sig})
		}
	}
	if cs.Clean > 0 {
		DoClean(cs, m)
	}
	emit(core.Line{End: cs.ID})
}

// DoClean calls snaps.Clean cs.Clean times capturing what it prints.
func DoClean(cs *core.Case, m *testing.M) {
	for n := 0; n < cs.Clean; n++ {
		dirs := cs.Watched
		if len(dirs) == 0 {
			dirs = []string{cs.Dir}
		}
		before := core.Tree{}
		for _, d := range dirs {
			core.Age(d)
			for f, st := range core.Observe(d) {
				before[filepath.Join(d, f)] = st
			}
		}
		f, err := os.CreateTemp("", "clean")
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(97)
		}
		old := os.Stdout
		os.Stdout = f
		func() {
			defer func() {
				os.Stdout = old
				if r := recover(); r != nil {
					emit(core.Line{Call: &core.CallRes{Case: cs.ID, K: "clean", Panic: fmt.Sprint(r) + "\n" + string(debug.Stack())}})
				}
			}()
			if cs.Sort || cs.SortArg {
				snaps.Clean(m, snaps.CleanOpts{Sort: cs.Sort})
			} else {
				snaps.Clean(m)
			}
		}()
		f.Seek(0, io.SeekStart)
		out, _ := io.ReadAll(f)
		f.Close()
		os.Remove(f.Name())
		after := core.Tree{}
		for _, d := range dirs {
			for f, st := range core.Observe(d) {
				after[filepath.Join(d, f)] = st
			}
		}
		files := func(t core.Tree) map[string][]byte {
			out := map[string][]byte{}
			for n, st := range t {
				if !st.Dir {
					out[n] = st.Data
				}
			}
			return out
		}
		emit(core.Line{Clean: out, CleanN: n + 1, CleanWrote: append([]string{}, before.Diff(after, true)...), PreTree: files(before), PostTree: files(after)})
	}
}

// ---- pool (real runner) ----

var (
	poolJob  *core.Job
	poolEnv  *env
	poolSelf = map[string]func(*testing.T, *core.Node){}
	poolFile = map[string]string{} // top level test -> file key
	iterMu   sync.Mutex
	iters    = map[string]int{}
)

func top(name string) string {
	if i := strings.IndexByte(name, '/'); i >= 0 {
		return name[:i]
	}
	return name
}
func topFile(name string) string { return poolFile[top(name)] }

// Register is called from init of every generated test file.
func Register(file string, self func(*testing.T, *core.Node), tests ...string) {
	poolSelf[file] = self
	for _, t := range tests {
		poolFile[t] = file
	}
}

func SetPool(j *core.Job, spawn func(func())) {
	poolJob = j
	poolEnv = newEnv(&j.Case, spawn)
}

// Top returns the program of a top level test.
func Top(name string) *core.Node {
	if poolJob == nil {
		return nil
	}
	for i := range poolJob.Nodes {
		if poolJob.Nodes[i].Name == name {
			return &poolJob.Nodes[i]
		}
	}
	return nil
}

// Interp runs a node on a real T. It is called from the test file the test
// belongs to.
func Interp(t *testing.T, n *core.Node) {
	if n == nil {
		return
	}
	iterMu.Lock()
	iters[t.Name()]++
	it := iters[t.Name()]
	iterMu.Unlock()
	emit(core.Line{Run: t.Name(), Iter: it})
	rt := &realT{T: t}
	poolEnv.ops(rt, &rt.sink, t.Name(), n.Ops, 0, 0, 0, it)
}

var _ = sort.Strings
var _ = reflect.DeepEqual
