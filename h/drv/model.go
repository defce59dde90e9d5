package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verifh/core"
)

// The slot model: what a serial execution of the calls leaves in the snapshot
// directory and what every call reports.

// Table holds the calls of a case; an op's Tag is its index here.
type Table struct{ Calls []PCall }

// Op registers a call and returns the op that makes it.
func (t *Table) Op(pc PCall) core.Op {
	pc.Op.Tag = strconv.Itoa(len(t.Calls))
	t.Calls = append(t.Calls, pc)
	return pc.Op
}

func (t *Table) Get(k *core.CallRes) *PCall {
	i, err := strconv.Atoi(k.Tag)
	if err != nil || i < 0 || i >= len(t.Calls) {
		return nil
	}
	return &t.Calls[i]
}

// MEntry is the modelled content of one slot.
type MEntry struct {
	ID   string // test - k
	Test string
	K    int
	Call PCall  // the call whose value is stored
	Raw  string // body as last seen in the file plus a newline; "" if not seen yet
	old  bool   // seen in the file before
}

type Model struct {
	Dir   string
	Cfgs  []core.Cfg
	Base  func(test string) string // calling test file without extension
	Multi map[string][]*MEntry     // file -> entries, in file order where known
	SA    map[string]*MEntry       // standalone file -> value
	SAOf  map[string]string        // standalone file -> path pattern
	// what this process addressed
	Touched map[string]map[string]bool // file -> ids
	Upd     map[string]bool            // file + "\x00" + id updated in this process
	Tot     map[string]int
	Links   [][2]string // directories with a second name
}

func newModel(dir string, cfgs []core.Cfg, base func(string) string) *Model {
	m := &Model{Dir: dir, Cfgs: cfgs, Base: base, Multi: map[string][]*MEntry{}, SA: map[string]*MEntry{}, SAOf: map[string]string{}}
	m.NewProcess()
	return m
}

func (m *Model) NewProcess() {
	m.Touched = map[string]map[string]bool{}
	m.Upd = map[string]bool{}
	m.Tot = map[string]int{}
}

func (m *Model) cfg(i int) core.Cfg {
	if i >= 0 && i < len(m.Cfgs) {
		return m.Cfgs[i]
	}
	return core.Cfg{}
}

// Path is the documented location of a call's snapshot; for standalone calls
// the pattern with %d in place of the ordinal.
func (m *Model) Path(op *core.Op, test string) (p string, standalone bool) {
	c := m.cfg(op.C)
	dir := "__snapshots__"
	if c.Dir != nil {
		dir = strings.ReplaceAll(*c.Dir, "$CASE", m.Dir)
	}
	if !filepath.IsAbs(dir) {
		dir = filepath.Join(m.Dir, dir)
	}
	for _, l := range m.Links {
		if dir == filepath.Join(m.Dir, l[0]) {
			dir = filepath.Join(m.Dir, l[1])
		}
	}
	ext := ""
	if c.Ext != nil {
		ext = *c.Ext
	}
	name := ""
	if c.File != nil {
		name = *c.File
	}
	if op.K == "ssnap" || op.K == "sjson" {
		if op.K == "sjson" && ext == "" {
			ext = ".json"
		}
		if name == "" {
			name = strings.ReplaceAll(test, "/", "_")
		}
		return filepath.Join(dir, name) + "\x00" + ".snap" + ext, true
	}
	if name == "" {
		name = m.Base(test)
	}
	return filepath.Join(dir, name) + ".snap" + ext, false
}

func (m *Model) find(path, id string) *MEntry {
	for _, e := range m.Multi[path] {
		if e.ID == id {
			return e
		}
	}
	return nil
}

func (m *Model) link(n string) bool {
	for _, l := range m.Links {
		if l[0] == n {
			return true
		}
	}
	return false
}

func saPath(pattern string, k int) string {
	return strings.Replace(pattern, "\x00", fmt.Sprintf("_%d", k), 1)
}

func perms(mode Mode, c core.Cfg) (create, update bool) {
	if modeIsCI(mode) {
		return false, false
	}
	if c.Update != nil {
		return *c.Update, *c.Update
	}
	return true, mode.HasUpd && mode.Upd == "true"
}

func modeIsCI(m Mode) bool { return m.CI != "" && m.CI != "CI=false" }

// Call runs one call of an execution whose counters are cnt.
func (m *Model) Call(cnt map[string]int, mode Mode, test string, pc *PCall) string {
	w := m.call(cnt, mode, test, pc)
	m.Tot[w]++
	return w
}

func (m *Model) call(cnt map[string]int, mode Mode, test string, pc *PCall) string {
	path, sa := m.Path(&pc.Op, test)
	cnt[path]++
	k := cnt[path]
	create, update := perms(mode, m.cfg(pc.Op.C))
	if sa {
		f := saPath(path, k)
		m.touch(f, "")
		if pc.Bad {
			return "failed"
		}
		e := m.SA[f]
		switch {
		case e == nil && !create:
			return "failed"
		case e == nil:
			m.SA[f] = &MEntry{Test: test, K: k, Call: *pc}
			m.SAOf[f] = path
			return "added"
		case e.Call.Key == pc.Key:
			return "passed"
		case !update:
			return "failed"
		}
		e.Call = *pc
		m.Upd[f] = true
		return "updated"
	}
	id := fmt.Sprintf("%s - %d", test, k)
	m.touch(path, id)
	if pc.Bad {
		return "failed"
	}
	e := m.find(path, id)
	switch {
	case e == nil && !create:
		return "failed"
	case e == nil:
		m.Multi[path] = append(m.Multi[path], &MEntry{ID: id, Test: test, K: k, Call: *pc})
		return "added"
	case e.Call.Key == pc.Key:
		return "passed"
	case !update:
		return "failed"
	}
	e.Call = *pc
	e.Raw = ""
	m.Upd[path+"\x00"+id] = true
	return "updated"
}

func (m *Model) touch(f, id string) {
	if m.Touched[f] == nil {
		m.Touched[f] = map[string]bool{}
	}
	m.Touched[f][id] = true
}

// CheckFiles compares the directory with the model and adopts the order and
// raw bodies found. It returns what is wrong.
func (m *Model) CheckFiles(dir string, t core.Tree, foreign func(name string) bool) []string {
	var out []string
	seen := map[string]bool{}
	for n, st := range t {
		if st.Dir {
			continue
		}
		f := filepath.Join(dir, n)
		if _, ok := m.SA[f]; ok {
			seen[f] = true
			continue
		}
		es, ok := m.Multi[f]
		if !ok {
			if st.Mode&os.ModeSymlink != 0 && m.link(n) {
				continue
			}
			if foreign == nil || !foreign(n) {
				out = append(out, "unexpected file "+n)
			}
			continue
		}
		seen[f] = true
		got, err := core.ParseSnap(st.Data)
		if err != nil {
			out = append(out, fmt.Sprintf("%s is malformed: %v", n, err))
			continue
		}
		idx := map[string]int{}
		for i, g := range got {
			if _, dup := idx[g.ID]; dup {
				out = append(out, fmt.Sprintf("%s holds [%s] twice", n, g.ID))
			}
			idx[g.ID] = i
			if m.find(f, g.ID) == nil {
				out = append(out, fmt.Sprintf("%s holds an unexpected entry [%s]", n, g.ID))
			}
		}
		last := -1
		for _, e := range es {
			i, ok := idx[e.ID]
			if !ok {
				out = append(out, fmt.Sprintf("%s lost entry [%s]", n, e.ID))
				continue
			}
			if e.Raw != "" && got[i].Raw+"\n" != e.Raw {
				out = append(out, fmt.Sprintf("%s: the body of [%s] changed from %q to %q", n, e.ID, clipS(e.Raw, 100), clipS(got[i].Raw, 100)))
			}
			if e.old {
				if i < last {
					out = append(out, fmt.Sprintf("%s: pre-existing entries were reordered at [%s]", n, e.ID))
				}
				last = i
			}
			e.Raw = got[i].Raw + "\n"
			e.old = true
		}
		sort.SliceStable(es, func(a, b int) bool { return idx[es[a].ID] < idx[es[b].ID] })
	}
	for f := range m.Multi {
		if !seen[f] && len(m.Multi[f]) > 0 {
			out = append(out, "missing file "+f)
		}
	}
	for f := range m.SA {
		if !seen[f] {
			out = append(out, "missing file "+f)
		}
	}
	sort.Strings(out)
	return out
}

// ReplaySteps makes, per test, the calls that address every slot the model
// holds, in order, with the value the model holds. want gives the outcome per
// call ("failed" for gaps, on CI).
func (m *Model) ReplaySteps(tb *Table) []core.Exec {
	type slot struct {
		path string
		k    int
		e    *MEntry
	}
	by := map[string][]slot{}
	var tests []string
	add := func(p string, e *MEntry) {
		if by[e.Test] == nil {
			tests = append(tests, e.Test)
		}
		by[e.Test] = append(by[e.Test], slot{p, e.K, e})
	}
	var files []string
	for f := range m.Multi {
		files = append(files, f)
	}
	sort.Strings(files)
	for _, f := range files {
		for _, e := range m.Multi[f] {
			add(f, e)
		}
	}
	files = nil
	for f := range m.SA {
		files = append(files, f)
	}
	sort.Strings(files)
	for _, f := range files {
		add(m.SAOf[f], m.SA[f])
	}
	sort.Strings(tests)
	var out []core.Exec
	for _, t := range tests {
		ss := by[t]
		sort.SliceStable(ss, func(a, b int) bool {
			if ss[a].path != ss[b].path {
				return ss[a].path < ss[b].path
			}
			return ss[a].k < ss[b].k
		})
		ex := core.Exec{Test: t}
		next := map[string]int{}
		for _, s := range ss {
			for next[s.path]+1 < s.k { // gap: a slot that was never created
				next[s.path]++
				g := s.e.Call
				g.Bad = true // not stored: fails on CI
				ex.Ops = append(ex.Ops, tb.Op(g))
			}
			next[s.path]++
			ex.Ops = append(ex.Ops, tb.Op(s.e.Call))
		}
		out = append(out, ex)
	}
	return out
}
