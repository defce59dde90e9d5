package main

import (
	"fmt"
	"strings"

	"verifh/core"
)

// PCall is one Match* call of a program: what it is given and the text it is
// known to format to (Fmt, only when Exact).
type PCall struct {
	Op    core.Op
	Key   string // semantic identity of the formatted value within its kind
	Exact bool   // Key is the exact formatted text
	Bad   bool   // the call fails whatever is stored and writes nothing
}

func ptr[T any](v T) *T { return &v }

func sval(v core.Val) string { return string(v.B) }

// genCall makes one call of the given kind.
func genCall(r *core.Rng, kind string, cfg int, ids []string) PCall {
	op := core.Op{K: kind, C: cfg}
	switch kind {
	case "snap":
		if r.Chance(0.85) {
			n := 1
			if r.Chance(0.2) {
				n = r.Range(2, 3)
			}
			var parts []string
			for i := 0; i < n; i++ {
				s := core.FmtNoCR(core.HostileText(r, ids))
				parts = append(parts, s)
				op.V = append(op.V, core.S(s))
			}
			// a value ending in CR followed by the joining newline is a CR at
			// the end of a line
			return PCall{Op: op, Key: core.Fmt(parts...), Exact: true}
		}
		v := goVal(r)
		op.V = []core.Val{v}
		return PCall{Op: op, Key: v.T + ":" + string(v.B)}
	case "ssnap":
		if r.Chance(0.85) {
			s := core.HostileBytes(r, ids)
			op.V = []core.Val{core.S(s)}
			return PCall{Op: op, Key: core.Fmt(s), Exact: true}
		}
		v := goVal(r)
		op.V = []core.Val{v}
		return PCall{Op: op, Key: v.T + ":" + string(v.B)}
	case "json", "sjson":
		d := core.GenJSON(r, 3, true)
		op.V = []core.Val{jsonVal(r, d)}
		return PCall{Op: op, Key: jsonKey(d, op.V[0])}
	case "yaml":
		if r.Chance(0.85) {
			s := core.NoCR(core.YAMLText(r))
			v := core.S(s)
			if r.Chance(0.4) {
				v.T = "b"
			}
			op.V = []core.Val{v}
			return PCall{Op: op, Key: s, Exact: true}
		}
		v := yamlGo(r)
		op.V = []core.Val{v}
		return PCall{Op: op, Key: v.T + ":" + string(v.B)}
	}
	panic("genCall " + kind)
}

func goVal(r *core.Rng) core.Val {
	switch r.Intn(9) {
	case 0:
		return core.Val{T: "i", B: []byte(fmt.Sprint(r.Intn(1000)))}
	case 1:
		return core.Val{T: "f", B: []byte("3.25")}
	case 2:
		return core.Val{T: "nil"}
	case 3:
		return core.Val{T: "bool", B: []byte("true")}
	case 4:
		return core.Val{T: "b", B: []byte("raw\xff\n---\n")}
	case 5:
		return core.Val{T: "user", B: []byte(userJSON(r))}
	case 6:
		return core.Val{T: "mss", B: []byte(`{"k1":"v\n---","k2":"[TestA - 1]","a":"b"}`)}
	case 7:
		return core.Val{T: "err", B: []byte("some error\n---\nx")}
	default:
		d := core.GenJSON(r, 2, false)
		if d.K == 's' {
			d = &core.JVal{K: 'a', Elem: []*core.JVal{d}} // a Go string is its own text
		}
		return core.JS(d.Text(r, false, false, false))
	}
}

func userJSON(r *core.Rng) string {
	return fmt.Sprintf(`{"name":%s,"age":%d,"score":%d.5,"email":"e@x","ok":%v,"addr":{"street":%s,"tags":["x","y"]},"meta":{"b":"2","a":"1","c":"3"},"list":[1,"x",null],"big":%d}`,
		core.JStr(core.Pick(r, []string{"bob", "", "é", "<b>&"}), nil, false), r.Intn(100), r.Intn(10), r.Chance(0.5),
		core.JStr(core.Pick(r, []string{"s", "1 st", ""}), nil, false), r.Int63())
}

func yamlGo(r *core.Rng) core.Val {
	switch r.Intn(3) {
	case 0:
		return core.Val{T: "user", B: []byte(userJSON(r))}
	case 1:
		return core.Val{T: "mss", B: []byte(`{"k1":"v","k2":"w","a":"b","zz":"1","y":"2","x":"3"}`)}
	default:
		return core.Val{T: "puser", B: []byte(userJSON(r))}
	}
}

// jsonVal presents a document as string, bytes or Go value.
func jsonVal(r *core.Rng, d *core.JVal) core.Val {
	switch r.Intn(3) {
	case 0:
		return core.S(d.Text(r, r.Chance(0.5), false, false))
	case 1:
		return core.By(d.Text(r, r.Chance(0.5), false, false))
	default:
		return core.Val{T: "raw", B: []byte(d.Text(r, false, false, false))}
	}
}

// jsonKey identifies the stored text of a document within one config: Go
// values go through encoding/json, which escapes some characters.
func jsonKey(d *core.JVal, v core.Val) string {
	if v.T == "raw" && strings.ContainsAny(string(v.B), "<>&\u2028\u2029") {
		return d.Key() + "#html"
	}
	return d.Key()
}

// PTest is a test with its calls in order.
type PTest struct {
	Name  string
	Calls []PCall
}

// Prog is a set of tests over some configs.
type Prog struct {
	Cfgs  []core.Cfg
	Tests []PTest
	IDs   []string
}

var multiKinds = []string{"snap", "snap", "snap", "json", "yaml"}
var allKinds = []string{"snap", "snap", "snap", "json", "yaml", "ssnap", "sjson"}

// stdCfgs gives configs whose files all lie in the case directory.
func stdCfgs(r *core.Rng) []core.Cfg {
	n := r.Range(1, 3)
	var out []core.Cfg
	for i := 0; i < n; i++ {
		c := core.Cfg{Dir: ptr("$CASE" + core.Pick(r, []string{"", "/snaps", "/x/y", "/__snapshots__"}))}
		if r.Chance(0.15) {
			c.Dir = ptr("$CASE" + core.Pick(r, []string{"/sn[a]ps", "/s*", "/q?/x", "/sp ace", "/100%d", "/.hidden", "/ünï", "/dir.snap", "/a+(b)", "/back\\slash"}))
		}
		if r.Chance(0.4) {
			c.File = ptr(core.Pick(r, []string{"custom", "other", "my.file", "ünï", "custom", "other", "Custom", "[ab]", "a*", "sp ace", "50%", "x.snap", "v1.snap_2", "sub/x"}))
		}
		if r.Chance(0.25) {
			c.Ext = ptr(core.Pick(r, []string{".txt", ".json", ".snap", "snap", ".v.snap"}))
		}
		if r.Chance(0.15) {
			c.JSON = &core.JSONOpt{Width: 80, Indent: core.Pick(r, []string{"  ", "\t", ""}), SortKeys: r.Chance(0.5)}
		}
		out = append(out, c)
	}
	return out
}

// noSharedStandalone strips Filename from configs used for standalone calls of
// several tests: with a shared Filename two tests address the same files.
func genProg(r *core.Rng, kinds []string, maxTests, maxCalls int) *Prog {
	p := &Prog{Cfgs: stdCfgs(r)}
	names := core.TestNames(r, r.Range(1, maxTests))
	p.IDs = core.SlotIDs(names, 3)
	saFile := map[int]string{} // config with Filename -> the only test using it standalone
	flat := map[string]string{}
	for _, n := range names {
		t := PTest{Name: n}
		k := r.Range(1, maxCalls)
		if r.Chance(0.07) {
			k = r.Range(10, 13)
		}
		for i := 0; i < k; i++ {
			kind := core.Pick(r, kinds)
			cfg := r.Intn(len(p.Cfgs))
			if kind == "ssnap" || kind == "sjson" {
				if p.Cfgs[cfg].File != nil {
					// one Filename shared by two tests would share files
					fk := -1
					for j := range p.Cfgs {
						if p.Cfgs[j].File != nil && *p.Cfgs[j].File == *p.Cfgs[cfg].File {
							fk = j
							break
						}
					}
					if o, ok := saFile[fk]; ok && o != n {
						kind = "snap"
					} else {
						saFile[fk] = n
					}
				} else {
					f := strings.ReplaceAll(n, "/", "_")
					if o, ok := flat[f]; ok && o != n {
						kind = "snap"
					} else {
						flat[f] = n
					}
				}
			}
			t.Calls = append(t.Calls, genCall(r, kind, cfg, p.IDs))
		}
		p.Tests = append(p.Tests, t)
	}
	return p
}

func (t *PTest) exec() core.Exec {
	e := core.Exec{Test: t.Name}
	for _, c := range t.Calls {
		e.Ops = append(e.Ops, c.Op)
	}
	return e
}

// seqSteps runs the tests one after the other in the given order.
func (p *Prog) seqSteps(order []int) [][]core.Exec {
	var out [][]core.Exec
	for _, i := range order {
		out = append(out, []core.Exec{p.Tests[i].exec()})
	}
	return out
}

func perm(r *core.Rng, n int) []int { return r.Perm(n) }

func ident(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// outcome classifies what a call did to the T.
func outcome(k *core.CallRes) string {
	switch {
	case k == nil:
		return "missing"
	case k.Panic != "":
		return "panic"
	case len(k.Other) > 0 || k.Skips > 0:
		return "odd"
	case len(k.Errs) == 1 && len(k.Logs) == 0:
		return "failed"
	case len(k.Errs) == 0 && len(k.Logs) == 0:
		return "passed"
	case len(k.Errs) == 0 && len(k.Logs) == 1:
		l := strings.ToLower(ansi.ReplaceAllString(string(k.Logs[0]), ""))
		if strings.Contains(l, "added") {
			return "added"
		}
		if strings.Contains(l, "updated") {
			return "updated"
		}
		return "odd-log"
	}
	return fmt.Sprintf("odd(%d errors, %d logs)", len(k.Errs), len(k.Logs))
}

func allCalls(r *Res, want string) *core.CallRes {
	for i := range r.Calls {
		if outcome(&r.Calls[i]) != want {
			return &r.Calls[i]
		}
	}
	return nil
}

func callText(k *core.CallRes) string {
	s := fmt.Sprintf("%s in %s (step %d exec %d op %d)", k.K, k.Test, k.Step, k.Exec, k.Op)
	for _, e := range k.Errs {
		s += fmt.Sprintf(" error=%q", clipS(string(e), 400))
	}
	for _, e := range k.Logs {
		s += fmt.Sprintf(" log=%q", clipS(string(e), 100))
	}
	return s
}

func shape(cs *core.Case) string {
	var b strings.Builder
	for _, st := range cs.Steps {
		for _, e := range st {
			b.WriteString(e.Test)
			for _, o := range e.Ops {
				fmt.Fprintf(&b, "|%s%d", o.K, o.C)
				for _, v := range o.V {
					b.WriteString(v.T)
					b.Write(v.B)
				}
			}
			b.WriteString(";")
		}
	}
	return b.String()
}

// nontrivial: some value needs escaping, contains a header-like line, blank
// line, invalid UTF-8, or there is more than one entry in a file.
func hostile(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "[") || strings.HasSuffix(l, "-/-/-/") || strings.TrimSpace(l) == "---" || strings.TrimSpace(l) == "" {
			return true
		}
	}
	return strings.ToValidUTF8(s, "") != s || len(s) > 60000 || strings.Contains(s, "%")
}
