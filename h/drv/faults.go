package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifh/core"
)

// Faults of the file system under a call: the call reports exactly one error,
// consumes its ordinal and counts as failed; the calls after it are normal.

const faultRule = "; plus calls of every kind meeting file system faults (directory under a regular file, target is a directory, read-only, write-only or unreadable file, read-only directory, dangling and looping links, file size limit) before the permissions are restored"

var faultNames = []string{"notdir", "isdir", "rofile-create", "rofile-update", "rodir", "rodir-nested", "unreadable", "writeonly", "dangling", "loop", "limit-create", "limit-update"}

func (c *Ctx) faults(prop string) {
	kinds := []string{"snap", "json", "yaml", "ssnap", "sjson"}
	for _, m := range []Mode{{}, Upd("true"), {CI: "CI=true"}} {
		var cs []core.Case
		var tbs []*Table
		var labels []string
		for _, f := range faultNames {
			for _, k := range kinds {
				for _, named := range []bool{false, true} {
					if cas, tb, ok := c.fault(f, k, named, m); ok {
						cs = append(cs, cas)
						tbs = append(tbs, tb)
						labels = append(labels, f+"/"+k)
					}
				}
			}
		}
		for i, rr := range c.RunCases(m, cs, 1) {
			if c.Crashed(rr, m) {
				continue
			}
			c.Eval(fmt.Sprintf("fault %s %v %v", labels[i], m, i))
			c.Count("faulted_calls", 1)
			md := newModel(rr.Case.Dir, rr.Case.Cfgs, bulkBase)
			k := complaints{}
			for _, b := range c.bulkModel(md, tbs[i], rr, m) {
				k.add("C20", "%s", b)
				k.add("C03", "%s", b)
			}
			tot := map[string]int{}
			for j := range rr.Calls {
				tot[outcome(&rr.Calls[j])]++
			}
			for n, out := range rr.Clean {
				sm := parseSummary(out)
				if (strings.HasPrefix(labels[i], "dangling") || strings.HasPrefix(labels[i], "loop")) && !sm.titled {
					continue // Clean itself meets the fault and reports that instead of a summary
				}
				for _, w := range []string{"passed", "failed", "added", "updated", "skipped"} {
					if sm.tot[w] != tot[w] {
						k.add("C20", "Clean #%d shows %d %s, observed %d", n+1, sm.tot[w], w, tot[w])
					}
				}
			}
			if !strings.HasPrefix(labels[i], "limit") {
				t := core.Observe(rr.Case.Dir)
				for _, b := range md.CheckFiles(rr.Case.Dir, t, func(n string) bool {
					st, err := os.Lstat(filepath.Join(rr.Case.Dir, n))
					return n == "file" || strings.Contains(n, "link") || err == nil && st.Mode()&os.ModeSymlink != 0
				}) {
					k.add("C03", "%s", b)
				}
				for p, e := range md.SA {
					if d, err := os.ReadFile(p); err == nil && e.Call.Key != "" && e.Call.Op.K == "ssnap" && !bytes.Equal(d, []byte(e.Call.Key)) {
						k.add("C03", "%s holds %q, expected %q", filepath.Base(p), clipS(string(d), 80), clipS(e.Call.Key, 80))
					}
				}
			}
			if len(k[prop]) > 0 {
				c.Violate(replay(rr, m), "fault %s (mode %s): %s", labels[i], m, strings.Join(k[prop], "; "))
			}
		}
	}
}

func (c *Ctx) fault(f, kind string, named bool, m Mode) (core.Case, *Table, bool) {
	cs := c.NewCase()
	tb := &Table{}
	sa := kind == "ssnap" || kind == "sjson"
	cfg := core.Cfg{Dir: ptr("$CASE/d")}
	test := "TestFault/x"
	if named {
		cfg.File = ptr("nm")
	}
	ext := ""
	if kind == "sjson" {
		ext = ".json"
	}
	path := func(k int) string {
		if !sa {
			if named {
				return "$CASE/d/nm.snap"
			}
			return "$CASE/d/" + bulkBase(test) + ".snap"
		}
		n := "TestFault_x"
		if named {
			n = "nm"
		}
		return fmt.Sprintf("$CASE/d/%s_%d.snap%s", n, k, ext)
	}
	abs := func(p string) string { return strings.ReplaceAll(p, "$CASE", cs.Dir) }
	call := func(n int, bad bool) core.Op {
		v := val(kind, n)
		if n == 9 {
			v = core.S("") // what a file that was not read looks like
		}
		return tb.Op(PCall{Op: core.Op{K: kind, V: []core.Val{v}}, Key: sval(v), Exact: true, Bad: bad})
	}
	chmod := func(p, mode string) core.Op {
		return core.Op{K: "chmod", V: []core.Val{core.S(p), core.S(mode)}}
	}
	var rec, ops []core.Op
	other := 1
	if named && kind == "ssnap" {
		other = 9
	}
	switch f {
	case "notdir":
		PutFile(abs("$CASE/file"), []byte("x"))
		cfg.Dir = ptr("$CASE/file/d")
		ops = []core.Op{call(0, true), call(1, true), call(0, true)}
	case "isdir":
		p := abs(path(2))
		must(os.MkdirAll(p, 0o755))
		os.Chown(filepath.Dir(p), nobody, nobody)
		os.Chown(p, nobody, nobody)
		if sa {
			ops = []core.Op{call(0, false), call(other, true), call(2, false)}
		} else {
			ops = []core.Op{call(0, true), call(1, true)}
		}
	case "rofile-create":
		if sa {
			return cs, nil, false
		}
		ops = []core.Op{call(0, false), chmod(path(1), "0444"), call(1, true), chmod(path(1), "0644"), call(2, false)}
	case "rofile-update":
		rec = []core.Op{call(0, false), call(1, false), call(2, false)}
		ops = []core.Op{call(0, false), chmod(path(2), "0444"), call(5, true), chmod(path(2), "0644"), call(2, false), call(3, false)}
	case "rodir":
		PutFile(abs("$CASE/d/link"), []byte("x"))
		ops = []core.Op{chmod("$CASE/d", "0555"), call(0, true), call(1, true), chmod("$CASE/d", "0755"), call(2, false), call(3, false)}
	case "rodir-nested":
		cfg.Dir = ptr("$CASE/d/a/b")
		PutFile(abs("$CASE/d/link"), []byte("x"))
		ops = []core.Op{chmod("$CASE/d", "0555"), call(0, true), call(1, true), chmod("$CASE/d", "0755"), call(2, false)}
	case "unreadable":
		rec = []core.Op{call(0, false), call(1, false), call(2, false)}
		ops = []core.Op{call(0, false), chmod(path(2), "0000"), call(other, true), chmod(path(2), "0644"), call(2, false), call(3, false)}
	case "writeonly":
		// what cannot be read is not missing
		rec = []core.Op{call(0, false), call(1, false), call(2, false)}
		ops = []core.Op{call(0, false), chmod(path(2), "0200"), call(other, true), chmod(path(2), "0644"), call(2, false), call(3, false)}
	case "dangling", "loop":
		// a link that cannot be created through
		p := abs(path(1))
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		os.Chown(filepath.Dir(p), nobody, nobody)
		to := "nowhere/at/all"
		if f == "loop" {
			to = filepath.Base(p)
		}
		must(os.Symlink(to, p))
		if sa {
			ops = []core.Op{call(0, true), call(1, false), call(2, false)}
		} else {
			ops = []core.Op{call(0, true), call(1, true)}
		}
	case "limit-create":
		o := call(4, true)
		o.Lim = 1
		tb.Calls[len(tb.Calls)-1].Op.Lim = 1
		ops = []core.Op{o}
		if !sa {
			ops = append([]core.Op{call(0, false)}, ops...)
		}
	case "limit-update":
		if modeIsCI(m) || !m.HasUpd {
			return cs, nil, false
		}
		rec = []core.Op{call(0, false)}
		o := call(4, true)
		o.Lim = 1
		ops = []core.Op{o}
	}
	cs.Cfgs = []core.Cfg{cfg}
	if len(rec) > 0 {
		cs.Steps = append(cs.Steps, []core.Exec{{Test: test, Ops: rec}})
	}
	cs.Steps = append(cs.Steps, []core.Exec{{Test: test, Ops: ops}}, []core.Exec{{Test: "TestOther", Ops: []core.Op{call(3, f == "notdir" || !sa && (f == "isdir" || f == "dangling" || f == "loop"))}}})
	if sa && named {
		cs.Steps = cs.Steps[:len(cs.Steps)-1]
	}
	cs.Clean = 1
	return cs, tb, true
}
