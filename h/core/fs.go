package core

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Old is the age given to a tree before a phase that must not write.
var Old = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)

// Age sets the mtime of everything below root (root included).
func Age(root string) {
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode()&os.ModeSymlink == 0 {
			os.Chtimes(p, Old, Old)
		}
		return nil
	})
}

// FileState is one file or directory as observed.
type FileState struct {
	Dir   bool
	Data  []byte
	Mtime int64
	Ino   uint64
	Mode  os.FileMode
}

type Tree map[string]FileState

// Observe reads everything below root. Names are relative to root.
func Observe(root string) Tree {
	t := Tree{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		st := FileState{Dir: fi.IsDir(), Mtime: fi.ModTime().UnixNano(), Mode: fi.Mode()}
		if s, ok := fi.Sys().(*syscall.Stat_t); ok {
			st.Ino = s.Ino
		}
		if fi.Mode().IsRegular() {
			st.Data, _ = os.ReadFile(p)
		}
		t[rel] = st
		return nil
	})
	return t
}

// Diff lists what differs between two observations; strict also compares
// mtimes and inodes (an aged tree that was written to shows up even if the
// bytes are the same).
func (a Tree) Diff(b Tree, strict bool) []string {
	var out []string
	for n, x := range a {
		y, ok := b[n]
		switch {
		case !ok:
			out = append(out, n+": removed")
		case x.Dir != y.Dir || !bytes.Equal(x.Data, y.Data):
			out = append(out, n+": content changed")
		case strict && x.Ino != y.Ino:
			out = append(out, n+": replaced")
		case strict && x.Mtime != y.Mtime:
			out = append(out, n+": written")
		}
	}
	for n := range b {
		if _, ok := a[n]; !ok {
			out = append(out, n+": created")
		}
	}
	sort.Strings(out)
	return out
}

func (a Tree) Files() []string {
	var out []string
	for n, x := range a {
		if !x.Dir {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// Entry of a multi-entry snapshot file, body as stored (escaped).
type Entry struct {
	ID  string
	Raw string
}

// ParseSnap parses a multi-entry file strictly: a sequence of
// "\n[id]\nbody\n---\n" and nothing else.
func ParseSnap(b []byte) ([]Entry, error) { return parseSnap(b, false) }

// ParseLoose also accepts files with another number of blank lines between
// the entries, as editing by hand or a merge leaves them.
func ParseLoose(b []byte) ([]Entry, error) { return parseSnap(b, true) }

func parseSnap(b []byte, loose bool) ([]Entry, error) {
	var out []Entry
	for off := 0; off < len(b); {
		rest := b[off:]
		if loose {
			n := 0
			for n < len(rest) && rest[n] == '\n' {
				n++
			}
			if n == len(rest) {
				break
			}
			if n == 0 {
				rest = append([]byte("\n"), rest...)
				b = append(append([]byte(nil), b[:off]...), rest...)
				rest = b[off:]
			} else {
				off += n - 1
				rest = b[off:]
			}
		}
		if rest[0] != '\n' {
			return out, fmt.Errorf("offset %d: expected the blank line before an entry, got %q", off, clip(rest))
		}
		rest = rest[1:]
		nl := bytes.IndexByte(rest, '\n')
		if nl < 2 || rest[0] != '[' || rest[nl-1] != ']' {
			return out, fmt.Errorf("offset %d: expected an entry header, got %q", off+1, clip(rest))
		}
		id := string(rest[1 : nl-1])
		rest = rest[nl+1:]
		end := -1
		for p := 0; p < len(rest); {
			e := bytes.IndexByte(rest[p:], '\n')
			if e < 0 {
				break
			}
			if string(rest[p:p+e]) == "---" {
				end = p
				break
			}
			p += e + 1
		}
		if end < 0 {
			return out, fmt.Errorf("entry [%s] is not terminated", id)
		}
		if end == 0 {
			return out, fmt.Errorf("entry [%s] has no body line", id)
		}
		out = append(out, Entry{id, string(rest[:end-1])})
		off = len(b) - len(rest) + end + 4
	}
	return out, nil
}

func clip(b []byte) string {
	if len(b) > 60 {
		b = b[:60]
	}
	return string(b)
}

// ParseAny parses strictly if it can, else loosely; strict tells which.
func ParseAny(b []byte) (es []Entry, strict bool, err error) {
	if es, err = ParseSnap(b); err == nil {
		return es, true, nil
	}
	es, err = ParseLoose(b)
	return es, false, err
}

// RenderLoose puts any number of blank lines around the entries.
func RenderLoose(r *Rng, es []Entry) []byte {
	var b bytes.Buffer
	for _, e := range es {
		fmt.Fprintf(&b, "%s[%s]\n%s\n---\n", strings.Repeat("\n", Pick(r, []int{0, 1, 1, 2, 3})), e.ID, e.Raw)
	}
	b.WriteString(strings.Repeat("\n", r.Intn(3)))
	return b.Bytes()
}

// Render writes entries in the documented format.
func Render(es []Entry) []byte {
	var b bytes.Buffer
	for _, e := range es {
		fmt.Fprintf(&b, "\n[%s]\n%s\n---\n", e.ID, e.Raw)
	}
	return b.Bytes()
}

func IDs(es []Entry) []string {
	var out []string
	for _, e := range es {
		out = append(out, e.ID)
	}
	return out
}

func Get(es []Entry, id string) (string, bool) {
	for _, e := range es {
		if e.ID == id {
			return e.Raw, true
		}
	}
	return "", false
}
