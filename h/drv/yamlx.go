package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"strings"

	goccy "github.com/goccy/go-yaml"
	y3 "gopkg.in/yaml.v3"
)

// parseYAML reads a stream with the independent parser.
func parseYAML(s []byte) (out []*y3.Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	d := y3.NewDecoder(bytes.NewReader(s))
	for {
		n := new(y3.Node)
		err := d.Decode(n)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		// yaml.v3 keeps the anchors of earlier documents, which is not YAML
		own := map[*y3.Node]bool{}
		var walk func(*y3.Node) error
		walk = func(n *y3.Node) error {
			own[n] = true
			if n.Alias != nil && !own[n.Alias] {
				return fmt.Errorf("alias *%s of another document", n.Value)
			}
			for _, x := range n.Content {
				if err := walk(x); err != nil {
					return err
				}
			}
			return nil
		}
		if err := walk(n); err != nil {
			return nil, err
		}
		out = append(out, n)
	}
}

// goccyOK: the library accepts the text (err) without panicking (ok).
func goccyOK(s []byte) (ok bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			ok, err = false, fmt.Errorf("panic: %v", r)
		}
	}()
	var v any
	return true, goccy.Unmarshal(s, &v)
}

// yKey is a canonical text of a node: order, tags, values and aliases; nodes
// in loose are compared as values only (numbers numerically, member order
// ignored).
func yKey(n *y3.Node, loose map[*y3.Node]bool) string {
	if loose[n] {
		return "<" + yLoose(n) + ">"
	}
	anchor := ""
	if n.Anchor != "" {
		anchor = "&" + n.Anchor + " "
	}
	switch n.Kind {
	case y3.DocumentNode:
		if len(n.Content) == 0 {
			return "empty"
		}
		return yKey(n.Content[0], loose)
	case y3.MappingNode:
		var p []string
		for i := 0; i+1 < len(n.Content); i += 2 {
			p = append(p, yKey(n.Content[i], loose)+": "+yKey(n.Content[i+1], loose))
		}
		return anchor + yTag(n) + "{" + strings.Join(p, ", ") + "}"
	case y3.SequenceNode:
		var p []string
		for _, c := range n.Content {
			p = append(p, yKey(c, loose))
		}
		return anchor + yTag(n) + "[" + strings.Join(p, ", ") + "]"
	case y3.AliasNode:
		return "*" + n.Value
	case 0:
		return "none"
	}
	if n.ShortTag() == "!!null" {
		return anchor + "null"
	}
	return anchor + fmt.Sprintf("%s %q", n.ShortTag(), n.Value)
}

func yTag(n *y3.Node) string {
	switch t := n.ShortTag(); t {
	case "!!map", "!!seq":
		return ""
	default:
		return t
	}
}

func yLoose(n *y3.Node) string {
	var v any
	if err := n.Decode(&v); err != nil {
		return "undecodable " + err.Error()
	}
	return anyKey(v)
}

// anyKey is a canonical text of a decoded value.
func anyKey(v any) string {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]string{}
		for k, e := range x {
			m[k] = anyKey(e)
		}
		return fmt.Sprint(m)
	case map[any]any:
		m := map[string]string{}
		for k, e := range x {
			m[fmt.Sprint(k)] = anyKey(e)
		}
		return fmt.Sprint(m)
	case []any:
		var p []string
		for _, e := range x {
			p = append(p, anyKey(e))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case int, int64, uint64, float64:
		t := fmt.Sprint(x)
		if r, ok := new(big.Rat).SetString(t); ok {
			return "n" + r.RatString()
		}
		return "n" + t
	case string:
		return fmt.Sprintf("%q", x)
	}
	return fmt.Sprintf("%T %v", v, v)
}

func yKeys(ns []*y3.Node, loose map[*y3.Node]bool) string {
	var p []string
	for _, n := range ns {
		p = append(p, yKey(n, loose))
	}
	return strings.Join(p, " --- ")
}

// yPath is a path into a document, as steps (string key or int index).
type yPath []any

func (p yPath) Text() string {
	s := "$"
	for _, e := range p {
		switch x := e.(type) {
		case int:
			s += fmt.Sprintf("[%d]", x)
		case string:
			// the escape of a quote (.'it\'s') is broken in goccy/go-yaml's paths
			if yPlainKey(x) || strings.Contains(x, "'") && !strings.HasPrefix(x, "'") && !strings.ContainsAny(x, "$*.[]") {
				s += "." + x
			} else {
				s += ".'" + strings.ReplaceAll(x, "'", `\'`) + "'"
			}
		}
	}
	return s
}

func yPlainKey(s string) bool {
	for _, c := range s {
		if !(c == '_' || c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c > 0x7f) {
			return false
		}
	}
	return s != ""
}

// yFind resolves a path in one document; direct is false if it goes through
// an alias, an anchor or a tag.
func yFind(doc *y3.Node, p yPath) (n *y3.Node, direct bool) {
	n, direct = doc, true
	if n.Kind == y3.DocumentNode {
		if len(n.Content) == 0 {
			return nil, true
		}
		n = n.Content[0]
	}
	for _, e := range p {
		if n.Anchor != "" || n.Style&y3.TaggedStyle != 0 {
			direct = false
		}
		for n.Kind == y3.AliasNode {
			n, direct = n.Alias, false
		}
		var next *y3.Node
		switch x := e.(type) {
		case string:
			if n.Kind == y3.MappingNode {
				for i := 0; i+1 < len(n.Content); i += 2 {
					if n.Content[i].Kind == y3.ScalarNode && n.Content[i].Value == x {
						next = n.Content[i+1]
						break
					}
				}
			}
		case int:
			if n.Kind == y3.SequenceNode && x < len(n.Content) {
				next = n.Content[x]
			}
		}
		if next == nil {
			return nil, direct
		}
		n = next
	}
	return n, direct
}

// yPaths lists the paths of a document.
func yPaths(doc *y3.Node) []yPath {
	var out []yPath
	var walk func(n *y3.Node, p yPath)
	walk = func(n *y3.Node, p yPath) {
		switch n.Kind {
		case y3.DocumentNode:
			if len(n.Content) > 0 {
				walk(n.Content[0], p)
			}
		case y3.MappingNode:
			for i := 0; i+1 < len(n.Content); i += 2 {
				if n.Content[i].Kind != y3.ScalarNode || n.Content[i].ShortTag() == "!!merge" {
					continue
				}
				q := append(p[:len(p):len(p)], n.Content[i].Value)
				out = append(out, q)
				walk(n.Content[i+1], q)
			}
		case y3.SequenceNode:
			for i, c := range n.Content {
				q := append(p[:len(p):len(p)], i)
				out = append(out, q)
				walk(c, q)
			}
		}
	}
	walk(doc, nil)
	return out
}
