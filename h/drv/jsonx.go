package main

import (
	"bytes"
	"encoding/json"
	"io"
	"strings"

	"verifh/core"
)

// parseJSON reads a document keeping member order, number text and duplicate
// members; nil if it is not valid JSON (encoding/json decides).
func parseJSON(s string) *core.JVal {
	if !json.Valid([]byte(s)) {
		return nil
	}
	d := json.NewDecoder(bytes.NewReader([]byte(s)))
	d.UseNumber()
	v := parseTok(d)
	if _, err := d.Token(); err != io.EOF {
		return nil
	}
	return v
}

func parseTok(d *json.Decoder) *core.JVal {
	t, err := d.Token()
	if err != nil {
		return nil
	}
	switch x := t.(type) {
	case json.Delim:
		if x == '{' {
			v := &core.JVal{K: 'o'}
			for d.More() {
				kt, err := d.Token()
				if err != nil {
					return nil
				}
				v.Keys = append(v.Keys, kt.(string))
				v.Elem = append(v.Elem, parseTok(d))
			}
			d.Token()
			return v
		}
		v := &core.JVal{K: 'a'}
		for d.More() {
			v.Elem = append(v.Elem, parseTok(d))
		}
		d.Token()
		return v
	case json.Number:
		return &core.JVal{K: 'n', S: x.String()}
	case string:
		return &core.JVal{K: 's', S: x}
	case bool:
		if x {
			return &core.JVal{K: 't'}
		}
		return &core.JVal{K: 'f'}
	}
	return &core.JVal{K: 'z'}
}

// mutateJSON changes one place of the document to a really different value.
func mutateJSON(r *core.Rng, v *core.JVal) {
	var all []*core.JVal
	var walk func(*core.JVal)
	walk = func(x *core.JVal) {
		all = append(all, x)
		for _, e := range x.Elem {
			walk(e)
		}
	}
	walk(v)
	x := core.Pick(r, all)
	switch x.K {
	case 'o':
		switch {
		case len(x.Keys) > 0 && r.Chance(0.3):
			i := r.Intn(len(x.Keys))
			x.Keys = append(x.Keys[:i:i], x.Keys[i+1:]...)
			x.Elem = append(x.Elem[:i:i], x.Elem[i+1:]...)
		case len(x.Keys) > 0 && r.Chance(0.3):
			i, k := r.Intn(len(x.Keys)), "renamed"
			if r.Chance(0.5) {
				k = nearText(r, x.Keys[i])
			}
			for _, o := range x.Keys {
				if o == k {
					k = x.Keys[i]
				}
			}
			x.Keys[i] = k
		default:
			x.Keys = append(x.Keys, "extra")
			x.Elem = append(x.Elem, &core.JVal{K: 'z'})
		}
	case 'a':
		switch {
		case len(x.Elem) > 1 && r.Chance(0.4):
			x.Elem[0], x.Elem[1] = x.Elem[1], x.Elem[0]
		case len(x.Elem) > 0 && r.Chance(0.5):
			x.Elem = x.Elem[:len(x.Elem)-1]
		default:
			x.Elem = append(x.Elem, &core.JVal{K: 't'})
		}
	case 's':
		x.S = nearText(r, x.S)
	case 'n':
		x.S = nearNumber(r, x.S)
	case 't':
		x.K = 'f'
	case 'f':
		x.K = 't'
	default:
		*x = core.JVal{K: 's', S: "null"}
	}
}

// nearText is another text, often hardly another one.
func nearText(r *core.Rng, s string) string {
	if p := core.Peer(r, s); p != s && len(p) < 300 && r.Chance(0.6) {
		return p
	}
	switch r.Intn(6) {
	case 0:
		if t := strings.ToUpper(s); t != s {
			return t
		}
		if t := strings.ToLower(s); t != s {
			return t
		}
	case 1:
		if s != "" {
			return " " + s
		}
	case 2:
		if rs := []rune(s); len(rs) > 1 {
			i := r.Intn(len(rs))
			return string(rs[:i]) + string(rs[i+1:])
		}
	case 3:
		if rs := []rune(s); len(rs) > 0 {
			i := r.Intn(len(rs))
			return string(rs[:i]) + string(rs[i:i+1]) + string(rs[i:])
		}
	}
	return s + core.Pick(r, []string{"x", " ", "\\", "\"", "\n", "é", "\u200b", "\u00a0", "\t", "<", "\u0301"})
}

// nearNumber is another number, often one that float64 does not tell apart.
func nearNumber(r *core.Rng, s string) string {
	out := core.Pick(r, []string{"424242", "-7", "0.001", "9007199254740992", "9007199254740993", "-9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "0.1000000000000000055", "1e-400", "2e400"})
	if r.Chance(0.6) && !strings.ContainsAny(s, "eE") {
		last := s[len(s)-1]
		out = s[:len(s)-1] + string('0'+(last-'0'+1)%10)
		if strings.Contains(s, ".") && r.Chance(0.5) {
			out = s + "0000000000000000001"
		}
	}
	if sameNum(out, s) {
		return "424242"
	}
	return out
}
