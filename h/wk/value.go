package wk

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifh/core"
)

// Address, User, Node: Go values with struct tags for the JSON/YAML inputs.
type Address struct {
	Street string   `json:"street" yaml:"street"`
	Tags   []string `json:"tags" yaml:"tags"`
	Zip    *int     `json:"zip,omitempty" yaml:"zip,omitempty"`
}

type User struct {
	Name    string            `json:"name" yaml:"name"`
	Age     int               `json:"age" yaml:"age"`
	Score   float64           `json:"score" yaml:"score"`
	Email   string            `json:"email" yaml:"email"`
	OK      bool              `json:"ok" yaml:"ok"`
	Addr    Address           `json:"addr" yaml:"addr"`
	Meta    map[string]string `json:"meta" yaml:"meta"`
	List    []any             `json:"list" yaml:"list"`
	Ignored string            `json:"-" yaml:"-"`
	Big     int64             `json:"big" yaml:"big"`
}

type custJSON struct{ s string }

func (c custJSON) MarshalJSON() ([]byte, error) { return []byte(c.s), nil }

type errJSON struct{}

func (errJSON) MarshalJSON() ([]byte, error) { return nil, errors.New("marshal boom") }
func (errJSON) MarshalYAML() ([]byte, error) { return nil, errors.New("marshal boom") }

// guard remembers what the caller owns so that damage can be seen.
type guard struct {
	full  []byte
	copy  []byte
	val   any
	fresh func() any
}

const spare = 48

func (g *guard) check() string {
	if g.full != nil && !bytes.Equal(g.full, g.copy) {
		for i := range g.full {
			if g.full[i] != g.copy[i] {
				where := "content"
				if i >= len(g.full)-spare {
					where = "spare capacity"
				}
				return fmt.Sprintf("%s of the caller's slice changed at byte %d: %q -> %q", where, i, clip(g.copy[:len(g.full)-spare]), clip(g.full[:len(g.full)-spare]))
			}
		}
	}
	if g.fresh != nil && !reflect.DeepEqual(g.val, g.fresh()) {
		return fmt.Sprintf("caller's value changed: %#v", g.val)
	}
	return ""
}

func clip(b []byte) string {
	if len(b) > 200 {
		b = b[:200]
	}
	return string(b)
}

// decode gives plain Go values, integers as int64 when exact.
func decode(b []byte) any {
	var v any
	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(&v); err != nil {
		// numbers beyond float64
		d = json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		v = nil
		if err := d.Decode(&v); err != nil {
			panic("harness: bad js value: " + err.Error())
		}
	}
	return v
}

func mkUser(b []byte) User {
	var u User
	if err := json.Unmarshal(b, &u); err != nil {
		panic("harness: bad user value: " + err.Error())
	}
	return u
}

type (
	namedString string
	namedBytes  []byte
	textKey     struct{ n int }
	embedded    struct {
		Address
		*User
		Extra any             `json:"extra"`
		Opt   string          `json:"opt,omitempty"`
		Num   json.Number     `json:"num"`
		Quot  int             `json:"quot,string"`
		Bytes []byte          `json:"bytes"`
		Arr   [3]byte         `json:"arr"`
		Ints  map[int]any     `json:"ints"`
		Text  map[textKey]any `json:"text"`
		T     time.Time       `json:"t"`
		D     time.Duration   `json:"d"`
		HTML  string          `json:"<html>&"`
		F32   float32         `json:"f32"`
		priv  int
	}
)

func (k textKey) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("key %d", k.n)), nil }

// goTypes are Go values made from a JSON text in unusual types.
var goTypes = map[string]func([]byte) any{
	"nstr":   func(b []byte) any { return namedString(b) },
	"nbytes": func(b []byte) any { return namedBytes(b) },
	"pstr":   func(b []byte) any { s := string(b); return &s },
	"pbytes": func(b []byte) any { return &b },
	"ppany":  func(b []byte) any { v := decode(b); p := &v; return &p },
	"stringer": func(b []byte) any {
		return bytes.NewBufferString(string(b)) // no exported fields: {}
	},
	"jnum":   func(b []byte) any { return json.Number("12345678901234567890.5") },
	"nilptr": func(b []byte) any { return (*User)(nil) },
	"nilmap": func(b []byte) any { return map[string]any(nil) },
	"nilsl":  func(b []byte) any { return []any(nil) },
	"nilraw": func(b []byte) any { return json.RawMessage(nil) },
	"prraw":  func(b []byte) any { r := json.RawMessage(b); return &r },
	"array":  func(b []byte) any { return [3]any{decode(b), nil, "x"} },
	"msany":  func(b []byte) any { return map[string]any{"v": decode(b), "raw": json.RawMessage(b), "s": string(b)} },
	"mint":   func(b []byte) any { return map[int]string{3: "c", 10: "j", 1: string(b)} },
	"rune":   func(b []byte) any { return 'x' },
	"floats": func(b []byte) any { return []float64{0, 1, 1e21, 1e-7, -0.5, 123456789, 1.7976931348623157e308} },
	"embed": func(b []byte) any {
		return embedded{Extra: decode(b), Num: "1.50", Quot: 7, Bytes: b, Ints: map[int]any{2: 1, 1: "x", 10: nil}, Text: map[textKey]any{{2}: "b", {1}: "a"}, HTML: "<&>\u2028", F32: 0.1, D: time.Second}
	},
	"structs": func(b []byte) any {
		return []any{User{Name: string(b)}, &User{List: []any{decode(b)}}, struct{}{}, map[string]User{"u": {}}}
	},
	// for YAML: many keys of many types, tags, nesting
	"ymint": func(b []byte) any {
		m := map[int]any{}
		each(b, func(i int, k string) { m[i*37%101-50] = k })
		return m
	},
	"ymany": func(b []byte) any {
		m := map[any]any{}
		each(b, func(i int, k string) {
			switch i % 4 {
			case 0:
				m[i] = k
			case 1:
				m["s"+k] = float64(i) / 4
			case 2:
				m[float64(i)+0.5] = []any{k, nil}
			case 3:
				m["k"+k] = map[any]any{k: i, "z": true, "a": "x\n---\n"}
			}
		})
		return m
	},
	"ycollide": func(b []byte) any { return map[any]any{1: "int", "1": "string", 1.0: "float"} },
	"ymbool":   func(b []byte) any { return map[bool]any{true: string(b), false: decode(b)} },
	"ymstr": func(b []byte) any {
		m := map[string]*yStruct{}
		each(b, func(i int, k string) {
			m[k] = &yStruct{Z: k, A: i, Doc: decode(b), In: map[string]int{"b": i, "a": 1, "c": 3}}
		})
		return m
	},
	"yslice": func(b []byte) any {
		return []any{decode(b), yStruct{Z: string(b)}, []string{"---", "/-/-/-/", "[TestA - 1]", ""}, nil}
	},
	"yinl": func(b []byte) any {
		return struct {
			yStruct `yaml:",inline"`
			Last    string `yaml:"last"`
		}{yStruct{Z: string(b), Doc: decode(b)}, "x\n---\ny\n"}
	},
	"ymtime": func(b []byte) any {
		return map[string]any{"t": time.Unix(1e9, 5).UTC(), "d": 90 * time.Second, "u": uint8(7), "f": float32(0.1)}
	},
	"nan":     func(b []byte) any { return []float64{nan()} },
	"mchan":   func(b []byte) any { return map[string]any{"c": make(chan int)} },
	"cyclic":  func(b []byte) any { m := map[string]any{}; m["m"] = m; return m },
	"mbool":   func(b []byte) any { return map[bool]int{true: 1} },
	"badraw":  func(b []byte) any { return json.RawMessage("{bad") },
	"badnum":  func(b []byte) any { return json.Number("x1") },
	"badcust": func(b []byte) any { return custJSON{"{"} },
}

type yStruct struct {
	Z    string         `yaml:"z"`
	A    int            `yaml:"a,omitempty"`
	Doc  any            `yaml:"doc"`
	In   map[string]int `yaml:"in,flow"`
	Skip string         `yaml:"-"`
}

// each visits the names of an object or the texts of other values.
func each(b []byte, f func(i int, k string)) {
	m, ok := decode(b).(map[string]any)
	if !ok {
		m = map[string]any{"only": 1}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		f(i, k)
	}
}

func nan() float64 { z := 0.0; return z / z }

func value(v core.Val) (any, *guard) {
	v.B = v.Text()
	switch v.T {
	case "s":
		return string(v.B), nil
	case "b", "raw":
		full := make([]byte, len(v.B)+spare)
		copy(full, v.B)
		for i := len(v.B); i < len(full); i++ {
			full[i] = 0xA5
		}
		g := &guard{full: full, copy: append([]byte(nil), full...)}
		s := full[:len(v.B)]
		if v.T == "raw" {
			return json.RawMessage(s), g
		}
		return s, g
	case "js":
		x := decode(v.B)
		return x, &guard{val: x, fresh: func() any { return decode(v.B) }}
	case "user":
		u := mkUser(v.B)
		return u, nil
	case "puser":
		u := mkUser(v.B)
		return &u, nil
	case "users":
		var us []User
		json.Unmarshal(v.B, &us)
		return us, nil
	case "i":
		n, _ := strconv.Atoi(string(v.B))
		return n, nil
	case "i64":
		n, _ := strconv.ParseInt(string(v.B), 10, 64)
		return n, nil
	case "u64":
		n, _ := strconv.ParseUint(string(v.B), 10, 64)
		return n, nil
	case "f":
		f, _ := strconv.ParseFloat(string(v.B), 64)
		return f, nil
	case "nil":
		return nil, nil
	case "bool":
		return string(v.B) == "true", nil
	case "mss":
		m := map[string]string{}
		json.Unmarshal(v.B, &m)
		return m, nil
	case "msi":
		m := map[string]int{}
		json.Unmarshal(v.B, &m)
		return m, nil
	case "cust":
		return custJSON{string(v.B)}, nil
	case "err":
		return errors.New(string(v.B)), nil
	case "errjson":
		return errJSON{}, nil
	case "chan":
		return make(chan int), nil
	case "fn":
		return func() {}, nil
	case "time":
		return time.Unix(0, 0).UTC(), nil
	}
	if v2, ok := goTypes[v.T]; ok {
		return v2(v.B), nil
	}
	if t, ok := strings.CutPrefix(v.T, "ms:"); ok { // the standard encoding, as string
		x, _ := value(core.Val{T: t, B: v.B})
		b, err := json.Marshal(x)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return string(b), nil
	}
	if t, ok := strings.CutPrefix(v.T, "mb:"); ok { // ... as bytes
		x, _ := value(core.Val{T: t, B: v.B})
		b, err := json.Marshal(x)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return value(core.Val{T: "b", B: b})
	}
	panic("harness: unknown value type " + v.T)
}
