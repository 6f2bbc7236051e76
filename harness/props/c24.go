//go:build all || C24

package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/arr-ai/frozen"

	"vh/pbt"
)

type (
	jsStruct struct {
		A int    `json:"a"`
		B string `json:"b,omitempty"`
	}
	jsByte uint8
	// jsText marshals through a value receiver, jsPtr through a pointer
	// receiver, which encoding/json honours for slice elements.
	jsText struct{ S string }
	jsKey  string
)

func (x jsText) MarshalJSON() ([]byte, error) { return json.Marshal(map[string]string{"text": x.S}) }

var errJS = errors.New("deliberate encoding error")

// jsBad fails to encode if told to.
type jsBad struct {
	ID  int
	Bad bool
}

func (x jsBad) MarshalJSON() ([]byte, error) {
	if x.Bad {
		return nil, errJS
	}
	return json.Marshal(x.ID)
}

var jsonStrings = []string{
	"", "a", "\"", "\\", "\n\t\r\b\f", "\x00\x01\x1f", "<script>&amp;</script>", "é", "日本語", "\U0001F600", "\u2028\u2029",
	"/", "null", "true", "1", "[1]", "{}", "a\"b\\c", " ", "\u007f", "\ufffd", "k", "K", "ſ", "\u212a",
}

func genString(t *pbt.T) string {
	if t.Bool() {
		return jsonStrings[t.Intn(len(jsonStrings))]
	}
	var sb strings.Builder
	t.Loop(0, 3, 12, func(int) { sb.WriteString(jsonStrings[t.Intn(len(jsonStrings))]) })
	return sb.String()
}

// jtype describes how values of T are generated and what JSON stands for them.
type jtype[T any] struct {
	name string
	gen  func(t *pbt.T) T
	key  func(v T) string // identity of v
	// norm is the canonical form of the decoded JSON that encodes v.
	norm func(v T) string
}

// decode parses JSON, keeping numbers as written.
func decode(t *pbt.T, data []byte, what string) any {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		t.Fatalf("%s: %q is not valid JSON: %v", what, data, err)
	}
	if d.More() {
		t.Fatalf("%s: %q has trailing data", what, data)
	}
	return v
}

// normJSON is a canonical form in which arrays that encode sets or maps are
// unordered; only for types whose arrays are all unordered.
func normJSON(v any) string {
	switch v := v.(type) {
	case []any:
		return normArray(v)
	default:
		data, _ := json.Marshal(v) // sorts object keys
		return string(data)
	}
}

func normArray(v []any) string {
	items := make([]string, len(v))
	for i, e := range v {
		items[i] = normJSON(e)
	}
	sortStrings(items)
	return "[" + strings.Join(items, ",") + "]"
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func viaJSON[T any](v T) string {
	data, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var a any
	if err := d.Decode(&a); err != nil {
		panic(err)
	}
	return normJSON(a)
}

func simpleJ[T comparable](name string, gen func(t *pbt.T) T) jtype[T] {
	return jtype[T]{name, gen, func(v T) string { return fmt.Sprintf("%#v", v) }, viaJSON[T]}
}

var (
	jInt    = simpleJ("int", func(t *pbt.T) int { return t.Range(-30, 30) })
	jBig    = simpleJ("uint64", func(t *pbt.T) uint64 { return t.U64() })
	jInt8   = simpleJ("int8", func(t *pbt.T) int8 { return int8(t.Range(-128, 127)) })
	jUint8  = jtype[uint8]{"uint8", func(t *pbt.T) uint8 { return uint8(t.Intn(256)) }, func(v uint8) string { return fmt.Sprint(v) }, func(v uint8) string { return fmt.Sprint(v) }}
	jByte   = jtype[jsByte]{"named uint8", func(t *pbt.T) jsByte { return jsByte(t.Intn(256)) }, func(v jsByte) string { return fmt.Sprint(v) }, func(v jsByte) string { return fmt.Sprint(v) }}
	jString = simpleJ("string", genString)
	jKey    = simpleJ("named string", func(t *pbt.T) jsKey { return jsKey(genString(t)) })
	jBool   = simpleJ("bool", func(t *pbt.T) bool { return t.Bool() })
	jFloat  = simpleJ("float64", func(t *pbt.T) float64 {
		return []float64{0, 1, -1.5, 1e21, 1e-7, math.MaxFloat64 / 2, math.SmallestNonzeroFloat64, 0.1, 1 << 53}[t.Intn(9)] * float64(1+t.Intn(2))
	})
	jStruct = simpleJ("struct", func(t *pbt.T) jsStruct { return jsStruct{t.Range(0, 5), jsonStrings[t.Intn(5)]} })
	jText   = simpleJ("Marshaler", func(t *pbt.T) jsText { return jsText{genString(t)} })
	jArr    = simpleJ("[2]bool", func(t *pbt.T) [2]bool { return [2]bool{t.Bool(), t.Bool()} })
	jSet    = jtype[frozen.Set[string]]{
		"Set[string]",
		func(t *pbt.T) frozen.Set[string] {
			var s frozen.Set[string]
			t.Loop(0, 2, 5, func(int) { s = s.With(genString(t)) })
			return s
		},
		func(s frozen.Set[string]) string {
			var is []string
			for r := s.Range(); r.Next(); {
				is = append(is, fmt.Sprintf("%q", r.Value()))
			}
			sortStrings(is)
			return strings.Join(is, ",")
		},
		func(s frozen.Set[string]) string {
			is := []string{}
			for r := s.Range(); r.Next(); {
				is = append(is, viaJSON(r.Value()))
			}
			sortStrings(is)
			return "[" + strings.Join(is, ",") + "]"
		},
	}
	jMap = jtype[frozen.Map[string, int]]{
		"Map[string,int]",
		func(t *pbt.T) frozen.Map[string, int] {
			var m frozen.Map[string, int]
			t.Loop(0, 2, 5, func(int) { m = m.With(genString(t), t.Intn(3)) })
			return m
		},
		func(m frozen.Map[string, int]) string { return fmt.Sprintf("%#v", goMap(m)) },
		func(m frozen.Map[string, int]) string { return viaJSON(goMap(m)) },
	}
	jAny = jtype[any]{
		"any",
		func(t *pbt.T) any {
			switch t.Intn(6) {
			case 0:
				return jInt.gen(t)
			case 1:
				return genString(t)
			case 2:
				return t.Bool()
			case 3:
				return jSet.gen(t)
			case 4:
				return jMap.gen(t)
			default:
				return jStruct.gen(t)
			}
		},
		func(v any) string {
			switch v := v.(type) {
			case frozen.Set[string]:
				return "S" + jSet.key(v)
			case frozen.Map[string, int]:
				return "M" + jMap.key(v)
			}
			return fmt.Sprintf("%T%#v", v, v)
		},
		func(v any) string {
			switch v := v.(type) {
			case frozen.Set[string]:
				return jSet.norm(v)
			case frozen.Map[string, int]:
				return jMap.norm(v)
			}
			return viaJSON(v)
		},
	}
)

func goMap(m frozen.Map[string, int]) map[string]int {
	g := map[string]int{}
	for r := m.Range(); r.Next(); {
		g[r.Key()] = r.Value()
	}
	return g
}

// marshal encodes v in a drawn way.
func marshal(t *pbt.T, v json.Marshaler) []byte {
	var data []byte
	var err error
	style := t.Intn(5)
	switch style {
	case 0:
		data, err = v.MarshalJSON()
	case 1:
		data, err = json.Marshal(v)
	case 2:
		data, err = json.MarshalIndent(v, " ", "\t")
	case 3:
		data, err = json.Marshal(map[string]any{"x": v})
		if err == nil {
			var w map[string]json.RawMessage
			if err = json.Unmarshal(data, &w); err == nil {
				data = w["x"]
			}
		}
	case 4:
		var buf bytes.Buffer
		e := json.NewEncoder(&buf)
		e.SetEscapeHTML(false)
		err = e.Encode(v)
		data = buf.Bytes()
	}
	if err != nil {
		t.Fatalf("marshalling %v: %v", v, err)
	}
	t.Logf("encoded (style %d) as %s", style, bytes.TrimSpace(data))
	return data
}

func c24SetOf[T any](t *pbt.T, j jtype[T]) {
	want := map[string]T{}
	var vals []T
	t.Loop(0, 4, 30, func(int) {
		v := j.gen(t)
		if _, dup := want[j.key(v)]; !dup {
			vals = append(vals, v)
		}
		want[j.key(v)] = v
	})
	s := frozen.NewSet(vals...)
	t.Logf("Set of %s: %v", j.name, vals)
	data := marshal(t, s)
	arr, is := decode(t, data, "Set of "+j.name).([]any)
	if !is {
		t.Fatalf("a Set of %s is encoded as %s, which is not an array", j.name, data)
	}
	var norms []string
	for _, v := range vals {
		norms = append(norms, j.norm(v))
	}
	sortStrings(norms)
	if got, w := normArray(arr), "["+strings.Join(norms, ",")+"]"; got != w {
		t.Fatalf("a Set of %s is encoded as %s, want the elements %s", j.name, got, w)
	}
	if len(vals) > 1 {
		t.NonTrivial()
	}
	t.ClassIf(len(vals) == 0, "empty")
	t.Class("set of " + j.name)
}

// c24Decode decodes into the Go type.
func c24Decode[T any](t *pbt.T, j jtype[T]) {
	var vals []T
	t.Loop(0, 4, 30, func(int) { vals = append(vals, j.gen(t)) })
	s := frozen.NewSet(vals...)
	data := marshal(t, s)
	var raws []json.RawMessage
	if err := json.Unmarshal(data, &raws); err != nil {
		t.Fatalf("decoding %s: %v", data, err)
	}
	var back []T
	for _, r := range raws {
		var v T
		if err := json.Unmarshal(r, &v); err != nil {
			t.Fatalf("decoding %s: %v", r, err)
		}
		back = append(back, v)
	}
	if len(back) != s.Count() || !frozen.NewSet(back...).Equal(s) {
		t.Fatalf("a Set of %s encoded as %s decodes to %v, want %v", j.name, data, back, s)
	}
	t.Class("decode set of " + j.name)
	if len(vals) > 1 {
		t.NonTrivial()
	}
}

func c24MapOf[K, V any](t *pbt.T, jk jtype[K], jv jtype[V]) {
	type kv struct {
		k K
		v V
	}
	want := map[string]kv{}
	var b frozen.MapBuilder[K, V]
	t.Loop(0, 4, 30, func(int) {
		e := kv{jk.gen(t), jv.gen(t)}
		b.Put(e.k, e.v)
		want[jk.key(e.k)] = e
	})
	m := b.Finish()
	name := fmt.Sprintf("Map from %s to %s", jk.name, jv.name)
	t.Logf("%s: %v", name, m)
	data := marshal(t, m)
	dec := decode(t, data, name)
	var got []string
	if _, isString := any(*new(K)).(string); isString {
		obj, is := dec.(map[string]any)
		if !is {
			t.Fatalf("a %s is encoded as %s, which is not an object", name, data)
		}
		for k, v := range obj {
			got = append(got, fmt.Sprintf("%q: %s", k, normJSON(v)))
		}
	} else {
		arr, is := dec.([]any)
		if !is {
			t.Fatalf("a %s is encoded as %s, which is not an array", name, data)
		}
		for _, p := range arr {
			pair, is := p.([]any)
			if !is || len(pair) != 2 {
				t.Fatalf("a %s is encoded as %s, which has a non-pair", name, data)
			}
			got = append(got, normJSON(pair[0])+": "+normJSON(pair[1]))
		}
	}
	var exp []string
	for _, e := range want {
		if k, isString := any(e.k).(string); isString && reflect.TypeOf(new(K)).Elem().Kind() == reflect.String {
			exp = append(exp, fmt.Sprintf("%q: %s", k, jv.norm(e.v)))
		} else {
			exp = append(exp, jk.norm(e.k)+": "+jv.norm(e.v))
		}
	}
	sortStrings(got)
	sortStrings(exp)
	if !reflect.DeepEqual(got, exp) {
		t.Fatalf("a %s is encoded with the entries %s, want %s", name, got, exp)
	}
	if len(want) > 1 {
		t.NonTrivial()
	}
	t.ClassIf(len(want) == 0, "empty")
	t.Class(name)
}

func c24Set(t *pbt.T) {
	switch t.Intn(14) {
	case 0:
		c24SetOf(t, jInt)
	case 1:
		c24SetOf(t, jBig)
	case 2:
		c24SetOf(t, jInt8)
	case 3:
		c24SetOf(t, jUint8)
	case 4:
		c24SetOf(t, jByte)
	case 5:
		c24SetOf(t, jString)
	case 6:
		c24SetOf(t, jKey)
	case 7:
		c24SetOf(t, jBool)
	case 8:
		c24SetOf(t, jFloat)
	case 9:
		c24SetOf(t, jStruct)
	case 10:
		c24SetOf(t, jText)
	case 11:
		c24SetOf(t, jSet)
	case 12:
		c24SetOf(t, jMap)
	default:
		c24SetOf(t, jAny)
	}
}

func c24DecodeSet(t *pbt.T) {
	switch t.Intn(8) {
	case 0:
		c24Decode(t, jInt)
	case 1:
		c24Decode(t, jBig)
	case 2:
		c24Decode(t, jString)
	case 3:
		c24Decode(t, jFloat)
	case 4:
		c24Decode(t, jStruct)
	case 5:
		c24Decode(t, jUint8)
	case 6:
		c24Decode(t, jArr)
	default:
		c24Decode(t, jKey)
	}
}

func c24Map(t *pbt.T) {
	switch t.Intn(12) {
	case 0:
		c24MapOf(t, jString, jInt)
	case 1:
		c24MapOf(t, jString, jAny)
	case 2:
		c24MapOf(t, jString, jSet)
	case 3:
		c24MapOf(t, jString, jMap)
	case 4:
		c24MapOf(t, jInt, jString)
	case 5:
		c24MapOf(t, jKey, jInt)
	case 6:
		c24MapOf(t, jAny, jAny)
	case 7:
		c24MapOf(t, jSet, jMap)
	case 8:
		c24MapOf(t, jUint8, jUint8)
	case 9:
		c24MapOf(t, jBool, jText)
	case 10:
		c24MapOf(t, jMap, jFloat)
	default:
		c24MapOf(t, jBig, jBool)
	}
}

func c24Errors(t *pbt.T) {
	n := t.Range(1, 12)
	bad := t.Intn(n + 3) // beyond n: none is bad
	var s frozen.SetBuilder[jsBad]
	var mv frozen.MapBuilder[string, jsBad]
	var mk frozen.MapBuilder[jsBad, int]
	var ma frozen.MapBuilder[int, any]
	for i := 0; i < n; i++ {
		e := jsBad{i, i == bad}
		s.Add(e)
		mv.Put(fmt.Sprint(i), e)
		mk.Put(e, i)
		switch {
		case i != bad:
			ma.Put(i, i)
		case t.Bool():
			ma.Put(i, math.Inf(1))
		default:
			ma.Put(i, frozen.NewSet(e))
		}
	}
	fails := bad < n
	for _, x := range []struct {
		what string
		m    json.Marshaler
	}{
		{"a Set", s.Finish()}, {"a Map's values", mv.Finish()},
		{"a Map's keys", mk.Finish()}, {"a Map's values", ma.Finish()},
	} {
		data, err := x.m.MarshalJSON()
		if fails && err == nil {
			t.Fatalf("the encoding error of one of %s is swallowed: %s", x.what, data)
		}
		if fails && bytes.Contains([]byte(err.Error()), []byte("deliberate")) && !errors.Is(err, errJS) {
			t.Fatalf("the encoding error of one of %s cannot be recognised: %v", x.what, err)
		}
		if !fails && err != nil {
			t.Fatalf("encoding %s: %v", x.what, err)
		}
	}
	t.ClassIf(fails, "encoding fails")
	t.NonTrivial()
}

func init() {
	register(&pbt.Prop{
		ID: "C24",
		Rule: "a case encodes one generated Set or Map (14 element types, specially escaped strings, nesting) through MarshalJSON or encoding/json, decodes the " +
			"text and compares it with the contents; non-trivial: at least 2 elements, or any case with failing element encodings",
		Assumptions: []string{"strings are valid UTF-8 (encoding/json replaces other bytes)", "keys of maps with non-string key types are unrestricted"},
		Scenarios: []*pbt.Scenario{
			{Name: "set", Quick: 8000, Fn: c24Set},
			{Name: "set-decode", Quick: 6000, Fn: c24DecodeSet},
			{Name: "map", Quick: 8000, Fn: c24Map},
			{Name: "errors", Quick: 1000, Fn: c24Errors},
		},
	})
}
