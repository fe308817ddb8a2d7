package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/neilotoole/jsoncolor"
)

// scanValue gives the length of the well-formed JSON value b starts with.
func scanValue(b []byte) (int, bool) {
	if len(b) == 0 {
		return 0, false
	}
	ws := func(i int) int {
		for i < len(b) && strings.IndexByte(" \t\r\n", b[i]) >= 0 {
			i++
		}
		return i
	}
	lit := func(s string) (int, bool) { return len(s), bytes.HasPrefix(b, []byte(s)) }
	switch b[0] {
	case 'n':
		return lit("null")
	case 't':
		return lit("true")
	case 'f':
		return lit("false")
	case '"':
		for i := 1; i < len(b); i++ {
			switch {
			case b[i] == '"':
				return i + 1, true
			case b[i] < 0x20:
				return 0, false
			case b[i] == '\\':
				i++
				if i == len(b) || strings.IndexByte(`"\/bfnrtu`, b[i]) < 0 {
					return 0, false
				}
				if b[i] == 'u' {
					for k := 1; k <= 4; k++ {
						if i+k >= len(b) || strings.IndexByte("0123456789abcdefABCDEF", b[i+k]) < 0 {
							return 0, false
						}
					}
					i += 4
				}
			}
		}
		return 0, false
	case '[', '{':
		cl := b[0] + 2
		i := ws(1)
		if i < len(b) && b[i] == cl {
			return i + 1, true
		}
		for {
			i = ws(i)
			if cl == '}' {
				n, ok := scanValue(b[i:])
				if !ok || b[i] != '"' {
					return 0, false
				}
				i = ws(i + n)
				if i == len(b) || b[i] != ':' {
					return 0, false
				}
				i = ws(i + 1)
			}
			n, ok := scanValue(b[i:])
			if !ok {
				return 0, false
			}
			i = ws(i + n)
			if i == len(b) || b[i] != ',' && b[i] != cl {
				return 0, false
			}
			i++
			if b[i-1] == cl {
				return i, true
			}
		}
	}
	m := numRE.Find(b)
	// The remainder of Parse is not restricted, so "01" is 0 followed by 1.
	return len(m), m != nil
}

var numRE = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?`)

var anyParse = []jsoncolor.ParseFlags{0, 0, jsoncolor.UseNumber, jsoncolor.ZeroCopy, jsoncolor.DontCopyString, jsoncolor.DisallowUnknownFields, jsoncolor.DontMatchCaseInsensitiveStructFields, jsoncolor.ZeroCopy | jsoncolor.UseNumber}

// typedDoc makes a JSON text which suits t, most of the time.
func typedDoc(r *rand.Rand, t reflect.Type, depth int) string {
	if r.Intn(40) == 0 {
		return genJSON(r, 2)
	}
	if r.Intn(25) == 0 {
		return "null"
	}
	list := func(n int, f func(i int) string, l, rr string) string {
		var sb strings.Builder
		sb.WriteString(l + genWS(r))
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteString("," + genWS(r))
			}
			sb.WriteString(f(i) + genWS(r))
		}
		return sb.String() + rr
	}
	n := r.Intn(4)
	if depth <= 0 {
		n = 0
	}
	switch t {
	case ty[jsoncolor.Number]():
		return genNumber(r)
	case ty[jsoncolor.RawMessage](), ty[interface{}]():
		return genJSON(r, depth)
	case ty[[]byte]():
		return []string{`""`, `"aGk="`, `"AAAA"`, `"/+8="`, `"a"`, `"aGk"`, `"aG\u006b="`, genString(r)}[r.Intn(8)]
	}
	switch t.Kind() {
	case reflect.Bool:
		return []string{"true", "false"}[r.Intn(2)]
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if r.Intn(3) > 0 {
			return strconv.Itoa(r.Intn(128))
		}
		return genNumber(r)
	case reflect.Float32, reflect.Float64:
		return genNumber(r)
	case reflect.String:
		return genString(r)
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Array && r.Intn(3) > 0 {
			n = t.Len()
		}
		return list(n, func(int) string { return typedDoc(r, t.Elem(), depth-1) }, "[", "]")
	case reflect.Map:
		return list(n, func(int) string {
			k := genString(r)
			if t.Key().Kind() != reflect.String && r.Intn(8) > 0 {
				k = `"` + strconv.Itoa(r.Intn(128)) + `"`
			}
			return k + genWS(r) + ":" + genWS(r) + typedDoc(r, t.Elem(), depth-1)
		}, "{", "}")
	case reflect.Pointer:
		return typedDoc(r, t.Elem(), depth)
	case reflect.Struct:
		fs := reflect.VisibleFields(t)
		return list(n+r.Intn(3), func(int) string {
			if len(fs) == 0 || r.Intn(6) == 0 {
				return genString(r) + ":" + genJSON(r, depth-1)
			}
			f := fs[r.Intn(len(fs))]
			name, opt, _ := strings.Cut(f.Tag.Get("json"), ",")
			if name == "" {
				name = f.Name
			}
			if r.Intn(5) == 0 {
				name = strings.ToUpper(name)
			}
			v := typedDoc(r, f.Type, depth-1)
			if strings.Contains(opt, "string") && r.Intn(5) > 0 {
				q, _ := json.Marshal(v)
				v = string(q)
			}
			k, _ := json.Marshal(name)
			return string(k) + genWS(r) + ":" + genWS(r) + v
		}, "{", "}")
	}
	return genJSON(r, depth)
}

func isSpaceTrim(b []byte) []byte { return bytes.TrimLeft(b, " \t\r\n") }

// intTypes are the integer destinations.
var intTypes = []reflect.Type{ty[int](), ty[int8](), ty[int16](), ty[int32](), ty[int64](), ty[uint](), ty[uint8](), ty[uint16](), ty[uint32](), ty[uint64](), ty[uintptr](), ty[myInt](), ty[uint16]()}

var numberish = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?$`)
var intRE = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)

func deepCopyJSON(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		o := make([]interface{}, len(x))
		for i := range x {
			o[i] = deepCopyJSON(x[i])
		}
		return o
	case map[string]interface{}:
		o := map[string]interface{}{}
		for k, e := range x {
			o[k] = deepCopyJSON(e)
		}
		return o
	case json.Number:
		return jsoncolor.Number(x)
	}
	return v
}

func init() {
	checks["C02"] = func(c *ctx) {
		g := newGuarded(1 << 16)
		one := func(b []byte, t reflect.Type) {
			fl := anyParse[c.rng.Intn(len(anyParse))]
			c.ev(fmt.Sprintf("%s into %s flags=%d", b, t, fl), len(b) > 1)
			d := g.put(b)
			c.guard(func() {
				p := reflect.New(t)
				if c.rng.Intn(4) == 0 { // into what was there
					jsoncolor.Unmarshal([]byte(typedDoc(c.rng, t, 2)), p.Interface())
				}
				rem, err := jsoncolor.Parse(d, p.Interface(), fl)
				if err == nil {
					lead := len(b) - len(isSpaceTrim(b))
					n, ok := scanValue(b[lead:])
					if !ok {
						c.fail("parse", "Parse of %q into %s succeeds with remainder %q: it does not begin with a JSON value", b, t, rem)
					}
					want := isSpaceTrim(b[lead+n:])
					if string(rem) != string(want) || len(rem) > 0 && &rem[0] != &d[len(d)-len(rem)] {
						c.fail("remainder", "Parse of %q into %s returns remainder %q, want %q", b, t, rem, want)
					}
				}
				if !bytes.Equal(d, b) && fl&jsoncolor.ZeroCopy == 0 {
					c.fail("modified", "Parse of %q into %s changed its input to %q", b, t, d)
				}
			})
			d = g.put(b)
			c.guard(func() {
				if err := jsoncolor.Unmarshal(d, reflect.New(t).Interface()); err == nil && !json.Valid(b) {
					c.fail("unmarshal", "Unmarshal of %q into %s succeeds", b, t)
				}
			})
		}
		for _, s := range fixedDocs {
			for _, t := range decTypes {
				one([]byte(s), t)
			}
		}
		for _, s := range c.seeds {
			seedVariants(s, func(b []byte) {
				for _, t := range decTypes {
					one(b, t)
				}
			})
		}
		for _, t := range []reflect.Type{ty[interface{}](), ty[int](), ty[[]int](), ty[[2]int](), ty[map[string]int](), ty[decStruct](), ty[*int](), ty[jsoncolor.RawMessage](), ty[jsoncolor.Number](), ty[float64](), ty[bool](), ty[string](), ty[[]byte](), ty[emptyT]()} {
			enumerate([]byte("[]{},:\"1 n"), 4, c, func(b []byte) { one(b, t) })
		}
		for c.more() {
			t := decTypes[c.rng.Intn(len(decTypes))]
			b := []byte(genWS(c.rng) + typedDoc(c.rng, t, 3) + genWS(c.rng))
			if c.rng.Intn(4) == 0 {
				b = append(b, []string{"x", "1", " 2", ",", "]", "\"", "\x00", "\v"}[c.rng.Intn(8)]...)
			}
			one(b, t)
			mutations(c, b, 6, func(m []byte) { one(m, t) })
		}
	}
	checks["C03"] = func(c *ctx) {
		one := func(lit string, t reflect.Type) {
			fit := false
			var want *big.Int
			if intRE.MatchString(lit) {
				want, _ = new(big.Int).SetString(lit, 10)
				bits := uint(t.Bits())
				lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), bits)
				signed := t.Kind() >= reflect.Int && t.Kind() <= reflect.Int64
				if signed {
					hi.Rsh(hi, 1)
					lo.Neg(hi)
				}
				fit = want.Cmp(lo) >= 0 && want.Cmp(hi) < 0 && (signed || lit[0] != '-')
			}
			c.ev(lit+" into "+t.String(), len(lit) > 1)
			c.guard(func() {
				p := reflect.New(t)
				prior := int64(77)
				p.Elem().Set(reflect.ValueOf(prior).Convert(t))
				err := jsoncolor.Unmarshal([]byte(lit), p.Interface())
				if err == nil && !fit {
					if lit == "null" || lit == "" {
						return
					}
					c.fail("accept", "Unmarshal of %s into %s gives %v and no error", lit, t, p.Elem())
				}
				if err != nil && fit {
					c.fail("reject", "Unmarshal of %s into %s: %v", lit, t, err)
				}
				got := fmt.Sprint(p.Elem().Interface())
				if err == nil && got != want.String() {
					c.fail("value", "Unmarshal of %s into %s gives %s", lit, t, got)
				}
				if err != nil && got != "77" && numberish.MatchString(lit) {
					c.fail("changed", "failing Unmarshal of %s into %s stored %s", lit, t, got)
				}
				if intRE.MatchString(lit) {
					// The same in an array, in a struct and as a map key.
					st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: t}}))
					st.Elem().Field(0).Set(reflect.ValueOf(int64(5)).Convert(t))
					st.Elem().Field(1).Set(reflect.ValueOf(int64(6)).Convert(t))
					err := jsoncolor.Unmarshal([]byte(`{"A":`+lit+`}`), st.Interface())
					if (err == nil) != fit {
						c.fail("nested", "Unmarshal of {\"A\":%s} into %s: error %v", lit, st.Type(), err)
					}
					w := "5"
					if fit {
						w = want.String()
					}
					if got := fmt.Sprint(st.Elem().Field(0).Interface(), st.Elem().Field(1).Interface()); got != w+" 6" {
						c.fail("nested", "Unmarshal of {\"A\":%s} into a struct with prior 5 and 6 gives %s", lit, got)
					}
					m := reflect.New(reflect.MapOf(t, ty[int]()))
					err = jsoncolor.Unmarshal([]byte(`{"`+lit+`":1}`), m.Interface())
					if (err == nil) != fit {
						c.fail("key", "Unmarshal of {%q:1} into %s: error %v", lit, m.Type(), err)
					}
					if err == nil {
						if k := m.Elem().MapKeys(); len(k) != 1 || fmt.Sprint(k[0].Interface()) != want.String() {
							c.fail("key", "Unmarshal of {%q:1} into %s gives %v", lit, m.Type(), m.Elem())
						}
					}
				}
			})
		}
		all := func(lit string) {
			for _, t := range intTypes {
				one(lit, t)
			}
		}
		for _, s := range c.seeds {
			all(string(s))
		}
		for _, s := range []string{"0", "-0", "00", "-", "-a", "1.0", "1e2", "1E2", "01", "-01", "+1", " 5", "5 ", "5x", "5.", "5,", "-1", "0.0", "0e0", "0x1", "1_0", "-00", "--1", "1-", "\"1\"", "true", "", "null"} {
			if s == " 5" || s == "5 " {
				continue
			}
			all(s)
		}
		for bits := uint(0); bits <= 70; bits++ {
			v := new(big.Int).Lsh(big.NewInt(1), bits)
			for d := int64(-12); d <= 12; d++ {
				x := new(big.Int).Add(v, big.NewInt(d))
				all(x.String())
				all(new(big.Int).Neg(x).String())
			}
			for _, m := range []int64{10, 100} {
				x := new(big.Int).Mul(v, big.NewInt(m))
				all(x.String())
				all("-" + x.String())
			}
		}
		enumerate([]byte("0-19.e2"), 4, c, func(b []byte) { all(string(b)) })
		for i := -70000; i < 70000 && c.more(); i++ {
			all(strconv.Itoa(i))
		}
		for c.more() {
			var sb strings.Builder
			if c.rng.Intn(2) == 0 {
				sb.WriteByte('-')
			}
			for n := c.rng.Intn(23); n >= 0; n-- {
				sb.WriteByte(byte('0' + c.rng.Intn(10)))
			}
			all(sb.String())
			if c.rng.Intn(10) == 0 {
				all(sb.String() + []string{".0", "e1", "E0", ".", "e", "a", "\x00", " 1"}[c.rng.Intn(8)])
			}
		}
	}
	checks["C04"] = func(c *ctx) {
		g := newGuarded(1 << 16)
		one := func(lit string) {
			n, ok := scanValue([]byte(lit))
			if !ok || n != len(lit) || lit[0] != '"' {
				return
			}
			want := denotes(lit)
			c.ev(lit, len(lit) > 3)
			c.guard(func() {
				var s string
				fl := anyParse[c.rng.Intn(len(anyParse))] &^ jsoncolor.DisallowUnknownFields
				d := g.put([]byte(lit))
				rem, err := jsoncolor.Parse(d, &s, fl)
				if err != nil || len(rem) != 0 || s != want {
					c.fail("decode", "Parse of %s into a string gives %q (error %v), want %q", lit, s, err, want)
				}
				var m map[string]int
				d = g.put([]byte(`{` + lit + `:1}`))
				if err := jsoncolor.Unmarshal(d, &m); err != nil || len(m) != 1 || m[want] != 1 {
					c.fail("key", "Unmarshal of {%s:1} gives %q (error %v), want the key %q", lit, m, err, want)
				}
				var x interface{}
				d = g.put([]byte(lit))
				if err := jsoncolor.Unmarshal(d, &x); err != nil || x != interface{}(want) {
					c.fail("decode", "Unmarshal of %s into an interface gives %q (error %v), want %q", lit, x, err, want)
				}
				d = g.put([]byte(lit))
				if u := jsoncolor.RawValue(d).Unquote(); string(u) != want {
					c.fail("unquote", "Unquote of %s gives %q, want %q", lit, u, want)
				}
				pre := []string{"", "x", "\\\"", "prefix"}[c.rng.Intn(4)]
				for _, extra := range []int{0, 2, len(lit), 100} {
					b := make([]byte, len(pre), len(pre)+extra)
					copy(b, pre)
					d = g.put([]byte(lit))
					u := jsoncolor.RawValue(d).AppendUnquote(b)
					if string(u) != pre+want || string(b) != pre || string(d) != lit {
						c.fail("append", "AppendUnquote of %s to %q (cap %d) gives %q", lit, pre, cap(b), u)
					}
				}
			})
		}
		for _, s := range c.seeds {
			seedVariants(s, func(b []byte) { one(string(b)) })
		}
		for _, s := range fixedDocs {
			one(s)
		}
		esc := []string{`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`}
		for k := 0; k < 34; k++ {
			p := strings.Repeat("a", k)
			for _, e := range esc {
				one(`"` + p + e + `"`)
				one(`"` + p + e + p + e + `b"`)
			}
			for _, e := range []string{`\u0041`, `\ud83d\ude00`, `\ud83d`, `\ude00`, `\ud83dx`, `\ud83d\n`, `\ud83d\u0041`, `\ud83d\ud83d\ude00`, `\ude00\ud83d`, `\uD800\uDC00`, `\udbff\udfff`, `\udbff\ue000`, `\ud7ff\udc00`, "é", "\xff", "\x80\x80", "\xe2\x80", "😀", "\x7f"} {
				one(`"` + p + e + `"`)
				one(`"` + p + e + "zz\"")
			}
		}
		for i := 0; i < 0x10000; i++ {
			one(fmt.Sprintf(`"\u%04x"`, i))
			if i%7 == 0 || i >= 0xd700 && i < 0xe100 {
				one(fmt.Sprintf(`"\u%04X\u%04x"`, i, 0xdc00+i%0x400))
				one(fmt.Sprintf(`"\ud8%02x\u%04X"`, i%256, i))
			}
		}
		strInputs(c, func(s string) {
			if strings.IndexFunc(s, func(r rune) bool { return r < 0x20 }) < 0 {
				one(`"` + s + `"`)
			}
			one(genString(c.rng))
			if c.rng.Intn(2) == 0 {
				one(`"` + s + strPieces[c.rng.Intn(len(strPieces))] + `"`)
			}
		})
	}
	checks["C14"] = func(c *ctx) {
		one := func(doc string, t reflect.Type) {
			fl := anyParse[c.rng.Intn(len(anyParse))] &^ jsoncolor.ZeroCopy
			// The flags of the other kinds do not matter.
			switch t {
			case ty[string](), ty[[]string](), ty[map[string]string](), ty[[2]string](), ty[map[string]bool](), ty[struct{ A, B string }](), ty[*string]():
				fl |= []jsoncolor.ParseFlags{0, jsoncolor.DontCopyNumber, jsoncolor.DontCopyRawMessage, jsoncolor.DontCopyNumber | jsoncolor.UseNumber, jsoncolor.DontCopyNumber | jsoncolor.DontCopyRawMessage | jsoncolor.UseNumber}[c.rng.Intn(5)]
			case ty[jsoncolor.RawMessage](), ty[[]jsoncolor.RawMessage]():
				fl |= []jsoncolor.ParseFlags{0, jsoncolor.DontCopyNumber, jsoncolor.DontCopyString, jsoncolor.DontCopyNumber | jsoncolor.DontCopyString}[c.rng.Intn(4)]
			case ty[jsoncolor.Number](), ty[[]jsoncolor.Number]():
				fl |= []jsoncolor.ParseFlags{0, jsoncolor.DontCopyRawMessage, jsoncolor.DontCopyString, jsoncolor.DontCopyRawMessage | jsoncolor.DontCopyString}[c.rng.Intn(4)]
			}
			c.ev(fmt.Sprintf("%s into %s flags=%d", doc, t, fl), len(doc) > 3)
			c.guard(func() {
				in, in2 := []byte(doc), []byte(doc)
				p, q := reflect.New(t), reflect.New(t)
				_, err := jsoncolor.Parse(in, p.Interface(), fl)
				_, err2 := jsoncolor.Parse(in2, q.Interface(), fl|jsoncolor.ZeroCopy)
				if (err == nil) != (err2 == nil) {
					c.fail("flags", "Parse of %q into %s: error %v, with the zero-copy flags %v", doc, t, err, err2)
				}
				if !reflect.DeepEqual(p.Interface(), q.Interface()) {
					c.fail("flags", "Parse of %q into %s gives %+v, with the zero-copy flags %+v", doc, t, p.Elem(), q.Elem())
				}
				for i := range in {
					in[i] = '#'
				}
				if !reflect.DeepEqual(p.Interface(), q.Interface()) {
					c.fail("alias", "Parse of %q into %s: after overwriting the input the value is %+v, was %+v", doc, t, p.Elem(), q.Elem())
				}
				if fl == 0 {
					in, u := []byte(doc), reflect.New(t)
					err := jsoncolor.Unmarshal(in, u.Interface())
					for i := range in {
						in[i] = '#'
					}
					if err == nil && !reflect.DeepEqual(u.Interface(), q.Interface()) {
						c.fail("alias", "Unmarshal of %q into %s: after overwriting the input the value is %+v, was %+v", doc, t, u.Elem(), q.Elem())
					}
				}
			})
		}
		for _, s := range fixedDocs {
			for _, t := range decTypes {
				one(s, t)
			}
		}
		flagTypes := []reflect.Type{ty[string](), ty[[]string](), ty[map[string]string](), ty[[2]string](), ty[map[string]bool](), ty[struct{ A, B string }](), ty[*string](), ty[jsoncolor.RawMessage](), ty[[]jsoncolor.RawMessage](), ty[jsoncolor.Number](), ty[[]jsoncolor.Number]()}
		for i := 0; i < 2000 && c.more(); i++ {
			t := flagTypes[i%len(flagTypes)]
			one(genWS(c.rng)+typedDoc(c.rng, t, 4), t)
		}
		for c.more() {
			t := decTypes[c.rng.Intn(len(decTypes))]
			one(genWS(c.rng)+typedDoc(c.rng, t, 4), t)
		}
	}
	checks["C20"] = func(c *ctx) {
		one := func(b []byte) {
			if !json.Valid(b) {
				return
			}
			c.ev(string(b), len(b) > 4)
			for _, num := range []bool{false, true} {
				var want interface{}
				dec := json.NewDecoder(bytes.NewReader(b))
				var fl jsoncolor.ParseFlags
				if num {
					dec.UseNumber()
					fl = jsoncolor.UseNumber
				}
				if c.rng.Intn(4) == 0 {
					fl |= jsoncolor.ZeroCopy
				}
				werr := dec.Decode(&want)
				c.guard(func() {
					var got interface{}
					_, err := jsoncolor.Parse(append([]byte(nil), b...), &got, fl)
					if (err == nil) != (werr == nil) {
						c.fail("error", "Parse of %q into an interface (UseNumber %v): error %v, encoding/json %v", b, num, err, werr)
					}
					if err == nil && utf8.Valid(b) && !reflect.DeepEqual(got, deepCopyJSON(want)) {
						c.fail("value", "Parse of %q into an interface (UseNumber %v) gives %#v, encoding/json %#v", b, num, got, want)
					}
					if err != nil {
						return
					}
					// Into a field, an element, and over an old value.
					st := struct{ A, B interface{} }{got, map[string]interface{}{"old": 1}}
					if _, err := jsoncolor.Parse([]byte(`{"B":`+string(b)+`}`), &st, fl); err != nil || !reflect.DeepEqual(st.B, got) || !reflect.DeepEqual(st.A, got) {
						c.fail("field", "%q decodes in a field to %#v (error %v), on its own to %#v", b, st.B, err, got)
					}
					got2 := interface{}([]interface{}{"x", map[string]interface{}{"y": 2.0}})
					if _, err := jsoncolor.Parse(append([]byte(nil), b...), &got2, fl); err != nil || !reflect.DeepEqual(got2, got) {
						c.fail("over", "%q decodes over an old value to %#v (error %v), on its own to %#v", b, got2, err, got)
					}
				})
			}
		}
		many := func() []byte {
			pick := []string{"null", "null", "1", `"a"`, "[]", "{}", "true", `"\u00e9"`, "[null]", `{"k":null}`, "1.5e3"}
			n := []int{1, 8, 9, 10, 11, 12, 16, 17, 20, 21, 31, 32, 33, 40, 64, 65, 100}[c.rng.Intn(17)]
			var es []string
			for ; n > 0; n-- {
				e := pick[c.rng.Intn(len(pick))]
				if c.rng.Intn(10) == 0 {
					e = genJSON(c.rng, 2)
				}
				es = append(es, e)
			}
			if c.rng.Intn(3) == 0 {
				for i := range es {
					es[i] = fmt.Sprintf(`"k%d":`, i) + es[i]
				}
				return []byte("{" + strings.Join(es, ",") + "}")
			}
			return []byte("[" + strings.Join(es, ", ") + "]")
		}
		for i := 0; i < 400 && c.more(); i++ {
			one(many())
		}
		docInputs(c, one)
	}
	checks["C22"] = checkFields
	checks["C23"] = checkArrays
}

// ---- C22 ----

var fieldNames = []string{"a", "A", "aa", "Aa", "aA", "AA", "key", "KEY", "Key", "kEy", "\u212aey", "é", "É", "ſ", "s", "S", "ß", "ẞ", "σ", "ς", "Σ", "世", "ab", "abc", "x_1", "X_1", "x-1", "K", "k", "\u212a", "longer_name_than_sixty_four_bytes_to_leave_the_stack_buffer_of_lowercase", "Longer_Name_Than_Sixty_Four_Bytes_To_Leave_The_Stack_Buffer_Of_LowerCase", "a b", "a/b", "ö", "Ö", "ǆ", "ǅ", "Ǆ", "i", "I", "İ", "ı", "d", "D"}

// equalFold: equal under simple case folding, rune by rune.
func equalFold(a, b string) bool { return strings.EqualFold(a, b) }

func checkFields(c *ctx) {
	one := func(names []string, keys []string, fl jsoncolor.ParseFlags) {
		var fs []reflect.StructField
		for i, n := range names {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Q%dz", i), Type: ty[int](), Tag: reflect.StructTag(`json:"` + n + `"`)})
		}
		t := reflect.StructOf(fs)
		want := make([]int, len(names))
		for i := range want {
			want[i] = -1 - i
		}
		var sb strings.Builder
		fail := false
		amb := false
		sb.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				sb.WriteByte(',')
			}
			q, _ := json.Marshal(k)
			if c.rng.Intn(4) == 0 {
				q = []byte(`"`)
				for _, u := range k {
					if u < 0x10000 {
						q = append(q, fmt.Sprintf(`\u%04x`, u)...)
					} else {
						q = append(q, string(u)...)
					}
				}
				q = append(q, '"')
			}
			fmt.Fprintf(&sb, "%s%s:%s%d", genWS(c.rng), q, genWS(c.rng), i+1)
			hit := -1
			for j, n := range names {
				if n == k {
					hit = j
				}
			}
			if hit < 0 && fl&jsoncolor.DontMatchCaseInsensitiveStructFields == 0 {
				for j, n := range names {
					if equalFold(n, k) {
						if hit >= 0 {
							amb = true
						}
						hit = j
					}
				}
			}
			if hit >= 0 {
				if !fail {
					want[hit] = i + 1
				}
			} else if fl&jsoncolor.DisallowUnknownFields != 0 {
				fail = true
			}
		}
		sb.WriteByte('}')
		doc := sb.String()
		c.ev(fmt.Sprintf("%s into %q flags=%d", doc, names, fl), true)
		c.guard(func() {
			p := reflect.New(t)
			for i := range names {
				p.Elem().Field(i).SetInt(int64(-1 - i))
			}
			_, err := jsoncolor.Parse([]byte(doc), p.Interface(), fl)
			if (err != nil) != fail {
				c.fail("error", "Parse of %s into fields %q (flags %d): error %v, want an error: %v", doc, names, fl, err, fail)
			}
			if err == nil && !amb {
				for i := range names {
					if got := int(p.Elem().Field(i).Int()); got != want[i] {
						c.fail("match", "Parse of %s into fields %q (flags %d): %q is %d, want %d", doc, names, fl, names[i], got, want[i])
					}
				}
			}
		})
	}
	flags := []jsoncolor.ParseFlags{0, 0, jsoncolor.DontMatchCaseInsensitiveStructFields, jsoncolor.DisallowUnknownFields, jsoncolor.DisallowUnknownFields | jsoncolor.DontMatchCaseInsensitiveStructFields}
	for i := 0; i < 600; i++ {
		n := 1 + c.rng.Intn(3)
		var names, keys []string
		for _, k := range c.rng.Perm(len(fieldNames))[:n] {
			names = append(names, fieldNames[k])
		}
		for j := 0; j < 30; j++ {
			keys = keys[:0]
			for k := c.rng.Intn(4); k >= 0; k-- {
				keys = append(keys, fieldNames[c.rng.Intn(len(fieldNames))])
			}
			for _, s := range c.seeds {
				if utf8.Valid(s) && c.rng.Intn(3) == 0 {
					keys = append(keys, string(s))
				}
			}
			one(names, keys, flags[c.rng.Intn(len(flags))])
		}
	}
	// Every rune with a case variant: orbit members match each other.
	var group [][]rune
	seen := map[rune]bool{}
	for r := rune(0x21); r <= unicode.MaxRune; r++ {
		if seen[r] || unicode.SimpleFold(r) == r || !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			continue
		}
		o := []rune{r}
		for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
			o = append(o, x)
			seen[x] = true
		}
		group = append(group, o)
	}
	for i := 0; i < len(group); i += 60 {
		k := group[i:min(i+60, len(group))]
		var names []string
		for _, o := range k {
			names = append(names, "p"+string(o[c.rng.Intn(len(o))])+"q")
		}
		for _, o := range k {
			for _, x := range o {
				one(names, []string{"P" + string(x) + "q"}, 0)
			}
		}
		one(names, []string{"p" + string(rune(0x21+c.rng.Intn(0x3000))) + "q"}, jsoncolor.DisallowUnknownFields)
	}
	// Nested and typed destinations, against the same members one by one.
	for k := 0; c.more() && k < 4000; k++ {
		n := 1 + c.rng.Intn(4)
		var names, keys []string
		for _, k := range c.rng.Perm(len(fieldNames))[:n] {
			names = append(names, fieldNames[k])
		}
		if c.rng.Intn(2) == 0 {
			names = []string{"a", "B", "Key"} // cached type
		}
		for k := c.rng.Intn(6); k >= 0; k-- {
			keys = append(keys, append(fieldNames, "b", "B", "bb", "")[c.rng.Intn(len(fieldNames)+4)])
		}
		one(names, keys, flags[c.rng.Intn(len(flags))])
	}
	type both struct {
		X   int
		Sub struct {
			Y int `json:"y"`
			Z *int
		} `json:"sub"`
		Emb
		*EmbP
	}
	for _, tc := range []struct{ doc, want string }{
		{`{"x":1,"SUB":{"Y":2,"z":3},"E1":4,"e2":"f","P1":6}`, `{"X":1,"sub":{"y":2,"Z":3},"e1":4,"e2":"f","p1":6}`},
		{`{"sub":{"y":2},"Sub":{"y":3}}`, `{"X":0,"sub":{"y":3,"Z":null},"e1":0}`},
		{`{"unknown":{"x":[1,{"X":5}]},"X":7,"more":"X"}`, `{"X":7,"sub":{"y":0,"Z":null},"e1":0}`},
		{`{"X":7,"x":8}`, `{"X":8,"sub":{"y":0,"Z":null},"e1":0}`},
	} {
		var v both
		err := jsoncolor.Unmarshal([]byte(tc.doc), &v)
		got, _ := json.Marshal(v)
		c.ev(tc.doc, true)
		if err != nil || string(got) != tc.want {
			c.fail("nested", "Unmarshal of %s gives %s (error %v), want %s", tc.doc, got, err, tc.want)
		}
	}
}

// ---- C23 ----

func checkArrays(c *ctx) {
	elemTypes := []reflect.Type{ty[int](), ty[uint8](), ty[int16](), ty[string](), ty[bool](), ty[float64](), ty[interface{}](), ty[[]int](), ty[map[string]int](), ty[*int](), ty[decStruct](), ty[[2]int](), ty[jsoncolor.RawMessage](), ty[emptyT](), ty[[0]int](), ty[[3]uint8]()}
	scalar := func(t reflect.Type) bool {
		return t.Kind() < reflect.Array && t.Kind() != reflect.Invalid || t.Kind() == reflect.String
	}
	for c.more() {
		t := elemTypes[c.rng.Intn(len(elemTypes))]
		n := c.rng.Intn(6)
		if c.rng.Intn(12) == 0 {
			n = 5 + c.rng.Intn(40)
		}
		var docs []string
		vals := []reflect.Value{}
		for i := 0; i < n; i++ {
			d := typedDoc(c.rng, t, 2)
			if d == "null" {
				d = typedDoc(c.rng, t, 2)
			}
			v := reflect.New(t)
			if jsoncolor.Unmarshal([]byte(d), v.Interface()) != nil || d == "null" {
				continue
			}
			docs = append(docs, genWS(c.rng)+d+genWS(c.rng))
			vals = append(vals, v.Elem())
		}
		doc := "[" + genWS(c.rng) + strings.Join(docs, ",") + "]"
		isNull := c.rng.Intn(20) == 0
		if isNull {
			doc = "null"
		}
		st := reflect.SliceOf(t)
		if st == ty[[]byte]() {
			st = ty[[]uint16]()
			if t != ty[uint16]() {
				continue
			}
		}
		c.ev(doc+" into "+t.String(), len(docs) > 1)
		c.guard(func() {
			// Slices: fresh, and over an old value.
			p := reflect.New(st)
			if c.rng.Intn(3) > 0 && scalar(t) {
				k := c.rng.Intn(6)
				p.Elem().Set(reflect.MakeSlice(st, k, k+c.rng.Intn(5)))
				for i := 0; i < k; i++ {
					p.Elem().Index(i).Set(randValue(c.rng, t, 1, genOpt{maxMap: 1}))
				}
			}
			if err := jsoncolor.Unmarshal([]byte(doc), p.Interface()); err != nil {
				c.fail("error", "Unmarshal of %s into %s: %v", doc, st, err)
			}
			s := p.Elem()
			if isNull {
				if !s.IsNil() {
					c.fail("null", "null leaves %v in a %s", s, st)
				}
			} else {
				if s.IsNil() || s.Len() != len(vals) {
					c.fail("slice", "Unmarshal of %s into %s gives %v (nil %v)", doc, st, s, s.IsNil())
				}
				for i, v := range vals {
					if !reflect.DeepEqual(v.Interface(), s.Index(i).Interface()) {
						c.fail("slice", "Unmarshal of %s into %s: element %d is %v, want %v", doc, st, i, s.Index(i), v)
					}
				}
			}
			// Arrays of a smaller, equal and greater length.
			for _, ln := range []int{max(0, len(vals)-1), len(vals), len(vals) + 2, 0, 3} {
				at := reflect.ArrayOf(ln, t)
				p := reflect.New(at)
				old := reflect.New(at).Elem()
				if scalar(t) {
					for i := 0; i < ln; i++ {
						p.Elem().Index(i).Set(randValue(c.rng, t, 1, genOpt{maxMap: 1}))
					}
					old.Set(p.Elem())
				}
				if err := jsoncolor.Unmarshal([]byte(doc), p.Interface()); err != nil {
					c.fail("error", "Unmarshal of %s into %s: %v", doc, at, err)
				}
				a := p.Elem()
				for i := 0; i < ln; i++ {
					want := reflect.Zero(t)
					if isNull {
						want = old.Index(i)
					} else if i < len(vals) {
						want = vals[i]
					}
					if !reflect.DeepEqual(a.Index(i).Interface(), want.Interface()) {
						c.fail("array", "Unmarshal of %s into %s (was %v): element %d is %v, want %v", doc, at, old, i, a.Index(i), want)
					}
				}
				// Between other memory.
				ft := reflect.StructOf([]reflect.StructField{{Name: "Before", Type: ty[uint64]()}, {Name: "Arr", Type: at}, {Name: "After", Type: ty[uint64]()}})
				f := reflect.New(ft).Elem()
				f.Field(0).SetUint(0xaaaa)
				f.Field(2).SetUint(0xbbbb)
				if err := jsoncolor.Unmarshal([]byte(`{"Arr":`+doc+`}`), f.Addr().Interface()); err != nil || f.Field(0).Uint() != 0xaaaa || f.Field(2).Uint() != 0xbbbb {
					c.fail("neighbour", "Unmarshal of {\"Arr\":%s} changed the fields around a %s (error %v)", doc, at, err)
				}
			}
		})
	}
}
