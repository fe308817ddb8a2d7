package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/neilotoole/jsoncolor"
)

func randColors(r *rand.Rand) *jsoncolor.Colors {
	c := &jsoncolor.Colors{}
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if r.Intn(5) == 0 {
			continue
		}
		s := fmt.Sprintf("\x1b[%d;%dm", 1+r.Intn(9), 30+i)
		switch r.Intn(6) {
		case 0:
			s = ""
		case 1:
			s = fmt.Sprintf("\x1b[%dm", 30+i)
		case 2:
			s += "\x1b[1m"
		}
		v.Field(i).SetBytes([]byte(s))
	}
	return c
}

func strip(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b {
			for i < len(s) && s[i] != 'm' {
				i++
			}
			continue
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

var indents = [][2]string{{"", ""}, {"", "  "}, {"", "\t"}, {" ", ""}, {"  ", " "}, {"\t", "\t\t"}, {"\n", " "}}

// encCase is one value to encode and its settings.
type encCase struct {
	v     interface{}
	desc  string
	flags jsoncolor.AppendFlags
	clrs  *jsoncolor.Colors
	pre   [2]string
	nilIn bool
}

func (e *encCase) indenter() *jsoncolor.Indenter {
	if e.nilIn {
		return nil
	}
	return jsoncolor.NewIndenter(e.pre[0], e.pre[1])
}

func (e *encCase) opt() *mopt {
	return &mopt{flags: e.flags, clrs: e.clrs, indented: !e.nilIn && (e.pre[0] != "" || e.pre[1] != ""), prefix: e.pre[0], indent: e.pre[1]}
}

func describe(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return clip(fmt.Sprintf("%T %#v", v, v))
	}
	return clip(fmt.Sprintf("%T %s", v, b))
}

// fixedValues are encoded with all settings in every run.
func fixedValues() []interface{} {
	one := 1
	s := "x"
	return []interface{}{
		nil, true, 0, -1, "", "a<b>&\u2028", []byte(nil), []byte{}, []byte("hi"), []int(nil), []int{}, []int{1}, []int{1, 2}, [0]int{}, map[string]int{}, map[string]int(nil), map[string]int{"b": 1, "a": 2},
		map[string]interface{}{}, map[string]interface{}{"a": 1, "b": []interface{}{}, "c": map[string]interface{}{}}, map[string]jsoncolor.RawMessage{"a": nil, "b": []byte(" [1, 2 ]")}, map[int]int{10: 1, 9: 2, -1: 3}, map[uint8]string{200: "a", 3: "b"},
		emptyT{}, []emptyT{{}}, &one, &s, (*int)(nil), onlyEmbP{}, onlyEmbP{&EmbP{1, nil}}, embMid{X: 1}, embMid{X: 1, EmbP: &EmbP{}}, withEmbP{}, empties{}, tagged{S: "q", I: 5, B: true, T: "z\"<"}, inlPtr{&one}, inlArr{&s}, map[string]inlPtr{"k": {&one}}, inlines{I: inlPtr{&one}, M: map[string]inlPtr{"z": {}}, F: inlPtr{&one}},
		jsoncolor.RawMessage("[ 1,\n{\"b\":1 ,\"a\":[ ], \"c\":{ } } ]"), jsoncolor.RawMessage(" \"<&\u2028\" "), jsoncolor.RawMessage("null"), jsonVal{`{"z":1,"a":"<"}`}, textVal{"<t>"}, map[textKey]int{"b": 1, "<": 2}, map[intKey]string{1: "a", 20: "b"}, []interface{}{nil, 1.5, "s", []interface{}{}, map[string]interface{}{}},
		[]interface{}{[]interface{}{map[string]interface{}{"k": []interface{}{1}}}}, jsoncolor.Number("1e5"), jsoncolor.Number(""), mixed{}, nested{A: []emptyT{{}, {}}, B: []map[string]int{{}, nil}, C: [][]int{{}, nil, {1}}}, &recT{N: 1, Next: &recT{N: 2}}, struct{ A interface{} }{func() {}}, map[string]interface{}{"a": make(chan int)}, []interface{}{map[string]int{"a": 1}, jsoncolor.RawMessage("{")}, map[string]jsoncolor.RawMessage{"a": []byte("1"), "b": []byte("x")},
	}
}

// bigValues are deep, long and large.
func bigValues() []interface{} {
	var vs []interface{}
	for _, n := range []int{70, 300} {
		var v interface{} = n
		for i := 0; i < n; i++ {
			if i%3 == 2 {
				v = map[string]interface{}{"k": v}
			} else {
				v = []interface{}{v}
			}
		}
		vs = append(vs, v, jsoncolor.RawMessage(strings.Repeat("[", n)+strings.Repeat("]", n)), jsoncolor.RawMessage(strings.Repeat(`{"a":`, n)+"1"+strings.Repeat("}", n)))
	}
	for _, n := range []int{17, 40, 257, 600, 70000} {
		ints := make([]int, n)
		m := map[string]interface{}{}
		for i := range ints {
			ints[i] = i
			if n < 1000 {
				m[fmt.Sprint(i)] = i
			}
		}
		l, _ := json.Marshal(ints)
		vs = append(vs, ints, jsoncolor.RawMessage(l), strings.Repeat("x", n), strings.Repeat("\u2028\"", n/4), bytes.Repeat([]byte("y"), n), jsonVal{string(l)})
		if n < 1000 {
			o, _ := json.Marshal(m)
			vs = append(vs, m, jsoncolor.RawMessage(o), map[string]jsoncolor.RawMessage{"a": l, "b": o}, []interface{}{ints, m, nil, ints})
			im := map[int]string{}
			for i := range ints {
				im[i-n/2] = "v"
			}
			vs = append(vs, im)
		}
	}
	return vs
}

// encInputs drives f over values and settings.
func encInputs(c *ctx, o genOpt, flags func(*rand.Rand) jsoncolor.AppendFlags, f func(*encCase)) {
	for _, v := range fixedValues() {
		for k := 0; k < 24; k++ {
			e := &encCase{v: v, flags: flags(c.rng), pre: indents[k%len(indents)], nilIn: k%5 == 4}
			if k%2 == 0 {
				e.clrs = randColors(c.rng)
			}
			runEnc(c, e, f)
		}
	}
	for i, v := range bigValues() {
		for k := 0; k < 3; k++ {
			e := &encCase{v: v, flags: flags(c.rng), pre: indents[(i+k)%len(indents)], nilIn: k == 2}
			if k == 0 {
				e.clrs = randColors(c.rng)
			}
			runEnc(c, e, f)
		}
	}
	for c.more() {
		t := encTypes[c.rng.Intn(len(encTypes))]
		v := randValue(c.rng, t, 1+c.rng.Intn(4), o)
		e := &encCase{v: v.Interface(), flags: flags(c.rng), pre: indents[c.rng.Intn(len(indents))], nilIn: c.rng.Intn(5) == 0}
		if c.rng.Intn(2) == 0 {
			e.clrs = randColors(c.rng)
		}
		runEnc(c, e, f)
	}
}

func runEnc(c *ctx, e *encCase, f func(*encCase)) {
	e.desc = fmt.Sprintf("%s flags=%d indent=%q nil=%v colors=%v", describe(e.v), e.flags, e.pre, e.nilIn, e.clrs != nil)
	c.ev(e.desc, len(e.desc) > 20)
	c.guard(func() { f(e) })
}

func anyFlags(r *rand.Rand) jsoncolor.AppendFlags { return jsoncolor.AppendFlags(r.Intn(4)) }
func sorted(r *rand.Rand) jsoncolor.AppendFlags {
	return jsoncolor.AppendFlags(r.Intn(4)) | jsoncolor.SortMapKeys
}

func enc(e *encCase) (string, error) {
	b, err := jsoncolor.Append(nil, e.v, e.flags, e.clrs, e.indenter())
	return string(b), err
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "…"
	}
	return s
}

func init() {
	checks["C06"] = func(c *ctx) {
		encInputs(c, genOpt{bad: true, maxMap: 3}, anyFlags, func(e *encCase) {
			e.clrs = nil
			out, err0 := enc(e)
			if err0 == nil && (!json.Valid([]byte(out)) || out != strings.Trim(out, " \t\r\n")) {
				c.fail("malformed", "Append of %s gives %q", e.desc, clip(out))
			}
			for _, x := range []string{"marshal", "encode"} {
				var b []byte
				var err error
				want := ""
				if x == "marshal" {
					b, err = jsoncolor.Marshal(e.v)
				} else {
					var bb bytes.Buffer
					en := jsoncolor.NewEncoder(&bb)
					if c.rng.Intn(2) == 0 {
						en.SetTrustRawMessage(c.rng.Intn(2) == 0)
						en.SetTrustRawMessage(false)
					}
					en.SetEscapeHTML(e.flags&jsoncolor.EscapeHTML != 0)
					en.SetSortMapKeys(e.flags&jsoncolor.SortMapKeys != 0)
					en.SetIndent(e.pre[0], e.pre[1])
					err = en.Encode(e.v)
					b = bb.Bytes()
					want = "\n"
				}
				if (err == nil) != (err0 == nil) {
					c.fail("error", "%s of %s gives error %v, Append %v", x, e.desc, err, err0)
				}
				if err != nil {
					continue
				}
				if !strings.HasSuffix(string(b), want) || !json.Valid(b) || strings.Trim(string(b), " \t\r\n")+want != string(b) {
					c.fail("malformed", "%s of %s gives %q", x, e.desc, clip(string(b)))
				}
			}
		})
	}
	checks["C07"] = func(c *ctx) {
		encInputs(c, genOpt{bad: true, maxMap: 3}, sorted, func(e *encCase) {
			e.clrs = nil
			plain, err := enc(e)
			e.clrs = randColors(c.rng)
			out, err2 := enc(e)
			if (err == nil) != (err2 == nil) {
				c.fail("error", "%s: error %v without colors, %v with colors", e.desc, err, err2)
			}
			if err == nil && strip(out) != plain {
				c.fail("text", "%s: %q without colors, %q with colors", e.desc, clip(plain), clip(out))
			}
		})
	}
	modelCheck := func(c *ctx, colors, indent bool) {
		encInputs(c, genOpt{bad: true, maxMap: 3}, sorted, func(e *encCase) {
			if colors && e.clrs == nil {
				e.clrs = randColors(c.rng)
			}
			n, merr := model(reflect.ValueOf(e.v), e.opt(), false)
			out, err := enc(e)
			if merr != nil || err != nil {
				return // which values fail is the matter of C06, C10 and C21
			}
			if want := e.opt().text(n); out != want {
				c.fail("output", "%s: %q, want %q", e.desc, clip(out), clip(want))
			}
		})
	}
	checks["C08"] = func(c *ctx) { modelCheck(c, true, false) }
	checks["C09"] = func(c *ctx) {
		encInputs(c, genOpt{maxMap: 3}, sorted, func(e *encCase) {
			out, err := enc(e)
			k := *e
			k.clrs, k.nilIn = nil, true
			plain, err2 := enc(&k)
			if (err == nil) != (err2 == nil) {
				c.fail("error", "%s: error %v, compact %v", e.desc, err, err2)
			}
			if err != nil {
				return
			}
			want := plain
			if !e.nilIn && (e.pre[0] != "" || e.pre[1] != "") {
				var bb bytes.Buffer
				if json.Indent(&bb, []byte(plain), e.pre[0], e.pre[1]) != nil {
					return // malformed output: C06
				}
				want = bb.String()
			} else {
				var bb bytes.Buffer
				if json.Compact(&bb, []byte(plain)) != nil {
					return
				}
				if bb.String() != plain {
					c.fail("compact", "%s: compact output %q", e.desc, clip(plain))
				}
			}
			if strip(out) != want {
				c.fail("layout", "%s: %q, want %q", e.desc, clip(strip(out)), clip(want))
			}
			if e.clrs == nil {
				var bb bytes.Buffer
				en := jsoncolor.NewEncoder(&bb)
				en.SetEscapeHTML(e.flags&jsoncolor.EscapeHTML != 0)
				en.SetIndent(e.pre[0], e.pre[1])
				err := en.Encode(e.v)
				err2 := en.Encode(e.v)
				if e.nilIn {
					return
				}
				if err != nil || err2 != nil || bb.String() != want+"\n"+want+"\n" {
					c.fail("encoder", "%s: Encoder wrote %q (%v, %v), want twice %q", e.desc, clip(bb.String()), err, err2, clip(want))
				}
			}
		})
	}
	checks["C17"] = func(c *ctx) {
		in := jsoncolor.NewIndenter("", " ")
		encInputs(c, genOpt{bad: true, maxMap: 3}, func(r *rand.Rand) jsoncolor.AppendFlags {
			return jsoncolor.AppendFlags(r.Intn(8)) | jsoncolor.SortMapKeys
		}, func(e *encCase) {
			out, err := enc(e)
			pre := []string{"", "x", "[", "{\"a\":", ",", "\x1b[31m", strings.Repeat("p", 40), "[\n", "\"", " ", "e-09"}[c.rng.Intn(11)]
			if c.rng.Intn(3) == 0 {
				pre = strings.Repeat("q", c.rng.Intn(100))
			}
			for _, cap := range []int{0, 1, 7, len(out), len(out) + 3, 5000} {
				b := make([]byte, len(pre), len(pre)+cap)
				copy(b, pre)
				full := b[:len(pre)+cap]
				for i := len(pre); i < len(full); i++ {
					full[i] = []byte("\"\\e-09[{,\n 0")[i%12]
				}
				x := e.indenter()
				if e.opt().indented && e.pre == [2]string{"", " "} {
					x = in // used over and over
				}
				got, err2 := jsoncolor.Append(b, e.v, e.flags, e.clrs, x)
				if (err == nil) != (err2 == nil) {
					c.fail("error", "%s: error %v after %q, %v after nothing", e.desc, err2, pre, err)
				}
				if !strings.HasPrefix(string(got), pre) || string(b) != pre {
					c.fail("prefix", "%s: appended to %q gives %q", e.desc, pre, clip(string(got)))
				}
				if err == nil && string(got) != pre+out {
					c.fail("content", "%s: appended to %q (cap +%d) gives %q, to nothing %q", e.desc, pre, cap, clip(string(got)), clip(out))
				}
			}
		})
	}
	checks["C16"] = func(c *ctx) {
		encInputs(c, genOpt{bad: true, maxMap: 3}, func(r *rand.Rand) jsoncolor.AppendFlags { return jsoncolor.AppendFlags(r.Intn(4)) }, func(e *encCase) {
			e.flags |= jsoncolor.EscapeHTML
			out, err := enc(e)
			if err == nil {
				if i := strings.IndexAny(out, "<>&\u2028\u2029"); i >= 0 {
					c.fail("html", "%s: output %q has an unescaped %q", e.desc, clip(out), out[i:i+1])
				}
			}
			if b, err := jsoncolor.Marshal(e.v); err == nil {
				if i := bytes.IndexAny(b, "<>&\u2028\u2029"); i >= 0 {
					c.fail("html", "Marshal of %s: %q", e.desc, clip(string(b)))
				}
			}
			e.flags = e.flags&^jsoncolor.EscapeHTML | jsoncolor.SortMapKeys
			n, merr := model(reflect.ValueOf(e.v), e.opt(), false)
			out, err = enc(e)
			if merr != nil || err != nil {
				return
			}
			want := e.opt().text(n)
			for _, s := range []string{"<", ">", "&"} {
				if strings.Count(out, s) != strings.Count(want, s) {
					c.fail("verbatim", "%s: without EscapeHTML the output %q has %d %s, want %d", e.desc, clip(out), strings.Count(out, s), s, strings.Count(want, s))
				}
			}
		})
	}
	checks["C15"] = func(c *ctx) {
		mt := []reflect.Type{}
		for _, t := range encTypes {
			if t.Kind() == reflect.Map {
				mt = append(mt, t)
			}
		}
		mt = append(mt, ty[map[int16]int](), ty[map[int32]int](), ty[map[uint]int](), ty[map[uint8]int](), ty[map[uint32]int](), ty[map[uintptr]int](), ty[map[int]interface{}](), ty[map[string]map[int]string](), ty[map[intKey]int](), ty[map[textVal]string](), ty[[]map[string]interface{}](), ty[map[int8]map[string]jsoncolor.RawMessage]())
		for k := 0; c.more(); k++ {
			v := randValue(c.rng, mt[k%len(mt)], 3, genOpt{maxMap: []int{3, 12, 12, 30}[c.rng.Intn(4)]})
			if c.rng.Intn(3) == 0 {
				v = prefixKeys(c, v)
			}
			if c.rng.Intn(4) == 0 {
				badMap(c)
			}
			e := &encCase{v: v.Interface(), flags: jsoncolor.AppendFlags(c.rng.Intn(2)), nilIn: c.rng.Intn(2) == 0, pre: indents[c.rng.Intn(len(indents))]}
			if c.rng.Intn(3) == 0 {
				e.clrs = randColors(c.rng)
			}
			e.flags |= jsoncolor.SortMapKeys
			runEnc(c, e, func(e *encCase) {
				n, merr := model(reflect.ValueOf(e.v), e.opt(), false)
				out, err := enc(e)
				out2, _ := enc(e)
				if merr == nil && err != nil {
					c.fail("fails", "%s: fails: %v", e.desc, err)
				}
				if err != nil || merr != nil {
					return
				}
				if out != out2 {
					c.fail("deterministic", "%s: %q and then %q", e.desc, clip(out), clip(out2))
				}
				if g, w := keysOf(strip(out)), keysOf((&mopt{flags: e.flags}).text(n)); g != w {
					c.fail("order", "%s: keys %q, want %q", e.desc, clip(g), clip(w))
				}
				u := *e
				u.flags &^= jsoncolor.SortMapKeys
				uns, err := enc(&u)
				if err != nil {
					c.fail("error", "%s fails without SortMapKeys: %v", e.desc, err)
				}
				if a, b := canon(strip(uns)), canon(strip(out)); a != b {
					c.fail("entries", "%s: %q without SortMapKeys, %q with it", e.desc, clip(strip(uns)), clip(strip(out)))
				}
			})
		}
	}
}

// prefixKeys is a map like v whose keys, if they are texts, begin alike.
func prefixKeys(c *ctx, v reflect.Value) reflect.Value {
	if v.Kind() != reflect.Map || v.Type().Key().Kind() != reflect.String || v.Type().Key() == ty[textVal]() || v.IsNil() {
		return v
	}
	p := strings.Repeat("0123456789abcdef", 10)[:[]int{3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 128}[c.rng.Intn(12)]]
	m := reflect.MakeMap(v.Type())
	for it := v.MapRange(); it.Next(); {
		k := p
		for n := c.rng.Intn(5); n > 0; n-- {
			k += []string{"a", "b", "z", "\x00", "é", "~"}[c.rng.Intn(6)]
		}
		m.SetMapIndex(reflect.ValueOf(k).Convert(v.Type().Key()), it.Value())
	}
	return m
}

// badMap encodes a map of a common type whose encoding fails.
func badMap(c *ctx) {
	bad := []interface{}{
		map[string]jsoncolor.RawMessage{"x": jsoncolor.RawMessage("}"), "y": jsoncolor.RawMessage("1"), "0": nil},
		map[string]interface{}{"x": func() {}, "y": 1, "0": 2},
		map[string]interface{}{"x": math.Inf(1), "a": "b"},
		map[int]interface{}{1: make(chan int), 2: 2},
	}
	c.guard(func() { jsoncolor.Append(nil, bad[c.rng.Intn(len(bad))], jsoncolor.SortMapKeys, nil, nil) })
}

// keysOf lists the keys of a JSON text in order.
func keysOf(s string) string {
	if !json.Valid([]byte(s)) {
		return "malformed"
	}
	var sb strings.Builder
	var walk func(n *node)
	walk = func(n *node) {
		for i, e := range n.elems {
			if n.k == kObj {
				sb.WriteString(n.keys[i] + " ")
			}
			walk(e)
		}
	}
	p := &rawParser{b: []byte(s)}
	walk(p.value())
	return sb.String()
}

// canon is a form of a JSON text which does not depend on the order of members.
func canon(s string) string {
	if !json.Valid([]byte(s)) {
		return "malformed"
	}
	var walk func(n *node) string
	walk = func(n *node) string {
		es := make([]string, len(n.elems))
		for i, e := range n.elems {
			if es[i] = walk(e); n.k == kObj {
				es[i] = n.keys[i] + ":" + es[i]
			}
		}
		if n.k == kObj {
			sort.Strings(es)
		}
		return fmt.Sprint(n.k, n.text, es)
	}
	p := &rawParser{b: []byte(s)}
	return walk(p.value())
}
