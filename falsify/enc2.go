package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/neilotoole/jsoncolor"
)

// checkQuoted decides whether lit is the encoding of s, by its definition.
func checkQuoted(s, lit string, html bool) string {
	if len(lit) < 2 || lit[0] != '"' || lit[len(lit)-1] != '"' {
		return "no quotes"
	}
	b := lit[1 : len(lit)-1]
	for i := 0; i < len(s); {
		rn, n := decodeRune(s[i:])
		must := rn < 0 || rn < 0x20 || rn == '"' || rn == '\\' || rn == 0x2028 || rn == 0x2029 || html && (rn == '<' || rn == '>' || rn == '&')
		if !must {
			if !strings.HasPrefix(b, s[i:i+n]) {
				return fmt.Sprintf("%q is not verbatim", s[i:i+n])
			}
			b = b[n:]
			i += n
			continue
		}
		if rn < 0 {
			rn = 0xfffd
			n = 1
			if strings.HasPrefix(b, `\u`) && len(b) >= 6 && strings.ToLower(b[2:6]) != "fffd" || !strings.HasPrefix(b, `\u`) {
				return fmt.Sprintf("invalid byte %#x became %q", s[i], b[:min(6, len(b))])
			}
		}
		got, m := escapeOf(b)
		if m == 0 || got != rn {
			return fmt.Sprintf("%q is not an escape of U+%04X", b[:min(6, len(b))], rn)
		}
		b = b[m:]
		i += n
	}
	if b != "" {
		return fmt.Sprintf("superfluous %q", b)
	}
	return ""
}

func escapeOf(b string) (rune, int) {
	if len(b) < 2 || b[0] != '\\' {
		return 0, 0
	}
	if i := strings.IndexByte(`"\/bfnrt`, b[1]); i >= 0 {
		return rune("\"\\/\b\f\n\r\t"[i]), 2
	}
	if b[1] == 'u' && len(b) >= 6 {
		v, err := strconv.ParseUint(b[2:6], 16, 32)
		if err == nil {
			return rune(v), 6
		}
	}
	return 0, 0
}

// denotes is the text a well-formed string literal denotes.
func denotes(lit string) string {
	var sb strings.Builder
	b := lit[1 : len(lit)-1]
	for len(b) > 0 {
		if r, n := escapeOf(b); n > 0 {
			if utf16.IsSurrogate(r) {
				if r2, n2 := escapeOf(b[n:]); n2 == 6 {
					if c := utf16.DecodeRune(r, r2); c != 0xfffd {
						sb.WriteRune(c)
						b = b[n+n2:]
						continue
					}
				}
				r = 0xfffd
			}
			sb.WriteRune(r)
			b = b[n:]
			continue
		}
		r, n := decodeRune(b)
		if r < 0 {
			r = 0xfffd
		}
		sb.WriteRune(r)
		b = b[n:]
	}
	return sb.String()
}

func validText(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		r, n := decodeRune(s[i:])
		if r < 0 {
			r = 0xfffd
		}
		sb.WriteRune(r)
		i += n
	}
	return sb.String()
}

func strInputs(c *ctx, f func(string)) {
	for _, s := range c.seeds {
		seedVariants(s, func(b []byte) { f(string(b)) })
	}
	for i := 0; i < 256; i++ {
		f(string([]byte{byte(i)}))
		for k := 0; k < 20; k++ {
			f(strings.Repeat("a", k) + string([]byte{byte(i)}) + strings.Repeat("b", k%5))
		}
		for j := 0; j < 256; j++ {
			f(string([]byte{byte(i), byte(j)}))
		}
	}
	for r := rune(0); r < 0x3000; r++ {
		f("x" + string(r) + "y")
	}
	for _, a := range []byte{0xe0, 0xe1, 0xe2, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xc0, 0xc1, 0xc2} {
		for _, b := range []byte{0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0} {
			for _, d := range []byte{0x7f, 0x80, 0xa7, 0xa8, 0xa9, 0xaa, 0xbf, 0xc0} {
				f(string([]byte{a, b, d}))
				f(string([]byte{a, b, d, 0x80}))
				f(string([]byte{'<', a, b, d, 'z'}))
			}
		}
	}
	for c.more() {
		s := randStr(c.rng) + randStr(c.rng)
		f(s)
		f(s[:c.rng.Intn(len(s)+1)])
		b := make([]byte, c.rng.Intn(24))
		c.rng.Read(b)
		f(string(b))
	}
}

func init() {
	checks["C05"] = func(c *ctx) {
		strInputs(c, func(s string) {
			c.ev(s, len(s) > 0)
			c.guard(func() {
				for _, fl := range []jsoncolor.AppendFlags{0, jsoncolor.EscapeHTML} {
					html := fl != 0
					b, err := jsoncolor.Append(make([]byte, 0, c.rng.Intn(40)), s, fl, nil, nil)
					if err != nil {
						c.fail("error", "encoding %q: %v", s, err)
					}
					lit := string(b)
					if why := checkQuoted(s, lit, html); why != "" {
						c.fail("escape", "%q with EscapeHTML=%v encodes as %q: %s", s, html, lit, why)
					}
					var back string
					if !json.Valid(b) || json.Unmarshal(b, &back) != nil || back != validText(s) {
						c.fail("denotes", "%q encodes as %q, which denotes %q", s, lit, back)
					}
					kb, err := jsoncolor.Append(nil, map[string]int{s: 1}, fl, nil, nil)
					if err != nil || string(kb) != "{"+lit+":1}" {
						c.fail("key", "%q as a value is %q, as a key %q (%v)", s, lit, kb, err)
					}
					cb, err := jsoncolor.Append(nil, s, fl, &jsoncolor.Colors{String: jsoncolor.Color("\x1b[1m")}, nil)
					if err != nil || string(cb) != "\x1b[1m"+lit+reset {
						c.fail("color", "%q is %q, with a color %q", s, lit, cb)
					}
				}
			})
		})
	}
	checks["C21"] = func(c *ctx) {
		num := func(v interface{}, want string) {
			c.ev(fmt.Sprintf("%T %v", v, v), true)
			c.guard(func() {
				b, err := jsoncolor.Append([]byte("e-09"), v, jsoncolor.AppendFlags(c.rng.Intn(4)), nil, nil)
				if want == "" {
					if err == nil {
						c.fail("accepted", "%T %v encodes as %q", v, v, b)
					}
					return
				}
				if err != nil || string(b) != "e-09"+want {
					c.fail("text", "%T %v encodes as %q (%v), want %q", v, v, b, err, want)
				}
				m, err := jsoncolor.Marshal([]interface{}{v})
				if err != nil || string(m) != "["+want+"]" {
					c.fail("text", "%T %v encodes as %q (%v), want %q", v, v, m, err, want)
				}
			})
		}
		flt := func(f float64) {
			for _, x := range []interface{}{f, float32(f)} {
				g, bits := reflect.ValueOf(x).Float(), 64
				if _, ok := x.(float32); ok {
					bits = 32
				}
				if math.IsNaN(g) || math.IsInf(g, 0) {
					num(x, "")
					continue
				}
				w, err := json.Marshal(x)
				if err != nil {
					continue
				}
				num(x, string(w))
				b, _ := jsoncolor.Append(nil, x, 0, nil, nil)
				back, err := strconv.ParseFloat(string(b), bits)
				if err != nil || back != g || math.Signbit(back) != math.Signbit(g) {
					c.fail("roundtrip", "%T %v encodes as %q", x, g, b)
				}
			}
		}
		ints := func(v int64) {
			w := big.NewInt(v).String()
			num(v, w)
			num(int(v), w)
			for _, x := range []interface{}{int8(v), int16(v), int32(v)} {
				num(x, big.NewInt(reflect.ValueOf(x).Int()).String())
			}
			u := uint64(v)
			uw := new(big.Int).SetUint64(u).String()
			num(u, uw)
			num(uint(u), uw)
			num(uintptr(u), uw)
			for _, x := range []interface{}{uint8(u), uint16(u), uint32(u)} {
				num(x, new(big.Int).SetUint64(reflect.ValueOf(x).Uint()).String())
			}
		}
		nmb := func(s string) {
			w := s
			if s == "" {
				w = "0"
			} else if !isNumber(s) {
				w = ""
			}
			num(jsoncolor.Number(s), w)
		}
		for _, s := range c.seeds {
			seedVariants(s, func(b []byte) { nmb(string(b)) })
		}
		for i := int64(-300); i < 300; i++ {
			ints(i)
			flt(float64(i) / 4)
		}
		for k := 0; k < 64; k++ {
			for d := int64(-2); d <= 2; d++ {
				ints(int64(uint64(1)<<uint(k)) + d)
				ints(-int64(uint64(1)<<uint(k)) + d)
			}
		}
		for e := -330; e < 312; e++ {
			for _, m := range []float64{1, 1.5, 9.5, 9.999999, -3} {
				flt(m * math.Pow(10, float64(e)))
			}
			flt(math.Nextafter(math.Pow(10, float64(e)), 0))
			flt(float64(math.Nextafter32(float32(math.Pow(10, float64(e))), 0)))
		}
		for _, f := range []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat32, math.SmallestNonzeroFloat32} {
			flt(f)
		}
		enumerate([]byte("0-1.eE+9 "), 5, c, func(b []byte) { nmb(string(b)) })
		for c.more() {
			ints(int64(c.rng.Uint64()) >> uint(c.rng.Intn(64)))
			flt(randFloat(c.rng, true))
			flt(float64(math.Float32frombits(c.rng.Uint32())))
			n := genNumber(c.rng)
			nmb(n)
			mutations(c, []byte(n), 3, func(b []byte) { nmb(string(b)) })
		}
	}
	checks["C10"] = func(c *ctx) {
		one := func(raw []byte) {
			valid := json.Valid(raw)
			c.ev(clip(string(raw)), len(raw) > 2)
			for k := 0; k < 3; k++ {
				fl := jsoncolor.AppendFlags(c.rng.Intn(8))
				var clrs *jsoncolor.Colors
				if c.rng.Intn(2) == 0 {
					clrs = randColors(c.rng)
				}
				pre := indents[c.rng.Intn(len(indents))]
				c.guard(func() { rawCase(c, raw, valid, fl, clrs, pre) })
			}
		}
		for _, s := range []string{"[[],{}]", `{"b":1,"a":2,"b":3}`, " [ 1 ] ", `["\u003c<","&"]`, "[\"\u2028\"]", `{"<":"\\<"}`, `"a\"<"`, "", "{\"k\" : [ \" \" ,\t{ } ] }"} {
			one([]byte(s))
		}
		for _, v := range bigValues() {
			if r, ok := v.(jsoncolor.RawMessage); ok {
				one(r)
			}
		}
		docInputs(c, one)
	}
}

func rawCase(c *ctx, raw []byte, valid bool, fl jsoncolor.AppendFlags, clrs *jsoncolor.Colors, pre [2]string) {
	html := fl&jsoncolor.EscapeHTML != 0
	trust := fl&jsoncolor.TrustRawMessage != 0
	if raw == nil {
		raw = []byte{}
	}
	vals := []interface{}{jsoncolor.RawMessage(raw), []jsoncolor.RawMessage{raw}, map[string]jsoncolor.RawMessage{"k": raw}, struct{ F jsoncolor.RawMessage }{raw}, []interface{}{jsonVal{string(raw)}}}
	k := c.rng.Intn(len(vals))
	if len(raw) == 0 && k == 4 || strings.HasPrefix(string(raw), "!!") {
		k = 0
	}
	v := vals[k]
	in := jsoncolor.NewIndenter(pre[0], pre[1])
	before := append([]byte(nil), raw...)
	out, err := jsoncolor.Append(nil, v, fl, clrs, in)
	if !bytes.Equal(before, raw) {
		c.fail("modified", "encoding modified the message %q to %q", before, raw)
	}
	what := fmt.Sprintf("%T of %q, flags %d, colors %v, indent %q", v, raw, fl, clrs != nil, pre)
	wrap := [][2]string{{"", ""}, {"[", "]"}, {`{"k":`, "}"}, {`{"F":`, "}"}, {"[", "]"}}[k]
	if !valid {
		if !trust {
			if err == nil {
				c.fail("accepted", "%s: malformed message encodes as %q", what, clip(string(out)))
			}
			return
		}
		if err != nil {
			c.fail("trusted", "%s: trusted malformed message fails: %v", what, err)
		}
		if bytes.IndexByte(raw, 0x1b) >= 0 {
			return
		}
		g, w := squash(strip(string(out))), squash(wrap[0]+string(raw)+wrap[1])
		if html || k == 4 {
			g, w = unhtml(g), unhtml(w)
		}
		if g != w {
			c.fail("trusted", "%s: trusted malformed message becomes %q", what, clip(string(out)))
		}
		return
	}
	if err != nil {
		c.fail("rejected", "%s: %v", what, err)
	}
	var toks []string
	tokens := func(s string, esc bool) string {
		toks = toks[:0]
		p := &rawParser{b: []byte(s), html: esc}
		var sb strings.Builder
		(&mopt{}).render(&sb, p.value(), 0)
		return sb.String()
	}
	o := strip(string(out))
	if !json.Valid([]byte(o)) {
		c.fail("malformed", "%s: %q", what, clip(o))
	}
	if g, w := tokens(o, false), tokens(wrap[0]+string(raw)+wrap[1], html); g != w {
		c.fail("tokens", "%s: tokens %q, want %q", what, clip(g), clip(w))
	}
}

func squash(s string) string {
	return strings.NewReplacer(" ", "", "\n", "", "\t", "", "\r", "").Replace(s)
}

func unhtml(s string) string {
	return strings.NewReplacer(`\u003c`, "<", `\u003e`, ">", `\u0026`, "&", `\u2028`, "\u2028", `\u2029`, "\u2029").Replace(s)
}

var _ = rand.Int
