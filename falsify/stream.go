package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/neilotoole/jsoncolor"
)

// tok is one token of a JSON text and its position.
type tok struct {
	delim byte
	text  string
	depth int
	index int
	key   bool
}

func (t tok) String() string {
	return fmt.Sprintf("%q delim=%q depth=%d index=%d key=%v", t.text, t.delim, t.depth, t.index, t.key)
}

// tokens lists the tokens of a well-formed JSON text.
func tokens(b []byte) []tok {
	var out []tok
	type sc struct {
		obj bool
		n   int
		key bool
	}
	var st []sc
	at := func() (int, int) {
		if len(st) == 0 {
			return 0, 0
		}
		return len(st), st[len(st)-1].n
	}
	for i := 0; i < len(b); {
		ch := b[i]
		if strings.IndexByte(" \t\r\n", ch) >= 0 {
			i++
			continue
		}
		d, x := at()
		switch ch {
		case '{', '[':
			out = append(out, tok{ch, string(ch), d, x, false})
			st = append(st, sc{ch == '{', 0, ch == '{'})
			i++
		case '}', ']':
			st = st[:len(st)-1]
			d, x = at()
			out = append(out, tok{ch, string(ch), d, x, false})
			i++
		case ':':
			out = append(out, tok{ch, ":", d, x, false})
			st[len(st)-1].key = false
			i++
		case ',':
			out = append(out, tok{ch, ",", d, x, false})
			st[len(st)-1].n++
			st[len(st)-1].key = st[len(st)-1].obj
			i++
		default:
			n, _ := scanValue(b[i:])
			out = append(out, tok{0, string(b[i : i+n]), d, x, len(st) > 0 && st[len(st)-1].key})
			i += n
		}
	}
	return out
}

// badTokens: whether b, cut into tokens, has a malformed one or a closing
// bracket which does not match, and after how many good tokens.
func badTokens(b []byte) (int, bool) {
	var st []byte
	k := 0
	for i := 0; i < len(b); {
		ch := b[i]
		switch {
		case strings.IndexByte(" \t\r\n", ch) >= 0:
			i++
			continue
		case ch == '{' || ch == '[':
			st = append(st, ch+2)
			i++
		case ch == '}' || ch == ']':
			if len(st) == 0 || st[len(st)-1] != ch {
				return k, true
			}
			st = st[:len(st)-1]
			i++
		case ch == ':' || ch == ',':
			i++
		default:
			n, ok := scanValue(b[i:])
			if !ok {
				return k, true
			}
			i += n
		}
		k++
	}
	return k, false
}

type chunks struct {
	b     []byte
	sizes func() int
	err   error // delivered at the end, with or after the last bytes
	with  bool
	zero  int
}

func (r *chunks) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.err
	}
	if r.zero > 0 {
		r.zero--
		return 0, nil
	}
	n := copy(p[:min(len(p), max(1, r.sizes()))], r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && r.with {
		return n, r.err
	}
	return n, nil
}

var errReader = errors.New("reader failed")

func errKind(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, io.ErrUnexpectedEOF):
		return "unexpected EOF"
	case errors.Is(err, io.EOF):
		return "EOF"
	case errors.Is(err, errReader):
		return "reader error"
	}
	return "error"
}

type writes struct {
	got  []string
	fail int // the write which fails, -1 for none
}

// Write encodes something else, as a writer which logs might do, before it uses
// what it is given.
func (w *writes) Write(p []byte) (int, error) {
	if b, err := jsoncolor.Marshal([]string{"<another> value", "%"}); err != nil || len(b) == 0 {
		return 0, err
	}
	w.got = append(w.got, string(p))
	if len(w.got)-1 == w.fail {
		return len(p) / 2, errReader
	}
	return len(p), nil
}

func init() {
	checks["C11"] = func(c *ctx) {
		g := newGuarded(1 << 16)
		one := func(b []byte) {
			c.ev(string(b), len(b) > 2)
			d := g.put(b)
			c.guard(func() {
				t := jsoncolor.NewTokenizer(d)
				if c.rng.Intn(3) == 0 { // a used tokenizer
					t = jsoncolor.NewTokenizer([]byte("[{\"a\":[1,"))
					for t.Next() {
					}
					t.Reset(d)
				}
				var got []tok
				for t.Next() {
					if len(got) > len(b)+5 {
						c.fail("endless", "tokenizing %q does not end", b)
					}
					got = append(got, tok{byte(t.Delim), string(t.Value), t.Depth, t.Index, t.IsKey})
					if len(t.Value) > 0 && !overlap(t.Value, d) {
						c.fail("raw", "tokenizing %q: the Value %q is not a part of the input", b, t.Value)
					}
				}
				if !bytes.Equal(b, d) {
					c.fail("modified", "tokenizing changed %q to %q", b, d)
				}
				err := t.Err
				if json.Valid(b) {
					want := tokens(b)
					if err != nil {
						c.fail("error", "tokenizing %q: %v", b, err)
					}
					for i := 0; i < len(want) || i < len(got); i++ {
						if i >= len(want) || i >= len(got) || want[i] != got[i] {
							w, g := "none", "none"
							if i < len(want) {
								w = want[i].String()
							}
							if i < len(got) {
								g = got[i].String()
							}
							c.fail("token", "token %d of %q is %s, want %s", i, b, g, w)
						}
					}
				}
				if _, bad := badTokens(b); bad && err == nil {
					c.fail("accepted", "tokenizing %q ends without an error after %d tokens", b, len(got))
				}
				for k := 0; k < 3; k++ {
					if t.Next() && err != nil {
						c.fail("resumed", "tokenizing %q goes on after the error %v", b, err)
					}
				}
			})
		}
		deep := strings.Repeat(`[{"a":`, 12) + "1" + strings.Repeat("}]", 12)
		one([]byte(deep))
		one([]byte(deep[:len(deep)-9] + "]"))
		for d := 1; d <= 40 && c.more(); d++ {
			open, end := "", ""
			for k := 0; k < d; k++ {
				switch c.rng.Intn(3) {
				case 0:
					open, end = open+"[", ",1,2]"+end
				case 1:
					open, end = open+"[0,", ",[3],4]"+end
				default:
					open, end = open+`{"a":5,"b":`, `,"c":[6,7]}`+end
				}
			}
			one([]byte(open + "8" + end))
			one([]byte(strings.Repeat("[1,", d) + "[]" + strings.Repeat(",2]", d)))
		}
		one([]byte(strings.Repeat("[", 300) + strings.Repeat("],[]", 5)))
		docInputs(c, one)
	}
	checks["C12"] = checkStream
	checks["C13"] = func(c *ctx) {
		bigDone := false
		for c.more() {
			flags := c.rng.Intn(8)
			pre := indents[c.rng.Intn(len(indents))]
			var clrs *jsoncolor.Colors
			if c.rng.Intn(2) == 0 {
				clrs = randColors(c.rng)
			}
			useInd := c.rng.Intn(3) > 0
			mk := func(w io.Writer) *jsoncolor.Encoder {
				e := jsoncolor.NewEncoder(w)
				e.SetEscapeHTML(flags&1 != 0)
				e.SetSortMapKeys(true)
				e.SetTrustRawMessage(flags&2 != 0)
				e.SetColors(clrs)
				if useInd {
					e.SetIndent(pre[0], pre[1])
				}
				return e
			}
			w := &writes{fail: c.rng.Intn(12) - 4}
			e := mk(w)
			dead := false
			desc := ""
			for k := 0; k < 7; k++ {
				var v interface{}
				if fv := fixedValues(); c.rng.Intn(3) == 0 {
					v = fv[c.rng.Intn(len(fv))]
				} else {
					v = randValue(c.rng, encTypes[c.rng.Intn(len(encTypes))], 3, genOpt{bad: true, maxMap: 3}).Interface()
				}
				if c.rng.Intn(40) == 0 {
					v = strings.Repeat("long <value> ", 800)
				}
				if c.rng.Intn(60) == 0 || k == 0 && !bigDone {
					bv := bigValues()
					v = bv[c.rng.Intn(len(bv))]
				}
				if k == 0 && !bigDone {
					v, bigDone = strings.Repeat("long <value> ", 50000), true
				}
				desc = clip(desc + describe(v) + "; ")
				c.ev(fmt.Sprintf("flags=%d indent=%q fail=%d: %s", flags, pre, w.fail, desc), true)
				c.guard(func() {
					ref := &writes{fail: -1}
					want := mk(ref).Encode(v)
					n := len(w.got)
					err := e.Encode(v)
					wrote := len(w.got) - n
					switch {
					case dead:
						if err == nil || wrote != 0 {
							c.fail("dead", "%s: after a writer error Encode returns %v and makes %d writes", desc, err, wrote)
						}
					case want != nil:
						if err == nil || wrote != 0 || len(ref.got) != 0 {
							c.fail("failed", "%s: failing Encode returns %v (a fresh one %v) and makes %d writes", desc, err, want, wrote)
						}
					default:
						if wrote != 1 || len(ref.got) != 1 || w.got[n] != ref.got[0] || !strings.HasSuffix(ref.got[0], "\n") {
							c.fail("write", "%s: Encode writes %q, a fresh encoder %q", desc, w.got[n:], ref.got)
						}
						ap, aerr := jsoncolor.Append(nil, v, appendFlags(flags), clrs, map[bool]*jsoncolor.Indenter{true: jsoncolor.NewIndenter(pre[0], pre[1])}[useInd])
						if aerr != nil || string(ap)+"\n" != ref.got[0] {
							c.fail("whole", "%s: Encode writes %q, Append gives %q", desc, ref.got[0], ap)
						}
						if n == w.fail {
							dead = true
							if err == nil {
								c.fail("lost", "%s: Encode hides the writer's error", desc)
							}
						} else if err != nil {
							c.fail("error", "%s: Encode returns %v", desc, err)
						}
					}
				})
			}
		}
	}
}

func appendFlags(f int) jsoncolor.AppendFlags {
	fl := jsoncolor.SortMapKeys
	if f&1 != 0 {
		fl |= jsoncolor.EscapeHTML
	}
	if f&2 != 0 {
		fl |= jsoncolor.TrustRawMessage
	}
	return fl
}

func checkStream(c *ctx) {
	type step struct {
		kind string
		val  interface{}
		off  int64
	}
	run := func(r io.Reader, max int, d **jsoncolor.Decoder, t reflect.Type) []step {
		dec := jsoncolor.NewDecoder(r)
		if d != nil {
			*d = dec
		}
		var out []step
		for len(out) < max {
			p := reflect.New(t)
			err := dec.Decode(p.Interface())
			s := step{kind: errKind(err), off: dec.InputOffset()}
			if err == nil {
				s.val = p.Elem().Interface()
			} else {
				s.off = 0
			}
			out = append(out, s)
			if err != nil {
				break
			}
		}
		return out
	}
	head := func(s string) string {
		if len(s) > 300 {
			return s[:150] + "…" + s[len(s)-150:]
		}
		return s
	}
	one := func(stream string, rerr error) {
		c.ev(fmt.Sprintf("%s then %v", head(stream), rerr), len(stream) > 3)
		c.guard(func() {
			t := ty[interface{}]()
			if c.rng.Intn(4) == 0 {
				t = ty[jsoncolor.RawMessage]()
			}
			ref := run(&chunks{b: []byte(stream), sizes: func() int { return 1 << 30 }, err: rerr}, 1<<20, nil, t)
			// What the values and the end are, by the grammar.
			var texts []string
			rest := strings.TrimLeft(stream, " \t\r\n")
			malformed := false
			for rest != "" {
				n, ok := scanValue([]byte(rest))
				if !ok {
					malformed = true
					break
				}
				texts = append(texts, rest[:n])
				rest = strings.TrimLeft(rest[n:], " \t\r\n")
			}
			last := ref[len(ref)-1]
			for i, s := range ref[:len(ref)-1] {
				if i >= len(texts) {
					c.fail("values", "stream %q (%v) decodes to a value %d: %v", head(stream), rerr, i, s.val)
				}
				p := reflect.New(t)
				if err := jsoncolor.Unmarshal([]byte(texts[i]), p.Interface()); err != nil || !reflect.DeepEqual(p.Elem().Interface(), s.val) {
					c.fail("values", "stream %q (%v): value %d is %v, want %s", head(stream), rerr, i, s.val, head(texts[i]))
				}
			}
			complete := len(ref) > len(texts)
			if k := len(ref) - 1; k < len(texts) && last.kind != "" {
				p := reflect.New(t)
				n := len(texts[k])
				cut := k == len(texts)-1 && (malformed || rerr != io.EOF && strings.HasSuffix(stream, texts[k])) && texts[k][n-1] >= '0' && texts[k][n-1] <= '9'
				if err := jsoncolor.Unmarshal([]byte(texts[k]), p.Interface()); err == nil && !cut {
					c.fail("refused", "stream %q (%v): value %d, %s, is refused: %s", head(stream), rerr, k, head(texts[k]), last.kind)
				}
			}
			if !malformed && rerr == io.EOF && complete && last.kind != "EOF" {
				c.fail("end", "stream %q ends in %s, want EOF", head(stream), last.kind)
			}
			if last.kind == "EOF" && (malformed || !complete) {
				c.fail("end", "stream %q ends in EOF after %d values", head(stream), len(ref)-1)
			}
			if rerr != io.EOF && !malformed && complete && last.kind != "reader error" {
				c.fail("readererror", "stream %q followed by a reader error ends in %s", head(stream), last.kind)
			}
			mk := func() (*chunks, string) {
				k := c.rng.Intn(8)
				szs := []int{1, 2, 7, 100, 4096, 32767, 32768, 0}
				ch := &chunks{b: []byte(stream), err: rerr, with: c.rng.Intn(2) == 0, zero: c.rng.Intn(5)}
				if len(stream) > 5000 && k < 2 {
					k = 3
				}
				ch.sizes = func() int {
					if szs[k] == 0 {
						return 1 + c.rng.Intn(40)
					}
					return szs[k]
				}
				return ch, fmt.Sprintf("chunks of %d, error with the last bytes: %v", szs[k], ch.with)
			}
			for rep := 0; rep < 3; rep++ {
				ch, how := mk()
				got := run(ch, 1<<20, nil, t)
				if len(got) != len(ref) {
					c.fail("count", "stream %q (%v), %s: %d results ending in %s, %d ending in %s in one chunk", head(stream), rerr, how, len(got), got[len(got)-1].kind, len(ref), last.kind)
				}
				for i := range got {
					g, r := got[i], ref[i]
					if g.kind != r.kind && !(g.kind == "unexpected EOF" && r.kind == "error" || g.kind == "error" && r.kind == "unexpected EOF") || !reflect.DeepEqual(g.val, r.val) {
						c.fail("chunks", "stream %q (%v), %s: result %d is %s %v, %s %v in one chunk", head(stream), rerr, how, i, g.kind, g.val, r.kind, r.val)
					}
				}
				// Stop after some values and look at the rest.
				if n := len(ref) - 1; n > 0 {
					stop := 1 + c.rng.Intn(n)
					var dec *jsoncolor.Decoder
					ch, how := mk()
					ch.err = io.EOF
					if len(run(ch, stop, &dec, t)) != stop {
						continue
					}
					buf, _ := io.ReadAll(dec.Buffered())
					left := string(buf) + string(ch.b)
					off := dec.InputOffset()
					if off < 0 || off > int64(len(stream)) || stream[off:] != left {
						c.fail("offset", "stream %q, %s: after %d values InputOffset is %d and the unread data is %q", head(stream), how, stop, off, head(left))
					}
					pos, k := 0, 0
					for ; k < stop; k++ {
						pos += len(stream[pos:]) - len(strings.TrimLeft(stream[pos:], " \t\r\n")) + len(texts[k])
					}
					if strings.TrimLeft(stream[pos:], " \t\r\n") != strings.TrimLeft(left, " \t\r\n") {
						c.fail("unread", "stream %q, %s: after %d values the unread data is %q", head(stream), how, stop, head(left))
					}
				}
			}
		})
	}
	seps := []string{" ", "\n", "", "  \t", "\r\n"}
	long := func() string {
		pad := 32768 - 40 + c.rng.Intn(80)
		if c.rng.Intn(3) == 0 {
			pad = 65536 - 40 + c.rng.Intn(80)
		}
		switch c.rng.Intn(4) {
		case 0:
			return `"` + strings.Repeat("x", max(0, pad-20)) + strPieces[c.rng.Intn(len(strPieces))] + strPieces[c.rng.Intn(len(strPieces))] + `tail"` + seps[c.rng.Intn(3)] + genJSON(c.rng, 2)
		case 1:
			return strings.Repeat(" ", pad) + genJSON(c.rng, 2) + " " + genNumber(c.rng)
		case 2:
			return `"` + strings.Repeat("y", pad-10) + `" ` + genNumber(c.rng) + genNumber(c.rng) + " " + genNumber(c.rng)
		}
		return `[` + strings.Repeat("1234567,", pad/8) + genJSON(c.rng, 2) + `]` + genNumber(c.rng)
	}
	for _, s := range fixedDocs {
		one(s, io.EOF)
		one(s, errReader)
		one(s+" "+s, io.EOF)
	}
	for _, s := range c.seeds {
		seedVariants(s, func(b []byte) { one(string(b), io.EOF) })
	}
	for _, s := range []string{"true", "false", "null", `[1, 2]`, `{"a" : 1, "b":[]}`, `"\u00e9\n"`, `[{},[ ],"\ud83d\ude00",-1.5e+10]`} {
		for pad := 32768 - len(s) - 2; pad <= 32768; pad++ {
			one(strings.Repeat(" ", pad)+s+" 7", io.EOF)
			one(strings.Repeat(" ", pad-2)+"1 "+s, io.EOF)
		}
	}
	for _, s := range []string{"1", "12", "-1", "1.5", "1e5", "true", `"a"`, "[1]", `{"a":1}`, "null"} {
		for pad := 32768 - 12; pad <= 32768+2; pad++ {
			if !c.more() {
				break
			}
			one(strings.Repeat(" ", pad)+s+" 7", io.EOF)
			one(`"`+strings.Repeat("x", pad-2)+`"`+s+"34", io.EOF)
			one(strings.Repeat("\n", pad)+s, io.EOF)
			one(strings.Repeat("\n", pad)+s, errReader)
		}
	}
	for k := 0; c.more(); k++ {
		var sb strings.Builder
		for n := c.rng.Intn(5); n >= 0; n-- {
			sb.WriteString(genJSON(c.rng, 2) + seps[c.rng.Intn(len(seps))])
		}
		if k%20 == 0 {
			sb.WriteString(long())
		}
		s := genWS(c.rng) + sb.String()
		rerr := io.EOF
		if c.rng.Intn(4) == 0 {
			rerr = errReader
		}
		one(s, rerr)
		mutations(c, []byte(s), 1, func(m []byte) { one(string(m), rerr) })
		one(s[:c.rng.Intn(len(s)+1)], rerr)
	}
}
