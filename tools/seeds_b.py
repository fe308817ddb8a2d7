import sys
from mkseed import mk
def prog(body, imports=('fmt','os'), pre=''):
    imp='\n'.join('\t"%s"'%i for i in sorted(set(imports)|{'fmt','os'})) 
    return '''package main

import (
%s

	"github.com/neilotoole/jsoncolor"
)

%s
func fail(format string, a ...any) { fmt.Printf(format+"\\n", a...); os.Exit(1) }

var _ = jsoncolor.Valid

func main() {
%s
}
''' % (imp, pre, body)
only=sys.argv[1:]
def seed(id, *a):
    if only and id not in only: return
    mk(id, id[:3].upper(), *a)


# c07
seed('c07-uint64-high',[('jsoncolor.go',"""	b = append(b, c.Number...)
	b = strconv.AppendUint(b, v, 10)""","""	b = append(b, c.Number...)
	b = strconv.AppendInt(b, int64(v), 10)""")],prog("""
	for _, v := range []any{uint64(1<<63), uint8(7), []uint64{1, 1<<64 - 1}, map[string]uint{"a": 3}} {
		p, err := jsoncolor.Append(nil, v, 0, nil, nil)
		if err != nil { fail("%v", err) }
		c, err := jsoncolor.Append(nil, v, 0, &jsoncolor.Colors{}, nil)
		if err != nil { fail("%v", err) }
		if s := strings.ReplaceAll(string(c), "\\x1b[0m", ""); s != string(p) { fail("%v: %s %s", v, s, p) }
	}
""",('strings',)),'an unsigned integer of 2^63 or more, encoded with colors','with colors it is written as a negative number')
seed('c07-time-fraction',[('encode.go',"""	b = append(b, '"')
	b = t.AppendFormat(b, time.RFC3339Nano)
	b = append(b, '"')
	b = append(b, ansiReset...)""","""	b = append(b, '"')
	b = t.AppendFormat(b, time.RFC3339)
	b = append(b, '"')
	b = append(b, ansiReset...)""")],prog("""
	for _, ns := range []int64{0, 5, 120000000} {
		v := map[string]any{"t": time.Unix(1700000000, ns).UTC()}
		p, err := jsoncolor.Append(nil, v, 0, nil, nil)
		if err != nil { fail("%v", err) }
		c, err := jsoncolor.Append(nil, v, 0, &jsoncolor.Colors{}, nil)
		if err != nil { fail("%v", err) }
		if s := strings.ReplaceAll(string(c), "\\x1b[0m", ""); s != string(p) { fail("%v: %s %s", v, s, p) }
	}
""",('strings','time')),'a time with a fraction of a second, encoded with colors','with colors the fraction of a second is lost')
# c08
seed('c08-raw-false',[('encode.go',"""	case v.True(), v.False():
		clr = e.clrs.Bool""","""	case v.True():
		clr = e.clrs.Bool""")],prog("""
	clrs := &jsoncolor.Colors{Bool: jsoncolor.Color("<b>"), Null: jsoncolor.Color("<n>")}
	for _, s := range []string{"true", "false", "null"} {
		n, _ := jsoncolor.Append(nil, map[string]any{"true": true, "false": false, "null": nil}[s], 0, clrs, nil)
		r, err := jsoncolor.Append(nil, jsoncolor.RawMessage(s), 0, clrs, nil)
		if err != nil || string(n) != string(r) { fail("%s: %q %q %v", s, r, n, err) }
	}
"""),'a RawMessage or MarshalJSON output which contains false','false inside a raw message is not in the Bool color')
seed('c08-comma-depth',[('jsoncolor.go',"""	case ',':
		clr = c.Comma
""","""	case ',':
		if len(c.Punc) == 0 || len(c.Comma) >= len(c.Colon) {
			clr = c.Comma
		}
""")],prog("""
	clrs := &jsoncolor.Colors{Punc: jsoncolor.Color("<p>"), Comma: jsoncolor.Color("<,>"), Colon: jsoncolor.Color("<long:>")}
	b, err := jsoncolor.Append(nil, []any{nil, nil}, 0, clrs, nil)
	if err != nil || !strings.Contains(string(b), "<,>,") { fail("%q %v", b, err) }
	b, err = jsoncolor.Append(nil, map[string]any{"a": 1}, 0, clrs, nil)
	if err != nil || !strings.Contains(string(b), "<long:>:") { fail("%q %v", b, err) }
""",('strings',)),'Punc, Comma and Colon all set, with the Comma sequence shorter than the Colon sequence','commas are in the Punc color instead of their own')
# c09
seed('c09-prefix-only',[('encode.go',"""		disabled: prefix == "" && indent == "",""","""		disabled: indent == "",""")],prog("""
	for _, pi := range [][2]string{{"", ""}, {">", "  "}, {"", "\\t"}, {"  ", ""}} {
		v := map[string]any{"a": []any{1, 2}, "b": map[string]any{}}
		b, err := jsoncolor.Append(nil, v, jsoncolor.SortMapKeys, nil, jsoncolor.NewIndenter(pi[0], pi[1]))
		if err != nil { fail("%v", err) }
		var buf bytes.Buffer
		c, _ := json.Marshal(v)
		if pi != [2]string{} { _ = json.Indent(&buf, c, pi[0], pi[1]) } else { buf.Write(c) }
		if buf.String() != string(b) { fail("%q: %q %q", pi, b, buf.String()) }
	}
""",('bytes','encoding/json')),'a non-empty prefix together with an empty indent','the output is compact instead of on lines which start with the prefix')
seed('c09-deep',[('encode.go',"""	for i := 0; i < in.depth; i++ {
		b = append(b, in.indent...)
	}""","""	for i := 0; i < in.depth&0x3f; i++ {
		b = append(b, in.indent...)
	}""")],prog("""
	for _, n := range []int{3, 63, 64, 70} {
		var v any = 1
		for i := 0; i < n; i++ { v = []any{v} }
		b, err := jsoncolor.Append(nil, v, 0, nil, jsoncolor.NewIndenter("", " "))
		if err != nil { fail("%v", err) }
		var buf bytes.Buffer
		c, _ := json.Marshal(v)
		_ = json.Indent(&buf, c, "", " ")
		if buf.String() != string(b) { fail("depth %d: %q %q", n, b, buf.String()) }
	}
""",('bytes','encoding/json')),'values nested 64 levels deep or more, with an indenter','the indentation starts again from nothing every 64 levels')
# c10
seed('c10-count-wrap',[('encode.go',"""	isObject bool
	count    int
}""","""	isObject bool
	count    uint8
}""")],prog("""
	for _, n := range []int{2, 255, 256, 257, 600} {
		m := jsoncolor.RawMessage("[" + strings.TrimSuffix(strings.Repeat("1,", n), ",") + "]")
		b, err := jsoncolor.Append(nil, m, 0, nil, nil)
		if err != nil || string(b) != string(m) { fail("%d elements: %s %v", n, b, err) }
	}
""",('strings',)),'a RawMessage with an array or object of more than 256 elements','the comma before every 256th element is dropped')
seed('c10-escape-run',[('encode.go',"""		if c == '\\\\' {
			escape = true
			continue
		}

		if c == '"' {
			inString = false
			continue
		}""","""		if c == '\\\\' {
			escape = i == 0 || src[i-1] != '\\\\'
			continue
		}

		if c == '"' {
			inString = false
			continue
		}""")],prog("""
	for _, s := range []string{`"a"`, `"\\\\"`, `"\\\\\\" <"`, `["\\\\\\\\\\" x",1]`} {
		b, err := jsoncolor.Append(nil, jsoncolor.RawMessage(s), jsoncolor.EscapeHTML, nil, nil)
		if err != nil { fail("%s: %v", s, err) }
		var v, w any
		if err := json.Unmarshal(b, &v); err != nil { fail("%s: %s %v", s, b, err) }
		_ = json.Unmarshal([]byte(s), &w)
		if !reflect.DeepEqual(v, w) { fail("%s: %s", s, b) }
	}
""",('encoding/json','reflect')),'a string in a RawMessage in which three backslashes in a row precede a quote and a space follows, with EscapeHTML','white space after an escaped backslash and an escaped quote is taken to be outside the string and dropped')
# c13
seed('c13-chunk',[('json.go',"""	buf.data = append(buf.data, '\\n')
	b := buf.data
""","""	buf.data = append(buf.data, '\\n')
	b := buf.data
	for len(b) > 1<<16 {
		if _, err = enc.writer.Write(b[:1<<16]); err != nil {
			enc.err = err
			encoderBufferPool.Put(buf)
			return err
		}
		b = b[1<<16:]
	}
""")],prog("""
	for _, n := range []int{10, 1<<16 - 4, 1 << 16, 1 << 18} {
		w := &writer{}
		if err := jsoncolor.NewEncoder(w).Encode(strings.Repeat("x", n)); err != nil { fail("%v", err) }
		if w.calls != 1 || w.n != n+3 { fail("%d: %d calls, %d bytes", n, w.calls, w.n) }
	}
""",('strings',),pre="""
type writer struct { calls, n int }
func (w *writer) Write(b []byte) (int, error) { w.calls++; w.n += len(b); return len(b), nil }
"""),'a value whose encoding is longer than 64 KiB','the value is written with several calls of Write')
seed('c13-pool-early',[('json.go',"""	buf.data = append(buf.data, '\\n')
	b := buf.data
""","""	buf.data = append(buf.data, '\\n')
	b := buf.data
	defer func(d *encoderBuffer) { d.data = d.data[:0] }(buf)
	encoderBufferPool.Put(buf)
	buf = &encoderBuffer{}
""")],prog("""
	w := &writer{}
	for i := 0; i < 100; i++ {
		w.got = ""
		if err := jsoncolor.NewEncoder(w).Encode(map[string]any{"k": i}); err != nil { fail("%v", err) }
		if w.got != fmt.Sprintf("{\\"k\\":%d}\\n", i) { fail("%d: wrote %q", i, w.got) }
	}
""",pre="""
type writer struct { got string }
// Write logs before it uses what it was given.
func (w *writer) Write(b []byte) (int, error) {
	if _, err := jsoncolor.Marshal("a log message"); err != nil { return 0, err }
	w.got += string(b)
	return len(b), nil
}
"""),'a writer whose Write method itself encodes a value (or another goroutine which encodes meanwhile)','the buffer is back in the pool while it is written, so that the writer sees other text')
# c17
seed('c17-error-nil',[('encode.go',"""			if b, err = encode(e, b, unsafe.Pointer(uintptr(p)+(uintptr(i)*size))); err != nil {
				return b[:start], err""","""			if b, err = encode(e, b, unsafe.Pointer(uintptr(p)+(uintptr(i)*size))); err != nil {
				if start -= 1; i == 0 {
					start++
				}
				return b[:max(start, 0)], err""")],prog("""
	for _, v := range []any{[]any{1.5}, []float64{math.NaN()}, []float64{1, math.Inf(1)}} {
		b, err := jsoncolor.Append([]byte("prefix:"), v, 0, nil, nil)
		if !strings.HasPrefix(string(b), "prefix:") { fail("%v: %q %v", v, b, err) }
	}
""",('math','strings')),'an element other than the first of an array which cannot be encoded, appended to a non-empty slice','the returned slice has lost the last byte of the prefix')
seed('c17-bytes-grow',[('encode.go',"""		newB := make([]byte, cap(b)+(n-avail))
		copy(newB, b)""","""		newB := make([]byte, n, cap(b)+(n-avail))
		copy(newB, b)""")],prog("""
	for n := 0; n < 80; n++ {
		pre := strings.Repeat("p", n)
		b, err := jsoncolor.Append([]byte(pre), []byte("0123456789"), 0, nil, nil)
		if err != nil || string(b) != pre+`"MDEyMzQ1Njc4OQ=="` { fail("%d: %q %v", n, b, err) }
	}
""",('strings',)),'a byte slice appended to a slice which holds more bytes than its encoding and has no room','the end of the prefix is overwritten with zeros')
