import sys
from mkseed import mk
def prog(body, imports=('fmt','os'), pre=''):
    imp='\n'.join('\t"%s"'%i for i in sorted(set(imports)|{'fmt','os'})) 
    return '''package main

import (
%s

	"github.com/neilotoole/jsoncolor"
)

%s
func fail(format string, a ...any) { fmt.Printf(format+"\\n", a...); os.Exit(1) }

var _ = jsoncolor.Valid

func main() {
%s
}
''' % (imp, pre, body)
only=sys.argv[1:]
def seed(id, *a):
    if only and id not in only: return
    mk(id, id[:3].upper(), *a)

seed('c02-rawmap-comma',[('decode.go','''		b, err = d.preprocessInput(i, b, &key)
		if err != nil {
			return b, err
		}

		b, err = d.decodeRawMessage(b, unsafe.Pointer(&val))''','''		b, err = d.preprocessInput(len(m), b, &key)
		if err != nil {
			return b, err
		}

		b, err = d.decodeRawMessage(b, unsafe.Pointer(&val))''')],prog('''
	m := map[string]jsoncolor.RawMessage{"old": nil}
	if err := jsoncolor.Unmarshal([]byte(`{,"a":1}`), &m); err == nil { fail("accepted a leading comma: %v", m) }
	m = map[string]jsoncolor.RawMessage{"old": nil}
	if err := jsoncolor.Unmarshal([]byte(`{"a":1}`), &m); err != nil { fail("%v", err) }
'''),'a map[string]RawMessage destination which already holds entries','the first member is expected to follow a comma when the map is not empty')
seed('c02-duration',[('decode.go','''		v, r, err := parseInt(b, durationType)
		if err != nil {
			return inputError(b, int32Type)
		}

		*(*time.Duration)(p) = time.Duration(v)
		return r, nil''','''		v, r, err := parseInt(b, durationType)
		if err != nil {
			return inputError(b, int32Type)
		}
		if len(r) != 0 && r[0] == ',' {
			r = skipSpaces(r[:1+len(skipSpaces(r[1:]))])
		}

		*(*time.Duration)(p) = time.Duration(v)
		return r, nil''')],prog('''
	var v struct { D time.Duration; S string }
	if err := jsoncolor.Unmarshal([]byte("{\\"D\\":1,\\n \\"S\\":\\"xy\\"}"), &v); err != nil || v.S != "xy" { fail("%v %v", err, v) }
	var w []time.Duration
	if err := jsoncolor.Unmarshal([]byte("[1, 2]"), &w); err != nil || len(w) != 2 || w[1] != 2 { fail("%v %v", err, w) }
''',('time',)),'a duration given as an integer, followed by a comma and white space','the input after a numeric duration loses its last bytes')
seed('c03-int8-min',[('decode.go','''	if v < math.MinInt8 || v > math.MaxInt8 {
		return r, unmarshalOverflow(b[:len(b)-len(r)], int8Type)''','''	if v < -math.MaxUint8>>1-1 || v > math.MaxInt8 {
		return r, unmarshalOverflow(b[:len(b)-len(r)], int8Type)''')],prog('''
	for _, s := range []string{"-128", "-129", "127", "-130"} {
		var v int8
		err := jsoncolor.Unmarshal([]byte(s), &v)
		n, _ := strconv.Atoi(s)
		if (err == nil) != (n >= -128) || err == nil && int(v) != n { fail("%s: %v %v", s, v, err) }
	}
''',('strconv',)),'the literal -129 decoded into an int8','-129 is stored in an int8 as 127')
seed('c03-uint-lim',[('parse.go','''		if value > lim {
			return 0, b, unmarshalOverflow(b, t)
		}

		if value *= 10; value > (maxVal - x) {
			return 0, b, unmarshalOverflow(b, t)
		}

		value += x
		count++
	}

	if count < len(b) {''','''		if value > lim+1 {
			return 0, b, unmarshalOverflow(b, t)
		}

		if value *= 10; value > (maxVal - x) {
			return 0, b, unmarshalOverflow(b, t)
		}

		value += x
		count++
	}

	if count < len(b) {''')],prog('''
	for s, ok := range map[string]bool{"18446744073709551615": true, "18446744073709551616": false, "18446744073709551620": false, "18446744073709551621": false} {
		var v uint64
		if err := jsoncolor.Unmarshal([]byte(s), &v); (err == nil) != ok { fail("%s: %v %v", s, v, err) }
	}
'''),'a uint64 literal from 18446744073709551620 to 18446744073709551629','an overflowing uint64 literal wraps around instead of failing')
seed('c03-zero-frac',[('parse.go','''	if count < len(b) {
		switch b[count] {
		case '.', 'e', 'E': // was this actually a float?
			v, r, err := parseNumber(b)
			if err != nil {
				v, r = b[:count+1], b[count+1:]
			}
			return 0, r, unmarshalTypeError(v, t)
		}
	}

	return value, b[count:], nil
}

// parseUint is''','''	if count < len(b) {
		switch b[count] {
		case '.', 'e', 'E': // was this actually a float?
			v, r, err := parseNumber(b)
			if err != nil {
				v, r = b[:count+1], b[count+1:]
			} else if value == 0 && count == 2 {
				return value, r, nil
			}
			return 0, r, unmarshalTypeError(v, t)
		}
	}

	return value, b[count:], nil
}

// parseUint is''')],prog('''
	for _, s := range []string{"-0.5", "-0e1", "0.5", "-1.5"} {
		v := int64(7)
		if err := jsoncolor.Unmarshal([]byte(s), &v); err == nil || v != 7 { fail("%s: %v %v", s, v, err) }
	}
'''),'a literal starting with -0 and holding a fraction or exponent','-0.5 decodes into an integer as 0')
seed('c04-bom',[('parse.go','''	for _, r := range string(s) {
		b = append(b, c[:utf8.EncodeRune(c[:], r)]...)
	}''','''	for i, r := range string(s) {
		if i == 0 && r == 0xFEFF && len(s) == 3 {
			continue
		}
		b = append(b, c[:utf8.EncodeRune(c[:], r)]...)
	}''')],prog('''
	for in, want := range map[string]string{"\\"\\xef\\xbb\\xbf\\\\n\\"": "\\ufeff\\n", "\\"\\ufeff\\"": "\\ufeff"} {
		var s string
		if err := jsoncolor.Unmarshal([]byte(in), &s); err != nil || s != want { fail("%s: %q %v", in, s, err) }
	}
'''),'a byte order mark alone between escapes','U+FEFF is dropped')
seed('c04-key-lower',[('parse.go','''	if r == nil {
		r = make([]byte, 0, len(s))
	}
''','''	if r == nil {
		r = make([]byte, 0, len(s))
	} else if cap(r)-len(r) < len(s) {
		r = append(make([]byte, 0, len(s)+len(r)), r[:cap(r)-cap(r)%8]...)
	}
''')],prog('''
	b := append(make([]byte, 0, 12), "0123456789"...)
	got := jsoncolor.RawValue(`"a\\nbcdefgh"`).AppendUnquote(b)
	if string(got) != "0123456789a\\nbcdefgh" { fail("%q", got) }
	b = append(make([]byte, 0, 16), "0123456789"...)
	got = jsoncolor.RawValue(`"\\n"`).AppendUnquote(b)
	if string(got) != "0123456789\\n" { fail("%q", got) }
'''),'AppendUnquote of an escaped string to a slice with too little spare capacity','the bytes already in the destination are cut or padded')
seed('c14-rawmessage-array',[('decode.go','''	if isNew || (d.flags&DontCopyString) != 0 {
		*(*string)(p) = *(*string)(unsafe.Pointer(&s))
	} else {
		*(*string)(p) = string(s)
	}''','''	if isNew || (d.flags&DontCopyString) != 0 || (d.flags&(DontCopyNumber|UseNumber)) == DontCopyNumber|UseNumber {
		*(*string)(p) = *(*string)(unsafe.Pointer(&s))
	} else {
		*(*string)(p) = string(s)
	}''')],prog('''
	b := []byte(`["hello"]`)
	var v []string
	if _, err := jsoncolor.Parse(b, &v, jsoncolor.UseNumber|jsoncolor.DontCopyNumber); err != nil { fail("%v", err) }
	for i := range b { b[i] = 'x' }
	if v[0] != "hello" { fail("%q", v[0]) }
'''),'both UseNumber and DontCopyNumber set, DontCopyString not','decoded strings alias the input')
seed('c14-number',[('decode.go','''	if (d.flags & DontCopyNumber) != 0 {
		*(*Number)(p) = *(*Number)(unsafe.Pointer(&v))''','''	if (d.flags&DontCopyNumber) != 0 || len(r) == 0 {
		*(*Number)(p) = *(*Number)(unsafe.Pointer(&v))''')],prog('''
	b := []byte(`12345`)
	var v jsoncolor.Number
	if _, err := jsoncolor.Parse(b, &v, 0); err != nil { fail("%v", err) }
	for i := range b { b[i] = '9' }
	if v != "12345" { fail("%q", v) }
'''),'a Number at the very end of the input','the decoded Number aliases the input')
seed('c20-negative',[('decode.go','''	if (d.flags & UseNumber) != 0 {
			n := Number("")''','''	if (d.flags&UseNumber) != 0 && v[0] != '-' {
			n := Number("")''')],prog('''
	for _, in := range []string{"7", "-12", "[-3]"} {
		var v interface{}
		if _, err := jsoncolor.Parse([]byte(in), &v, jsoncolor.UseNumber); err != nil { fail("%v", err) }
		if a, ok := v.([]interface{}); ok { v = a[0] }
		if _, ok := v.(jsoncolor.Number); !ok { fail("%s: %T", in, v) }
	}
'''),'a negative number decoded into interface{} with UseNumber','a negative number becomes a float64 in spite of UseNumber')
seed('c20-empty-array',[('decode.go','''		v, err = d.decodeSlice(v, unsafe.Pointer(&a), unsafe.Sizeof(a[0]), sliceInterfaceType, decoder.decodeInterface)
		val = a''','''		v, err = d.decodeSlice(v, unsafe.Pointer(&a), unsafe.Sizeof(a[0]), sliceInterfaceType, decoder.decodeInterface)
		if val = a; len(a) > 10 && a[10] == nil {
			val = a[:10]
		}''')],prog('''
	var v interface{}
	if err := jsoncolor.Unmarshal([]byte("[0,1,2,3,4,5,6,7,8,9,null,11]"), &v); err != nil { fail("%v", err) }
	if n := len(v.([]interface{})); n != 12 { fail("%d elements", n) }
'''),'an array of more than ten elements whose eleventh is null, decoded into interface{}','the elements from the eleventh on are lost')
seed('c22-exact-first',[('decode.go','''		f := st.fieldsIndex[string(k)]

		if f == nil && ''','''		f := st.fieldsIndex[string(k)]
		if g := st.ficaseIndex[string(k)]; g != nil && f != nil && (d.flags&DisallowUnknownFields) != 0 {
			f = g
		}

		if f == nil && ''')],prog('''
	var v struct { A int `json:"AB"`; B int `json:"ab"` }
	if _, err := jsoncolor.Parse([]byte(`{"ab":2}`), &v, jsoncolor.DisallowUnknownFields); err != nil || v.B != 2 || v.A != 0 { fail("%v %v", err, v) }
'''),'two fields whose names differ only in case, with DisallowUnknownFields set','a member goes to the case-insensitive match although a field has exactly its name')
seed('c22-key-buf',[('parse.go','''			if 'A' <= c && c <= 'Z' {
				b = append(b, s[i:j]...)
				b = append(b, c+('a'-'A'))
				i = j + 1
			}''','''			if 'A' <= c && c <= 'Z' {
				b = append(b, s[i:j]...)
				b = append(b, c+('a'-'A'))
				if i = j + 1; len(b) == cap(b) {
					i = j
				}
			}''')],prog('''
	name := strings.Repeat("X", 70)
	in := []byte(`{"` + strings.Repeat("x", 69) + `X":1}`)
	var v struct { F int `json:"%s"` }
	_ = name
	if err := jsoncolor.Unmarshal(in, &v); err != nil || v.F != 1 { fail("%%v %%v", err, v) }
	in = []byte(`{"` + strings.Repeat("X", 69) + `x":2}`)
	if err := jsoncolor.Unmarshal(in, &v); err != nil || v.F != 2 { fail("%%v %%v", err, v) }
'''%('X'*70),('strings',)),'a member name with an upper-case letter exactly where the lower-case buffer becomes full (64 bytes)','the name is matched with a letter twice, so the member is dropped')
seed('c23-empty-zero-size',[('decode.go','''			if s.data == nil {
				s.data''','''			if s.data == nil && size != 0 {
				s.data''')],prog('''
	var v []struct{}
	if err := jsoncolor.Unmarshal([]byte("[]"), &v); err != nil || v == nil { fail("%v %v", err, v) }
'''),'[] decoded into a nil slice whose element type has size zero','the slice stays nil')
seed('c23-array-extra',[('decode.go','''		if i >= n {
			// The encoding''','''		if i >= n && (n != 1 || b[0] != 'n') {
			// The encoding''')],prog('''
	v := struct { A [1]int16; B int16 }{B: 7}
	if err := jsoncolor.Unmarshal([]byte(`{"A":[1,2]}`), &v); err != nil || v.B != 7 || v.A[0] != 1 { fail("%v %v", err, v) }
	w := struct { A [1]*int; B *int }{B: new(int)}
	if err := jsoncolor.Unmarshal([]byte(`{"A":[1,null]}`), &w); err != nil || w.B == nil { fail("%v %v", err, w) }
'''),'an array of length one given more elements, the extra one null','the memory after the array is overwritten')
seed('c11-key-after-array',[('token.go','''		case ']':
			err = t.pop(inArray)
			t.Depth--
			t.Index = t.index()
		case ':':''','''		case ']':
			err = t.pop(inArray)
			t.Depth--
			t.Index = t.index()
			t.isKey = t.Depth > 2
		case ':':''')],prog('''
	t := jsoncolor.NewTokenizer([]byte(`[[[[1]]]]`))
	for t.Next() { if t.IsKey { fail("IsKey") } }
	t = jsoncolor.NewTokenizer([]byte(`[[[[[]  7`))
	for t.Next() { if t.IsKey { fail("%s is a key", t.Value) } }
'''),'a value following a closing bracket at depth 3 or more','the token is called a key')
seed('c11-index-deep',[('token.go','''	if len(t.stack) == 0 {
		return 0
	}
	return t.stack[len(t.stack)-1].len - 1''','''	if len(t.stack) == 0 {
		return 0
	}
	if n := len(t.stack); n == cap(t.stack) {
		return t.stack[n-1].len - t.stack[0].len
	}
	return t.stack[len(t.stack)-1].len - 1''')],prog('''
	in := "[0," + strings.Repeat("[", 7) + "1,2"
	t := jsoncolor.NewTokenizer([]byte(in))
	var last *jsoncolor.Tokenizer
	for t.Next() { c := *t; last = &c }
	if last.Index != 1 { fail("index %d", last.Index) }
	in = "[0," + strings.Repeat("[", 15) + "1,2"
	t = jsoncolor.NewTokenizer([]byte(in))
	for t.Next() { c := *t; last = &c }
	if last.Index != 1 { fail("index %d", last.Index) }
''',('strings',)),'nesting exactly as deep as the capacity of the stack, in an element which is not the first of the outermost array','Index is too small')
seed('c18-force',[('terminal.go','''	if os.Getenv("FORCE_COLOR") != "" {
		return true
	}
	if os.Getenv("TERM") == "dumb" {''','''	if os.Getenv("FORCE_COLOR") != "" && (w != nil || os.Getenv("TERM") != "dumb") {
		return true
	}
	if os.Getenv("TERM") == "dumb" {''')],prog('''
	os.Unsetenv("NO_COLOR"); os.Setenv("FORCE_COLOR", "1"); os.Setenv("TERM", "dumb")
	if !jsoncolor.IsColorTerminal(nil) { fail("nil") }
	if !jsoncolor.IsColorTerminal(os.Stdout) { fail("stdout") }
'''),'FORCE_COLOR together with TERM=dumb and a nil writer','FORCE_COLOR is ignored')
seed('c18-nocolor',[('terminal.go','''	if os.Getenv("NO_COLOR") != "" {''','''	if v, ok := os.LookupEnv("NO_COLOR"); ok && (v != "" || os.Getenv("FORCE_COLOR") == "0") {''')],prog('''
	os.Setenv("NO_COLOR", ""); os.Setenv("FORCE_COLOR", "0"); os.Setenv("TERM", "xterm")
	if !jsoncolor.IsColorTerminal(os.Stdout) { fail("NO_COLOR set but empty, FORCE_COLOR=0") }
'''),'NO_COLOR set to the empty string together with FORCE_COLOR=0','an empty NO_COLOR is honoured')
fpre='import fc "github.com/fatih/color"\nimport hc "github.com/neilotoole/jsoncolor/helper/fatihcolor"\nimport "bytes"'
seed('c19-bytes',[('helper/fatihcolor/fatihcolor.go','''		Bytes:         ToCoreColor(clrs.Bytes),
''','''		Bytes:         ToCoreColor(func() *color.Color { if clrs.Bytes == nil { return clrs.String }; return clrs.Bytes }()),
''')],prog('''
	r := hc.ToCoreColors(&hc.Colors{String: fc.New(fc.FgRed)})
	if len(r.Bytes) != 0 { fail("Bytes %q", r.Bytes) }
	_ = bytes.Equal
''',(),fpre),'a set with String but without Bytes','the missing Bytes color becomes the String color')
seed('c19-nocolor',[('helper/fatihcolor/fatihcolor.go','''	c2 := *c
	c2.EnableColor()
''','''	c2 := *c
	if !color.NoColor || !c.Equals(color.New(color.Bold)) {
		c2.EnableColor()
	}
''')],prog('''
	fc.NoColor = true
	if got := hc.ToCoreColor(fc.New(fc.Bold)); !bytes.Equal(got, []byte("\\x1b[1m")) { fail("%q", got) }
''',(),fpre),'the color Bold while color.NoColor is true','the color comes out empty')

seed('c05-tail-byte',[('encode.go','''		if r == utf8.RuneError && size == 1 {
			b = append(b, s[i:j]...)
			b = append(b, `\\ufffd`...)
			i = j + size''','''		if r == utf8.RuneError && size == 1 && (i == j || s[j-1] < utf8.RuneSelf || c >= 0xc0) {
			b = append(b, s[i:j]...)
			b = append(b, `\\ufffd`...)
			i = j + size''')],prog('''
	for _, s := range []string{"a\\xc3\\xa9\\xa9", "\\xc3\\xa9\\xc3\\xa9", "\\x80\\x80", "\\xe2\\x82\\xac\\x82z"} {
		b, err := jsoncolor.Marshal(s)
		if err != nil { fail("%v", err) }
		if !utf8.Valid(b) { fail("%q encodes as %q", s, b) }
		want := ""
		for _, r := range s { want += string(r) }
		var got string
		if err := jsoncolor.Unmarshal(b, &got); err != nil || got != want { fail("%q encodes as %s", s, b) }
	}
''',('unicode/utf8',)),'a stray continuation byte right after a valid multi-byte character','the stray byte is written verbatim')
seed('c05-run',[('encode.go','''			b = append(b, `\\u202`...)
			b = append(b, hex[r&0xF])
			i = j + size
			j = i
			continue''','''			b = append(b, `\\u202`...)
			b = append(b, hex[r&0xF])
			j += size
			if j == len(s) || s[j] >= utf8.RuneSelf {
				i = j
			} else {
				i = j
				for j++; j < len(s) && s[j] >= 0x20 && s[j] < 0x7f && s[j] != '"' && s[j] != '<'; j++ {
				}
			}
			continue''')],prog('''
	for _, s := range []string{"a\\u2028b\\"c", "\\u2028\\\\\\"", "\\u2029<", "a\\u2029\\\\n", "\\u2028\\u2029x"} {
		b, err := jsoncolor.Marshal(s)
		if err != nil { fail("%v", err) }
		var got string
		if err := jsoncolor.Unmarshal(b, &got); err != nil || got != s { fail("%q encodes as %s", s, b) }
	}
'''),'a line separator followed by a character which needs escaping','a backslash or quote following U+2028 is written verbatim')
seed('c21-uintptr',[('encode.go','''e.clrs.appendUint64(b, uint64(*(*uintptr)(p))), nil''','''e.clrs.appendInt64(b, int64(*(*uintptr)(p))), nil''')],prog('''
	for _, v := range []uintptr{0, 1, 1<<63-1, 1<<63, 1<<64-1} {
		b, err := jsoncolor.Marshal(v)
		if err != nil || string(b) != fmt.Sprint(uint64(v)) { fail("%d: %s %v", v, b, err) }
	}
'''),'a uintptr above the largest int64','large uintptr values encode as negative numbers')
seed('c21-negative-zero',[('encode.go','''	n := *(*Number)(p)
	if n == "" {
		n = "0"
	}''','''	n := *(*Number)(p)
	if strings.TrimLeft(string(n), "-0") == "" {
		n = "0"
	}'''),('encode.go','	"strconv"\n','	"strconv"\n	"strings"\n')],prog('''
	for n, ok := range map[jsoncolor.Number]bool{"-0": true, "0": true, "00": false, "--": false, "-": false, "10": true} {
		b, err := jsoncolor.Marshal(n)
		if (err == nil) != ok || ok && string(b) != string(n) { fail("%q: %s %v", n, b, err) }
	}
'''),'a Number made of zeros and minus signs only','-0 loses its sign and malformed Numbers such as 00 encode as 0')
