import sys
exec(open('/verif/tools/seeds_c.py').read().split('# c15')[0])


# c12
seed('c12-blank-buffer',[('json.go','''		dec.remain, n = skipSpacesN(dec.buffer)
		dec.inputOffset += int64(n)
		dec.err = err
''','''		dec.remain, n = skipSpacesN(dec.buffer)
		if len(dec.remain) == 0 {
			// Nothing but spaces, reuse the whole buffer.
			dec.buffer, n = dec.buffer[:0], 0
		}
		dec.inputOffset += int64(n)
		dec.err = err
''')],prog('''
	s := strings.Repeat(" ", 40000) + "1 2"
	dec := jsoncolor.NewDecoder(strings.NewReader(s))
	var v int
	if err := dec.Decode(&v); err != nil || v != 1 { fail("%v %v", v, err) }
	if o := dec.InputOffset(); o != 40002 { fail("offset %d", o) }
''',['strings']),'a buffer which holds only white space','InputOffset does not count that white space')
seed('c12-word-split',[('parse.go','''	if len(b) < 4 {
		return nil, b[len(b):], unexpectedEOF(b)
	}
	return nil, b, syntaxError(b, "expected 'true' but found invalid token")''','''	if len(b) < 2 {
		return nil, b[len(b):], unexpectedEOF(b)
	}
	return nil, b, syntaxError(b, "expected 'true' but found invalid token")''')],prog('''
	for k := 32760; k < 32770; k++ {
		s := strings.Repeat(" ", k-2) + "1 true false"
		dec := jsoncolor.NewDecoder(strings.NewReader(s))
		var v interface{}
		for i := 0; i < 3; i++ {
			if err := dec.Decode(&v); err != nil { fail("%d: value %d: %v", k, i, err) }
		}
	}
''',['strings']),'the word true across the end of the buffer, after two or three of its letters','it is a syntax error')
seed('c12-comma-end',[('parse.go','''			b = skipSpaces(b[1:])
			if len(b) == 0 {
				return nil, b, unexpectedEOF(b)
			}
			if b[0] == ']' {
				return nil, b, syntaxError(b, "unexpected trailing comma after object field")
			}
''','''			b = skipSpaces(b[1:])
			if len(b) == 0 || b[0] == ']' {
				return nil, a[n-len(b)-1:], syntaxError(b, "unexpected trailing comma after array element")
			}
''')],prog('''
	for k := 32760; k < 32770; k++ {
		s := strings.Repeat(" ", k-4) + "1 [1, 2] [3,4]"
		dec := jsoncolor.NewDecoder(strings.NewReader(s))
		var v interface{}
		for i := 0; i < 3; i++ {
			if err := dec.Decode(&v); err != nil { fail("%d: value %d: %v", k, i, err) }
		}
	}
''',['strings']),'an array whose comma is the last byte of the buffer','it is a syntax error')
