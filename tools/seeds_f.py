import sys
exec(open('/verif/tools/seeds_c.py').read().split('# c15')[0])

# c06
seed('c06-rollback-comma',[('encode.go','''		lengthBeforeField := len(b)
		if n != 0 {
			b = e.clrs.appendPunc(b, ',')
		}
		b = e.indentr.appendByte(b, '\\n')
''','''		if n != 0 {
			b = e.clrs.appendPunc(b, ',')
		}
		lengthBeforeField := len(b)
		b = e.indentr.appendByte(b, '\\n')
''')],prog('''
	type I struct{ X, Y int }
	type T struct { A int; *I; B int }
	b, err := jsoncolor.Marshal(T{A: 1, B: 2})
	if err != nil || string(b) != `{"A":1,"B":2}` { fail("%v %s", err, b) }
'''),'a nil embedded struct pointer behind another field','two commas in a row')
seed('c06-trust-toggle',[('json.go','''		enc.flags &= ^TrustRawMessage''','''		enc.flags ^= TrustRawMessage''')],prog('''
	var bb bytes.Buffer
	e := jsoncolor.NewEncoder(&bb)
	e.SetTrustRawMessage(false)
	if err := e.Encode(jsoncolor.RawMessage("{]")); err == nil { fail("%q", bb.String()) }
''',['bytes']),'SetTrustRawMessage(false) on an encoder which did not trust messages','a malformed raw message is written')
seed('c06-number-space',[('encode.go','''	_, r, err := parseNumber(stringToBytes(string(n)))
	if err != nil {
		return b, err
	}
	if len(r) != 0 {''','''	_, r, err := parseNumber(stringToBytes(string(n)))
	if err != nil {
		return b, err
	}
	if r = skipSpaces(r); len(r) > 0 && r[0] != 0 {''')],prog('''
	b, err := jsoncolor.Marshal([]jsoncolor.Number{"1", "2\\x00,"})
	if err == nil { fail("%q", b) }
	b, err = jsoncolor.Marshal(map[string]jsoncolor.Number{"a": "3"})
	if err != nil || string(b) != `{"a":3}` { fail("%v %q", err, b) }
'''),'a Number with a NUL behind its digits','text which is no JSON is written')
