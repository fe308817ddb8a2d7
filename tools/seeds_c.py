import sys
from mkseed import mk
def prog(body, imports=('fmt','os'), pre=''):
    imp='\n'.join('\t"%s"'%i for i in sorted(set(imports)|{'fmt','os'})) 
    return '''package main

import (
%s

	"github.com/neilotoole/jsoncolor"
)

%s
func fail(format string, a ...any) { fmt.Printf(format+"\\n", a...); os.Exit(1) }

var _ = jsoncolor.Valid

func main() {
%s
}
''' % (imp, pre, body)
only=sys.argv[1:]
def seed(id, *a):
    if only and id not in only: return
    mk(id, id[:3].upper(), *a)


# c15
seed('c15-uint-high',[('codec.go','''string(strconv.AppendUint(b0[:0], u0, 10)) < string(strconv.AppendUint(b1[:0], u1, 10))''','''string(strconv.AppendInt(b0[:0], int64(u0), 10)) < string(strconv.AppendInt(b1[:0], int64(u1), 10))''')],prog('''
	for i := 0; i < 20; i++ {
		m := map[uint64]int{1: 1, 25: 2, 18446744073709551615: 3, 9: 4}
		b, err := jsoncolor.Marshal(m)
		if err != nil { fail("%v", err) }
		if string(b) != `{"1":1,"18446744073709551615":3,"25":2,"9":4}` { fail("%s", b) }
	}
'''),'a map with an unsigned key of 2^63 or more','that key is sorted as the negative number with the same bits')
seed('c15-long-prefix',[('encode.go','''func (m *mapslice) Less(i, j int) bool { return m.elements[i].key < m.elements[j].key }''','''func (m *mapslice) Less(i, j int) bool {
	a, b := m.elements[i].key, m.elements[j].key
	if len(a) > 32 && len(b) > 32 && a[:32] == b[:32] {
		// Compare the tails only.
		a, b = a[33:], b[33:]
	}
	return a < b
}''')],prog('''
	p := "0123456789012345678901234567890123456789"[:32]
	m := map[string]interface{}{p + "az": 1, p + "ba": 2, p: 3, "b": 4}
	for i := 0; i < 20; i++ {
		b, err := jsoncolor.Marshal(m)
		if err != nil { fail("%v", err) }
		if string(b) != `{"`+p+`":3,"`+p+`az":1,"`+p+`ba":2,"b":4}` { fail("%s", b) }
	}
'''),'two keys which agree in their first 32 bytes and differ in the 33rd','their order ignores the 33rd byte')
seed('c15-stale-pool',[('encode.go','''			b, err = e.encodeRawMessage(b, unsafe.Pointer(&elem.raw))
			if err != nil {
				break
			}
''','''			b, err = e.encodeRawMessage(b, unsafe.Pointer(&elem.raw))
			if err != nil {
				mapslicePool.Put(s)
				return b[:start], err
			}
''')],prog('''
	bad := map[string]jsoncolor.RawMessage{"x": jsoncolor.RawMessage("}")}
	good := map[string]jsoncolor.RawMessage{"b": jsoncolor.RawMessage("1"), "a": jsoncolor.RawMessage("2")}
	for i := 0; i < 200; i++ {
		if _, err := jsoncolor.Marshal(bad); err == nil { fail("no error") }
		b, err := jsoncolor.Marshal(good)
		if err != nil { fail("%v", err) }
		if string(b) != `{"a":2,"b":1}` { fail("%s", b) }
	}
'''),'encoding a map[string]RawMessage after an earlier one failed','entries of the failed map are left in the pooled slice and appear in later maps')
