from mkseed import mk
main='''package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/neilotoole/jsoncolor"
)

func main() {
	for _, s := range []string{%s} {
		if got, want := jsoncolor.Valid([]byte(s)), json.Valid([]byte(s)); got != want {
			fmt.Printf("Valid(%%q) = %%v, want %%v\\n", s, got, want)
			os.Exit(1)
		}
	}
}
'''
mk('c01-word-less','C01',[('ascii.go','''		if hasLess64(x, 0x20) || hasMore64(x, 0x7e) {''','''		if hasLess64(x, ' '-1) || hasMore64(x, '~') {''')], main % r'"\"abcdefgh\x1f0123456\"", "\"abcdefgh\\u001f0123456\"", "\"ab\x1f\""', 'the byte 0x1f in the word-wise part (content of 8 bytes or more) of a string without escapes', 'Valid accepts an unescaped 0x1f')
mk('c01-slow-control','C01',[('parse.go','''		default:
			if b[i] < 0x20 {''','''		default:
			if b[i] < 0x20 && b[i] != '\\n'-1+22 {''')], main % r'"\"\\n\x1f\"", "\"\\n\x1e\"", "\"\\n \""','the single byte 0x1f inside a string which also holds an escape','Valid accepts an unescaped 0x1f')
mk('c01-exp-sign','C01',[('parse.go','''		if i == len(b) {
			r, err = b[i:], syntaxError(b, "missing exponent in number")
			return v, r, err
		}
''','''		if i == len(b) && (b[i-1] == 'e' || b[i-1] == 'E' || b[i-1] == '+') {
			r, err = b[i:], syntaxError(b, "missing exponent in number")
			return v, r, err
		}
''')], main % r'"1e-", "1E-", "1e+", "1e", "1e-1", "[1e-]"','a number that ends with e- at the very end of the input','Valid accepts 1e-')
