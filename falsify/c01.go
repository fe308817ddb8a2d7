package main

import (
	"bytes"
	"encoding/json"

	"github.com/neilotoole/jsoncolor"
)

func specValid(b []byte) bool { return json.Valid(b) }

// jsonAlphabet: the bytes that drive the scanner.
var jsonAlphabet = []byte("{}[],:\"\\ntfue01-+.E \n\x00\x7f\x80\xc3\xa9/bralsd")

func init() {
	checks["C01"] = func(c *ctx) {
		g := newGuarded(1 << 16)
		one := func(b []byte) {
			want := specValid(b)
			d := g.put(b)
			c.ev(string(b), len(b) > 1)
			c.guard(func() {
				got := jsoncolor.Valid(d)
				if got != want {
					c.fail("valid", "Valid(%q) = %v, the grammar says %v", b, got, want)
				}
				if !bytes.Equal(d, b) {
					c.fail("modified", "Valid(%q) modified its input to %q", b, d)
				}
			})
		}
		docInputs(c, one)
	}
}

// docInputs drives f over byte strings: the model seeds, an exhaustive
// enumeration of short strings, then random documents and mutations.
func docInputs(c *ctx, f func([]byte)) {
	for _, s := range c.seeds {
		seedVariants(s, f)
	}
	for _, s := range fixedDocs {
		f([]byte(s))
		mutations(c, []byte(s), 20, f)
	}
	enumerate([]byte("{}[],:\"0-n\\ 1."), 4, c, f)
	enumerate([]byte("\"\\ubx\x1f0f/\xff"), 5, c, f)
	enumerate([]byte("0-1.eE+9 "), 5, c, f)
	enumerate([]byte("[],1 "), 6, c, f)
	for c.more() {
		b := []byte(genJSON(c.rng, 4))
		f(b)
		mutations(c, b, 12, f)
		if c.rng.Intn(4) == 0 {
			f(genBytes(c.rng, 40))
		}
	}
}

func seedVariants(s []byte, f func([]byte)) {
	f(s)
	q := append(append([]byte{'"'}, s...), '"')
	f(q)
	f(append(append([]byte{'['}, s...), ']'))
	f(append(append([]byte(`{"a":`), s...), '}'))
	f(append(append([]byte(" "), s...), ' '))
	f(append(append([]byte("["), q...), ']'))
	for i := range s {
		f(s[i:])
		f(s[:i])
	}
}

func enumerate(alpha []byte, n int, c *ctx, f func([]byte)) {
	buf := make([]byte, n)
	var rec func(k int)
	rec = func(k int) {
		f(buf[:k])
		if k == n || !c.more() {
			return
		}
		for _, ch := range alpha {
			buf[k] = ch
			rec(k + 1)
		}
	}
	rec(0)
}
