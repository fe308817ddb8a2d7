package spec

import (
	"encoding/json"
	"testing"
)

// The grammar of the specification against encoding/json.
func TestGrammar(t *testing.T) {
	for _, alpha := range []string{"{}[],:\"0-1 ", "\"\\ub\x1f0f\xff", "0-1.eE+ ", "nultrefas ", "[],1 ", "{}\":,1 "} {
		buf := make([]byte, 6)
		var rec func(k int)
		rec = func(k int) {
			b := buf[:k]
			if isDoc(b, 0, k) != json.Valid(b) {
				t.Fatalf("%q: %v", b, json.Valid(b))
			}
			if k == len(buf) {
				return
			}
			for i := 0; i < len(alpha); i++ {
				buf[k] = alpha[i]
				rec(k + 1)
			}
		}
		rec(0)
	}
}
