package main

import (
	"fmt"
	"math/rand"
	"strings"
)

var fixedDocs = []string{
	``, ` `, `null`, `true`, `false`, `0`, `-0`, `1.5`, `-1.25e+10`, `1E5`, `1e-7`, `"x"`, `"\u00e9\n"`, `"\ud83d\ude00"`, `"\ud800"`, `"\udc00x"`, `[]`, `{}`,
	`[1,2,3]`, `{"a":1,"b":[true,null]}`, "\t[ 1 , 2 ]\r\n", `{"a":{"b":{"c":[]}}}`, `[[[[1]]]]`, `{"a":"\"","b":"\\"}`, `"` + strings.Repeat("abcdefgh", 9) + `"`,
	`"0123456\u0041"`, `"01234567\u004A8"`, `[1,]`, `{"a":1,}`, `[,1]`, `01`, `1.`, `-`, `+1`, `.5`, `1e`, `1e+`, `nul`, `tru`, `fals`, `nulll`, `1 2`, `[1 2]`, `{"a" 1}`, `{"a":}`, `{1:2}`, `"`, `"\`, `"\u12`, `"\u12g4"`, `"\x"`, "\"\x01\"", "\"\x1f\"", "\"\x20\"", "\"\x7f\"", "\"\xff\"",
	`[{},"x"]`, `{"":[{"":0}]}`, `]`, `}`, `,`, `:`, `[}`, `{]`, `"abcdefg\u00"`, `"\u003c\u003e\u0026"`, "\"\u2028\u2029\"", `1e400`, `123456789012345678901234567890`, "[\n]", "{\n}", " [ ] ", " { } ", `{"k":"v" , "k":2}`,
}

var strPieces = []string{"a", "b", "Z", "key", " ", "<", ">", "&", "/", `\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`, `\u0041`, `\u00e9`, `\u00E9`, `\u2028`, `\ud83d\ude00`, `\ud83d`, `\ude00`, `\u0000`, `\uFFFF`, "é", "世", "😀", "\u2028", "\u2029", "\xff", "\xc3", "\xe4\xb8", "\xed\xa0\x80", "\x7f", "12345678"}

func genString(r *rand.Rand) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for n := r.Intn(5); n > 0; n-- {
		if r.Intn(12) == 0 {
			sb.WriteString(strings.Repeat("x", r.Intn(20)))
		}
		sb.WriteString(strPieces[r.Intn(len(strPieces))])
	}
	sb.WriteByte('"')
	return sb.String()
}

func genNumber(r *rand.Rand) string {
	switch r.Intn(7) {
	case 0:
		return fmt.Sprint(r.Intn(20) - 10)
	case 1:
		return fmt.Sprint(int64(r.Uint64()))
	case 2:
		return fmt.Sprint(r.Uint64())
	case 3:
		return fmt.Sprintf("%d.%d", r.Intn(100), r.Intn(1000))
	case 4:
		return fmt.Sprintf("-%de%d", r.Intn(100), r.Intn(40)-20)
	case 5:
		return fmt.Sprintf("%d.%dE+%d", r.Intn(10), r.Intn(10), r.Intn(10))
	}
	return []string{"0", "-0", "0.0", "1e5", "127", "128", "255", "256", "32768", "65536", "2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616"}[r.Intn(18)]
}

func genWS(r *rand.Rand) string {
	if r.Intn(4) != 0 {
		return ""
	}
	return []string{" ", "\n", "\t", "\r", "  ", "\n\t "}[r.Intn(6)]
}

// genJSON makes a random well-formed JSON value.
func genJSON(r *rand.Rand, depth int) string {
	k := r.Intn(10)
	if depth <= 0 && k >= 6 {
		k = r.Intn(6)
	}
	switch k {
	case 0:
		return "null"
	case 1:
		return []string{"true", "false"}[r.Intn(2)]
	case 2, 3:
		return genNumber(r)
	case 4, 5:
		return genString(r)
	case 6, 7:
		var sb strings.Builder
		sb.WriteString("[" + genWS(r))
		for i, n := 0, r.Intn(4); i < n; i++ {
			if i > 0 {
				sb.WriteString("," + genWS(r))
			}
			sb.WriteString(genJSON(r, depth-1) + genWS(r))
		}
		sb.WriteString("]")
		return sb.String()
	}
	var sb strings.Builder
	sb.WriteString("{" + genWS(r))
	for i, n := 0, r.Intn(4); i < n; i++ {
		if i > 0 {
			sb.WriteString("," + genWS(r))
		}
		sb.WriteString(genString(r) + genWS(r) + ":" + genWS(r) + genJSON(r, depth-1) + genWS(r))
	}
	sb.WriteString("}")
	return sb.String()
}

func genBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, r.Intn(n))
	for i := range b {
		if r.Intn(6) == 0 {
			b[i] = byte(r.Intn(256))
		} else {
			b[i] = jsonAlphabet[r.Intn(len(jsonAlphabet))]
		}
	}
	return b
}

// mutations applies n random small edits to b.
func mutations(c *ctx, b []byte, n int, f func([]byte)) {
	r := c.rng
	for ; n > 0; n-- {
		m := append([]byte(nil), b...)
		for k := 1 + r.Intn(2); k > 0; k-- {
			p := r.Intn(len(m) + 1)
			switch r.Intn(4) {
			case 0: // delete
				if p < len(m) {
					m = append(m[:p], m[p+1:]...)
				}
			case 1: // insert
				ch := jsonAlphabet[r.Intn(len(jsonAlphabet))]
				m = append(m[:p], append([]byte{ch}, m[p:]...)...)
			case 2: // replace
				if p < len(m) {
					if r.Intn(3) == 0 {
						m[p] = byte(r.Intn(256))
					} else {
						m[p] = jsonAlphabet[r.Intn(len(jsonAlphabet))]
					}
				}
			case 3: // truncate
				m = m[:p]
			}
		}
		f(m)
	}
}
