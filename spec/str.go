package spec

// ---- UTF-8 ----

func cont(c int) bool { return 128 <= c && c <= 191 }

// u2, u3, u4: a valid sequence of that length starts at i.
func u2(a Arr, i int, n int) bool {
	return i+2 <= n && 194 <= a[i] && a[i] <= 223 && cont(int(a[i+1]))
}
func u3(a Arr, i int, n int) bool {
	return i+3 <= n && 224 <= a[i] && a[i] <= 239 && cont(int(a[i+1])) && cont(int(a[i+2])) &&
		imp(a[i] == 224, a[i+1] >= 160) && imp(a[i] == 237, a[i+1] <= 159)
}
func u4(a Arr, i int, n int) bool {
	return i+4 <= n && 240 <= a[i] && a[i] <= 244 && cont(int(a[i+1])) && cont(int(a[i+2])) && cont(int(a[i+3])) &&
		imp(a[i] == 240, a[i+1] >= 144) && imp(a[i] == 244, a[i+1] <= 143)
}

// utf8Size is the number of bytes of the character at i, 1 for an invalid byte.
//
//@ opaque
//@ decreases 0
//@ ensures 1 <= result && result <= 4
//@ ensures imp(i < n, i + result <= n)
func utf8Size(a Arr, i int, n int) int {
	if u2(a, i, n) {
		return 2
	}
	if u3(a, i, n) {
		return 3
	}
	if u4(a, i, n) {
		return 4
	}
	return 1
}

// utf8Rune is the code point of the character at i, U+FFFD for an invalid byte.
//
//@ opaque
//@ decreases 0
//@ requires i < n
//@ ensures 0 <= result && result <= 1114111
func utf8Rune(a Arr, i int, n int) int {
	if a[i] < 128 {
		return int(a[i])
	}
	if u2(a, i, n) {
		return (int(a[i])-192)*64 + int(a[i+1]) - 128
	}
	if u3(a, i, n) {
		return (int(a[i])-224)*4096 + (int(a[i+1])-128)*64 + int(a[i+2]) - 128
	}
	if u4(a, i, n) {
		return (int(a[i])-240)*262144 + (int(a[i+1])-128)*4096 + (int(a[i+2])-128)*64 + int(a[i+3]) - 128
	}
	return 65533
}

// runeBytes is the UTF-8 encoding of r, that of U+FFFD if r has none.
//
//@ opaque
//@ decreases 0
//@ ensures 1 <= len(result) && len(result) <= 4
func runeBytes(r int) Bytes {
	if r < 0 || r > 1114111 || isSurr(r) {
		return "\xef\xbf\xbd"
	}
	if r < 128 {
		return unit(r)
	}
	if r < 2048 {
		return unit(192+r/64) + unit(128+r%64)
	}
	if r < 65536 {
		return unit(224+r/4096) + unit(128+r/64%64) + unit(128+r%64)
	}
	return unit(240+r/262144) + unit(128+r/4096%64) + unit(128+r/64%64) + unit(128+r%64)
}

func isSurr(r int) bool { return 55296 <= r && r <= 57343 }

// surrPair combines the surrogates r1 and r2, giving U+FFFD if they do not pair.
func surrPair(r1 int, r2 int) int {
	if 55296 <= r1 && r1 < 56320 && 56320 <= r2 && r2 < 57344 {
		return (r1-55296)*1024 + r2 - 56320 + 65536
	}
	return 65533
}

// coerce is a[i:n] with each invalid byte replaced by U+FFFD.
//
//@ decreases n - i
func coerce(a Arr, i int, n int) Bytes {
	if i >= n {
		return ""
	}
	return runeBytes(utf8Rune(a, i, n)) + coerce(a, i+utf8Size(a, i, n), n)
}

// ---- the text of a string literal ----

func escChar(c int) int {
	switch c {
	case 98:
		return 8
	case 102:
		return 12
	case 110:
		return 10
	case 114:
		return 13
	case 116:
		return 9
	}
	return c
}

// unq is the text denoted by the literal contents a[i:n].
//
//@ decreases n - i
func unq(a Arr, i int, n int) Bytes {
	if i >= n {
		return ""
	}
	if a[i] != 92 {
		return runeBytes(utf8Rune(a, i, n)) + unq(a, i+utf8Size(a, i, n), n)
	}
	if a[i+1] != 117 {
		return unit(escChar(int(a[i+1]))) + unq(a, i+2, n)
	}
	if !isSurr(hexVal(a, i+2)) {
		return runeBytes(hexVal(a, i+2)) + unq(a, i+6, n)
	}
	if i+8 <= n && a[i+6] == 92 && a[i+7] == 117 && surrPair(hexVal(a, i+2), hexVal(a, i+8)) != 65533 {
		return runeBytes(surrPair(hexVal(a, i+2), hexVal(a, i+8))) + unq(a, i+12, n)
	}
	return runeBytes(65533) + unq(a, i+6, n)
}

// strSkip: bytes before the next backslash do not end the literal.
//
//@ lemma
//@ decreases j - i
//@ requires 0 <= i && i <= j && j <= q
//@ requires strScan(a, i, n) == q + 1
//@ requires idxByte(a, i, j, 92) < 0
//@ ensures strScan(a, j, n) == q + 1
func strSkip(a Arr, i int, j int, q int, n int) {
	if i < j {
		strSkip(a, i+1, j, q, n)
	}
}

// utf8Cut: characters do not reach over a backslash.
//
//@ lemma
//@ requires 0 <= i && i < j && j <= n
//@ requires j == n || a[j] == 92
//@ requires idxByte(a, i, j, 92) < 0
//@ ensures utf8Size(a, i, j) == utf8Size(a, i, n) && utf8Rune(a, i, j) == utf8Rune(a, i, n)
//@ ensures i + utf8Size(a, i, n) <= j && a[i] != 92
//@ ensures idxByte(a, i+utf8Size(a, i, n), j, 92) < 0
func utf8Cut(a Arr, i int, j int, n int) {
	assert(imp(i+1 < j, idxByte(a, i+1, j, 92) < 0))
	assert(imp(i+2 < j, idxByte(a, i+2, j, 92) < 0))
	assert(imp(i+3 < j, idxByte(a, i+3, j, 92) < 0))
	assert(imp(i+4 < j, idxByte(a, i+4, j, 92) < 0))
}

// unqSeg: the text up to the next escape.
//
//@ lemma
//@ decreases j - i
//@ requires 0 <= i && i <= j && j <= n
//@ requires j == n || a[j] == 92
//@ requires idxByte(a, i, j, 92) < 0
//@ ensures unq(a, i, n) == coerce(a, i, j) + unq(a, j, n)
func unqSeg(a Arr, i int, j int, n int) {
	if i < j {
		utf8Cut(a, i, j, n)
		unqSeg(a, i+utf8Size(a, i, n), j, n)
	}
}

// unqPlain: printable ASCII without escapes denotes itself.
//
//@ lemma
//@ decreases n - i
//@ requires 0 <= i && i <= n
//@ requires printable(a, i, n)
//@ requires idxByte(a, i, n, 92) < 0
//@ ensures unq(a, i, n) == sub(a, i, n)
func unqPlain(a Arr, i int, n int) {
	if i < n {
		unqPlain(a, i+1, n)
	}
}

// plainPre: a prefix of plain text is plain.
//
//@ lemma
//@ decreases j - i
//@ requires 0 <= i && i <= j && j <= n
//@ ensures imp(printable(a, i, n), printable(a, i, j))
//@ ensures imp(idxByte(a, i, n, c) < 0, idxByte(a, i, j, c) < 0)
func plainPre(a Arr, i int, j int, n int, c int) {
	if i < j {
		plainPre(a, i+1, j, n, c)
	}
}

// idxFirst: nothing before the first occurrence.
//
//@ lemma
//@ decreases j - i
//@ requires 0 <= i && i <= j && j <= n
//@ requires idxByte(a, i, n, c) == j
//@ ensures idxByte(a, i, j, c) < 0
func idxFirst(a Arr, i int, j int, n int, c int) {
	if i < j {
		idxFirst(a, i+1, j, n, c)
	}
}

//@ exec
func unit(c int) Bytes { return string([]byte{byte(c)}) }

//@ exec
func sub(a Arr, i int, j int) Bytes {
	if j <= i {
		return ""
	}
	return string(a[i:j])
}

// ---- the literal of a text ----

func hexChar(k int) int { return int("0123456789abcdef"[k]) }

// escaped: the byte c is never written verbatim.
func escaped(c int, html bool) bool {
	return c < 32 || c == 92 || c == 34 || html && (c == 60 || c == 62 || c == 38)
}

// escOne is what one character of a literal is written as; r is its code point
// and k its size in bytes.
func escOne(a Arr, j int, html bool, r int, k int) Bytes {
	if a[j] == 92 || a[j] == 34 {
		return "\\" + unit(int(a[j]))
	}
	if a[j] == 10 {
		return "\\n"
	}
	if a[j] == 13 {
		return "\\r"
	}
	if a[j] == 9 {
		return "\\t"
	}
	if escaped(int(a[j]), html) {
		return "\\u00" + unit(hexChar(int(a[j])/16)) + unit(hexChar(int(a[j])%16))
	}
	if r == 65533 && k == 1 {
		return "\\ufffd"
	}
	if r == 8232 || r == 8233 {
		return "\\u202" + unit(hexChar(r%16))
	}
	return sub(a, j, j+k)
}

// esc is how the text a[j:n] is written between quotes: characters which need
// it are escaped, and invalid bytes become \ufffd.
//
//@ decreases n - j
//@ requires 0 <= j
func esc(a Arr, j int, n int, html bool) Bytes {
	if j >= n {
		return ""
	}
	return escOne(a, j, html, utf8Rune(a, j, n), utf8Size(a, j, n)) + esc(a, j+utf8Size(a, j, n), n, html)
}

// strText is the literal of a text.
//
//@ uninterpreted
func strText(s Bytes, html bool) Bytes { panic("uninterpreted") }

// escASCII: a byte below 128 is a character of its own.
//
//@ lemma
//@ requires 0 <= j && j < n
//@ ensures imp(a[j] < 128, utf8Size(a, j, n) == 1 && utf8Rune(a, j, n) == int(a[j]))
//@ ensures imp(a[j] >= 128 && utf8Size(a, j, n) == 1, utf8Rune(a, j, n) == 65533)
//@ ensures imp(a[j] >= 128 && utf8Size(a, j, n) > 1, utf8Rune(a, j, n) >= 128)
func escASCII(a Arr, j int, n int) {
}

// escShort: a two-byte escape.
//
//@ lemma
//@ requires 0 <= p && p+2 <= q && q < m
//@ requires x[p] == 92 && simpleEsc(int(x[p+1]))
//@ ensures strScan(x, p, m) == strScan(x, p+2, m)
//@ ensures unq(x, p, q) == unit(escChar(int(x[p+1]))) + unq(x, p+2, q)
func escShort(x Arr, p int, q int, m int) {
}

// escLong: a \u escape which is no surrogate.
//
//@ lemma
//@ requires 0 <= p && p+6 <= q && q < m
//@ requires x[p] == 92 && x[p+1] == 117 && hex4(x, p+2) && !isSurr(hexVal(x, p+2))
//@ ensures strScan(x, p, m) == strScan(x, p+6, m)
//@ ensures unq(x, p, q) == runeBytes(hexVal(x, p+2)) + unq(x, p+6, q)
func escLong(x Arr, p int, q int, m int) {
}

// utf8Same: the same bytes are the same character.
//
//@ lemma
//@ requires 0 <= j && j < n && 0 <= p && p+utf8Size(a, j, n) <= q
//@ requires a[j] < 128 || utf8Size(a, j, n) > 1
//@ requires x[p] == a[j]
//@ requires imp(utf8Size(a, j, n) >= 2, x[p+1] == a[j+1])
//@ requires imp(utf8Size(a, j, n) >= 3, x[p+2] == a[j+2])
//@ requires imp(utf8Size(a, j, n) >= 4, x[p+3] == a[j+3])
//@ ensures utf8Size(x, p, q) == utf8Size(a, j, n) && utf8Rune(x, p, q) == utf8Rune(a, j, n)
func utf8Same(a Arr, j int, n int, x Arr, p int, q int) {
}

// strRaw: plain bytes are skipped.
//
//@ lemma
//@ decreases e - p
//@ requires 0 <= p && p <= e && e <= m
//@ requires p+1 > e || x[p] >= 32 && x[p] != 34 && x[p] != 92
//@ requires p+2 > e || x[p+1] >= 32 && x[p+1] != 34 && x[p+1] != 92
//@ requires p+3 > e || x[p+2] >= 32 && x[p+2] != 34 && x[p+2] != 92
//@ requires p+4 > e || x[p+3] >= 32 && x[p+3] != 34 && x[p+3] != 92
//@ requires p+4 >= e
//@ ensures strScan(x, p, m) == strScan(x, e, m)
func strRaw(x Arr, p int, e int, m int) {
	if p < e {
		strRaw(x, p+1, e, m)
	}
}

// escOneUnq: what one character is written as is scanned and denotes it.
//
//@ lemma
//@ requires 0 <= j && j < n && 0 <= p && k == utf8Size(a, j, n) && r == utf8Rune(a, j, n)
//@ requires w == len(escOne(a, j, html, r, k))
//@ requires sub(x, p, p+w) == escOne(a, j, html, r, k)
//@ requires p+w <= q && q < m
//@ ensures strScan(x, p, m) == strScan(x, p+w, m)
//@ ensures unq(x, p, q) == runeBytes(r) + unq(x, p+w, q)
func escOneUnq(a Arr, j int, n int, html bool, r int, k int, x Arr, p int, w int, q int, m int) {
	escASCII(a, j, n)
	if a[j] == 92 || a[j] == 34 || a[j] == 10 || a[j] == 13 || a[j] == 9 {
		assert(w == 2)
		assert(x[p] == sub(x, p, p+w)[0] && x[p+1] == sub(x, p, p+w)[1])
		assert(x[p] == 92 && escChar(int(x[p+1])) == int(a[j]))
		escShort(x, p, q, m)
	} else if escaped(int(a[j]), html) || r == 65533 && k == 1 || r == 8232 || r == 8233 {
		assert(w == 6)
		assert(x[p] == sub(x, p, p+w)[0] && x[p+1] == sub(x, p, p+w)[1] && x[p+2] == sub(x, p, p+w)[2] && x[p+3] == sub(x, p, p+w)[3] && x[p+4] == sub(x, p, p+w)[4] && x[p+5] == sub(x, p, p+w)[5])
		assert(x[p] == 92 && x[p+1] == 117)
		assert(hex4(x, p+2))
		assert(hexVal(x, p+2) == r)
		escLong(x, p, q, m)
	} else {
		assert(w == k)
		assert(x[p] == sub(x, p, p+w)[0] && a[j] == sub(a, j, j+k)[0])
		assert(imp(k >= 2, x[p+1] == sub(x, p, p+w)[1] && a[j+1] == sub(a, j, j+k)[1]))
		assert(imp(k >= 3, x[p+2] == sub(x, p, p+w)[2] && a[j+2] == sub(a, j, j+k)[2]))
		assert(imp(k >= 4, x[p+3] == sub(x, p, p+w)[3] && a[j+3] == sub(a, j, j+k)[3]))
		utf8Same(a, j, n, x, p, q)
		strRaw(x, p, p+k, m)
	}
}

// escUnq: the literal of a text denotes the text, with invalid bytes replaced.
//
//@ lemma
//@ decreases n - j
//@ requires 0 <= j && j <= n && 0 <= p
//@ requires q == p + len(esc(a, j, n, html))
//@ requires sub(x, p, q) == esc(a, j, n, html)
//@ requires q < m && x[q] == 34
//@ ensures strScan(x, p, m) == q + 1
//@ ensures unq(x, p, q) == coerce(a, j, n)
func escUnq(a Arr, j int, n int, html bool, x Arr, p int, q int, m int) {
	if j < n {
		assert(sub(x, p, q)[:len(escOne(a, j, html, utf8Rune(a, j, n), utf8Size(a, j, n)))] == escOne(a, j, html, utf8Rune(a, j, n), utf8Size(a, j, n)))
		assert(sub(x, p, q)[len(escOne(a, j, html, utf8Rune(a, j, n), utf8Size(a, j, n))):] == esc(a, j+utf8Size(a, j, n), n, html))
		escOneUnq(a, j, n, html, utf8Rune(a, j, n), utf8Size(a, j, n), x, p, len(escOne(a, j, html, utf8Rune(a, j, n), utf8Size(a, j, n))), q, m)
		escUnq(a, j+utf8Size(a, j, n), n, html, x, p+len(escOne(a, j, html, utf8Rune(a, j, n), utf8Size(a, j, n))), q, m)
	}
}
