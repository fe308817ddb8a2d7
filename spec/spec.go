// Package spec holds the mathematical specification functions and the lemmas
// used by the contracts in ../contracts. Every function here is total and pure.
// The condition generator translates these definitions to SMT; the same file is
// compiled into the falsifier, where the functions serve as oracle.
package spec

// Arr is a byte array indexed by absolute position; Bytes is a byte string.
type Arr = []byte
type Bytes = string

// ---- JSON grammar (RFC 8259) ----

func isWS(c int) bool { return c == 32 || c == 9 || c == 10 || c == 13 }

func isDigit(c int) bool { return 48 <= c && c <= 57 }

func isHex(c int) bool {
	return 48 <= c && c <= 57 || 65 <= c && c <= 70 || 97 <= c && c <= 102
}

// ws is the first position >= i that holds no white space.
//
//@ decreases n - i
//@ ensures imp(i <= n, i <= result && result <= n)
//@ ensures imp(i > n, result == i)
//@ ensures imp(result < n, !isWS(a[result]))
//@ ensures imp(result > i, isWS(a[i]))
func ws(a Arr, i int, n int) int {
	if i < n && isWS(int(a[i])) {
		return ws(a, i+1, n)
	}
	return i
}

func simpleEsc(c int) bool {
	return c == 34 || c == 92 || c == 47 || c == 98 || c == 102 || c == 110 || c == 114 || c == 116
}

func hex4(a Arr, i int) bool {
	return isHex(int(a[i])) && isHex(int(a[i+1])) && isHex(int(a[i+2])) && isHex(int(a[i+3]))
}

// strScan scans string content from i; it gives the position after the closing
// quote, or -1.
//
//@ decreases n - i
//@ ensures result == -1 || (i < result && result <= n)
func strScan(a Arr, i int, n int) int {
	if i >= n {
		return -1
	}
	if a[i] == 34 {
		return i + 1
	}
	if a[i] < 32 {
		return -1
	}
	if a[i] == 92 {
		if i+1 >= n {
			return -1
		}
		if simpleEsc(int(a[i+1])) {
			return strScan(a, i+2, n)
		}
		if a[i+1] == 117 && i+6 <= n && hex4(a, i+2) {
			return strScan(a, i+6, n)
		}
		return -1
	}
	return strScan(a, i+1, n)
}

func strEnd(a Arr, i int, n int) int {
	if i < n && a[i] == 34 {
		return strScan(a, i+1, n)
	}
	return -1
}

// digEnd is the end of the run of digits starting at i.
//
//@ decreases n - i
//@ ensures imp(i <= n, i <= result && result <= n)
//@ ensures imp(i > n, result == i)
//@ ensures imp(result < n, !isDigit(a[result]))
//@ ensures imp(i < n && isDigit(a[i]), result > i)
//@ ensures imp(i < n && !isDigit(a[i]), result == i)
func digEnd(a Arr, i int, n int) int {
	if i < n && isDigit(int(a[i])) {
		return digEnd(a, i+1, n)
	}
	return i
}

func expEnd(a Arr, k int, n int) int {
	if k < n && (a[k] == 101 || a[k] == 69) {
		if k+1 < n && (a[k+1] == 43 || a[k+1] == 45) {
			if k+2 < n && isDigit(int(a[k+2])) {
				return digEnd(a, k+2, n)
			}
			return -1
		}
		if k+1 < n && isDigit(int(a[k+1])) {
			return digEnd(a, k+1, n)
		}
		return -1
	}
	return k
}

func fracEnd(a Arr, k int, n int) int {
	if k < n && a[k] == 46 {
		if k+1 < n && isDigit(int(a[k+1])) {
			return expEnd(a, digEnd(a, k+1, n), n)
		}
		return -1
	}
	return expEnd(a, k, n)
}

func intEnd(a Arr, k int, n int) int {
	if k < n && a[k] == 48 {
		return fracEnd(a, k+1, n)
	}
	if k < n && isDigit(int(a[k])) {
		return fracEnd(a, digEnd(a, k, n), n)
	}
	return -1
}

// numEnd is the end of the number starting at i, or -1.
//
//@ opaque
//@ decreases 0
//@ ensures result == -1 || (i < result && result <= n)
//@ ensures imp(result >= 0, !isWS(a[i]))
func numEnd(a Arr, i int, n int) int {
	if i < n && a[i] == 45 {
		return intEnd(a, i+1, n)
	}
	return intEnd(a, i, n)
}

func litNull(a Arr, i int, n int) bool {
	return i+4 <= n && a[i] == 110 && a[i+1] == 117 && a[i+2] == 108 && a[i+3] == 108
}
func litTrue(a Arr, i int, n int) bool {
	return i+4 <= n && a[i] == 116 && a[i+1] == 114 && a[i+2] == 117 && a[i+3] == 101
}
func litFalse(a Arr, i int, n int) bool {
	return i+5 <= n && a[i] == 102 && a[i+1] == 97 && a[i+2] == 108 && a[i+3] == 115 && a[i+4] == 101
}

// valueEnd is the end of the JSON value starting exactly at i, or -1.
//
//@ decreases n - i, 0
//@ ensures result == -1 || (i < result && result <= n)
//@ ensures imp(result >= 0, !isWS(a[i]))
func valueEnd(a Arr, i int, n int) int {
	if i >= n {
		return -1
	}
	switch a[i] {
	case 123:
		return objFirst(a, ws(a, i+1, n), n)
	case 91:
		return arrFirst(a, ws(a, i+1, n), n)
	case 34:
		return strScan(a, i+1, n)
	case 110:
		if litNull(a, i, n) {
			return i + 4
		}
		return -1
	case 116:
		if litTrue(a, i, n) {
			return i + 4
		}
		return -1
	case 102:
		if litFalse(a, i, n) {
			return i + 5
		}
		return -1
	}
	return numEnd(a, i, n)
}

// arrFirst: just after '[' and white space.
//
//@ decreases n - j, 2
//@ ensures result == -1 || (j < result && result <= n)
func arrFirst(a Arr, j int, n int) int {
	if j >= n {
		return -1
	}
	if a[j] == 93 {
		return j + 1
	}
	return arrElem(a, j, n)
}

// arrElem: an element must start at j.
//
//@ decreases n - j, 1
//@ ensures result == -1 || (j < result && result <= n)
func arrElem(a Arr, j int, n int) int {
	if valueEnd(a, j, n) < 0 {
		return -1
	}
	return arrNext(a, ws(a, valueEnd(a, j, n), n), n)
}

// arrNext: after an element and white space.
//
//@ decreases n - j, 1
//@ ensures result == -1 || (j < result && result <= n)
func arrNext(a Arr, j int, n int) int {
	if j >= n {
		return -1
	}
	if a[j] == 93 {
		return j + 1
	}
	if a[j] == 44 {
		return arrElem(a, ws(a, j+1, n), n)
	}
	return -1
}

//@ decreases n - j, 2
//@ ensures result == -1 || (j < result && result <= n)
func objFirst(a Arr, j int, n int) int {
	if j >= n {
		return -1
	}
	if a[j] == 125 {
		return j + 1
	}
	return objMember(a, j, n)
}

//@ decreases n - j, 1
//@ ensures result == -1 || (j < result && result <= n)
func objMember(a Arr, j int, n int) int {
	if strEnd(a, j, n) < 0 {
		return -1
	}
	return objColon(a, ws(a, strEnd(a, j, n), n), n)
}

// objColon: after a key and white space.
//
//@ decreases n - j, 1
//@ ensures result == -1 || (j < result && result <= n)
func objColon(a Arr, j int, n int) int {
	if j >= n || a[j] != 58 {
		return -1
	}
	return objValue(a, ws(a, j+1, n), n)
}

//@ decreases n - j, 1
//@ ensures result == -1 || (j < result && result <= n)
func objValue(a Arr, j int, n int) int {
	if valueEnd(a, j, n) < 0 {
		return -1
	}
	return objNext(a, ws(a, valueEnd(a, j, n), n), n)
}

//@ decreases n - j, 1
//@ ensures result == -1 || (j < result && result <= n)
func objNext(a Arr, j int, n int) int {
	if j >= n {
		return -1
	}
	if a[j] == 125 {
		return j + 1
	}
	if a[j] == 44 {
		return objMember(a, ws(a, j+1, n), n)
	}
	return -1
}

func hexDigit(c int) int {
	if 48 <= c && c <= 57 {
		return c - 48
	}
	if 65 <= c && c <= 70 {
		return c - 55
	}
	return c - 87
}

// hexVal is the value of the four hexadecimal digits at i.
//
//@ opaque
//@ decreases 0
func hexVal(a Arr, i int) int {
	return hexDigit(int(a[i]))*4096 + hexDigit(int(a[i+1]))*256 + hexDigit(int(a[i+2]))*16 + hexDigit(int(a[i+3]))
}

// isDoc: the whole of a[i..n) is one JSON value with optional white space.
func isDoc(a Arr, i int, n int) bool {
	return valueEnd(a, ws(a, i, n), n) >= 0 && ws(a, valueEnd(a, ws(a, i, n), n), n) == n
}

// ---- byte scanning ----

// idxByte is the position of the first c in a[i..n), or -1.
//
//@ decreases n - i
//@ ensures result == -1 || (i <= result && result < n && a[result] == c)
func idxByte(a Arr, i int, n int, c int) int {
	if i >= n {
		return -1
	}
	if int(a[i]) == c {
		return i
	}
	return idxByte(a, i+1, n, c)
}

// printable: every byte of a[i..n) is in 0x20..0x7e.
//
//@ decreases n - i
func printable(a Arr, i int, n int) bool {
	return i >= n || (a[i] >= 32 && a[i] <= 126 && printable(a, i+1, n))
}

// ascii: every byte of a[i..n) is below 0x80.
//
//@ decreases n - i
func ascii(a Arr, i int, n int) bool {
	return i >= n || (a[i] < 128 && ascii(a, i+1, n))
}

func pr(c int) bool { return c >= 32 && c <= 126 }

//@ lemma
//@ requires i + 2 <= n
//@ ensures printable(a, i, n) == (pr(a[i]) && pr(a[i+1]) && printable(a, i+2, n))
func printable2(a Arr, i int, n int) {
	assert(printable(a, i, n) == (pr(int(a[i])) && printable(a, i+1, n)))
}

//@ lemma
//@ requires i + 4 <= n
//@ ensures printable(a, i, n) == (pr(a[i]) && pr(a[i+1]) && pr(a[i+2]) && pr(a[i+3]) && printable(a, i+4, n))
func printable4(a Arr, i int, n int) {
	printable2(a, i, n)
	printable2(a, i+2, n)
}

//@ lemma
//@ requires i + 8 <= n
//@ ensures printable(a, i, n) == (pr(a[i]) && pr(a[i+1]) && pr(a[i+2]) && pr(a[i+3]) && pr(a[i+4]) && pr(a[i+5]) && pr(a[i+6]) && pr(a[i+7]) && printable(a, i+8, n))
func printable8(a Arr, i int, n int) {
	printable4(a, i, n)
	printable4(a, i+4, n)
}

//@ lemma
//@ requires i + 2 <= n
//@ ensures ascii(a, i, n) == (a[i] < 128 && a[i+1] < 128 && ascii(a, i+2, n))
func ascii2(a Arr, i int, n int) {
	assert(ascii(a, i, n) == (a[i] < 128 && ascii(a, i+1, n)))
}

//@ lemma
//@ requires i + 4 <= n
//@ ensures ascii(a, i, n) == (a[i] < 128 && a[i+1] < 128 && a[i+2] < 128 && a[i+3] < 128 && ascii(a, i+4, n))
func ascii4(a Arr, i int, n int) {
	ascii2(a, i, n)
	ascii2(a, i+2, n)
}

//@ lemma
//@ requires i + 8 <= n
//@ ensures ascii(a, i, n) == (a[i] < 128 && a[i+1] < 128 && a[i+2] < 128 && a[i+3] < 128 && a[i+4] < 128 && a[i+5] < 128 && a[i+6] < 128 && a[i+7] < 128 && ascii(a, i+8, n))
func ascii8(a Arr, i int, n int) {
	ascii4(a, i, n)
	ascii4(a, i+4, n)
}

// strScanClean: printable text without quote or backslash up to the quote at q.
//
//@ lemma
//@ decreases q - i
//@ requires 0 <= i && i <= q && q < n
//@ requires idxByte(a, i, n, 34) == q
//@ requires printable(a, i, q+1)
//@ requires idxByte(a, i, q+1, 92) < 0
//@ ensures strScan(a, i, n) == q + 1
func strScanClean(a Arr, i int, q int, n int) {
	if i < q {
		strScanClean(a, i+1, q, n)
	}
}

// strScanNone: without a quote the scan fails.
//
//@ lemma
//@ decreases n - i
//@ requires 0 <= i
//@ requires idxByte(a, i, n, 34) < 0
//@ ensures strScan(a, i, n) == -1
func strScanNone(a Arr, i int, n int) {
	assert(imp(i < n, idxByte(a, i+1, n, 34) < 0))
	if i+1 < n {
		assert(idxByte(a, i+2, n, 34) < 0)
		strScanNone(a, i+2, n)
		if i+6 <= n {
			assert(idxByte(a, i+3, n, 34) < 0)
			assert(idxByte(a, i+4, n, 34) < 0)
			assert(idxByte(a, i+5, n, 34) < 0)
			assert(idxByte(a, i+6, n, 34) < 0)
			strScanNone(a, i+6, n)
		}
	}
	if i < n {
		strScanNone(a, i+1, n)
	}
}

// plain: neither control characters nor quotes nor backslashes in a[i:n].
//
//@ decreases n - i
func plain(a Arr, i int, n int) bool {
	return i >= n || (a[i] >= 32 && a[i] != 34 && a[i] != 92 && plain(a, i+1, n))
}

//@ lemma
//@ decreases q - i
//@ requires 0 <= i && i <= q && q < n && a[q] == 34
//@ requires plain(a, i, q)
//@ ensures strScan(a, i, n) == q + 1
func strScanPlain(a Arr, i int, q int, n int) {
	if i < q {
		strScanPlain(a, i+1, q, n)
	}
}

// parseFloat is the result of strconv.ParseFloat.
//
//@ uninterpreted
func parseFloat(s Bytes, bits int) int { return 0 }

// ---- integers ----

// decVal is the value of the decimal digits a[i:j].
//@ decreases j - i
//@ ensures result >= 0 || i < j
func decVal(a Arr, i int, j int) int {
	if j <= i {
		return 0
	}
	return decVal(a, i, j-1)*10 + int(a[j-1]) - 48
}

// intEndOf is the end of the integer literal at i, or -1.
func intEndOf(a Arr, i int, n int) int {
	if i < n && a[i] == '-' {
		return natEnd(a, i+1, n)
	}
	return natEnd(a, i, n)
}

// natEnd is the end of the unsigned integer literal at i, or -1: digits without
// leading zeros, not followed by a fraction or an exponent.
func natEnd(a Arr, i int, n int) int {
	if i >= n {
		return -1
	}
	if !isDigit(int(a[i])) {
		return -1
	}
	if a[i] == 48 && i+1 < n && isDigit(int(a[i+1])) {
		return -1
	}
	if digEnd(a, i, n) < n && (a[digEnd(a, i, n)] == '.' || a[digEnd(a, i, n)] == 'e' || a[digEnd(a, i, n)] == 'E') {
		return -1
	}
	return digEnd(a, i, n)
}

// intValOf is the value of the integer literal a[i:e].
func intValOf(a Arr, i int, e int) int {
	if i < e && a[i] == '-' {
		return -decVal(a, i+1, e)
	}
	return decVal(a, i, e)
}

//@ lemma
//@ decreases n - j
//@ requires 0 <= i && i <= j && j <= n
//@ ensures digEnd(a, j, n) >= j
//@ ensures decVal(a, i, digEnd(a, j, n)) >= decVal(a, i, j) || decVal(a, i, j) < 0
func decMono(a Arr, i int, j int, n int) {
	if j < n && isDigit(int(a[j])) {
		decMono(a, i, j+1, n)
	}
}

//@ exec
func imp(a, b bool) bool { return !a || b }

//@ exec
func assert(b bool) {
	if !b {
		panic("lemma")
	}
}
