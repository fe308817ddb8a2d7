package spec

// isDelim: one of { } [ ] : ,
func isDelim(c int) bool {
	return c == 123 || c == 125 || c == 91 || c == 93 || c == 58 || c == 44
}

// tokEnd is the end of the JSON token starting exactly at i, or -1.
//
//@ opaque
//@ decreases 0
//@ ensures result == -1 || (i < result && result <= n)
func tokEnd(a Arr, i int, n int) int {
	if i >= n {
		return -1
	}
	if isDelim(int(a[i])) {
		return i + 1
	}
	if a[i] == 34 {
		return strEnd(a, i, n)
	}
	if a[i] == 110 {
		if litNull(a, i, n) {
			return i + 4
		}
		return -1
	}
	if a[i] == 116 {
		if litTrue(a, i, n) {
			return i + 4
		}
		return -1
	}
	if a[i] == 102 {
		if litFalse(a, i, n) {
			return i + 5
		}
		return -1
	}
	return numEnd(a, i, n)
}
