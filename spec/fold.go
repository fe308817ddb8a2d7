package spec

// ---- case folding of field names ----

// foldRune is the representative of the characters equal to r under simple
// case folding.
//
//@ uninterpreted
//@ ensures imp(65 <= r && r <= 90, result == r + 32)
//@ ensures imp(0 <= r && r < 128 && !(65 <= r && r <= 90), result == r)
func foldRune(r int) int { return r }

// foldKey is a[i:n] with every character replaced by its representative.
//
//@ decreases n - i
func foldKey(a Arr, i int, n int) Bytes {
	if i >= n {
		return ""
	}
	return runeBytes(foldRune(utf8Rune(a, i, n))) + foldKey(a, i+utf8Size(a, i, n), n)
}

// lowerKey is a[i:n] with upper case ASCII letters replaced by lower case ones.
//
//@ decreases n - i
func lowerKey(a Arr, i int, n int) Bytes {
	if i >= n {
		return ""
	}
	if 65 <= a[i] && a[i] <= 90 {
		return unit(int(a[i])+32) + lowerKey(a, i+1, n)
	}
	return unit(int(a[i])) + lowerKey(a, i+1, n)
}

// foldASCII: folding ASCII text is making it lower case.
//
//@ lemma
//@ decreases n - i
//@ requires 0 <= i && i <= n
//@ requires ascii(a, i, n)
//@ ensures foldKey(a, i, n) == lowerKey(a, i, n)
func foldASCII(a Arr, i int, n int) {
	if i < n {
		foldASCII(a, i+1, n)
	}
}

// subStep: one more byte.
//
//@ lemma
//@ decreases j - i
//@ requires 0 <= i && i <= j
//@ ensures sub(a, i, j+1) == sub(a, i, j) + unit(int(a[j]))
func subStep(a Arr, i int, j int) {
	if i < j {
		subStep(a, i+1, j)
	}
}

// lowerStep: the definition of lowerKey, where it is not unfolded.
//
//@ lemma
//@ requires 0 <= i
//@ ensures imp(i >= n, lowerKey(a, i, n) == "")
//@ ensures imp(i < n && 65 <= a[i] && a[i] <= 90, lowerKey(a, i, n) == unit(int(a[i])+32) + lowerKey(a, i+1, n))
//@ ensures imp(i < n && !(65 <= a[i] && a[i] <= 90), lowerKey(a, i, n) == unit(int(a[i])) + lowerKey(a, i+1, n))
func lowerStep(a Arr, i int, n int) {}
