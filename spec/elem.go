package spec

// ---- elements of arrays ----

// elemAt is the position of element k of the array which starts at i.
//
//@ decreases k
//@ requires 0 <= i && 0 <= k
func elemAt(a Arr, i int, n int, k int) int {
	if k <= 0 {
		return ws(a, i+1, n)
	}
	return ws(a, ws(a, valueEnd(a, elemAt(a, i, n, k-1), n), n)+1, n)
}

// moreElems is the number of elements announced by commas from j on, where j
// follows an element.
//
//@ decreases n - j
//@ ensures result >= 0
func moreElems(a Arr, j int, n int) int {
	if j >= n || a[j] != 44 {
		return 0
	}
	if valueEnd(a, ws(a, j+1, n), n) < 0 {
		return 1
	}
	return 1 + moreElems(a, ws(a, valueEnd(a, ws(a, j+1, n), n), n), n)
}

// elemsAt is the number of elements from element k on, which starts at j.
func elemsAt(a Arr, j int, n int) int {
	if valueEnd(a, j, n) < 0 {
		return 1
	}
	return 1 + moreElems(a, ws(a, valueEnd(a, j, n), n), n)
}

// arrLen is the number of elements of the array which starts at i.
func arrLen(a Arr, i int, n int) int {
	if ws(a, i+1, n) < n && a[ws(a, i+1, n)] == 93 {
		return 0
	}
	return elemsAt(a, ws(a, i+1, n), n)
}

// ---- values cut out of a longer text ----

// strCut: a literal ends at the same place if the text ends there.
//
//@ lemma
//@ decreases n - i
//@ requires 0 <= i && i <= n
//@ requires strScan(a, i, n) >= 0
//@ ensures strScan(a, i, strScan(a, i, n)) == strScan(a, i, n)
func strCut(a Arr, i int, n int) {
	if i < n && a[i] != 34 {
		if a[i] != 92 {
			strCut(a, i+1, n)
		} else if a[i+1] == 117 {
			strCut(a, i+6, n)
		} else {
			strCut(a, i+2, n)
		}
	}
}

// digCut: so does a run of digits.
//
//@ lemma
//@ decreases e - i
//@ requires 0 <= i && i <= e && e <= n
//@ requires digEnd(a, i, n) <= e
//@ ensures digEnd(a, i, e) == digEnd(a, i, n)
func digCut(a Arr, i int, e int, n int) {
	if i < e && isDigit(int(a[i])) {
		digCut(a, i+1, e, n)
	}
}

//@ lemma
//@ requires 0 <= k && k <= n
//@ requires expEnd(a, k, n) >= 0
//@ ensures expEnd(a, k, n) >= k && expEnd(a, k, n) <= n
//@ ensures expEnd(a, k, expEnd(a, k, n)) == expEnd(a, k, n)
func expCut(a Arr, k int, n int) {
	if expEnd(a, k, n) > k+1 {
		digCut(a, k+1, expEnd(a, k, n), n)
		if expEnd(a, k, n) > k+2 {
			digCut(a, k+2, expEnd(a, k, n), n)
		}
	}
}

//@ lemma
//@ requires 0 <= k && k <= n
//@ requires fracEnd(a, k, n) >= 0
//@ ensures fracEnd(a, k, n) >= k && fracEnd(a, k, n) <= n
//@ ensures fracEnd(a, k, fracEnd(a, k, n)) == fracEnd(a, k, n)
func fracCut(a Arr, k int, n int) {
	if k < n && a[k] == 46 {
		expCut(a, digEnd(a, k+1, n), n)
		digCut(a, k+1, fracEnd(a, k, n), n)
	} else {
		expCut(a, k, n)
	}
}

//@ lemma
//@ requires 0 <= k && k <= n
//@ requires intEnd(a, k, n) >= 0
//@ ensures intEnd(a, k, n) > k && intEnd(a, k, n) <= n
//@ ensures intEnd(a, k, intEnd(a, k, n)) == intEnd(a, k, n)
func intCut(a Arr, k int, n int) {
	if a[k] == 48 {
		fracCut(a, k+1, n)
	} else {
		fracCut(a, digEnd(a, k, n), n)
		digCut(a, k, intEnd(a, k, n), n)
	}
}

// numCut: so does a number.
//
//@ lemma
//@ requires 0 <= i && i <= n
//@ requires numEnd(a, i, n) >= 0
//@ ensures numEnd(a, i, numEnd(a, i, n)) == numEnd(a, i, n)
func numCut(a Arr, i int, n int) {
	if a[i] == 45 {
		intCut(a, i+1, n)
	} else {
		intCut(a, i, n)
	}
}

// ---- members of objects ----

// memberEnd is the end of the member whose key starts at j, or -1.
func memberEnd(a Arr, j int, n int) int {
	if strEnd(a, j, n) < 0 || ws(a, strEnd(a, j, n), n) >= n {
		return -1
	}
	return valueEnd(a, ws(a, ws(a, strEnd(a, j, n), n)+1, n), n)
}

// objStep: after a member comes what follows it.
//
//@ lemma
//@ ensures imp(memberEnd(a, j, n) >= 0 && a[ws(a, strEnd(a, j, n), n)] == 58, objMember(a, j, n) == objNext(a, ws(a, memberEnd(a, j, n), n), n))
//@ ensures imp(j < n && a[j] == 34, valueEnd(a, j, n) == strEnd(a, j, n))
func objStep(a Arr, j int, n int) {}

// moreMembers is the number of members announced by commas from j on, where j
// follows a member.
//
//@ decreases n - j
//@ ensures result >= 0
func moreMembers(a Arr, j int, n int) int {
	if j >= n || a[j] != 44 {
		return 0
	}
	if memberEnd(a, ws(a, j+1, n), n) < 0 {
		return 1
	}
	return 1 + moreMembers(a, ws(a, memberEnd(a, ws(a, j+1, n), n), n), n)
}

// objLen is the number of members of the object which starts at i.
func objLen(a Arr, i int, n int) int {
	if ws(a, i+1, n) < n && a[ws(a, i+1, n)] == 125 {
		return 0
	}
	if memberEnd(a, ws(a, i+1, n), n) < 0 {
		return 1
	}
	return 1 + moreMembers(a, ws(a, memberEnd(a, ws(a, i+1, n), n), n), n)
}

// envVar is the value of an environment variable.
//
//@ uninterpreted
func envVar(name Bytes) Bytes { panic("uninterpreted") }

// isTerm: the file descriptor is a terminal.
//
//@ uninterpreted
func isTerm(fd int) bool { panic("uninterpreted") }

// fdOf is the descriptor of an *os.File.
//
//@ uninterpreted
func fdOf(f int) int { panic("uninterpreted") }

// sgrOf is the escape sequence which a fatih color emits before text when it
// is enabled; sgrEnd what it emits after the text; sgrOn: it is enabled.
//
//@ uninterpreted
func sgrOf(c int) Bytes { panic("uninterpreted") }

//@ uninterpreted
func sgrEnd(c int) Bytes { panic("uninterpreted") }

//@ uninterpreted
func sgrOn(c int) bool { panic("uninterpreted") }

// firstAt is the position of the first byte c in s, or -1.
//
//@ uninterpreted
func firstAt(s Bytes, c int) int { panic("uninterpreted") }

// opened: the name under which os.Open opened the file.
//
//@ uninterpreted
func opened(f int) Bytes { panic("uninterpreted") }

// absPath is what filepath.Abs makes of a path.
//
//@ uninterpreted
func absPath(p Bytes) Bytes { panic("uninterpreted") }
