package spec

// ---- input which is read in pieces ----

// The functions xxxStuck tell that what was read, a[i:n), cannot be the
// beginning of anything which starts with a value, whatever follows it, as far
// as the parser notices that.

func expStuck(a Arr, k int, n int) bool {
	if k < n && (a[k] == 101 || a[k] == 69) {
		if k+1 < n && (a[k+1] == 43 || a[k+1] == 45) {
			return k+2 < n && !isDigit(int(a[k+2]))
		}
		return k+1 < n && !isDigit(int(a[k+1]))
	}
	return false
}

func fracStuck(a Arr, k int, n int) bool {
	if k < n && a[k] == 46 {
		return k+1 < n && (!isDigit(int(a[k+1])) || expStuck(a, digEnd(a, k+1, n), n))
	}
	return expStuck(a, k, n)
}

func intStuck(a Arr, k int, n int) bool {
	if k < n && a[k] == 48 {
		return fracStuck(a, k+1, n)
	}
	if k < n && isDigit(int(a[k])) {
		return fracStuck(a, digEnd(a, k, n), n)
	}
	return k < n
}

//@ opaque
//@ decreases 0
//@ ensures imp(result, numEnd(a, i, n) == -1)
func numStuck(a Arr, i int, n int) bool {
	if i < n && a[i] == 45 {
		return intStuck(a, i+1, n)
	}
	return intStuck(a, i, n)
}

// strBad: the content of a string has an error before its end.
//
//@ decreases n - i
//@ ensures imp(result, strScan(a, i, n) == -1)
func strBad(a Arr, i int, n int) bool {
	if i >= n || a[i] == 34 {
		return false
	}
	if a[i] < 32 {
		return true
	}
	if a[i] == 92 {
		if i+1 >= n {
			return false
		}
		if simpleEsc(int(a[i+1])) {
			return strBad(a, i+2, n)
		}
		if a[i+1] == 117 {
			return i+6 <= n && (!hex4(a, i+2) || strBad(a, i+6, n))
		}
		return true
	}
	return strBad(a, i+1, n)
}

// strStuck: a string must start at i; it is looked at when its closing quote may
// be there.
func strStuck(a Arr, i int, n int) bool {
	return i+2 <= n && (a[i] != 34 || idxByte(a, i+1, n, 34) >= 0 && strBad(a, i+1, n))
}

//@ decreases n - i, 0
//@ ensures imp(result, valueEnd(a, i, n) == -1)
func valStuck(a Arr, i int, n int) bool {
	if i >= n {
		return false
	}
	switch a[i] {
	case 123:
		return objFirstStuck(a, ws(a, i+1, n), n)
	case 91:
		return arrFirstStuck(a, ws(a, i+1, n), n)
	case 34:
		return strStuck(a, i, n)
	case 110:
		return i+4 <= n && !litNull(a, i, n)
	case 116:
		return i+4 <= n && !litTrue(a, i, n)
	case 102:
		return i+5 <= n && !litFalse(a, i, n)
	}
	return numStuck(a, i, n)
}

//@ decreases n - j, 2
//@ ensures imp(result, arrFirst(a, j, n) == -1)
func arrFirstStuck(a Arr, j int, n int) bool {
	return j < n && a[j] != 93 && arrElemStuck(a, j, n)
}

//@ decreases n - j, 1
//@ ensures imp(result, arrElem(a, j, n) == -1)
func arrElemStuck(a Arr, j int, n int) bool {
	if valueEnd(a, j, n) < 0 {
		return valStuck(a, j, n)
	}
	return arrNextStuck(a, ws(a, valueEnd(a, j, n), n), n)
}

//@ decreases n - j, 1
//@ ensures imp(result, arrNext(a, j, n) == -1)
func arrNextStuck(a Arr, j int, n int) bool {
	if j >= n || a[j] == 93 {
		return false
	}
	if a[j] == 44 {
		return ws(a, j+1, n) < n && (a[ws(a, j+1, n)] == 93 || arrElemStuck(a, ws(a, j+1, n), n))
	}
	return true
}

//@ decreases n - j, 2
//@ ensures imp(result, objFirst(a, j, n) == -1)
func objFirstStuck(a Arr, j int, n int) bool {
	return j < n && a[j] != 125 && objMemberStuck(a, j, n)
}

//@ decreases n - j, 1
//@ ensures imp(result, objMember(a, j, n) == -1)
func objMemberStuck(a Arr, j int, n int) bool {
	if strEnd(a, j, n) < 0 {
		return strStuck(a, j, n)
	}
	return objColonStuck(a, ws(a, strEnd(a, j, n), n), n)
}

//@ decreases n - j, 1
//@ ensures imp(result, objColon(a, j, n) == -1)
func objColonStuck(a Arr, j int, n int) bool {
	return j < n && (a[j] != 58 || objValueStuck(a, ws(a, j+1, n), n))
}

//@ decreases n - j, 1
//@ ensures imp(result, objValue(a, j, n) == -1)
func objValueStuck(a Arr, j int, n int) bool {
	if valueEnd(a, j, n) < 0 {
		return valStuck(a, j, n)
	}
	return objNextStuck(a, ws(a, valueEnd(a, j, n), n), n)
}

//@ decreases n - j, 1
//@ ensures imp(result, objNext(a, j, n) == -1)
func objNextStuck(a Arr, j int, n int) bool {
	if j >= n || a[j] == 125 {
		return false
	}
	if a[j] == 44 {
		return ws(a, j+1, n) < n && (a[ws(a, j+1, n)] == 125 || objMemberStuck(a, ws(a, j+1, n), n))
	}
	return true
}

func gStuck(m int, a Arr, i int, n int) bool {
	if m == 0 {
		return valStuck(a, i, n)
	}
	if m == 1 {
		return arrFirstStuck(a, i, n)
	}
	if m == 2 {
		return arrElemStuck(a, i, n)
	}
	if m == 3 {
		return arrNextStuck(a, i, n)
	}
	if m == 4 {
		return objFirstStuck(a, i, n)
	}
	if m == 5 {
		return objMemberStuck(a, i, n)
	}
	if m == 6 {
		return objColonStuck(a, i, n)
	}
	if m == 7 {
		return objValueStuck(a, i, n)
	}
	return objNextStuck(a, i, n)
}

// same: a[i:n) stands in x, d further.
//
//@ decreases n - i
func same(a Arr, i int, n int, x Arr, d int) bool {
	return i >= n || a[i] == x[i+d] && same(a, i+1, n, x, d)
}

// sameFrom: so does every end of it.
//
//@ lemma
//@ decreases j - i
//@ requires same(a, i, n, x, d) && i <= j
//@ ensures same(a, j, n, x, d)
//@ ensures imp(j < n, a[j] == x[j+d])
func sameFrom(a Arr, i int, j int, n int, x Arr, d int) {
	if i < j && i < n {
		sameFrom(a, i+1, j, n, x, d)
	}
}

// sameTo: so does every beginning of it.
//
//@ lemma
//@ decreases e - i
//@ requires same(a, i, n, x, d) && e <= n
//@ ensures same(a, i, e, x, d)
func sameTo(a Arr, i int, e int, n int, x Arr, d int) {
	if i < e {
		sameTo(a, i+1, e, n, x, d)
	}
}

// sameSub: equal texts are the same.
//
//@ lemma
//@ decreases n - i
//@ requires i <= n && sub(a, i, n) == sub(x, i+d, n+d)
//@ ensures same(a, i, n, x, d)
func sameSub(a Arr, i int, n int, x Arr, d int) {
	if i < n {
		assert(a[i] == sub(a, i, n)[0])
		assert(x[i+d] == sub(x, i+d, n+d)[0])
		assert(sub(a, i+1, n) == sub(a, i, n)[1:])
		assert(sub(x, i+1+d, n+d) == sub(x, i+d, n+d)[1:])
		sameSub(a, i+1, n, x, d)
	}
}

// subJoin: a text is its parts.
//
//@ lemma
//@ decreases j - i
//@ requires i <= j && j <= k
//@ ensures sub(a, i, k) == sub(a, i, j) + sub(a, j, k)
func subJoin(a Arr, i int, j int, k int) {
	if i < j {
		assert(sub(a, i, k) == unit(int(a[i])) + sub(a, i+1, k))
		assert(sub(a, i, j) == unit(int(a[i])) + sub(a, i+1, j))
		subJoin(a, i+1, j, k)
	}
}

// subPart: a part of a part is a part.
//
//@ lemma
//@ requires 0 <= p && p <= q && i+q <= k
//@ ensures sub(a, i, k)[p:q] == sub(a, i+p, i+q)
func subPart(a Arr, i int, k int, p int, q int) {
	subJoin(a, i, i+p, k)
	subJoin(a, i+p, i+q, k)
}

// moved is the place e, d further; a negative e is none.
func moved(e int, d int) int {
	if e < 0 {
		return e
	}
	return e + d
}

//@ lemma
//@ requires s == sub(a, i, k) && 0 <= p && p <= q && i+q <= k
//@ ensures s[p:q] == sub(a, i+p, i+q)
func subOf(s Bytes, a Arr, i int, k int, p int, q int) {
	subPart(a, i, k, p, q)
}

//@ lemma
//@ decreases n - i
//@ requires same(a, i, n, x, d) && 0 <= i+d && i <= n && n+d <= m
//@ ensures imp(ws(a, i, n) < n, ws(x, i+d, m) == ws(a, i, n)+d)
//@ ensures imp(ws(a, i, n) == n, ws(x, i+d, m) == ws(x, n+d, m))
//@ ensures same(a, ws(a, i, n), n, x, d)
//@ ensures imp(m == n+d, ws(x, i+d, m) == ws(a, i, n)+d)
func wsExt(a Arr, i int, n int, x Arr, d int, m int) {
	if i < n && isWS(int(a[i])) {
		wsExt(a, i+1, n, x, d, m)
	}
}

//@ lemma
//@ decreases n - i
//@ requires same(a, i, n, x, d) && 0 <= i+d && i <= n && n+d <= m
//@ ensures imp(digEnd(a, i, n) < n, digEnd(x, i+d, m) == digEnd(a, i, n)+d)
//@ ensures imp(digEnd(a, i, n) == n, digEnd(x, i+d, m) >= n+d)
//@ ensures same(a, digEnd(a, i, n), n, x, d)
//@ ensures imp(m == n+d, digEnd(x, i+d, m) == digEnd(a, i, n)+d)
func digExt(a Arr, i int, n int, x Arr, d int, m int) {
	if i < n && isDigit(int(a[i])) {
		digExt(a, i+1, n, x, d, m)
	}
}

//@ lemma
//@ requires same(a, k, n, x, d) && 0 <= k+d && 0 <= k && k <= n && n+d <= m
//@ ensures imp(expEnd(a, k, n) >= 0 && expEnd(a, k, n) < n, expEnd(x, k+d, m) == expEnd(a, k, n)+d)
//@ ensures imp(expStuck(a, k, n), expStuck(x, k+d, m))
//@ ensures imp(m == n+d, expEnd(x, k+d, m) == moved(expEnd(a, k, n), d))
//@ ensures imp(m == n+d, expStuck(x, k+d, m) == expStuck(a, k, n))
func expExt(a Arr, k int, n int, x Arr, d int, m int) {
	sameFrom(a, k, k+1, n, x, d)
	sameFrom(a, k, k+2, n, x, d)
	if k+1 < n {
		digExt(a, k+1, n, x, d, m)
	}
	if k+2 < n {
		digExt(a, k+2, n, x, d, m)
	}
}

//@ lemma
//@ requires same(a, k, n, x, d) && 0 <= k+d && 0 <= k && k <= n && n+d <= m
//@ ensures imp(fracEnd(a, k, n) >= 0 && fracEnd(a, k, n) < n, fracEnd(x, k+d, m) == fracEnd(a, k, n)+d)
//@ ensures imp(fracStuck(a, k, n), fracStuck(x, k+d, m))
//@ ensures imp(m == n+d, fracEnd(x, k+d, m) == moved(fracEnd(a, k, n), d))
//@ ensures imp(m == n+d, fracStuck(x, k+d, m) == fracStuck(a, k, n))
func fracExt(a Arr, k int, n int, x Arr, d int, m int) {
	sameFrom(a, k, k+1, n, x, d)
	expExt(a, k, n, x, d, m)
	if k+1 < n {
		digExt(a, k+1, n, x, d, m)
		expExt(a, digEnd(a, k+1, n), n, x, d, m)
	}
}

//@ lemma
//@ requires same(a, k, n, x, d) && 0 <= k+d && 0 <= k && k <= n && n+d <= m
//@ ensures imp(intEnd(a, k, n) >= 0 && intEnd(a, k, n) < n, intEnd(x, k+d, m) == intEnd(a, k, n)+d)
//@ ensures imp(intStuck(a, k, n), intStuck(x, k+d, m))
//@ ensures imp(m == n+d, intEnd(x, k+d, m) == moved(intEnd(a, k, n), d))
//@ ensures imp(m == n+d, intStuck(x, k+d, m) == intStuck(a, k, n))
func intExt(a Arr, k int, n int, x Arr, d int, m int) {
	if k < n {
		sameFrom(a, k, k+1, n, x, d)
		fracExt(a, k+1, n, x, d, m)
		digExt(a, k, n, x, d, m)
		fracExt(a, digEnd(a, k, n), n, x, d, m)
	}
}

//@ lemma
//@ requires same(a, i, n, x, d) && 0 <= i+d && 0 <= i && i <= n && n+d <= m
//@ ensures imp(numEnd(a, i, n) >= 0 && numEnd(a, i, n) < n, numEnd(x, i+d, m) == numEnd(a, i, n)+d)
//@ ensures imp(numStuck(a, i, n), numStuck(x, i+d, m))
//@ ensures imp(m == n+d, numEnd(x, i+d, m) == moved(numEnd(a, i, n), d))
//@ ensures imp(m == n+d, numStuck(x, i+d, m) == numStuck(a, i, n))
func numExt(a Arr, i int, n int, x Arr, d int, m int) {
	if i < n {
		sameFrom(a, i, i+1, n, x, d)
		intExt(a, i+1, n, x, d, m)
		intExt(a, i, n, x, d, m)
	}
}

//@ lemma
//@ decreases n - i
//@ requires 0 <= i && i <= n
//@ ensures imp(digEnd(a, i, n) > i, isDigit(a[digEnd(a, i, n)-1]))
func digLast(a Arr, i int, n int) {
	if i < n {
		digLast(a, i+1, n)
	}
}

//@ lemma
//@ requires 0 <= k && k <= n && expEnd(a, k, n) > k
//@ ensures isDigit(a[expEnd(a, k, n)-1])
func expLast(a Arr, k int, n int) {
	if k+2 <= n {
		digLast(a, k+2, n)
	}
	digLast(a, k+1, n)
}

//@ lemma
//@ requires 0 <= k && k <= n && fracEnd(a, k, n) > k
//@ ensures isDigit(a[fracEnd(a, k, n)-1])
func fracLast(a Arr, k int, n int) {
	if a[k] == 46 {
		digLast(a, k+1, n)
		if expEnd(a, digEnd(a, k+1, n), n) > digEnd(a, k+1, n) {
			expLast(a, digEnd(a, k+1, n), n)
		}
	} else {
		expLast(a, k, n)
	}
}

//@ lemma
//@ requires 0 <= k && k <= n && intEnd(a, k, n) >= 0
//@ ensures isDigit(a[intEnd(a, k, n)-1])
func intLast(a Arr, k int, n int) {
	digLast(a, k, n)
	if fracEnd(a, k+1, n) > k+1 {
		fracLast(a, k+1, n)
	}
	if fracEnd(a, digEnd(a, k, n), n) > digEnd(a, k, n) {
		fracLast(a, digEnd(a, k, n), n)
	}
}

// numLast: a number ends with a digit.
//
//@ lemma
//@ requires 0 <= i && i < n && numEnd(a, i, n) >= 0
//@ ensures isDigit(a[numEnd(a, i, n)-1])
func numLast(a Arr, i int, n int) {
	if a[i] == 45 {
		intLast(a, i+1, n)
	} else {
		intLast(a, i, n)
	}
}

//@ lemma
//@ decreases n - i
//@ requires same(a, i, n, x, d) && 0 <= i+d && 0 <= i && i <= n && n+d <= m
//@ ensures imp(idxByte(a, i, n, c) >= 0, idxByte(x, i+d, m, c) == idxByte(a, i, n, c)+d)
//@ ensures imp(m == n+d, idxByte(x, i+d, m, c) == moved(idxByte(a, i, n, c), d))
func idxExt(a Arr, i int, n int, c int, x Arr, d int, m int) {
	if i < n {
		idxExt(a, i+1, n, c, x, d, m)
	}
}

//@ lemma
//@ decreases n - i
//@ requires same(a, i, n, x, d) && 0 <= i+d && 0 <= i && i <= n && n+d <= m
//@ ensures imp(strScan(a, i, n) >= 0, strScan(x, i+d, m) == strScan(a, i, n)+d)
//@ ensures imp(strBad(a, i, n), strBad(x, i+d, m))
//@ ensures imp(m == n+d, strScan(x, i+d, m) == moved(strScan(a, i, n), d))
//@ ensures imp(m == n+d, strBad(x, i+d, m) == strBad(a, i, n))
func strExt(a Arr, i int, n int, x Arr, d int, m int) {
	if i < n {
		sameFrom(a, i, i+1, n, x, d)
		if a[i] == 92 {
			if i+2 <= n {
				sameFrom(a, i, i+2, n, x, d)
				strExt(a, i+2, n, x, d, m)
			}
			if i+6 <= n {
				sameFrom(a, i, i+3, n, x, d)
				sameFrom(a, i, i+4, n, x, d)
				sameFrom(a, i, i+5, n, x, d)
				sameFrom(a, i, i+6, n, x, d)
				strExt(a, i+6, n, x, d, m)
			}
		} else {
			strExt(a, i+1, n, x, d, m)
		}
	}
}

// valExt: what was found at the beginning of a text, reading its part a[i:n), is
// there in the whole, x up to m.
//
//@ lemma
//@ decreases n - i, gRank(k)
//@ requires same(a, i, n, x, d) && 0 <= i+d && 0 <= i && i <= n && n+d <= m && 0 <= k
//@ ensures imp(gEnd(k, a, i, n) >= 0 && (gEnd(k, a, i, n) < n || !isDigit(a[n-1])), gEnd(k, x, i+d, m) == gEnd(k, a, i, n)+d)
//@ ensures imp(k > 0 && gEnd(k, a, i, n) >= 0, !isDigit(a[gEnd(k, a, i, n)-1]))
//@ ensures imp(gStuck(k, a, i, n), gStuck(k, x, i+d, m))
func valExt(k int, a Arr, i int, n int, x Arr, d int, m int) {
	if i < n {
		sameFrom(a, i, i, n, x, d)
		sameFrom(a, i, i+1, n, x, d)
		wsExt(a, i+1, n, x, d, m)
		if k == 0 {
			if a[i] == 123 {
				valExt(4, a, ws(a, i+1, n), n, x, d, m)
			} else if a[i] == 91 {
				valExt(1, a, ws(a, i+1, n), n, x, d, m)
			} else if a[i] == 34 {
				strExt(a, i+1, n, x, d, m)
				idxExt(a, i+1, n, 34, x, d, m)
			} else if a[i] == 110 || a[i] == 116 || a[i] == 102 {
				sameFrom(a, i, i+2, n, x, d)
				sameFrom(a, i, i+3, n, x, d)
				sameFrom(a, i, i+4, n, x, d)
			} else {
				numExt(a, i, n, x, d, m)
				if numEnd(a, i, n) >= 0 {
					numLast(a, i, n)
				}
			}
		} else if k == 1 {
			if a[i] != 93 {
				valExt(2, a, i, n, x, d, m)
			}
		} else if k == 2 {
			valExt(0, a, i, n, x, d, m)
			if valueEnd(a, i, n) >= 0 {
				sameFrom(a, i, valueEnd(a, i, n), n, x, d)
				wsExt(a, valueEnd(a, i, n), n, x, d, m)
				valExt(3, a, ws(a, valueEnd(a, i, n), n), n, x, d, m)
			}
		} else if k == 3 {
			if a[i] == 44 {
				sameFrom(a, i+1, ws(a, i+1, n), n, x, d)
				valExt(2, a, ws(a, i+1, n), n, x, d, m)
			}
		} else if k == 4 {
			if a[i] != 125 {
				valExt(5, a, i, n, x, d, m)
			}
		} else if k == 5 {
			strExt(a, i+1, n, x, d, m)
			idxExt(a, i+1, n, 34, x, d, m)
			if strEnd(a, i, n) >= 0 {
				sameFrom(a, i, strEnd(a, i, n), n, x, d)
				wsExt(a, strEnd(a, i, n), n, x, d, m)
				valExt(6, a, ws(a, strEnd(a, i, n), n), n, x, d, m)
			}
		} else if k == 6 {
			valExt(7, a, ws(a, i+1, n), n, x, d, m)
		} else if k == 7 {
			valExt(0, a, i, n, x, d, m)
			if valueEnd(a, i, n) >= 0 {
				sameFrom(a, i, valueEnd(a, i, n), n, x, d)
				wsExt(a, valueEnd(a, i, n), n, x, d, m)
				valExt(8, a, ws(a, valueEnd(a, i, n), n), n, x, d, m)
			}
		} else {
			if a[i] == 44 {
				sameFrom(a, i+1, ws(a, i+1, n), n, x, d)
				valExt(5, a, ws(a, i+1, n), n, x, d, m)
			}
		}
	}
}

// valSame: two texts which are the same have the same value at the beginning.
//
//@ lemma
//@ decreases n - i, gRank(k)
//@ requires same(a, i, n, x, d) && 0 <= i+d && 0 <= i && i <= n && 0 <= k
//@ ensures gEnd(k, x, i+d, n+d) == moved(gEnd(k, a, i, n), d)
//@ ensures gStuck(k, x, i+d, n+d) == gStuck(k, a, i, n)
func valSame(k int, a Arr, i int, n int, x Arr, d int) {
	if i < n {
		sameFrom(a, i, i, n, x, d)
		sameFrom(a, i, i+1, n, x, d)
		wsExt(a, i+1, n, x, d, n+d)
		if k == 0 {
			if a[i] == 123 {
				valSame(4, a, ws(a, i+1, n), n, x, d)
			} else if a[i] == 91 {
				valSame(1, a, ws(a, i+1, n), n, x, d)
			} else if a[i] == 34 {
				strExt(a, i+1, n, x, d, n+d)
				idxExt(a, i+1, n, 34, x, d, n+d)
			} else if a[i] == 110 || a[i] == 116 || a[i] == 102 {
				sameFrom(a, i, i+2, n, x, d)
				sameFrom(a, i, i+3, n, x, d)
				sameFrom(a, i, i+4, n, x, d)
			} else {
				numExt(a, i, n, x, d, n+d)
			}
		} else if k == 1 {
			if a[i] != 93 {
				valSame(2, a, i, n, x, d)
			}
		} else if k == 2 {
			valSame(0, a, i, n, x, d)
			if valueEnd(a, i, n) >= 0 {
				sameFrom(a, i, valueEnd(a, i, n), n, x, d)
				wsExt(a, valueEnd(a, i, n), n, x, d, n+d)
				valSame(3, a, ws(a, valueEnd(a, i, n), n), n, x, d)
			}
		} else if k == 3 {
			if a[i] == 44 {
				sameFrom(a, i+1, ws(a, i+1, n), n, x, d)
				valSame(2, a, ws(a, i+1, n), n, x, d)
			}
		} else if k == 4 {
			if a[i] != 125 {
				valSame(5, a, i, n, x, d)
			}
		} else if k == 5 {
			strExt(a, i+1, n, x, d, n+d)
			idxExt(a, i+1, n, 34, x, d, n+d)
			if strEnd(a, i, n) >= 0 {
				sameFrom(a, i, strEnd(a, i, n), n, x, d)
				wsExt(a, strEnd(a, i, n), n, x, d, n+d)
				valSame(6, a, ws(a, strEnd(a, i, n), n), n, x, d)
			}
		} else if k == 6 {
			valSame(7, a, ws(a, i+1, n), n, x, d)
		} else if k == 7 {
			valSame(0, a, i, n, x, d)
			if valueEnd(a, i, n) >= 0 {
				sameFrom(a, i, valueEnd(a, i, n), n, x, d)
				wsExt(a, valueEnd(a, i, n), n, x, d, n+d)
				valSame(8, a, ws(a, valueEnd(a, i, n), n), n, x, d)
			}
		} else {
			if a[i] == 44 {
				sameFrom(a, i+1, ws(a, i+1, n), n, x, d)
				valSame(5, a, ws(a, i+1, n), n, x, d)
			}
		}
	}
}

// partVal: what the part of a stream which was read so far, a[i:n), tells about
// the value which begins there.
//
//@ lemma
//@ requires same(a, i, n, x, o-i) && 0 <= o && 0 <= i && i < n && n+o-i <= m && !isWS(int(a[i]))
//@ ensures ws(x, o, m) == o
//@ ensures imp(valueEnd(a, i, n) >= 0 && (valueEnd(a, i, n) < n || !isDigit(int(a[n-1]))), valueEnd(x, o, m) == valueEnd(a, i, n)+o-i)
//@ ensures imp(valStuck(a, i, n), valStuck(x, o, m))
//@ ensures imp(n+o-i == m, valueEnd(x, o, m) == moved(valueEnd(a, i, n), o-i) && valStuck(x, o, m) == valStuck(a, i, n))
//@ ensures imp(n+o-i == m, a[n-1] == x[m-1])
//@ ensures imp(valueEnd(a, i, n) >= 0, same(a, i, valueEnd(a, i, n), x, o-i))
//@ ensures imp(valueEnd(a, i, n) >= 0, ws(a, valueEnd(a, i, n), n)+o-i <= ws(x, valueEnd(a, i, n)+o-i, m))
//@ ensures imp(valueEnd(a, i, n) >= 0, sub(x, o, n+o-i)[ws(a, valueEnd(a, i, n), n)-i:] == sub(x, ws(a, valueEnd(a, i, n), n)+o-i, n+o-i))
func partVal(a Arr, i int, n int, x Arr, o int, m int) {
	sameFrom(a, i, i, n, x, o-i)
	sameFrom(a, i, n-1, n, x, o-i)
	valExt(0, a, i, n, x, o-i, m)
	valSame(0, a, i, n, x, o-i)
	if valueEnd(a, i, n) >= 0 {
		sameTo(a, i, valueEnd(a, i, n), n, x, o-i)
		sameFrom(a, i, valueEnd(a, i, n), n, x, o-i)
		wsExt(a, valueEnd(a, i, n), n, x, o-i, m)
		subPart(x, o, n+o-i, ws(a, valueEnd(a, i, n), n)-i, n-i)
	}
}

// noVal: there is no value at the end.
//
//@ lemma
//@ ensures ws(x, n, n) == n && valueEnd(x, n, n) == -1 && !valStuck(x, n, n)
func noVal(x Arr, n int) {}

// stream is what a reader gives until it reports an error, streamLen its length.
//
//@ uninterpreted
func stream(r int) Arr { panic("uninterpreted") }

//@ uninterpreted
func streamLen(r int) int { panic("uninterpreted") }

// streamErr is the error which a reader reports at the end.
//
//@ uninterpreted
func streamErr(r int) int { panic("uninterpreted") }

// errIs is errors.Is.
//
//@ uninterpreted
func errIs(e int, target int) bool { panic("uninterpreted") }

// readerText is what a bytes.Reader gives.
//
//@ uninterpreted
func readerText(r int) Bytes { panic("uninterpreted") }
