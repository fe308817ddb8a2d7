package spec

// ---- raw JSON ----

// lineSep: U+2028 or U+2029 stands at i.
func lineSep(a Arr, i int, n int) bool {
	return a[i] == 226 && i+2 < n && a[i+1] == 128 && (a[i+2] == 168 || a[i+2] == 169)
}

// comp is a[i:n] without white space outside of strings and with <, >, &,
// U+2028 and U+2029 inside of strings escaped; in and back tell whether i is
// inside of a string and right after a backslash.
//
//@ decreases n - i
//@ requires 0 <= i
func comp(a Arr, i int, n int, in bool, back bool) Bytes {
	if i >= n {
		return ""
	}
	if !in {
		if a[i] == 34 {
			return unit(int(a[i])) + comp(a, i+1, n, true, false)
		}
		if isWS(int(a[i])) {
			return comp(a, i+1, n, false, false)
		}
		return unit(int(a[i])) + comp(a, i+1, n, false, false)
	}
	if back {
		return unit(int(a[i])) + comp(a, i+1, n, true, false)
	}
	if a[i] == 92 {
		return unit(int(a[i])) + comp(a, i+1, n, true, true)
	}
	if a[i] == 34 {
		return unit(int(a[i])) + comp(a, i+1, n, false, false)
	}
	if a[i] == 60 || a[i] == 62 || a[i] == 38 {
		return "\\u00" + unit(hexChar(int(a[i])/16)) + unit(hexChar(int(a[i])%16)) + comp(a, i+1, n, true, false)
	}
	if lineSep(a, i, n) {
		return "\\u202" + unit(hexChar(int(a[i+2])%16)) + comp(a, i+3, n, true, false)
	}
	return unit(int(a[i])) + comp(a, i+1, n, true, false)
}

// The tokens of a text a[lo:hi], counted from 0; k tokens have been read.

// rpos is where the first k tokens end.
//
//@ decreases k
func rpos(a Arr, lo int, hi int, k int) int {
	if k <= 0 {
		return lo
	}
	return tokEnd(a, ws(a, rpos(a, lo, hi, k-1), hi), hi)
}

// rchar is the first character of the token k.
func rchar(a Arr, lo int, hi int, k int) int {
	return int(a[ws(a, rpos(a, lo, hi, k), hi)])
}

// rtext is the text of the token k.
func rtext(a Arr, lo int, hi int, k int) Bytes {
	return sub(a, ws(a, rpos(a, lo, hi, k), hi), tokEnd(a, ws(a, rpos(a, lo, hi, k), hi), hi))
}

func opening(c int) bool { return c == 123 || c == 91 }
func closing(c int) bool { return c == 125 || c == 93 }

// rdep is the nesting depth after k tokens.
//
//@ decreases k
func rdep(a Arr, lo int, hi int, k int) int {
	if k <= 0 {
		return 0
	}
	if opening(rchar(a, lo, hi, k-1)) {
		return rdep(a, lo, hi, k-1) + 1
	}
	if closing(rchar(a, lo, hi, k-1)) {
		return rdep(a, lo, hi, k-1) - 1
	}
	return rdep(a, lo, hi, k-1)
}

// robj: after k tokens the container at depth j is an object.
//
//@ decreases k
func robj(a Arr, lo int, hi int, k int, j int) bool {
	if k <= 0 {
		return false
	}
	if opening(rchar(a, lo, hi, k-1)) && j == rdep(a, lo, hi, k-1) {
		return rchar(a, lo, hi, k-1) == 123
	}
	return robj(a, lo, hi, k-1, j)
}

// rkey: a string as token k is a key.
//
//@ decreases k
func rkey(a Arr, lo int, hi int, k int) bool {
	if k <= 0 {
		return false
	}
	if rchar(a, lo, hi, k-1) == 123 {
		return true
	}
	if rchar(a, lo, hi, k-1) == 125 || rchar(a, lo, hi, k-1) == 58 {
		return false
	}
	if rchar(a, lo, hi, k-1) == 44 && robj(a, lo, hi, k-1, rdep(a, lo, hi, k-1)-1) {
		return true
	}
	return rkey(a, lo, hi, k-1)
}

// rstarts: the token k starts an element of an array or a member.
func rstarts(a Arr, lo int, hi int, k int) bool {
	return !closing(rchar(a, lo, hi, k)) && rchar(a, lo, hi, k) != 44 && rchar(a, lo, hi, k) != 58 && rdep(a, lo, hi, k) > 0 &&
		(!robj(a, lo, hi, k, rdep(a, lo, hi, k)-1) || !opening(rchar(a, lo, hi, k)) && rkey(a, lo, hi, k))
}

// rcnt is the number of elements started in the container at depth j.
//
//@ decreases k
func rcnt(a Arr, lo int, hi int, k int, j int) int {
	if k <= 0 {
		return 0
	}
	if opening(rchar(a, lo, hi, k-1)) && j == rdep(a, lo, hi, k-1) {
		return 0
	}
	if rstarts(a, lo, hi, k-1) && j == rdep(a, lo, hi, k-1)-1 {
		return rcnt(a, lo, hi, k-1, j) + 1
	}
	return rcnt(a, lo, hi, k-1, j)
}

// rline is a new line at the depth d.
func rline(off bool, pre Bytes, ind Bytes, d int) Bytes {
	if off {
		return ""
	}
	return "\n" + pre + rep(ind, d)
}

// rkind is the kind of the token k.
func rkind(a Arr, lo int, hi int, k int) int {
	if rkey(a, lo, hi, k) {
		return 5
	}
	if rchar(a, lo, hi, k) == 34 {
		return 4
	}
	if rchar(a, lo, hi, k) == 116 || rchar(a, lo, hi, k) == 102 {
		return 2
	}
	if rchar(a, lo, hi, k) == 110 {
		return 1
	}
	return 3
}

// rword is what the token k, no delimiter, is written as.
func rword(a Arr, lo int, hi int, html bool, k int) Bytes {
	if html && rchar(a, lo, hi, k) == 34 {
		return comp(a, ws(a, rpos(a, lo, hi, k), hi), tokEnd(a, ws(a, rpos(a, lo, hi, k), hi), hi), false, false)
	}
	return rtext(a, lo, hi, k)
}

// punc is a delimiter.
func punc(c int) Bytes {
	if c == 123 || c == 125 {
		return item(9, unit(c))
	}
	if c == 91 || c == 93 {
		return item(8, unit(c))
	}
	if c == 44 {
		return item(10, unit(c))
	}
	return item(11, unit(c))
}

// rlead is what comes before the token k.
func rlead(a Arr, lo int, hi int, off bool, pre Bytes, ind Bytes, d int, k int) Bytes {
	if !rstarts(a, lo, hi, k) {
		return ""
	}
	if rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1) > 0 {
		return item(10, ",") + item(0, rline(off, pre, ind, d+rdep(a, lo, hi, k)))
	}
	return item(0, rline(off, pre, ind, d+rdep(a, lo, hi, k)))
}

// rone is what is written for the token k.
func rone(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int) Bytes {
	if rchar(a, lo, hi, k) == 58 {
		if off {
			return punc(58)
		}
		return punc(58) + item(0, " ")
	}
	if rchar(a, lo, hi, k) == 44 {
		return ""
	}
	if closing(rchar(a, lo, hi, k)) {
		if rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1) > 0 {
			return item(0, rline(off, pre, ind, d+rdep(a, lo, hi, k)-1)) + punc(rchar(a, lo, hi, k))
		}
		return punc(rchar(a, lo, hi, k))
	}
	if opening(rchar(a, lo, hi, k)) {
		return rlead(a, lo, hi, off, pre, ind, d, k) + punc(rchar(a, lo, hi, k))
	}
	return rlead(a, lo, hi, off, pre, ind, d, k) + item(rkind(a, lo, hi, k), rword(a, lo, hi, html, k))
}

// rawItems is what is written for the first k tokens.
//
//@ decreases k
func rawItems(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int) Bytes {
	if k <= 0 {
		return ""
	}
	return rawItems(a, lo, hi, html, off, pre, ind, d, k-1) + rone(a, lo, hi, html, off, pre, ind, d, k-1)
}

// nTok is the number of tokens of a[i:n].
//
//@ decreases n - i
//@ requires 0 <= i
//@ ensures 0 <= result
func nTok(a Arr, i int, n int) int {
	if ws(a, i, n) >= n {
		return 0
	}
	if tokEnd(a, ws(a, i, n), n) < 0 {
		return 0
	}
	return 1 + nTok(a, tokEnd(a, ws(a, i, n), n), n)
}

// ---- well-formed values as runs of tokens ----

// gEnd: the ends of the parts of a value (valueEnd, ..., objNext).
func gEnd(m int, a Arr, i int, n int) int {
	if m == 0 {
		return valueEnd(a, i, n)
	}
	if m == 1 {
		return arrFirst(a, i, n)
	}
	if m == 2 {
		return arrElem(a, i, n)
	}
	if m == 3 {
		return arrNext(a, i, n)
	}
	if m == 4 {
		return objFirst(a, i, n)
	}
	if m == 5 {
		return objMember(a, i, n)
	}
	if m == 6 {
		return objColon(a, i, n)
	}
	if m == 7 {
		return objValue(a, i, n)
	}
	return objNext(a, i, n)
}

func gRank(m int) int {
	if m == 0 {
		return 0
	}
	if m == 1 || m == 4 {
		return 2
	}
	return 1
}

// wsTo, strTo, ..., valTo: what ends before e ends there in a text cut at e.
//
//@ lemma
//@ decreases n - i
//@ requires 0 <= i && e <= n
//@ requires ws(a, i, n) <= e
//@ ensures ws(a, i, e) == ws(a, i, n)
func wsTo(a Arr, i int, e int, n int) {
	if i < e && isWS(int(a[i])) {
		wsTo(a, i+1, e, n)
	}
}

//@ lemma
//@ decreases n - i
//@ requires 0 <= i && i <= n && e <= n
//@ requires strScan(a, i, n) >= 0 && strScan(a, i, n) <= e
//@ ensures strScan(a, i, e) == strScan(a, i, n)
func strTo(a Arr, i int, e int, n int) {
	if i < n && a[i] != 34 {
		if a[i] != 92 {
			strTo(a, i+1, e, n)
		} else if a[i+1] == 117 {
			strTo(a, i+6, e, n)
		} else {
			strTo(a, i+2, e, n)
		}
	}
}

//@ lemma
//@ requires 0 <= k && k <= e && e <= n
//@ requires expEnd(a, k, n) >= 0 && expEnd(a, k, n) <= e
//@ ensures expEnd(a, k, n) >= k
//@ ensures expEnd(a, k, e) == expEnd(a, k, n)
func expTo(a Arr, k int, e int, n int) {
	if expEnd(a, k, n) > k+1 {
		if a[k+1] == 43 || a[k+1] == 45 {
			digCut(a, k+2, e, n)
		} else {
			digCut(a, k+1, e, n)
		}
	}
}

//@ lemma
//@ requires 0 <= k && k <= e && e <= n
//@ requires fracEnd(a, k, n) >= 0 && fracEnd(a, k, n) <= e
//@ ensures fracEnd(a, k, n) >= k
//@ ensures fracEnd(a, k, e) == fracEnd(a, k, n)
func fracTo(a Arr, k int, e int, n int) {
	if k < n && a[k] == 46 {
		expCut(a, digEnd(a, k+1, n), n)
		expTo(a, digEnd(a, k+1, n), e, n)
		digCut(a, k+1, e, n)
	} else {
		expTo(a, k, e, n)
	}
}

//@ lemma
//@ requires 0 <= k && k <= e && e <= n
//@ requires intEnd(a, k, n) >= 0 && intEnd(a, k, n) <= e
//@ ensures intEnd(a, k, e) == intEnd(a, k, n)
func intTo(a Arr, k int, e int, n int) {
	if a[k] == 48 {
		fracCut(a, k+1, n)
		fracTo(a, k+1, e, n)
	} else {
		fracCut(a, digEnd(a, k, n), n)
		fracTo(a, digEnd(a, k, n), e, n)
		digCut(a, k, e, n)
	}
}

//@ lemma
//@ requires 0 <= i && i <= e && e <= n
//@ requires numEnd(a, i, n) >= 0 && numEnd(a, i, n) <= e
//@ ensures numEnd(a, i, e) == numEnd(a, i, n)
func numTo(a Arr, i int, e int, n int) {
	if a[i] == 45 {
		intTo(a, i+1, e, n)
	} else {
		intTo(a, i, e, n)
	}
}

//@ lemma
//@ decreases n - i, gRank(m)
//@ requires 0 <= i && e <= n && 0 <= m
//@ requires gEnd(m, a, i, n) >= 0 && gEnd(m, a, i, n) <= e
//@ ensures gEnd(m, a, i, e) == gEnd(m, a, i, n)
func valTo(m int, a Arr, i int, e int, n int) {
	if m == 0 {
		if a[i] == 123 {
			wsTo(a, i+1, e, n)
			valTo(4, a, ws(a, i+1, n), e, n)
		} else if a[i] == 91 {
			wsTo(a, i+1, e, n)
			valTo(1, a, ws(a, i+1, n), e, n)
		} else if a[i] == 34 {
			strTo(a, i+1, e, n)
		} else if a[i] != 110 && a[i] != 116 && a[i] != 102 {
			numTo(a, i, e, n)
		}
	} else if m == 1 {
		if a[i] != 93 {
			valTo(2, a, i, e, n)
		}
	} else if m == 2 {
		valTo(0, a, i, e, n)
		wsTo(a, valueEnd(a, i, n), e, n)
		valTo(3, a, ws(a, valueEnd(a, i, n), n), e, n)
	} else if m == 3 {
		if a[i] == 44 {
			wsTo(a, i+1, e, n)
			valTo(2, a, ws(a, i+1, n), e, n)
		}
	} else if m == 4 {
		if a[i] != 125 {
			valTo(5, a, i, e, n)
		}
	} else if m == 5 {
		strTo(a, i+1, e, n)
		wsTo(a, strEnd(a, i, n), e, n)
		valTo(6, a, ws(a, strEnd(a, i, n), n), e, n)
	} else if m == 6 {
		wsTo(a, i+1, e, n)
		valTo(7, a, ws(a, i+1, n), e, n)
	} else if m == 7 {
		valTo(0, a, i, e, n)
		wsTo(a, valueEnd(a, i, n), e, n)
		valTo(8, a, ws(a, valueEnd(a, i, n), n), e, n)
	} else {
		if a[i] == 44 {
			wsTo(a, i+1, e, n)
			valTo(5, a, ws(a, i+1, n), e, n)
		}
	}
}

// rok: the first k tokens are well-formed and the closing ones match.
//
//@ decreases k
func rok(a Arr, lo int, hi int, k int) bool {
	if k <= 0 {
		return true
	}
	if !rok(a, lo, hi, k-1) || ws(a, rpos(a, lo, hi, k-1), hi) >= hi || rpos(a, lo, hi, k) < 0 {
		return false
	}
	if closing(rchar(a, lo, hi, k-1)) {
		return rdep(a, lo, hi, k-1) > 0 && robj(a, lo, hi, k-1, rdep(a, lo, hi, k-1)-1) == (rchar(a, lo, hi, k-1) == 125)
	}
	return rchar(a, lo, hi, k-1) != 44 || rdep(a, lo, hi, k-1) > 0
}

// rokFirst: so are fewer.
//
//@ lemma
//@ decreases q - k
//@ requires 0 <= k && k <= q
//@ requires rok(a, lo, hi, q)
//@ ensures rok(a, lo, hi, k)
func rokFirst(a Arr, lo int, hi int, k int, q int) {
	if k < q {
		rokFirst(a, lo, hi, k+1, q)
	}
}

// rlast is the number of tokens read when those of a[i:e] have been, too.
func rlast(a Arr, k int, i int, e int, n int) int {
	return k + nTok(a, i, n) - nTok(a, e, n)
}

// tokRun: the tokens of a part of a value match, and leave the nesting as it
// was at the start of the value.
//
//@ lemma
//@ decreases n - i, gRank(m)
//@ requires 0 <= lo && 0 <= k && 0 <= m && lo <= rpos(a, lo, n, k)
//@ requires ws(a, rpos(a, lo, n, k), n) == i
//@ requires rok(a, lo, n, k) && 0 <= rdep(a, lo, n, k)
//@ requires gEnd(m, a, i, n) >= 0
//@ requires imp(m > 0, rdep(a, lo, n, k) > 0 && robj(a, lo, n, k, rdep(a, lo, n, k)-1) == (m > 3))
//@ ensures rlast(a, k, i, gEnd(m, a, i, n), n) > k
//@ ensures rpos(a, lo, n, rlast(a, k, i, gEnd(m, a, i, n), n)) == gEnd(m, a, i, n)
//@ ensures rok(a, lo, n, rlast(a, k, i, gEnd(m, a, i, n), n))
//@ ensures imp(m == 0, rdep(a, lo, n, rlast(a, k, i, gEnd(m, a, i, n), n)) == rdep(a, lo, n, k))
//@ ensures imp(m > 0, rdep(a, lo, n, rlast(a, k, i, gEnd(m, a, i, n), n)) == rdep(a, lo, n, k)-1)
//@ ensures imp(j < rdep(a, lo, n, rlast(a, k, i, gEnd(m, a, i, n), n)), robj(a, lo, n, rlast(a, k, i, gEnd(m, a, i, n), n), j) == robj(a, lo, n, k, j))
func tokRun(m int, a Arr, lo int, n int, k int, i int, j int) {
	assert(rpos(a, lo, n, k+1) == tokEnd(a, i, n))
	if m == 0 {
		if a[i] == 123 {
			tokRun(4, a, lo, n, k+1, ws(a, i+1, n), j)
		} else if a[i] == 91 {
			tokRun(1, a, lo, n, k+1, ws(a, i+1, n), j)
		}
	} else if m == 1 {
		if a[i] != 93 {
			tokRun(2, a, lo, n, k, i, j)
		}
	} else if m == 2 {
		tokRun(0, a, lo, n, k, i, j)
		tokRun(0, a, lo, n, k, i, rdep(a, lo, n, k)-1)
		tokRun(3, a, lo, n, rlast(a, k, i, valueEnd(a, i, n), n), ws(a, valueEnd(a, i, n), n), j)
	} else if m == 3 {
		if a[i] == 44 {
			tokRun(2, a, lo, n, k+1, ws(a, i+1, n), j)
		}
	} else if m == 4 {
		if a[i] != 125 {
			tokRun(5, a, lo, n, k, i, j)
		}
	} else if m == 5 {
		tokRun(6, a, lo, n, k+1, ws(a, strEnd(a, i, n), n), j)
	} else if m == 6 {
		tokRun(7, a, lo, n, k+1, ws(a, i+1, n), j)
	} else if m == 7 {
		tokRun(0, a, lo, n, k, i, j)
		tokRun(0, a, lo, n, k, i, rdep(a, lo, n, k)-1)
		tokRun(8, a, lo, n, rlast(a, k, i, valueEnd(a, i, n), n), ws(a, valueEnd(a, i, n), n), j)
	} else {
		if a[i] == 44 {
			tokRun(5, a, lo, n, k+1, ws(a, i+1, n), j)
		}
	}
}

// bufText is the content of a bytes.Buffer.
//
//@ uninterpreted
func bufText(b int) Bytes { panic("uninterpreted") }

// indentOf is what json.Indent makes of a text, indentFails whether it fails.
//
//@ uninterpreted
func indentOf(s Bytes, pre Bytes, ind Bytes) Bytes { panic("uninterpreted") }

//@ uninterpreted
func indentFails(s Bytes) bool { panic("uninterpreted") }
