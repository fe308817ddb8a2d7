package spec

// ---- texts which are one JSON value ----

// view is the text s as an array from 0 on.
//
//@ uninterpreted
//@ ensures sub(result, 0, len(s)) == s
func view(s Bytes) Arr { panic("uninterpreted") }

// viewIn: s stands in x from d on.
//
//@ lemma
//@ requires 0 <= d && d+len(s) <= len(x) && x[d:d+len(s)] == s
//@ ensures same(view(s), 0, len(s), view(x), d)
func viewIn(s Bytes, x Bytes, d int) {
	subPart(view(x), 0, len(x), d, d+len(s))
	sameSub(view(s), 0, len(s), view(x), d)
}

// viewAt: the characters of s.
//
//@ lemma
//@ requires 0 <= k && k < len(s)
//@ ensures view(s)[k] == s[k]
func viewAt(s Bytes, k int) {
	assert(sub(view(s), 0, len(s))[k] == view(s)[k])
}

// single: s is one JSON value, and nothing else.
//
//@ opaque
//@ decreases 0
func single(s Bytes) bool { return valueEnd(view(s), 0, len(s)) == len(s) }

// quoted: s is a string literal.
//
//@ opaque
//@ decreases 0
func quoted(s Bytes) bool { return strEnd(view(s), 0, len(s)) == len(s) }

// blank: s is white space.
//
//@ opaque
//@ decreases 0
func blank(s Bytes) bool { return ws(view(s), 0, len(s)) == len(s) }

// numeric: a number may go on with c.
func numeric(c int) bool { return isDigit(c) || c == 46 || c == 101 || c == 69 }

// digNext, ..., valNext: what ends at n ends there in a longer text, if no
// number goes on.
//
//@ lemma
//@ decreases n - i
//@ requires same(a, i, n, x, d) && 0 <= i+d && i <= n && n+d < m
//@ requires digEnd(a, i, n) == n && !numeric(int(x[n+d]))
//@ ensures digEnd(x, i+d, m) == n+d
func digNext(a Arr, i int, n int, x Arr, d int, m int) {
	if i < n {
		digNext(a, i+1, n, x, d, m)
	}
}

//@ lemma
//@ requires same(a, k, n, x, d) && 0 <= k+d && 0 <= k && k <= n && n+d < m
//@ requires expEnd(a, k, n) == n && !numeric(int(x[n+d]))
//@ ensures expEnd(x, k+d, m) == n+d
func expNext(a Arr, k int, n int, x Arr, d int, m int) {
	sameFrom(a, k, k+1, n, x, d)
	sameFrom(a, k, k+2, n, x, d)
	if k < n && (a[k+1] == 43 || a[k+1] == 45) {
		digNext(a, k+2, n, x, d, m)
	} else if k < n {
		digNext(a, k+1, n, x, d, m)
	}
}

//@ lemma
//@ requires same(a, k, n, x, d) && 0 <= k+d && 0 <= k && k <= n && n+d < m
//@ requires fracEnd(a, k, n) == n && !numeric(int(x[n+d]))
//@ ensures fracEnd(x, k+d, m) == n+d
func fracNext(a Arr, k int, n int, x Arr, d int, m int) {
	sameFrom(a, k, k+1, n, x, d)
	if k < n && a[k] == 46 {
		digExt(a, k+1, n, x, d, m)
		if digEnd(a, k+1, n) < n {
			expNext(a, digEnd(a, k+1, n), n, x, d, m)
		} else {
			digNext(a, k+1, n, x, d, m)
		}
	} else {
		expNext(a, k, n, x, d, m)
	}
}

//@ lemma
//@ requires same(a, k, n, x, d) && 0 <= k+d && 0 <= k && k <= n && n+d < m
//@ requires intEnd(a, k, n) == n && !numeric(int(x[n+d]))
//@ ensures intEnd(x, k+d, m) == n+d
func intNext(a Arr, k int, n int, x Arr, d int, m int) {
	if a[k] == 48 {
		sameFrom(a, k, k+1, n, x, d)
		fracNext(a, k+1, n, x, d, m)
	} else {
		digExt(a, k, n, x, d, m)
		if digEnd(a, k, n) < n {
			fracNext(a, digEnd(a, k, n), n, x, d, m)
		} else {
			digNext(a, k, n, x, d, m)
		}
	}
}

//@ lemma
//@ requires same(a, i, n, x, d) && 0 <= i+d && 0 <= i && i <= n && n+d < m
//@ requires numEnd(a, i, n) == n && !numeric(int(x[n+d]))
//@ ensures numEnd(x, i+d, m) == n+d
func numNext(a Arr, i int, n int, x Arr, d int, m int) {
	if i < n && a[i] == 45 {
		sameFrom(a, i, i+1, n, x, d)
		intNext(a, i+1, n, x, d, m)
	} else {
		intNext(a, i, n, x, d, m)
	}
}

// valNext: a value in a longer text.
//
//@ lemma
//@ requires same(a, i, n, x, d) && 0 <= i+d && 0 <= i && i <= n && n+d <= m
//@ requires valueEnd(a, i, n) >= 0
//@ requires imp(valueEnd(a, i, n) == n && n+d < m, !numeric(int(x[n+d])))
//@ ensures valueEnd(x, i+d, m) == valueEnd(a, i, n)+d
func valNext(a Arr, i int, n int, x Arr, d int, m int) {
	if m == n+d {
		valSame(0, a, i, n, x, d)
	} else if valueEnd(a, i, n) < n || !isDigit(int(a[n-1])) {
		valExt(0, a, i, n, x, d, m)
	} else if a[i] == 123 {
		sameFrom(a, i, i+1, n, x, d)
		wsExt(a, i+1, n, x, d, m)
		valExt(4, a, ws(a, i+1, n), n, x, d, m)
	} else if a[i] == 91 {
		sameFrom(a, i, i+1, n, x, d)
		wsExt(a, i+1, n, x, d, m)
		valExt(1, a, ws(a, i+1, n), n, x, d, m)
	} else if a[i] == 34 {
		sameFrom(a, i, i+1, n, x, d)
		strExt(a, i+1, n, x, d, m)
	} else if a[i] != 110 && a[i] != 116 && a[i] != 102 {
		numNext(a, i, n, x, d, m)
	}
}

// oneIn, quotedIn, blankIn: where such a text stands in another.
//
//@ lemma
//@ requires single(s) && 0 <= d && d+len(s) <= len(x) && x[d:d+len(s)] == s
//@ requires imp(d+len(s) < len(x), !numeric(int(x[d+len(s)])))
//@ ensures valueEnd(view(x), d, len(x)) == d+len(s) && len(s) > 0
func oneIn(s Bytes, x Bytes, d int) {
	viewIn(s, x, d)
	if d+len(s) < len(x) {
		viewAt(x, d+len(s))
	}
	valNext(view(s), 0, len(s), view(x), d, len(x))
}

//@ lemma
//@ requires quoted(s) && 0 <= d && d+len(s) <= len(x) && x[d:d+len(s)] == s
//@ ensures strEnd(view(x), d, len(x)) == d+len(s) && len(s) > 0
func quotedIn(s Bytes, x Bytes, d int) {
	viewIn(s, x, d)
	sameFrom(view(s), 0, 1, len(s), view(x), d)
	strExt(view(s), 1, len(s), view(x), d, len(x))
}

//@ lemma
//@ requires blank(s) && 0 <= d && d+len(s) <= len(x) && x[d:d+len(s)] == s
//@ ensures ws(view(x), d, len(x)) == ws(view(x), d+len(s), len(x))
func blankIn(s Bytes, x Bytes, d int) {
	viewIn(s, x, d)
	wsExt(view(s), 0, len(s), view(x), d, len(x))
}

// ---- elements and members ----

// partEnd is the end of the element or, if o, the member which starts at i.
func partEnd(o bool, a Arr, i int, n int) int {
	if !o {
		return valueEnd(a, i, n)
	}
	if strEnd(a, i, n) < 0 || ws(a, strEnd(a, i, n), n) >= n || a[ws(a, strEnd(a, i, n), n)] != 58 {
		return -1
	}
	return valueEnd(a, ws(a, ws(a, strEnd(a, i, n), n)+1, n), n)
}

// partsEnd is the end of k elements or members from i on.
//
//@ decreases k
//@ ensures result == -1 || k <= 0 || i < result && result <= n
func partsEnd(o bool, a Arr, i int, n int, k int) int {
	if k <= 0 {
		return i
	}
	if k == 1 {
		return partEnd(o, a, ws(a, i, n), n)
	}
	if partsEnd(o, a, i, n, k-1) < 0 || ws(a, partsEnd(o, a, i, n, k-1), n) >= n || a[ws(a, partsEnd(o, a, i, n, k-1), n)] != 44 {
		return -1
	}
	return partEnd(o, a, ws(a, ws(a, partsEnd(o, a, i, n, k-1), n)+1, n), n)
}

// parts: s is k elements or members, with white space before them.
//
//@ opaque
//@ decreases 0
func parts(o bool, s Bytes, k int) bool {
	return k >= 0 && partsEnd(o, view(s), 0, len(s), k) == len(s)
}

//@ lemma
//@ requires same(a, i, n, x, d) && 0 <= i+d && 0 <= i && i <= n && n+d <= m
//@ requires partEnd(o, a, i, n) >= 0
//@ requires imp(partEnd(o, a, i, n) == n && n+d < m, !numeric(int(x[n+d])))
//@ ensures partEnd(o, x, i+d, m) == partEnd(o, a, i, n)+d
func partNext(o bool, a Arr, i int, n int, x Arr, d int, m int) {
	if !o {
		valNext(a, i, n, x, d, m)
	} else {
		sameFrom(a, i, i+1, n, x, d)
		strExt(a, i+1, n, x, d, m)
		sameFrom(a, i, strEnd(a, i, n), n, x, d)
		wsExt(a, strEnd(a, i, n), n, x, d, m)
		sameFrom(a, ws(a, strEnd(a, i, n), n), ws(a, strEnd(a, i, n), n)+1, n, x, d)
		wsExt(a, ws(a, strEnd(a, i, n), n)+1, n, x, d, m)
		valNext(a, ws(a, ws(a, strEnd(a, i, n), n)+1, n), n, x, d, m)
	}
}

//@ lemma
//@ decreases k
//@ requires same(a, i, n, x, d) && 0 <= i+d && 0 <= i && i <= n && n+d <= m && k >= 1
//@ requires partsEnd(o, a, i, n, k) >= 0
//@ requires imp(partsEnd(o, a, i, n, k) == n && n+d < m, !numeric(int(x[n+d])))
//@ ensures partsEnd(o, x, i+d, m, k) == partsEnd(o, a, i, n, k)+d
func partsNext(o bool, a Arr, i int, n int, x Arr, d int, m int, k int) {
	if k == 1 {
		wsExt(a, i, n, x, d, m)
		partNext(o, a, ws(a, i, n), n, x, d, m)
	} else {
		partsNext(o, a, i, n, x, d, m, k-1)
		sameFrom(a, i, partsEnd(o, a, i, n, k-1), n, x, d)
		wsExt(a, partsEnd(o, a, i, n, k-1), n, x, d, m)
		sameFrom(a, ws(a, partsEnd(o, a, i, n, k-1), n), ws(a, partsEnd(o, a, i, n, k-1), n)+1, n, x, d)
		wsExt(a, ws(a, partsEnd(o, a, i, n, k-1), n)+1, n, x, d, m)
		partNext(o, a, ws(a, ws(a, partsEnd(o, a, i, n, k-1), n)+1, n), n, x, d, m)
	}
}

// partsIn: where parts stand in another text.
//
//@ lemma
//@ requires k >= 1 && parts(o, s, k) && 0 <= d && d+len(s) <= len(x) && x[d:d+len(s)] == s
//@ requires imp(d+len(s) < len(x), !numeric(int(x[d+len(s)])))
//@ ensures partsEnd(o, view(x), d, len(x), k) == d+len(s) && len(s) > 0
func partsIn(o bool, s Bytes, k int, x Bytes, d int) {
	viewIn(s, x, d)
	if d+len(s) < len(x) {
		viewAt(x, d+len(s))
	}
	partsNext(o, view(s), 0, len(s), view(x), d, len(x), k)
}

// partsRun: an array or object goes on behind its first k parts.
//
//@ lemma
//@ decreases k
//@ requires k >= 1 && 0 <= i && partsEnd(o, a, i, n, k) >= 0
//@ ensures imp(!o, arrElem(a, ws(a, i, n), n) == arrNext(a, ws(a, partsEnd(o, a, i, n, k), n), n))
//@ ensures imp(o, objMember(a, ws(a, i, n), n) == objNext(a, ws(a, partsEnd(o, a, i, n, k), n), n))
func partsRun(o bool, a Arr, i int, n int, k int) {
	if k > 1 {
		partsRun(o, a, i, n, k-1)
		assert(imp(!o, arrNext(a, ws(a, partsEnd(o, a, i, n, k-1), n), n) == arrElem(a, ws(a, ws(a, partsEnd(o, a, i, n, k-1), n)+1, n), n)))
		assert(imp(o, objNext(a, ws(a, partsEnd(o, a, i, n, k-1), n), n) == objMember(a, ws(a, ws(a, partsEnd(o, a, i, n, k-1), n)+1, n), n)))
	}
}

// partsOne: what k parts begin with.
//
//@ lemma
//@ decreases k
//@ requires k >= 1 && 0 <= i && partsEnd(o, a, i, n, k) >= 0
//@ ensures partEnd(o, a, ws(a, i, n), n) >= 0
func partsOne(o bool, a Arr, i int, n int, k int) {
	if k > 1 {
		partsOne(o, a, i, n, k-1)
	}
}

// partsNone: no parts are no text.
//
//@ lemma
//@ requires parts(o, s, 0)
//@ ensures s == ""
func partsNone(o bool, s Bytes) {
	assert(len(s) == 0)
}

// elemOne: an element.
//
//@ lemma
//@ requires blank(w) && single(v)
//@ ensures parts(false, w+v, 1)
func elemOne(w Bytes, v Bytes) {
	blankIn(w, w+v, 0)
	oneIn(v, w+v, len(w))
}

// memberOne: a member.
//
//@ lemma
//@ requires blank(w) && quoted(key) && blank(spc) && single(v)
//@ ensures parts(true, w+key+":"+spc+v, 1)
func memberOne(w Bytes, key Bytes, spc Bytes, v Bytes) {
	blankIn(w, w+key+":"+spc+v, 0)
	quotedIn(key, w+key+":"+spc+v, len(w))
	viewAt(w+key+":"+spc+v, len(w)+len(key))
	blankIn(spc, w+key+":"+spc+v, len(w)+len(key)+1)
	oneIn(v, w+key+":"+spc+v, len(w)+len(key)+1+len(spc))
}

// partsCat: one more.
//
//@ lemma
//@ requires k >= 1 && parts(o, s, k) && parts(o, t, 1)
//@ ensures parts(o, s+","+t, k+1)
func partsCat(o bool, s Bytes, k int, t Bytes) {
	partsIn(o, s, k, s+","+t, 0)
	viewAt(s+","+t, len(s))
	partsIn(o, t, 1, s+","+t, len(s)+1)
}

// blankHead: white space starts with white space.
//
//@ lemma
//@ requires blank(w) && len(w) > 0
//@ ensures isWS(int(w[0]))
func blankHead(w Bytes) {
	viewAt(w, 0)
}

// numDash: a number starts with a digit or a minus sign.
//
//@ lemma
//@ requires numEnd(a, i, n) >= 0
//@ ensures i < n && (a[i] == 45 || isDigit(a[i]))
func numDash(a Arr, i int, n int) {
}

// partHead: what an element or member starts with.
//
//@ lemma
//@ requires 0 <= i && partEnd(o, a, i, n) >= 0
//@ ensures i < n && a[i] != 93 && a[i] != 125
func partHead(o bool, a Arr, i int, n int) {
	if numEnd(a, i, n) >= 0 {
		numDash(a, i, n)
	}
}

// arrWhole, objWhole: a container with parts.
//
//@ lemma
//@ requires k >= 1 && parts(false, s, k) && blank(nl) && blank(w)
//@ ensures single("["+nl+s+w+"]")
func arrWhole(nl Bytes, s Bytes, w Bytes, k int) {
	if len(w) > 0 {
		blankHead(w)
	}
	blankIn(nl, "["+nl+s+w+"]", 1)
	partsIn(false, s, k, "["+nl+s+w+"]", 1+len(nl))
	blankIn(w, "["+nl+s+w+"]", 1+len(nl)+len(s))
	viewAt("["+nl+s+w+"]", 0)
	viewAt("["+nl+s+w+"]", 1+len(nl)+len(s)+len(w))
	partsRun(false, view("["+nl+s+w+"]"), 1+len(nl), len(nl)+len(s)+len(w)+2, k)
	partsOne(false, view("["+nl+s+w+"]"), 1+len(nl), len(nl)+len(s)+len(w)+2, k)
	partHead(false, view("["+nl+s+w+"]"), ws(view("["+nl+s+w+"]"), 1, len(nl)+len(s)+len(w)+2), len(nl)+len(s)+len(w)+2)
}

//@ lemma
//@ requires k >= 1 && parts(true, s, k) && blank(nl) && blank(w)
//@ ensures single("{"+nl+s+w+"}")
func objWhole(nl Bytes, s Bytes, w Bytes, k int) {
	if len(w) > 0 {
		blankHead(w)
	}
	blankIn(nl, "{"+nl+s+w+"}", 1)
	partsIn(true, s, k, "{"+nl+s+w+"}", 1+len(nl))
	blankIn(w, "{"+nl+s+w+"}", 1+len(nl)+len(s))
	viewAt("{"+nl+s+w+"}", 0)
	viewAt("{"+nl+s+w+"}", 1+len(nl)+len(s)+len(w))
	partsRun(true, view("{"+nl+s+w+"}"), 1+len(nl), len(nl)+len(s)+len(w)+2, k)
	partsOne(true, view("{"+nl+s+w+"}"), 1+len(nl), len(nl)+len(s)+len(w)+2, k)
	partHead(true, view("{"+nl+s+w+"}"), ws(view("{"+nl+s+w+"}"), 1, len(nl)+len(s)+len(w)+2), len(nl)+len(s)+len(w)+2)
}

// ---- scalars ----

// wordOne: the literals.
//
//@ lemma
//@ ensures single("null") && single("true") && single("false") && single("[]") && single("{}")
//@ ensures single("0") && quoted("\"\"") && blank("") && blank(" ") && blank("\n") && parts(false, "", 0) && parts(true, "", 0)
func wordOne() {
	viewAt("null", 0)
	viewAt("null", 1)
	viewAt("null", 2)
	viewAt("null", 3)
	viewAt("true", 0)
	viewAt("true", 1)
	viewAt("true", 2)
	viewAt("true", 3)
	viewAt("false", 0)
	viewAt("false", 1)
	viewAt("false", 2)
	viewAt("false", 3)
	viewAt("false", 4)
	viewAt("[]", 0)
	viewAt("[]", 1)
	viewAt("{}", 0)
	viewAt("{}", 1)
	viewAt("0", 0)
	viewAt("\"\"", 0)
	viewAt("\"\"", 1)
	viewAt(" ", 0)
	viewAt("\n", 0)
}

//@ lemma
//@ requires quoted(s)
//@ ensures single(s) && len(s) > 0
func quotedOne(s Bytes) {
	quotedIn(s, s, 0)
}

// numOne: a number.
//
//@ lemma
//@ requires 0 <= i && i < n && numEnd(a, i, n) == n
//@ ensures single(sub(a, i, n))
func numOne(a Arr, i int, n int) {
	assert(sub(view(sub(a, i, n)), 0, n-i) == sub(a, i, n))
	sameSub(a, i, n, view(sub(a, i, n)), 0-i)
	numExt(a, i, n, view(sub(a, i, n)), 0-i, n-i)
	numDash(a, i, n)
}

// isNumber: s is a number.
//
//@ opaque
//@ decreases 0
func isNumber(s Bytes) bool { return numEnd(view(s), 0, len(s)) == len(s) }

//@ lemma
//@ requires isNumber(s)
//@ ensures single(s)
func numberOne(s Bytes) {
	numDash(view(s), 0, len(s))
}

// litOne: a string literal.
//
//@ lemma
//@ requires 0 <= j && j <= n
//@ ensures quoted("\""+esc(a, j, n, html)+"\"")
func litOne(a Arr, j int, n int, html bool) {
	viewAt("\""+esc(a, j, n, html)+"\"", 0)
	viewAt("\""+esc(a, j, n, html)+"\"", 1+len(esc(a, j, n, html)))
	subPart(view("\""+esc(a, j, n, html)+"\""), 0, len(esc(a, j, n, html))+2, 1, 1+len(esc(a, j, n, html)))
	escUnq(a, j, n, html, view("\""+esc(a, j, n, html)+"\""), 1, 1+len(esc(a, j, n, html)), len(esc(a, j, n, html))+2)
}

// ---- layout ----

//@ lemma
//@ requires blank(s) && blank(t)
//@ ensures blank(s+t)
func blankCat(s Bytes, t Bytes) {
	blankIn(s, s+t, 0)
	blankIn(t, s+t, len(s))
}

//@ lemma
//@ decreases d
//@ requires blank(ind)
//@ ensures blank(rep(ind, d))
func repBlank(ind Bytes, d int) {
	wordOne()
	if d > 0 {
		repBlank(ind, d-1)
		blankCat(rep(ind, d-1), ind)
	}
}

// lineBlank: the start of a line.
//
//@ lemma
//@ requires blank(pre) && blank(ind)
//@ ensures blank(pre + rep(ind, d)) && blank("\n" + pre + rep(ind, d))
func lineBlank(pre Bytes, ind Bytes, d int) {
	wordOne()
	repBlank(ind, d)
	blankCat(pre, rep(ind, d))
	blankCat("\n", pre+rep(ind, d))
}

// ---- containers ----

//@ lemma
//@ requires blank(nl) && k >= 1
//@ requires parts(false, render(0, arrItems(fn, flags, ii, d, base, size, nl, k-1)), k-1)
//@ requires single(render(0, encItems(fn, flags, ii, d, base+(k-1)*size)))
//@ ensures parts(false, render(0, arrItems(fn, flags, ii, d, base, size, nl, k)), k)
func arrOne(fn int, flags int, ii int, d int, base int, size int, nl Bytes, k int) {
	elemOne(nl, render(0, encItems(fn, flags, ii, d, base+(k-1)*size)))
	if k > 1 {
		partsCat(false, render(0, arrItems(fn, flags, ii, d, base, size, nl, k-1)), k-1, nl+render(0, encItems(fn, flags, ii, d, base+(k-1)*size)))
	}
}

//@ lemma
//@ requires blank(nl) && blank(spc) && k >= 1
//@ requires parts(true, render(0, fieldItems(sid, flags, ii, d, p, nl, spc, k-1)), fieldCount(sid, flags, p, k-1))
//@ requires imp(!fieldSkip(sid, flags, p, k-1), quoted(fieldKey(sid, k-1, flags%2 == 1)))
//@ requires imp(!fieldSkip(sid, flags, p, k-1), single(render(0, encItems(fieldEnc(sid, k-1), flags, ii, d, p+fieldOff(sid, k-1)))))
//@ ensures parts(true, render(0, fieldItems(sid, flags, ii, d, p, nl, spc, k)), fieldCount(sid, flags, p, k))
func fieldOne(sid int, flags int, ii int, d int, p int, nl Bytes, spc Bytes, k int) {
	if !fieldSkip(sid, flags, p, k-1) {
		memberOne(nl, fieldKey(sid, k-1, flags%2 == 1), spc, render(0, encItems(fieldEnc(sid, k-1), flags, ii, d, p+fieldOff(sid, k-1))))
		if fieldCount(sid, flags, p, k-1) > 0 {
			partsCat(true, render(0, fieldItems(sid, flags, ii, d, p, nl, spc, k-1)), fieldCount(sid, flags, p, k-1), nl+fieldKey(sid, k-1, flags%2 == 1)+":"+spc+render(0, encItems(fieldEnc(sid, k-1), flags, ii, d, p+fieldOff(sid, k-1))))
		} else {
			partsNone(true, render(0, fieldItems(sid, flags, ii, d, p, nl, spc, k-1)))
		}
	}
}

//@ lemma
//@ requires blank(nl) && blank(ind) && blank(spc) && k >= 1
//@ requires parts(true, render(0, mapItems(kf, vf, flags, ii, d, m, nl, ind, spc, k-1)), k-1)
//@ requires quoted(render(0, encItems(kf, flags, ii, d, ifacePtr(mapKeyAt(m, flags/2%2 == 1, k-1)))))
//@ requires single(render(0, encItems(vf, flags, ii, d, ifacePtr(mapIndex(m, mapKeyAt(m, flags/2%2 == 1, k-1))))))
//@ ensures parts(true, render(0, mapItems(kf, vf, flags, ii, d, m, nl, ind, spc, k)), k)
func mapOne(kf int, vf int, flags int, ii int, d int, m int, nl Bytes, ind Bytes, spc Bytes, k int) {
	if k == 1 {
		memberOne(ind, render(0, encItems(kf, flags, ii, d, ifacePtr(mapKeyAt(m, flags/2%2 == 1, k-1)))), spc, render(0, encItems(vf, flags, ii, d, ifacePtr(mapIndex(m, mapKeyAt(m, flags/2%2 == 1, k-1))))))
	} else {
		blankCat(nl, ind)
		memberOne(nl+ind, render(0, encItems(kf, flags, ii, d, ifacePtr(mapKeyAt(m, flags/2%2 == 1, k-1)))), spc, render(0, encItems(vf, flags, ii, d, ifacePtr(mapIndex(m, mapKeyAt(m, flags/2%2 == 1, k-1))))))
		partsCat(true, render(0, mapItems(kf, vf, flags, ii, d, m, nl, ind, spc, k-1)), k-1, nl+ind+render(0, encItems(kf, flags, ii, d, ifacePtr(mapKeyAt(m, flags/2%2 == 1, k-1))))+":"+spc+render(0, encItems(vf, flags, ii, d, ifacePtr(mapIndex(m, mapKeyAt(m, flags/2%2 == 1, k-1))))))
	}
}

//@ lemma
//@ requires blank(nl) && blank(ind) && blank(spc) && k >= 1
//@ requires parts(true, render(0, strItems(raw, m, flags, ii, d, nl, ind, spc, k-1)), k-1)
//@ requires quoted(strText(strKey(m, flags, k-1), flags%2 == 1))
//@ requires single(render(0, strVal(raw, m, strKey(m, flags, k-1), flags, ii, d)))
//@ ensures parts(true, render(0, strItems(raw, m, flags, ii, d, nl, ind, spc, k)), k)
func strOne(raw bool, m int, flags int, ii int, d int, nl Bytes, ind Bytes, spc Bytes, k int) {
	if k == 1 {
		memberOne(ind, strText(strKey(m, flags, k-1), flags%2 == 1), spc, render(0, strVal(raw, m, strKey(m, flags, k-1), flags, ii, d)))
	} else {
		blankCat(nl, ind)
		memberOne(nl+ind, strText(strKey(m, flags, k-1), flags%2 == 1), spc, render(0, strVal(raw, m, strKey(m, flags, k-1), flags, ii, d)))
		partsCat(true, render(0, strItems(raw, m, flags, ii, d, nl, ind, spc, k-1)), k-1, nl+ind+strText(strKey(m, flags, k-1), flags%2 == 1)+":"+spc+render(0, strVal(raw, m, strKey(m, flags, k-1), flags, ii, d)))
	}
}

// ---- texts between quotes ----

//@ lemma
//@ decreases n - i
//@ requires same(a, i, n, x, d) && plain(a, i, n)
//@ ensures plain(x, i+d, n+d)
func plainSame(a Arr, i int, n int, x Arr, d int) {
	if i < n {
		plainSame(a, i+1, n, x, d)
	}
}

//@ lemma
//@ requires plain(view(t), 0, len(t))
//@ ensures quoted("\""+t+"\"")
func plainOne(t Bytes) {
	viewIn(t, "\""+t+"\"", 1)
	viewAt("\""+t+"\"", 0)
	viewAt("\""+t+"\"", 1+len(t))
	plainSame(view(t), 0, len(t), view("\""+t+"\""), 1)
	strScanPlain(view("\""+t+"\""), 1, 1+len(t), 2+len(t))
}

// ---- exponents ----

// digStop: digits end before something else.
//
//@ lemma
//@ decreases q - i
//@ requires i <= q && q < n && !isDigit(int(a[q]))
//@ ensures digEnd(a, i, n) <= q
func digStop(a Arr, i int, q int, n int) {
	if i < q && isDigit(int(a[i])) {
		digStop(a, i+1, q, n)
	}
}

// digAlike: digits in two texts which agree up to q.
//
//@ lemma
//@ decreases q - i
//@ requires i <= q && q < n && q < m && same(a, i, q, x, 0)
//@ requires !isDigit(int(a[q])) && !isDigit(int(x[q]))
//@ ensures digEnd(x, i, m) == digEnd(a, i, n) && digEnd(a, i, n) <= q && digEnd(a, i, n) >= i
//@ ensures same(a, digEnd(a, i, n), q, x, 0)
func digAlike(a Arr, i int, q int, n int, x Arr, m int) {
	if i < q && isDigit(int(a[i])) {
		digAlike(a, i+1, q, n, x, m)
	}
}

// shorter: x is a without the 0 of the exponent e-0d at its end.
func shorter(a Arr, n int, x Arr) bool {
	return n >= 4 && a[n-4] == 101 && a[n-3] == 45 && a[n-2] == 48 && x[n-4] == 101 && x[n-3] == 45 && x[n-2] == a[n-1]
}

//@ lemma
//@ requires shorter(a, n, x) && 0 <= k && k <= n-4 && same(a, k, n-4, x, 0)
//@ requires expEnd(a, k, n) == n
//@ ensures expEnd(x, k, n-1) == n-1
func expShort(a Arr, k int, n int, x Arr) {
	assert(digEnd(x, n-1, n-1) == n-1)
	assert(imp(isDigit(int(x[n-2])), digEnd(x, n-2, n-1) == n-1))
	if k < n-4 {
		sameFrom(a, k, k+1, n-4, x, 0)
		if a[k] == 101 || a[k] == 69 {
			digStop(a, k+1, n-4, n)
			if k+2 <= n-4 {
				digStop(a, k+2, n-4, n)
			}
		}
	} else {
		assert(isDigit(int(a[n-1])))
	}
}

//@ lemma
//@ requires shorter(a, n, x) && 0 <= k && k <= n-4 && same(a, k, n-4, x, 0)
//@ requires fracEnd(a, k, n) == n
//@ ensures fracEnd(x, k, n-1) == n-1
func fracShort(a Arr, k int, n int, x Arr) {
	if k < n-4 {
		sameFrom(a, k, k+1, n-4, x, 0)
		if a[k] == 46 {
			digAlike(a, k+1, n-4, n, x, n-1)
			expShort(a, digEnd(a, k+1, n), n, x)
		} else {
			expShort(a, k, n, x)
		}
	} else {
		expShort(a, k, n, x)
	}
}

//@ lemma
//@ requires shorter(a, n, x) && 0 <= k && k <= n-4 && same(a, k, n-4, x, 0)
//@ requires intEnd(a, k, n) == n
//@ ensures intEnd(x, k, n-1) == n-1
func intShort(a Arr, k int, n int, x Arr) {
	sameFrom(a, k, k+1, n-4, x, 0)
	if a[k] == 48 {
		fracShort(a, k+1, n, x)
	} else {
		digAlike(a, k, n-4, n, x, n-1)
		fracShort(a, digEnd(a, k, n), n, x)
	}
}

//@ lemma
//@ requires shorter(a, n, x) && same(a, 0, n-4, x, 0)
//@ requires numEnd(a, 0, n) == n
//@ ensures numEnd(x, 0, n-1) == n-1
func numShort(a Arr, n int, x Arr) {
	sameFrom(a, 0, 1, n-4, x, 0)
	if a[0] == 45 {
		intShort(a, 1, n, x)
	} else {
		intShort(a, 0, n, x)
	}
}

// expNumber: so is a number with a shorter exponent.
//
//@ lemma
//@ requires isNumber(t)
//@ ensures isNumber(cleanExp(t))
func expNumber(t Bytes) {
	if len(t) >= 4 && t[len(t)-4] == 101 && t[len(t)-3] == 45 && t[len(t)-2] == 48 {
		viewAt(t, len(t)-4)
		viewAt(t, len(t)-3)
		viewAt(t, len(t)-2)
		viewAt(t, len(t)-1)
		viewAt(cleanExp(t), len(t)-4)
		viewAt(cleanExp(t), len(t)-3)
		viewAt(cleanExp(t), len(t)-2)
		subPart(view(t), 0, len(t), 0, len(t)-4)
		subPart(view(cleanExp(t)), 0, len(t)-1, 0, len(t)-4)
		assert(cleanExp(t)[:len(t)-4] == t[:len(t)-4])
		sameSub(view(t), 0, len(t)-4, view(cleanExp(t)), 0)
		numShort(view(t), len(t), view(cleanExp(t)))
	}
}
