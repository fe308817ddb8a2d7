package spec

// ---- raw messages as they are written ----

// compOne: the rest of a string, with the characters escaped.
//
//@ lemma
//@ decreases n - i
//@ requires 0 <= i && 0 <= p && e >= 0 && strScan(a, i, n) == e
//@ requires q == p+len(comp(a, i, e, true, false)) && q <= m
//@ requires sub(x, p, q) == comp(a, i, e, true, false)
//@ ensures strScan(x, p, m) == q
func compOne(a Arr, i int, e int, n int, x Arr, p int, q int, m int) {
	if a[i] == 92 && a[i+1] == 117 {
		assert(comp(a, i, e, true, false) == unit(int(a[i]))+unit(int(a[i+1]))+comp(a, i+2, e, true, false))
		assert(comp(a, i+2, e, true, false) == unit(int(a[i+2]))+comp(a, i+3, e, true, false))
		assert(comp(a, i+3, e, true, false) == unit(int(a[i+3]))+comp(a, i+4, e, true, false))
		assert(comp(a, i+4, e, true, false) == unit(int(a[i+4]))+comp(a, i+5, e, true, false))
		assert(comp(a, i+5, e, true, false) == unit(int(a[i+5]))+comp(a, i+6, e, true, false))
		assert(len(comp(a, i, e, true, false)) == 6+len(comp(a, i+6, e, true, false)))
		subPart(x, p, q, 6, q-p)
		assert(comp(a, i, e, true, false)[0] == a[i] && comp(a, i, e, true, false)[1] == a[i+1])
		assert(comp(a, i, e, true, false)[2] == a[i+2] && comp(a, i, e, true, false)[3] == a[i+3])
		assert(comp(a, i, e, true, false)[4] == a[i+4] && comp(a, i, e, true, false)[5] == a[i+5])
		assert(sub(x, p, q)[0] == x[p] && sub(x, p, q)[1] == x[p+1] && sub(x, p, q)[2] == x[p+2])
		assert(sub(x, p, q)[3] == x[p+3] && sub(x, p, q)[4] == x[p+4] && sub(x, p, q)[5] == x[p+5])
		compOne(a, i+6, e, n, x, p+6, q, m)
	} else if a[i] == 92 {
		assert(comp(a, i, e, true, false) == unit(int(a[i]))+unit(int(a[i+1]))+comp(a, i+2, e, true, false))
		subPart(x, p, q, 2, q-p)
		assert(sub(x, p, q)[0] == x[p] && sub(x, p, q)[1] == x[p+1])
		compOne(a, i+2, e, n, x, p+2, q, m)
	} else if a[i] == 60 || a[i] == 62 || a[i] == 38 {
		assert(comp(a, i, e, true, false) == "\\u00"+unit(hexChar(int(a[i])/16))+unit(hexChar(int(a[i])%16))+comp(a, i+1, e, true, false))
		subPart(x, p, q, 6, q-p)
		assert(sub(x, p, q)[0] == x[p] && sub(x, p, q)[1] == x[p+1] && sub(x, p, q)[2] == x[p+2])
		assert(sub(x, p, q)[3] == x[p+3] && sub(x, p, q)[4] == x[p+4] && sub(x, p, q)[5] == x[p+5])
		assert(x[p] == 92 && x[p+1] == 117 && hex4(x, p+2))
		compOne(a, i+1, e, n, x, p+6, q, m)
	} else if a[i] == 34 {
		assert(e == i+1)
		assert(comp(a, i, e, true, false) == unit(int(a[i])))
		assert(sub(x, p, q)[0] == x[p])
	} else if lineSep(a, i, e) {
		assert(strScan(a, i+2, n) == e && strScan(a, i+3, n) == e)
		assert(comp(a, i, e, true, false) == "\\u202"+unit(hexChar(int(a[i+2])%16))+comp(a, i+3, e, true, false))
		subPart(x, p, q, 6, q-p)
		assert(sub(x, p, q)[0] == x[p] && sub(x, p, q)[1] == x[p+1] && sub(x, p, q)[2] == x[p+2])
		assert(sub(x, p, q)[3] == x[p+3] && sub(x, p, q)[4] == x[p+4] && sub(x, p, q)[5] == x[p+5])
		assert(x[p] == 92 && x[p+1] == 117 && hex4(x, p+2))
		compOne(a, i+3, e, n, x, p+6, q, m)
	} else {
		assert(comp(a, i, e, true, false) == unit(int(a[i]))+comp(a, i+1, e, true, false))
		subPart(x, p, q, 1, q-p)
		assert(sub(x, p, q)[0] == x[p])
		compOne(a, i+1, e, n, x, p+1, q, m)
	}
}

// quotOne: a whole string token.
//
//@ lemma
//@ requires 0 <= i && e >= 0 && a[i] == 34 && strScan(a, i+1, n) == e
//@ ensures quoted(comp(a, i, e, false, false)) && quoted(sub(a, i, e))
func quotOne(a Arr, i int, e int, n int) {
	assert(comp(a, i, e, false, false) == unit(int(a[i]))+comp(a, i+1, e, true, false))
	viewAt(comp(a, i, e, false, false), 0)
	subPart(view(comp(a, i, e, false, false)), 0, len(comp(a, i, e, false, false)), 1, len(comp(a, i, e, false, false)))
	compOne(a, i+1, e, n, view(comp(a, i, e, false, false)), 1, len(comp(a, i, e, false, false)), len(comp(a, i, e, false, false)))
	strTo(a, i+1, e, n)
	assert(sub(view(sub(a, i, e)), 0, e-i) == sub(a, i, e))
	sameSub(a, i, e, view(sub(a, i, e)), 0-i)
	strExt(a, i+1, e, view(sub(a, i, e)), 0-i, e-i)
	viewAt(sub(a, i, e), 0)
}

// valOne: a value in a text.
//
//@ lemma
//@ requires 0 <= i && e >= 0 && valueEnd(a, i, n) == e
//@ ensures single(sub(a, i, e))
func valOne(a Arr, i int, e int, n int) {
	valTo(0, a, i, e, n)
	assert(sub(view(sub(a, i, e)), 0, e-i) == sub(a, i, e))
	sameSub(a, i, e, view(sub(a, i, e)), 0-i)
	valSame(0, a, i, e, view(sub(a, i, e)), 0-i)
}

// wordIs: what a scalar is written as.
//
//@ lemma
//@ requires 0 <= lo && 0 <= k && lo <= rpos(a, lo, hi, k)
//@ requires tokEnd(a, ws(a, rpos(a, lo, hi, k), hi), hi) >= 0 && ws(a, rpos(a, lo, hi, k), hi) < hi
//@ requires !opening(rchar(a, lo, hi, k)) && !closing(rchar(a, lo, hi, k)) && rchar(a, lo, hi, k) != 44 && rchar(a, lo, hi, k) != 58
//@ ensures single(rword(a, lo, hi, html, k))
//@ ensures imp(rchar(a, lo, hi, k) == 34, quoted(rword(a, lo, hi, html, k)))
func wordIs(a Arr, lo int, hi int, html bool, k int) {
	wordOne()
	if rchar(a, lo, hi, k) == 34 {
		quotOne(a, ws(a, rpos(a, lo, hi, k), hi), tokEnd(a, ws(a, rpos(a, lo, hi, k), hi), hi), hi)
		quotedOne(rword(a, lo, hi, html, k))
	} else {
		valOne(a, ws(a, rpos(a, lo, hi, k), hi), tokEnd(a, ws(a, rpos(a, lo, hi, k), hi), hi), hi)
	}
}

// rcore is the token k without what comes before it.
func rcore(a Arr, lo int, hi int, html bool, k int) Bytes {
	if opening(rchar(a, lo, hi, k)) {
		return unit(rchar(a, lo, hi, k))
	}
	return rword(a, lo, hi, html, k)
}

// rput is what is written for the token k.
//
//@ opaque
//@ decreases 0
func rput(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int) Bytes { return render(0, rone(a, lo, hi, html, off, pre, ind, d, k)) }

// rfore is what is written before an element or member.
func rfore(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int) Bytes {
	if rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1) > 0 {
		return "," + rline(off, pre, ind, d+rdep(a, lo, hi, k))
	}
	return rline(off, pre, ind, d+rdep(a, lo, hi, k))
}

// putIs: the cases.
//
//@ lemma
//@ requires 0 <= k
//@ ensures imp(rchar(a, lo, hi, k) == 44, rput(a, lo, hi, html, off, pre, ind, d, k) == "")
//@ ensures imp(rchar(a, lo, hi, k) == 58, rput(a, lo, hi, html, off, pre, ind, d, k) == ":"+ite(off, "", " "))
//@ ensures imp(closing(rchar(a, lo, hi, k)) && rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1) > 0, rput(a, lo, hi, html, off, pre, ind, d, k) == rline(off, pre, ind, d+rdep(a, lo, hi, k)-1)+unit(rchar(a, lo, hi, k)))
//@ ensures imp(closing(rchar(a, lo, hi, k)) && rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1) <= 0, rput(a, lo, hi, html, off, pre, ind, d, k) == unit(rchar(a, lo, hi, k)))
//@ ensures imp(rstarts(a, lo, hi, k), rput(a, lo, hi, html, off, pre, ind, d, k) == rfore(a, lo, hi, html, off, pre, ind, d, k)+rcore(a, lo, hi, html, k))
//@ ensures imp(!rstarts(a, lo, hi, k) && !closing(rchar(a, lo, hi, k)) && rchar(a, lo, hi, k) != 44 && rchar(a, lo, hi, k) != 58, rput(a, lo, hi, html, off, pre, ind, d, k) == rcore(a, lo, hi, html, k))
func putIs(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int) {
}

// rseg is what is written for the tokens from k to q.
//
//@ decreases q - k
func rseg(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int, q int) Bytes {
	if q <= k {
		return ""
	}
	return rseg(a, lo, hi, html, off, pre, ind, d, k, q-1) + rput(a, lo, hi, html, off, pre, ind, d, q-1)
}

// segCat: two runs are a run.
//
//@ lemma
//@ decreases q - j
//@ requires k <= j && j <= q
//@ ensures rseg(a, lo, hi, html, off, pre, ind, d, k, q) == rseg(a, lo, hi, html, off, pre, ind, d, k, j) + rseg(a, lo, hi, html, off, pre, ind, d, j, q)
func segCat(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int, j int, q int) {
	if j < q {
		segCat(a, lo, hi, html, off, pre, ind, d, k, j, q-1)
	}
}

// segHead: the first token of a run.
//
//@ lemma
//@ requires k < q
//@ ensures rseg(a, lo, hi, html, off, pre, ind, d, k, q) == rput(a, lo, hi, html, off, pre, ind, d, k) + rseg(a, lo, hi, html, off, pre, ind, d, k+1, q)
func segHead(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int, q int) {
	segCat(a, lo, hi, html, off, pre, ind, d, k, k+1, q)
	assert(rseg(a, lo, hi, html, off, pre, ind, d, k, k) == "")
}

// segAll: all of the first k tokens.
//
//@ lemma
//@ decreases k
//@ requires 0 <= k
//@ ensures render(0, rawItems(a, lo, hi, html, off, pre, ind, d, k)) == rseg(a, lo, hi, html, off, pre, ind, d, 0, k)
func segAll(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int) {
	if k > 0 {
		segAll(a, lo, hi, html, off, pre, ind, d, k-1)
	}
}

// cntRun: what a part of a value adds to the number of elements.
//
//@ lemma
//@ decreases n - i, gRank(m)
//@ requires 0 <= lo && 0 <= k && 0 <= m && lo <= rpos(a, lo, n, k)
//@ requires ws(a, rpos(a, lo, n, k), n) == i
//@ requires rok(a, lo, n, k) && 0 <= rdep(a, lo, n, k)
//@ requires gEnd(m, a, i, n) >= 0
//@ requires imp(m > 0, rdep(a, lo, n, k) > 0 && robj(a, lo, n, k, rdep(a, lo, n, k)-1) == (m > 3))
//@ requires j < rdep(a, lo, n, k) - ite(m > 0, 1, 0)
//@ ensures rcnt(a, lo, n, rlast(a, k, i, gEnd(m, a, i, n), n), j) == rcnt(a, lo, n, k, j) + ite(m == 0 && rstarts(a, lo, n, k) && j == rdep(a, lo, n, k)-1, 1, 0)
func cntRun(m int, a Arr, lo int, n int, k int, i int, j int) {
	assert(rpos(a, lo, n, k+1) == tokEnd(a, i, n))
	tokRun(m, a, lo, n, k, i, j)
	if m == 0 {
		if a[i] == 123 {
			cntRun(4, a, lo, n, k+1, ws(a, i+1, n), j)
		} else if a[i] == 91 {
			cntRun(1, a, lo, n, k+1, ws(a, i+1, n), j)
		}
	} else if m == 1 {
		if a[i] != 93 {
			cntRun(2, a, lo, n, k, i, j)
		}
	} else if m == 2 {
		tokRun(0, a, lo, n, k, i, rdep(a, lo, n, k)-1)
		cntRun(0, a, lo, n, k, i, j)
		cntRun(3, a, lo, n, rlast(a, k, i, valueEnd(a, i, n), n), ws(a, valueEnd(a, i, n), n), j)
	} else if m == 3 {
		if a[i] == 44 {
			cntRun(2, a, lo, n, k+1, ws(a, i+1, n), j)
		}
	} else if m == 4 {
		if a[i] != 125 {
			cntRun(5, a, lo, n, k, i, j)
		}
	} else if m == 5 {
		cntRun(6, a, lo, n, k+1, ws(a, strEnd(a, i, n), n), j)
	} else if m == 6 {
		cntRun(7, a, lo, n, k+1, ws(a, i+1, n), j)
	} else if m == 7 {
		tokRun(0, a, lo, n, k, i, rdep(a, lo, n, k)-1)
		cntRun(0, a, lo, n, k, i, j)
		cntRun(8, a, lo, n, rlast(a, k, i, valueEnd(a, i, n), n), ws(a, valueEnd(a, i, n), n), j)
	} else {
		if a[i] == 44 {
			cntRun(5, a, lo, n, k+1, ws(a, i+1, n), j)
		}
	}
}
// rlineBlank: a new line.
//
//@ lemma
//@ requires off || blank(pre) && blank(ind)
//@ ensures blank(rline(off, pre, ind, d)) && blank(ite(off, "", " "))
func rlineBlank(off bool, pre Bytes, ind Bytes, d int) {
	wordOne()
	if !off {
		lineBlank(pre, ind, d)
	}
}

// elemMore: an array's text s with the element v, which the token k starts.
//
//@ lemma
//@ requires 0 <= k && (off || blank(pre) && blank(ind)) && single(v)
//@ requires parts(false, s, rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1))
//@ ensures parts(false, s+rfore(a, lo, hi, html, off, pre, ind, d, k)+v, rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1)+1)
func elemMore(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int, s Bytes, v Bytes) {
	rlineBlank(off, pre, ind, d+rdep(a, lo, hi, k))
	elemOne(rline(off, pre, ind, d+rdep(a, lo, hi, k)), v)
	if rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1) > 0 {
		partsCat(false, s, rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1), rline(off, pre, ind, d+rdep(a, lo, hi, k))+v)
	} else {
		partsNone(false, s)
	}
}

// membMore: an object's text s with the member key:v, which the token k starts.
//
//@ lemma
//@ requires 0 <= k && (off || blank(pre) && blank(ind)) && quoted(key) && single(v)
//@ requires parts(true, s, rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1))
//@ ensures parts(true, s+rfore(a, lo, hi, html, off, pre, ind, d, k)+key+":"+ite(off, "", " ")+v, rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1)+1)
func membMore(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int, s Bytes, key Bytes, v Bytes) {
	rlineBlank(off, pre, ind, d+rdep(a, lo, hi, k))
	memberOne(rline(off, pre, ind, d+rdep(a, lo, hi, k)), key, ite(off, "", " "), v)
	if rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1) > 0 {
		partsCat(true, s, rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1), rline(off, pre, ind, d+rdep(a, lo, hi, k))+key+":"+ite(off, "", " ")+v)
	} else {
		partsNone(true, s)
	}
}

// contDone: a container is closed by the token k.
//
//@ lemma
//@ requires 0 <= k && (off || blank(pre) && blank(ind))
//@ requires parts(o, s, rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1)) && rchar(a, lo, hi, k) == ite(o, 125, 93)
//@ ensures single(unit(ite(o, 123, 91))+s+rput(a, lo, hi, html, off, pre, ind, d, k))
func contDone(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int, o bool, s Bytes) {
	wordOne()
	putIs(a, lo, hi, html, off, pre, ind, d, k)
	rlineBlank(off, pre, ind, d+rdep(a, lo, hi, k)-1)
	assert(unit(91) == "[" && unit(93) == "]" && unit(123) == "{" && unit(125) == "}")
	if rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1) > 0 {
		if o {
			objWhole("", s, rline(off, pre, ind, d+rdep(a, lo, hi, k)-1), rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1))
			assert("{"+""+s+rline(off, pre, ind, d+rdep(a, lo, hi, k)-1)+"}" == unit(123)+s+rput(a, lo, hi, html, off, pre, ind, d, k))
		} else {
			arrWhole("", s, rline(off, pre, ind, d+rdep(a, lo, hi, k)-1), rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1))
			assert("["+""+s+rline(off, pre, ind, d+rdep(a, lo, hi, k)-1)+"]" == unit(91)+s+rput(a, lo, hi, html, off, pre, ind, d, k))
		}
	} else {
		partsNone(o, s)
		if o {
			assert(unit(123)+s+rput(a, lo, hi, html, off, pre, ind, d, k) == "{}")
		} else {
			assert(unit(91)+s+rput(a, lo, hi, html, off, pre, ind, d, k) == "[]")
		}
	}
}

// joinMember, joinElem: texts put together.
//
//@ lemma
//@ requires all == p+s0 && s0 == r0+s1 && r0 == f+w && s1 == r1+s2 && r1 == ":"+sp && s2 == c+s3
//@ ensures all == p+f+w+":"+sp+(c+s3)
func joinMember(all Bytes, p Bytes, s0 Bytes, r0 Bytes, s1 Bytes, r1 Bytes, s2 Bytes, f Bytes, w Bytes, sp Bytes, c Bytes, s3 Bytes) {
}

//@ lemma
//@ requires all == p+s0 && s0 == r0+s1 && r0 == f+c
//@ ensures all == p+f+(c+s1)
func joinElem(all Bytes, p Bytes, s0 Bytes, r0 Bytes, s1 Bytes, f Bytes, c Bytes) {
}

// membSeg: what is written for a member and what is before it.
//
//@ lemma
//@ requires 0 <= k && 0 <= b && b < k && k+2 < q
//@ requires rchar(a, lo, hi, k) == 34 && rstarts(a, lo, hi, k) && rchar(a, lo, hi, k+1) == 58 && !rstarts(a, lo, hi, k+2)
//@ requires !closing(rchar(a, lo, hi, k+2)) && rchar(a, lo, hi, k+2) != 44 && rchar(a, lo, hi, k+2) != 58
//@ ensures rseg(a, lo, hi, html, off, pre, ind, d, b+1, q) == rseg(a, lo, hi, html, off, pre, ind, d, b+1, k)+rfore(a, lo, hi, html, off, pre, ind, d, k)+rword(a, lo, hi, html, k)+":"+ite(off, "", " ")+(rcore(a, lo, hi, html, k+2)+rseg(a, lo, hi, html, off, pre, ind, d, k+3, q))
func membSeg(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int, b int, q int) {
	putIs(a, lo, hi, html, off, pre, ind, d, k)
	putIs(a, lo, hi, html, off, pre, ind, d, k+1)
	putIs(a, lo, hi, html, off, pre, ind, d, k+2)
	segCat(a, lo, hi, html, off, pre, ind, d, b+1, k, q)
	segHead(a, lo, hi, html, off, pre, ind, d, k, q)
	segHead(a, lo, hi, html, off, pre, ind, d, k+1, q)
	segHead(a, lo, hi, html, off, pre, ind, d, k+2, q)
	joinMember(rseg(a, lo, hi, html, off, pre, ind, d, b+1, q), rseg(a, lo, hi, html, off, pre, ind, d, b+1, k), rseg(a, lo, hi, html, off, pre, ind, d, k, q), rput(a, lo, hi, html, off, pre, ind, d, k), rseg(a, lo, hi, html, off, pre, ind, d, k+1, q), rput(a, lo, hi, html, off, pre, ind, d, k+1), rseg(a, lo, hi, html, off, pre, ind, d, k+2, q), rfore(a, lo, hi, html, off, pre, ind, d, k), rword(a, lo, hi, html, k), ite(off, "", " "), rcore(a, lo, hi, html, k+2), rseg(a, lo, hi, html, off, pre, ind, d, k+3, q))
}

// membRun: an object with one more member.
//
//@ lemma
//@ requires 0 <= lo && 0 <= k && 0 <= b && b < k && k+2 < q && lo <= rpos(a, lo, hi, k) && (off || blank(pre) && blank(ind))
//@ requires tokEnd(a, ws(a, rpos(a, lo, hi, k), hi), hi) >= 0 && ws(a, rpos(a, lo, hi, k), hi) < hi
//@ requires rchar(a, lo, hi, k) == 34 && rstarts(a, lo, hi, k) && rchar(a, lo, hi, k+1) == 58 && !rstarts(a, lo, hi, k+2)
//@ requires !closing(rchar(a, lo, hi, k+2)) && rchar(a, lo, hi, k+2) != 44 && rchar(a, lo, hi, k+2) != 58
//@ requires parts(true, rseg(a, lo, hi, html, off, pre, ind, d, b+1, k), rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1))
//@ requires single(rcore(a, lo, hi, html, k+2)+rseg(a, lo, hi, html, off, pre, ind, d, k+3, q))
//@ ensures parts(true, rseg(a, lo, hi, html, off, pre, ind, d, b+1, q), rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1)+1)
func membRun(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int, b int, q int) {
	wordIs(a, lo, hi, html, k)
	membSeg(a, lo, hi, html, off, pre, ind, d, k, b, q)
	membMore(a, lo, hi, html, off, pre, ind, d, k, rseg(a, lo, hi, html, off, pre, ind, d, b+1, k), rword(a, lo, hi, html, k), rcore(a, lo, hi, html, k+2)+rseg(a, lo, hi, html, off, pre, ind, d, k+3, q))
}

// elemRun: an array with one more element.
//
//@ lemma
//@ requires 0 <= k && 0 <= b && b < k && k < q && (off || blank(pre) && blank(ind))
//@ requires rstarts(a, lo, hi, k)
//@ requires parts(false, rseg(a, lo, hi, html, off, pre, ind, d, b+1, k), rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1))
//@ requires single(rcore(a, lo, hi, html, k)+rseg(a, lo, hi, html, off, pre, ind, d, k+1, q))
//@ ensures parts(false, rseg(a, lo, hi, html, off, pre, ind, d, b+1, q), rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1)+1)
func elemRun(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int, b int, q int) {
	putIs(a, lo, hi, html, off, pre, ind, d, k)
	segCat(a, lo, hi, html, off, pre, ind, d, b+1, k, q)
	segHead(a, lo, hi, html, off, pre, ind, d, k, q)
	joinElem(rseg(a, lo, hi, html, off, pre, ind, d, b+1, q), rseg(a, lo, hi, html, off, pre, ind, d, b+1, k), rseg(a, lo, hi, html, off, pre, ind, d, k, q), rput(a, lo, hi, html, off, pre, ind, d, k), rseg(a, lo, hi, html, off, pre, ind, d, k+1, q), rfore(a, lo, hi, html, off, pre, ind, d, k), rcore(a, lo, hi, html, k))
	elemMore(a, lo, hi, html, off, pre, ind, d, k, rseg(a, lo, hi, html, off, pre, ind, d, b+1, k), rcore(a, lo, hi, html, k)+rseg(a, lo, hi, html, off, pre, ind, d, k+1, q))
}

// outRun: what is written for a value, its container opened by the token b.
//
//@ lemma
//@ decreases hi - i, gRank(m)
//@ requires 0 <= lo && 0 <= k && 0 <= m && m != 6 && m != 7 && m <= 8 && lo <= rpos(a, lo, hi, k)
//@ requires ws(a, rpos(a, lo, hi, k), hi) == i && (off || blank(pre) && blank(ind))
//@ requires rok(a, lo, hi, k) && 0 <= rdep(a, lo, hi, k)
//@ requires gEnd(m, a, i, hi) >= 0
//@ requires imp(m > 0, rdep(a, lo, hi, k) > 0 && robj(a, lo, hi, k, rdep(a, lo, hi, k)-1) == (m > 3) && 0 <= b && b < k)
//@ requires imp(m > 0, parts(m > 3, rseg(a, lo, hi, html, off, pre, ind, d, b+1, k), rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1)))
//@ requires imp(m == 4 || m == 5, rkey(a, lo, hi, k))
//@ requires imp(m == 1 || m == 4, rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1) == 0)
//@ ensures imp(m == 0, single(rcore(a, lo, hi, html, k)+rseg(a, lo, hi, html, off, pre, ind, d, k+1, rlast(a, k, i, gEnd(m, a, i, hi), hi))))
//@ ensures imp(m > 0, single(unit(ite(m > 3, 123, 91))+rseg(a, lo, hi, html, off, pre, ind, d, b+1, rlast(a, k, i, gEnd(m, a, i, hi), hi))))
func outRun(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int, k int, m int, i int, b int) {
	wordOne()
	assert(rpos(a, lo, hi, k+1) == tokEnd(a, i, hi))
	assert(rseg(a, lo, hi, html, off, pre, ind, d, k+1, k+1) == "")
	if m == 0 {
		tokRun(m, a, lo, hi, k, i, 0)
		if a[i] == 123 {
			outRun(a, lo, hi, html, off, pre, ind, d, k+1, 4, ws(a, i+1, hi), k)
		} else if a[i] == 91 {
			outRun(a, lo, hi, html, off, pre, ind, d, k+1, 1, ws(a, i+1, hi), k)
		} else {
			wordIs(a, lo, hi, html, k)
		}
	} else if m == 2 {
		tokRun(0, a, lo, hi, k, i, rdep(a, lo, hi, k)-1)
		cntRun(0, a, lo, hi, k, i, rdep(a, lo, hi, k)-1)
		outRun(a, lo, hi, html, off, pre, ind, d, k, 0, i, 0)
		elemRun(a, lo, hi, html, off, pre, ind, d, k, b, rlast(a, k, i, valueEnd(a, i, hi), hi))
		outRun(a, lo, hi, html, off, pre, ind, d, rlast(a, k, i, valueEnd(a, i, hi), hi), 3, ws(a, valueEnd(a, i, hi), hi), b)
		assert(rlast(a, rlast(a, k, i, valueEnd(a, i, hi), hi), ws(a, valueEnd(a, i, hi), hi), gEnd(m, a, i, hi), hi) == rlast(a, k, i, gEnd(m, a, i, hi), hi))
	} else if m == 5 {
		assert(rpos(a, lo, hi, k+2) == tokEnd(a, ws(a, strEnd(a, i, hi), hi), hi))
		assert(rchar(a, lo, hi, k) == 34 && rchar(a, lo, hi, k+1) == 58 && ws(a, rpos(a, lo, hi, k+2), hi) == ws(a, ws(a, strEnd(a, i, hi), hi)+1, hi))
		assert(rdep(a, lo, hi, k+2) == rdep(a, lo, hi, k) && robj(a, lo, hi, k+2, rdep(a, lo, hi, k)-1) && !rkey(a, lo, hi, k+2) && rok(a, lo, hi, k+2))
		assert(rcnt(a, lo, hi, k+2, rdep(a, lo, hi, k)-1) == rcnt(a, lo, hi, k, rdep(a, lo, hi, k)-1)+1)
		tokRun(0, a, lo, hi, k+2, ws(a, rpos(a, lo, hi, k+2), hi), rdep(a, lo, hi, k)-1)
		cntRun(0, a, lo, hi, k+2, ws(a, rpos(a, lo, hi, k+2), hi), rdep(a, lo, hi, k)-1)
		outRun(a, lo, hi, html, off, pre, ind, d, k+2, 0, ws(a, rpos(a, lo, hi, k+2), hi), 0)
		membRun(a, lo, hi, html, off, pre, ind, d, k, b, rlast(a, k+2, ws(a, rpos(a, lo, hi, k+2), hi), valueEnd(a, ws(a, rpos(a, lo, hi, k+2), hi), hi), hi))
		outRun(a, lo, hi, html, off, pre, ind, d, rlast(a, k+2, ws(a, rpos(a, lo, hi, k+2), hi), valueEnd(a, ws(a, rpos(a, lo, hi, k+2), hi), hi), hi), 8, ws(a, valueEnd(a, ws(a, rpos(a, lo, hi, k+2), hi), hi), hi), b)
		assert(rlast(a, rlast(a, k+2, ws(a, rpos(a, lo, hi, k+2), hi), valueEnd(a, ws(a, rpos(a, lo, hi, k+2), hi), hi), hi), ws(a, valueEnd(a, ws(a, rpos(a, lo, hi, k+2), hi), hi), hi), gEnd(m, a, i, hi), hi) == rlast(a, k, i, gEnd(m, a, i, hi), hi))
	} else if m == 1 || m == 3 {
		putIs(a, lo, hi, html, off, pre, ind, d, k)
		if a[i] == 93 {
			assert(gEnd(m, a, i, hi) == i+1 && rlast(a, k, i, i+1, hi) == k+1)
			contDone(a, lo, hi, html, off, pre, ind, d, k, false, rseg(a, lo, hi, html, off, pre, ind, d, b+1, k))
		} else if m == 1 {
			outRun(a, lo, hi, html, off, pre, ind, d, k, 2, i, b)
		} else {
			outRun(a, lo, hi, html, off, pre, ind, d, k+1, 2, ws(a, i+1, hi), b)
		}
	} else {
		putIs(a, lo, hi, html, off, pre, ind, d, k)
		if a[i] == 125 {
			assert(gEnd(m, a, i, hi) == i+1 && rlast(a, k, i, i+1, hi) == k+1)
			contDone(a, lo, hi, html, off, pre, ind, d, k, true, rseg(a, lo, hi, html, off, pre, ind, d, b+1, k))
		} else if m == 4 {
			outRun(a, lo, hi, html, off, pre, ind, d, k, 5, i, b)
		} else {
			outRun(a, lo, hi, html, off, pre, ind, d, k+1, 5, ws(a, i+1, hi), b)
		}
	}
}
// rawWhole: all that is written for a value.
//
//@ lemma
//@ requires 0 <= lo && lo <= hi && (off || blank(pre) && blank(ind)) && valueEnd(a, lo, hi) == hi
//@ ensures single(render(0, rawItems(a, lo, hi, html, off, pre, ind, d, nTok(a, lo, hi))))
func rawWhole(a Arr, lo int, hi int, html bool, off bool, pre Bytes, ind Bytes, d int) {
	assert(nTok(a, hi, hi) == 0 && rlast(a, 0, lo, hi, hi) == nTok(a, lo, hi))
	assert(ws(a, rpos(a, lo, hi, 0), hi) == lo && rdep(a, lo, hi, 0) == 0 && !rstarts(a, lo, hi, 0))
	tokRun(0, a, lo, hi, 0, lo, 0)
	outRun(a, lo, hi, html, off, pre, ind, d, 0, 0, lo, 0)
	putIs(a, lo, hi, html, off, pre, ind, d, 0)
	segHead(a, lo, hi, html, off, pre, ind, d, 0, nTok(a, lo, hi))
	segAll(a, lo, hi, html, off, pre, ind, d, nTok(a, lo, hi))
}
