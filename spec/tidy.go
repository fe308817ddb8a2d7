package spec

// ---- text without <, >, &, U+2028 and U+2029 ----

// neatFrom: there is none of them in s from i on.
//
//@ decreases len(s) - i
//@ requires 0 <= i
func neatFrom(s Bytes, i int) bool {
	if i >= len(s) {
		return true
	}
	if s[i] == 60 || s[i] == 62 || s[i] == 38 || s[i] == 226 && i+2 < len(s) && s[i+1] == 128 && (s[i+2] == 168 || s[i+2] == 169) {
		return false
	}
	return neatFrom(s, i+1)
}

// starts: s does not start in the middle of a character.
func starts(s Bytes) bool { return len(s) == 0 || !cont(int(s[0])) }

// neat: there is none in s, nor can one arise where s is appended.
//
//@ opaque
//@ decreases 0
func neat(s Bytes) bool { return starts(s) && neatFrom(s, 0) }

// neatShift: what holds of t holds of it at the end of a text.
//
//@ lemma
//@ decreases len(t) - k
//@ requires 0 <= k
//@ requires neatFrom(t, k)
//@ ensures neatFrom(s+t, len(s)+k)
func neatShift(s Bytes, t Bytes, k int) {
	if k < len(t) {
		neatShift(s, t, k+1)
	}
}

// neatLeft: appending t leaves s as it is.
//
//@ lemma
//@ decreases len(s) - i
//@ requires 0 <= i && i <= len(s)
//@ requires neatFrom(s, i) && neatFrom(t, 0) && starts(t)
//@ ensures neatFrom(s+t, i)
func neatLeft(s Bytes, t Bytes, i int) {
	if i < len(s) {
		assert((s + t)[i] == s[i])
		assert(imp(i+1 < len(s), (s + t)[i+1] == s[i+1]))
		assert(imp(i+2 < len(s), (s + t)[i+2] == s[i+2]))
		assert(imp(i+1 == len(s) && len(t) > 0, (s + t)[i+1] == t[0]))
		assert(imp(i+2 == len(s) && len(t) > 0, (s + t)[i+2] == t[0]))
		neatLeft(s, t, i+1)
	} else {
		neatShift(s, t, 0)
	}
}

//@ lemma
//@ requires neat(s) && neat(t)
//@ ensures neat(s+t)
func neatCat(s Bytes, t Bytes) {
	neatLeft(s, t, 0)
}

// tameFrom: s is ASCII without <, > and & from i on.
//
//@ decreases len(s) - i
//@ requires 0 <= i
func tameFrom(s Bytes, i int) bool {
	return i >= len(s) || s[i] < 128 && s[i] != 60 && s[i] != 62 && s[i] != 38 && tameFrom(s, i+1)
}

//@ opaque
//@ decreases 0
func tame(s Bytes) bool { return tameFrom(s, 0) }

//@ lemma
//@ decreases len(s) - i
//@ requires 0 <= i && tameFrom(s, i)
//@ ensures neatFrom(s, i)
func tameNeatFrom(s Bytes, i int) {
	if i < len(s) {
		tameNeatFrom(s, i+1)
	}
}

//@ lemma
//@ requires tame(s)
//@ ensures neat(s)
func tameNeat(s Bytes) {
	tameNeatFrom(s, 0)
}

// tameShift, tameLeft, tameCat: likewise for tame text.
//
//@ lemma
//@ decreases len(t) - k
//@ requires 0 <= k
//@ requires tameFrom(t, k)
//@ ensures tameFrom(s+t, len(s)+k)
func tameShift(s Bytes, t Bytes, k int) {
	if k < len(t) {
		tameShift(s, t, k+1)
	}
}

//@ lemma
//@ decreases len(s) - i
//@ requires 0 <= i && i <= len(s)
//@ requires tameFrom(s, i) && tameFrom(t, 0)
//@ ensures tameFrom(s+t, i)
func tameLeft(s Bytes, t Bytes, i int) {
	if i < len(s) {
		tameLeft(s, t, i+1)
	} else {
		tameShift(s, t, 0)
	}
}

//@ lemma
//@ requires tame(s) && tame(t)
//@ ensures tame(s+t)
func tameCat(s Bytes, t Bytes) {
	tameLeft(s, t, 0)
}

// tameBytes: a[i:j] is tame.
//
//@ decreases j - i
func tameBytes(a Arr, i int, j int) bool {
	return i >= j || a[i] < 128 && a[i] != 60 && a[i] != 62 && a[i] != 38 && tameBytes(a, i+1, j)
}

//@ lemma
//@ decreases j - i
//@ requires 0 <= i
//@ requires tameBytes(a, i, j)
//@ ensures tame(sub(a, i, j))
func tameSub(a Arr, i int, j int) {
	if i < j {
		assert(sub(a, i, j) == unit(int(a[i]))+sub(a, i+1, j))
		tameSub(a, i+1, j)
		tameCat(unit(int(a[i])), sub(a, i+1, j))
	}
}

// tamePart: so is a part of tame text.
//
//@ lemma
//@ decreases j - i
//@ requires 0 <= i && i <= j && j <= len(t)
//@ requires tameFrom(t, i)
//@ ensures tame(t[i:j])
func tamePart(t Bytes, i int, j int) {
	if i < j {
		tamePart(t, i+1, j)
		assert(t[i:j] == unit(int(t[i]))+t[i+1:j])
		tameCat(unit(int(t[i])), t[i+1:j])
	}
}

// tameDrop: what follows the first i bytes.
//
//@ lemma
//@ decreases i
//@ requires 0 <= i && i <= len(t)
//@ requires tameFrom(t, 0)
//@ ensures tameFrom(t, i)
func tameDrop(t Bytes, i int) {
	if i > 0 {
		tameDrop(t, i-1)
	}
}

//@ lemma
//@ requires tame(t)
//@ ensures tame(cleanExp(t))
func tameExp(t Bytes) {
	if len(t) >= 4 {
		tameDrop(t, len(t)-1)
		tamePart(t, 0, len(t)-2)
		tamePart(t, len(t)-1, len(t))
		tameCat(t[:len(t)-2], t[len(t)-1:])
	}
}

// ---- string literals ----

// charNeat: a character of UTF-8 other than those.
//
//@ lemma
//@ requires 0 <= j && j < n
//@ requires a[j] != 60 && a[j] != 62 && a[j] != 38
//@ requires imp(a[j] >= 128, utf8Size(a, j, n) > 1)
//@ requires utf8Rune(a, j, n) != 8232 && utf8Rune(a, j, n) != 8233
//@ ensures neat(sub(a, j, j+utf8Size(a, j, n)))
func charNeat(a Arr, j int, n int) {
	escASCII(a, j, n)
	if utf8Size(a, j, n) == 1 {
		assert(sub(a, j, j+1) == unit(int(a[j])))
	} else if utf8Size(a, j, n) == 2 {
		assert(sub(a, j, j+2) == unit(int(a[j]))+unit(int(a[j+1])))
	} else if utf8Size(a, j, n) == 3 {
		assert(sub(a, j, j+3) == unit(int(a[j]))+unit(int(a[j+1]))+unit(int(a[j+2])))
	} else {
		assert(sub(a, j, j+4) == unit(int(a[j]))+unit(int(a[j+1]))+unit(int(a[j+2]))+unit(int(a[j+3])))
	}
}

//@ lemma
//@ requires 0 <= j && j < n
//@ ensures neat(escOne(a, j, true, utf8Rune(a, j, n), utf8Size(a, j, n)))
func escOneNeat(a Arr, j int, n int) {
	escASCII(a, j, n)
	if a[j] != 60 && a[j] != 62 && a[j] != 38 && (a[j] < 128 || utf8Size(a, j, n) > 1) && utf8Rune(a, j, n) != 8232 && utf8Rune(a, j, n) != 8233 {
		charNeat(a, j, n)
	}
}

//@ lemma
//@ decreases n - j
//@ requires 0 <= j
//@ ensures neat(esc(a, j, n, true))
func escNeat(a Arr, j int, n int) {
	if j < n {
		escOneNeat(a, j, n)
		escNeat(a, j+utf8Size(a, j, n), n)
		neatCat(escOne(a, j, true, utf8Rune(a, j, n), utf8Size(a, j, n)), esc(a, j+utf8Size(a, j, n), n, true))
	}
}

//@ lemma
//@ requires 0 <= j
//@ ensures neat("\""+esc(a, j, n, true)+"\"")
func litNeat(a Arr, j int, n int) {
	escNeat(a, j, n)
	neatCat("\"", esc(a, j, n, true))
	neatCat("\""+esc(a, j, n, true), "\"")
}

// compNeat: the rest of a string without those characters.
//
//@ lemma
//@ decreases n - i
//@ requires 0 <= i && e >= 0 && strScan(a, i, n) == e
//@ ensures len(comp(a, i, e, true, false)) > 0
//@ ensures neatFrom(comp(a, i, e, true, false), 0)
//@ ensures comp(a, i, e, true, false)[0] == a[i] || comp(a, i, e, true, false)[0] == 92
func compNeat(a Arr, i int, e int, n int) {
	if a[i] == 92 && a[i+1] == 117 {
		compNeat(a, i+6, e, n)
		assert(comp(a, i, e, true, false) == unit(int(a[i]))+unit(int(a[i+1]))+comp(a, i+2, e, true, false))
		assert(comp(a, i+2, e, true, false) == unit(int(a[i+2]))+comp(a, i+3, e, true, false))
		assert(comp(a, i+3, e, true, false) == unit(int(a[i+3]))+comp(a, i+4, e, true, false))
		assert(comp(a, i+4, e, true, false) == unit(int(a[i+4]))+comp(a, i+5, e, true, false))
		assert(comp(a, i+5, e, true, false) == unit(int(a[i+5]))+comp(a, i+6, e, true, false))
		neatShift(unit(int(a[i+5])), comp(a, i+6, e, true, false), 0)
		neatShift(unit(int(a[i+4])), comp(a, i+5, e, true, false), 0)
		neatShift(unit(int(a[i+3])), comp(a, i+4, e, true, false), 0)
		neatShift(unit(int(a[i+2])), comp(a, i+3, e, true, false), 0)
		neatShift(unit(int(a[i]))+unit(int(a[i+1])), comp(a, i+2, e, true, false), 0)
	} else if a[i] == 92 {
		compNeat(a, i+2, e, n)
		assert(comp(a, i, e, true, false) == unit(int(a[i]))+unit(int(a[i+1]))+comp(a, i+2, e, true, false))
		neatShift(unit(int(a[i]))+unit(int(a[i+1])), comp(a, i+2, e, true, false), 0)
	} else if a[i] == 60 || a[i] == 62 || a[i] == 38 {
		compNeat(a, i+1, e, n)
		neatShift("\\u00"+unit(hexChar(int(a[i])/16))+unit(hexChar(int(a[i])%16)), comp(a, i+1, e, true, false), 0)
	} else if a[i] != 34 {
		compNeat(a, i+1, e, n)
		if lineSep(a, i, e) {
			compNeat(a, i+3, e, n)
			neatShift("\\u202"+unit(hexChar(int(a[i+2])%16)), comp(a, i+3, e, true, false), 0)
		} else {
			if a[i+1] == 128 {
				compNeat(a, i+2, e, n)
			}
			neatShift(unit(int(a[i])), comp(a, i+1, e, true, false), 0)
		}
	}
}

// quotNeat: a whole string token.
//
//@ lemma
//@ requires 0 <= i && e >= 0 && a[i] == 34 && strScan(a, i+1, n) == e
//@ ensures neat(comp(a, i, e, false, false))
func quotNeat(a Arr, i int, e int, n int) {
	compNeat(a, i+1, e, n)
	assert(comp(a, i, e, false, false) == "\""+comp(a, i+1, e, true, false))
	neatShift("\"", comp(a, i+1, e, true, false), 0)
}

//@ lemma
//@ requires 0 <= i && i < n && a[i] == 34 && tokEnd(a, i, n) >= 0
//@ ensures neat(comp(a, i, tokEnd(a, i, n), false, false))
func quotTo(a Arr, i int, n int) {
	quotNeat(a, i, tokEnd(a, i, n), n)
}

// ---- numbers and words ----

//@ lemma
//@ decreases j - i
//@ requires i <= j
//@ requires tameBytes(a, i, j) && tameBytes(a, j, k)
//@ ensures tameBytes(a, i, k)
func tameJoin(a Arr, i int, j int, k int) {
	if i < j {
		tameJoin(a, i+1, j, k)
	}
}

//@ lemma
//@ decreases n - i
//@ ensures tameBytes(a, i, digEnd(a, i, n))
func digTame(a Arr, i int, n int) {
	if i < n && isDigit(int(a[i])) {
		digTame(a, i+1, n)
	}
}

//@ lemma
//@ requires 0 <= k && k <= n && expEnd(a, k, n) >= 0
//@ ensures expEnd(a, k, n) >= k
//@ ensures tameBytes(a, k, expEnd(a, k, n))
func expTame(a Arr, k int, n int) {
	if k < n && (a[k] == 101 || a[k] == 69) {
		if a[k+1] == 43 || a[k+1] == 45 {
			digTame(a, k+2, n)
		} else {
			digTame(a, k+1, n)
		}
	}
}

//@ lemma
//@ requires 0 <= k && k <= n && fracEnd(a, k, n) >= 0
//@ ensures fracEnd(a, k, n) >= k
//@ ensures tameBytes(a, k, fracEnd(a, k, n))
func fracTame(a Arr, k int, n int) {
	if k < n && a[k] == 46 {
		digTame(a, k+1, n)
		expTame(a, digEnd(a, k+1, n), n)
		tameJoin(a, k+1, digEnd(a, k+1, n), fracEnd(a, k, n))
	} else {
		expTame(a, k, n)
	}
}

//@ lemma
//@ requires 0 <= k && k <= n && intEnd(a, k, n) >= 0
//@ ensures tameBytes(a, k, intEnd(a, k, n))
func intTame(a Arr, k int, n int) {
	if a[k] == 48 {
		fracTame(a, k+1, n)
	} else {
		digTame(a, k, n)
		fracTame(a, digEnd(a, k, n), n)
		tameJoin(a, k, digEnd(a, k, n), intEnd(a, k, n))
	}
}

//@ lemma
//@ requires 0 <= i && i <= n && numEnd(a, i, n) >= 0
//@ ensures tame(sub(a, i, numEnd(a, i, n)))
func numTame(a Arr, i int, n int) {
	if i < n && a[i] == 45 {
		intTame(a, i+1, n)
	} else {
		intTame(a, i, n)
	}
	tameSub(a, i, numEnd(a, i, n))
}

// ---- items ----

// colorNeat: so are the colors.
//
//@ opaque
//@ decreases 0
func colorNeat(ci int) bool {
	return ci == 0 || neat(col(ci, 1)) && neat(col(ci, 2)) && neat(col(ci, 3)) && neat(col(ci, 4)) && neat(col(ci, 5)) && neat(col(ci, 6)) && neat(col(ci, 7)) && neat(col(ci, 8)) && neat(col(ci, 9)) && neat(col(ci, 10)) && neat(col(ci, 11)) && neat(col(ci, 12))
}

//@ lemma
//@ requires colorNeat(ci) && 1 <= k && k <= 12 && neat(t)
//@ ensures neat(ritem(ci, k, t))
func itemNeat(ci int, k int, t Bytes) {
	if ci != 0 {
		assert(neat(col(ci, k)))
		neatCat(col(ci, k), t)
		neatCat(col(ci, k)+t, "\x1b[0m")
	}
}

// punctNeat: fixed texts.
//
//@ lemma
//@ requires colorNeat(ci)
//@ ensures neat("") && neat("\n") && neat(" ")
//@ ensures neat("0") && neat("\"\"")
//@ ensures neat("null")
//@ ensures neat("true")
//@ ensures neat("false")
//@ ensures neat(ritem(ci, 1, "null"))
//@ ensures neat(ritem(ci, 8, "[")) && neat(ritem(ci, 8, "]"))
//@ ensures neat(ritem(ci, 9, "{")) && neat(ritem(ci, 9, "}"))
//@ ensures neat(ritem(ci, 10, ",")) && neat(ritem(ci, 11, ":"))
func punctNeat(ci int) {
	itemNeat(ci, 1, "null")
	itemNeat(ci, 8, "[")
	itemNeat(ci, 8, "]")
	itemNeat(ci, 9, "{")
	itemNeat(ci, 9, "}")
	itemNeat(ci, 10, ",")
	itemNeat(ci, 11, ":")
}

//@ lemma
//@ requires neat(r) && neat(s) && neat(t)
//@ ensures neat(r+s+t)
func neatCat3(r Bytes, s Bytes, t Bytes) {
	neatCat(r, s)
	neatCat(r+s, t)
}

//@ lemma
//@ decreases d
//@ requires neat(ind)
//@ ensures neat(rep(ind, d))
func repNeat(ind Bytes, d int) {
	if d > 0 {
		repNeat(ind, d-1)
		neatCat(rep(ind, d-1), ind)
	}
}

// lineNeat: the start of a line.
//
//@ lemma
//@ requires neat(pre) && neat(ind)
//@ ensures neat(pre + rep(ind, d)) && neat("\n" + pre + rep(ind, d))
func lineNeat(pre Bytes, ind Bytes, d int) {
	repNeat(ind, d)
	neatCat(pre, rep(ind, d))
	neatCat("\n", pre+rep(ind, d))
}

// ---- containers ----

//@ lemma
//@ requires colorNeat(ci) && neat(nl) && k >= 1
//@ requires neat(render(ci, arrItems(fn, flags, ii, d, base, size, nl, k-1)))
//@ requires neat(render(ci, encItems(fn, flags, ii, d, base+(k-1)*size)))
//@ ensures neat(render(ci, arrItems(fn, flags, ii, d, base, size, nl, k)))
func arrNeat(ci int, fn int, flags int, ii int, d int, base int, size int, nl Bytes, k int) {
	punctNeat(ci)
	neatCat(nl, render(ci, encItems(fn, flags, ii, d, base+(k-1)*size)))
	if k > 1 {
		neatCat3(render(ci, arrItems(fn, flags, ii, d, base, size, nl, k-1)), ritem(ci, 10, ","), nl+render(ci, encItems(fn, flags, ii, d, base+(k-1)*size)))
	}
}

// memberNeat: a member of an object.
//
//@ lemma
//@ requires colorNeat(ci) && neat(ind) && neat(key) && neat(spc) && neat(v)
//@ ensures neat(ind + ritem(ci, 5, key) + ritem(ci, 11, ":") + spc + v)
func memberNeat(ci int, ind Bytes, key Bytes, spc Bytes, v Bytes) {
	punctNeat(ci)
	itemNeat(ci, 5, key)
	neatCat3(ind, ritem(ci, 5, key), ritem(ci, 11, ":"))
	neatCat3(ind+ritem(ci, 5, key)+ritem(ci, 11, ":"), spc, v)
}

//@ lemma
//@ requires colorNeat(ci) && neat(nl) && neat(spc) && k >= 1
//@ requires neat(render(ci, fieldItems(sid, flags, ii, d, p, nl, spc, k-1)))
//@ requires imp(!fieldSkip(sid, flags, p, k-1), neat(fieldKey(sid, k-1, flags%2 == 1)))
//@ requires imp(!fieldSkip(sid, flags, p, k-1), neat(render(ci, encItems(fieldEnc(sid, k-1), flags, ii, d, p+fieldOff(sid, k-1)))))
//@ ensures neat(render(ci, fieldItems(sid, flags, ii, d, p, nl, spc, k)))
func fieldNeat(ci int, sid int, flags int, ii int, d int, p int, nl Bytes, spc Bytes, k int) {
	if !fieldSkip(sid, flags, p, k-1) {
		punctNeat(ci)
		memberNeat(ci, nl, fieldKey(sid, k-1, flags%2 == 1), spc, render(ci, encItems(fieldEnc(sid, k-1), flags, ii, d, p+fieldOff(sid, k-1))))
		if fieldCount(sid, flags, p, k-1) == 0 {
			neatCat(render(ci, fieldItems(sid, flags, ii, d, p, nl, spc, k-1)), nl+ritem(ci, 5, fieldKey(sid, k-1, flags%2 == 1))+ritem(ci, 11, ":")+spc+render(ci, encItems(fieldEnc(sid, k-1), flags, ii, d, p+fieldOff(sid, k-1))))
		} else {
			neatCat3(render(ci, fieldItems(sid, flags, ii, d, p, nl, spc, k-1)), ritem(ci, 10, ","), nl+ritem(ci, 5, fieldKey(sid, k-1, flags%2 == 1))+ritem(ci, 11, ":")+spc+render(ci, encItems(fieldEnc(sid, k-1), flags, ii, d, p+fieldOff(sid, k-1))))
		}
	}
}

// mapPart is the member k of a map without the comma and the new line before it.
func mapPart(ci int, kf int, vf int, flags int, ii int, d int, m int, ind Bytes, spc Bytes, k int) Bytes {
	return ind + ritem(ci, 5, render(0, encItems(kf, flags, ii, d, ifacePtr(mapKeyAt(m, flags/2%2 == 1, k))))) + ritem(ci, 11, ":") + spc + render(ci, encItems(vf, flags, ii, d, ifacePtr(mapIndex(m, mapKeyAt(m, flags/2%2 == 1, k)))))
}

//@ lemma
//@ requires colorNeat(ci) && neat(nl) && neat(ind) && neat(spc) && k >= 1
//@ requires neat(render(ci, mapItems(kf, vf, flags, ii, d, m, nl, ind, spc, k-1)))
//@ requires neat(render(0, encItems(kf, flags, ii, d, ifacePtr(mapKeyAt(m, flags/2%2 == 1, k-1)))))
//@ requires neat(render(ci, encItems(vf, flags, ii, d, ifacePtr(mapIndex(m, mapKeyAt(m, flags/2%2 == 1, k-1))))))
//@ ensures neat(render(ci, mapItems(kf, vf, flags, ii, d, m, nl, ind, spc, k)))
func mapNeat(ci int, kf int, vf int, flags int, ii int, d int, m int, nl Bytes, ind Bytes, spc Bytes, k int) {
	punctNeat(ci)
	memberNeat(ci, ind, render(0, encItems(kf, flags, ii, d, ifacePtr(mapKeyAt(m, flags/2%2 == 1, k-1)))), spc, render(ci, encItems(vf, flags, ii, d, ifacePtr(mapIndex(m, mapKeyAt(m, flags/2%2 == 1, k-1))))))
	if k > 1 {
		neatCat3(render(ci, mapItems(kf, vf, flags, ii, d, m, nl, ind, spc, k-1)), ritem(ci, 10, ","), nl)
		neatCat(render(ci, mapItems(kf, vf, flags, ii, d, m, nl, ind, spc, k-1))+ritem(ci, 10, ",")+nl, mapPart(ci, kf, vf, flags, ii, d, m, ind, spc, k-1))
	}
}

//@ lemma
//@ requires colorNeat(ci) && neat(nl) && neat(ind) && neat(spc) && k >= 1
//@ requires neat(render(ci, strItems(raw, m, flags, ii, d, nl, ind, spc, k-1)))
//@ requires neat(strText(strKey(m, flags, k-1), flags%2 == 1))
//@ requires neat(render(ci, strVal(raw, m, strKey(m, flags, k-1), flags, ii, d)))
//@ ensures neat(render(ci, strItems(raw, m, flags, ii, d, nl, ind, spc, k)))
func strNeat(ci int, raw bool, m int, flags int, ii int, d int, nl Bytes, ind Bytes, spc Bytes, k int) {
	punctNeat(ci)
	memberNeat(ci, ind, strText(strKey(m, flags, k-1), flags%2 == 1), spc, render(ci, strVal(raw, m, strKey(m, flags, k-1), flags, ii, d)))
	if k > 1 {
		neatCat3(render(ci, strItems(raw, m, flags, ii, d, nl, ind, spc, k-1)), ritem(ci, 10, ","), nl)
		neatCat(render(ci, strItems(raw, m, flags, ii, d, nl, ind, spc, k-1))+ritem(ci, 10, ",")+nl, ind+ritem(ci, 5, strText(strKey(m, flags, k-1), flags%2 == 1))+ritem(ci, 11, ":")+spc+render(ci, strVal(raw, m, strKey(m, flags, k-1), flags, ii, d)))
	}
}

// ---- raw messages ----

// rwordNeat: a token which is no delimiter.
//
//@ lemma
//@ requires 0 <= lo && 0 <= k && lo <= rpos(a, lo, hi, k) && rok(a, lo, hi, k+1)
//@ requires !isDelim(rchar(a, lo, hi, k))
//@ ensures neat(rword(a, lo, hi, true, k))
func rwordNeat(a Arr, lo int, hi int, k int) {
	if rchar(a, lo, hi, k) == 34 {
		quotTo(a, ws(a, rpos(a, lo, hi, k), hi), hi)
	} else if rchar(a, lo, hi, k) == 110 || rchar(a, lo, hi, k) == 116 || rchar(a, lo, hi, k) == 102 {
		tameSub(a, ws(a, rpos(a, lo, hi, k), hi), tokEnd(a, ws(a, rpos(a, lo, hi, k), hi), hi))
		tameNeat(rtext(a, lo, hi, k))
	} else {
		numTame(a, ws(a, rpos(a, lo, hi, k), hi), hi)
		tameNeat(rtext(a, lo, hi, k))
	}
}

//@ lemma
//@ requires colorNeat(ci) && 0 <= lo && rok(a, lo, hi, k+1) && 0 <= k && lo <= rpos(a, lo, hi, k)
//@ requires off || neat(pre) && neat(ind)
//@ ensures neat(render(ci, rlead(a, lo, hi, off, pre, ind, d, k)))
func rleadNeat(ci int, a Arr, lo int, hi int, off bool, pre Bytes, ind Bytes, d int, k int) {
	punctNeat(ci)
	if !off {
		lineNeat(pre, ind, d+rdep(a, lo, hi, k))
	}
	neatCat(ritem(ci, 10, ","), rline(off, pre, ind, d+rdep(a, lo, hi, k)))
}

//@ lemma
//@ requires colorNeat(ci) && 0 <= lo && rok(a, lo, hi, k+1) && 0 <= k && lo <= rpos(a, lo, hi, k)
//@ requires off || neat(pre) && neat(ind)
//@ ensures neat(render(ci, rone(a, lo, hi, true, off, pre, ind, d, k)))
func roneNeat(ci int, a Arr, lo int, hi int, off bool, pre Bytes, ind Bytes, d int, k int) {
	punctNeat(ci)
	rleadNeat(ci, a, lo, hi, off, pre, ind, d, k)
	if !off {
		lineNeat(pre, ind, d+rdep(a, lo, hi, k)-1)
	}
	if rchar(a, lo, hi, k) == 58 {
		neatCat(ritem(ci, 11, ":"), " ")
	} else if closing(rchar(a, lo, hi, k)) {
		neatCat(rline(off, pre, ind, d+rdep(a, lo, hi, k)-1), render(ci, punc(rchar(a, lo, hi, k))))
	} else if opening(rchar(a, lo, hi, k)) {
		neatCat(render(ci, rlead(a, lo, hi, off, pre, ind, d, k)), render(ci, punc(rchar(a, lo, hi, k))))
	} else if rchar(a, lo, hi, k) != 44 {
		rwordNeat(a, lo, hi, k)
		itemNeat(ci, rkind(a, lo, hi, k), rword(a, lo, hi, true, k))
		neatCat(render(ci, rlead(a, lo, hi, off, pre, ind, d, k)), ritem(ci, rkind(a, lo, hi, k), rword(a, lo, hi, true, k)))
	}
}

// rposMono: reading goes on.
//
//@ lemma
//@ decreases k
//@ requires 0 <= lo && 0 <= k && rok(a, lo, hi, k)
//@ ensures rpos(a, lo, hi, k) >= lo
func rposMono(a Arr, lo int, hi int, k int) {
	if k > 0 {
		rposMono(a, lo, hi, k-1)
	}
}

//@ lemma
//@ decreases k
//@ requires colorNeat(ci) && 0 <= lo && 0 <= k && rok(a, lo, hi, k)
//@ requires off || neat(pre) && neat(ind)
//@ ensures neat(render(ci, rawItems(a, lo, hi, true, off, pre, ind, d, k)))
func rawNeat(ci int, a Arr, lo int, hi int, off bool, pre Bytes, ind Bytes, d int, k int) {
	punctNeat(ci)
	if k > 0 {
		rawNeat(ci, a, lo, hi, off, pre, ind, d, k-1)
		rposMono(a, lo, hi, k-1)
		roneNeat(ci, a, lo, hi, off, pre, ind, d, k-1)
		neatCat(render(ci, rawItems(a, lo, hi, true, off, pre, ind, d, k-1)), render(ci, rone(a, lo, hi, true, off, pre, ind, d, k-1)))
	}
}

// arrWrap, objWrap, mapWrap: whole containers.
//
//@ lemma
//@ requires colorNeat(ci) && neat(body) && neat(s)
//@ ensures neat(ritem(ci, 8, "[") + body + s + ritem(ci, 8, "]"))
func arrWrap(ci int, body Bytes, s Bytes) {
	punctNeat(ci)
	neatCat3(ritem(ci, 8, "["), body, s)
	neatCat(ritem(ci, 8, "[")+body+s, ritem(ci, 8, "]"))
}

//@ lemma
//@ requires colorNeat(ci) && neat(body) && neat(s)
//@ ensures neat(ritem(ci, 9, "{") + body + s + ritem(ci, 9, "}"))
func objWrap(ci int, body Bytes, s Bytes) {
	punctNeat(ci)
	neatCat3(ritem(ci, 9, "{"), body, s)
	neatCat(ritem(ci, 9, "{")+body+s, ritem(ci, 9, "}"))
}

//@ lemma
//@ requires colorNeat(ci) && neat(nl) && neat(body) && neat(s)
//@ ensures neat(ritem(ci, 9, "{") + nl + body + s + ritem(ci, 9, "}"))
func mapWrap(ci int, nl Bytes, body Bytes, s Bytes) {
	neatCat(nl, body)
	objWrap(ci, nl+body, s)
}

//@ lemma
//@ requires colorNeat(ci)
//@ ensures neat(ritem(ci, 8, "[") + ritem(ci, 8, "]")) && neat(ritem(ci, 9, "{") + ritem(ci, 9, "}"))
func emptyNeat(ci int) {
	punctNeat(ci)
	neatCat(ritem(ci, 8, "["), ritem(ci, 8, "]"))
	neatCat(ritem(ci, 9, "{"), ritem(ci, 9, "}"))
}
