package spec

// ---- items of encoded text ----
//
// Encoders are specified by the sequence of items they append. An item is a
// piece of text and a kind, which selects its color:
// 0 white space and raw text (no color), 1 null, 2 booleans, 3 numbers,
// 4 strings, 5 keys, 6 byte slices, 7 times, 8 brackets, 9 braces, 10 commas,
// 11 colons, 12 text marshalers.
// render(ci, items), a homomorphism known to the condition generator, is the
// text of the items in the colors ci (0: no colors).

//@ uninterpreted
func item(k int, t Bytes) Bytes { panic("uninterpreted") }

// col is the escape sequence of the colors ci for items of kind k.
//
//@ uninterpreted
func col(ci int, k int) Bytes { panic("uninterpreted") }

// ritem is the text of one item.
//
//@ opaque
//@ decreases 0
//@ ensures imp(ci == 0, result == t)
func ritem(ci int, k int, t Bytes) Bytes {
	if ci == 0 {
		return t
	}
	return col(ci, k) + t + "\x1b[0m"
}

// rep is n copies of s.
//
//@ decreases n
func rep(s Bytes, n int) Bytes {
	if n <= 0 {
		return ""
	}
	return rep(s, n-1) + s
}

// decText is the decimal representation of n.
//
//@ uninterpreted
func decText(n int) Bytes { panic("uninterpreted") }

// ---- floating-point numbers, identified by opaque integers ----

//@ uninterpreted
func feq(a int, b int) bool { panic("uninterpreted") }

//@ uninterpreted
func flt(a int, b int) bool { panic("uninterpreted") }

//@ uninterpreted
func fle(a int, b int) bool { panic("uninterpreted") }

//@ uninterpreted
func fabs(a int) int { panic("uninterpreted") }

//@ uninterpreted
func fconvfloat32(a int) int { panic("uninterpreted") }

//@ uninterpreted
func fconvfloat64(a int) int { panic("uninterpreted") }

//@ uninterpreted
func isNaN(a int) bool { panic("uninterpreted") }

//@ uninterpreted
func isInf(a int) bool { panic("uninterpreted") }

// floatText is strconv's shortest text of f, as a float of that many bits, in
// the format 'e' or 'f'.
//
//@ uninterpreted
//@ ensures imp(format == 101, len(result) >= 5)
func floatText(f int, format int, bits int) Bytes { panic("uninterpreted") }

// cleanExp turns an exponent e-0d into e-d.
func cleanExp(t Bytes) Bytes {
	if len(t) >= 4 && t[len(t)-4] == 101 && t[len(t)-3] == 45 && t[len(t)-2] == 48 {
		return t[:len(t)-2] + t[len(t)-1:]
	}
	return t
}

// ---- what the encoder of a type appends ----

// encItems is what the encoder fn appends for the value p points to, with the
// flags, the indentation ii and the nesting depth d.
//
//@ uninterpreted
func encItems(fn int, flags int, ii int, d int, p int) Bytes { panic("uninterpreted") }

// mayRoll: fn is an encoder of a field reached through an embedded pointer.
//
//@ uninterpreted
func mayRoll(fn int) bool { panic("uninterpreted") }

// encRolls: the encoder fn takes back the field (of a nil embedded pointer).
//
//@ uninterpreted
//@ ensures imp(result, mayRoll(fn))
func encRolls(fn int, flags int, p int) bool { panic("uninterpreted") }

// arrItems is the first k elements of an array at base.
//
//@ decreases k
func arrItems(fn int, flags int, ii int, d int, base int, size int, nl Bytes, k int) Bytes {
	if k <= 0 {
		return ""
	}
	if k == 1 {
		return item(0, nl) + encItems(fn, flags, ii, d, base)
	}
	return arrItems(fn, flags, ii, d, base, size, nl, k-1) + item(10, ",") + item(0, nl) + encItems(fn, flags, ii, d, base+(k-1)*size)
}

// b64 is the standard base64 encoding of s.
//
//@ uninterpreted
//@ ensures len(result) == b64Len(len(s))
func b64(s Bytes) Bytes { panic("uninterpreted") }

// b64Len is the length of the standard base64 encoding of n bytes.
func b64Len(n int) int { return (n + 2) / 3 * 4 }

// timeText is the time in the format RFC3339Nano; t identifies the time.
//
//@ uninterpreted
func timeText(t int) Bytes { panic("uninterpreted") }

// ---- structs: the k-th field of the struct type sid ----

// isEmpty: the value p points to is empty according to the function fn.
//
//@ uninterpreted
func isEmpty(fn int, p int) bool { panic("uninterpreted") }

// fieldOmit: the field is left out because it is empty.
//
//@ uninterpreted
func fieldOmit(sid int, k int, p int) bool { panic("uninterpreted") }

// fieldKey is the literal of the field's name.
//
//@ uninterpreted
func fieldKey(sid int, k int, html bool) Bytes { panic("uninterpreted") }

//@ uninterpreted
func fieldEnc(sid int, k int) int { panic("uninterpreted") }

//@ uninterpreted
func fieldOff(sid int, k int) int { panic("uninterpreted") }

// fieldSkip: the field does not appear.
func fieldSkip(sid int, flags int, p int, k int) bool {
	return fieldOmit(sid, k, p) || encRolls(fieldEnc(sid, k), flags, p+fieldOff(sid, k))
}

// fieldCount is the number of fields among the first k which appear.
//
//@ decreases k
//@ ensures result >= 0
func fieldCount(sid int, flags int, p int, k int) int {
	if k <= 0 {
		return 0
	}
	if fieldSkip(sid, flags, p, k-1) {
		return fieldCount(sid, flags, p, k-1)
	}
	return fieldCount(sid, flags, p, k-1) + 1
}

// fieldItems is the first k fields of a struct.
//
//@ decreases k
func fieldItems(sid int, flags int, ii int, d int, p int, nl Bytes, spc Bytes, k int) Bytes {
	if k <= 0 {
		return ""
	}
	if fieldSkip(sid, flags, p, k-1) {
		return fieldItems(sid, flags, ii, d, p, nl, spc, k-1)
	}
	if fieldCount(sid, flags, p, k-1) == 0 {
		return fieldItems(sid, flags, ii, d, p, nl, spc, k-1) + item(0, nl) + item(5, fieldKey(sid, k-1, flags%2 == 1)) + item(11, ":") + item(0, spc) + encItems(fieldEnc(sid, k-1), flags, ii, d, p+fieldOff(sid, k-1))
	}
	return fieldItems(sid, flags, ii, d, p, nl, spc, k-1) + item(10, ",") + item(0, nl) + item(5, fieldKey(sid, k-1, flags%2 == 1)) + item(11, ":") + item(0, spc) + encItems(fieldEnc(sid, k-1), flags, ii, d, p+fieldOff(sid, k-1))
}

// ---- maps: the k-th member of a map, in the order in which it is written ----

//@ uninterpreted
func mapNil(m int) bool { panic("uninterpreted") }

//@ uninterpreted
//@ ensures result >= 0
func mapLen(m int) int { panic("uninterpreted") }

// entryKey is the k-th key in the order of iteration, mapKeyAt the k-th key
// written, both as reflect.Values.
//
//@ uninterpreted
func entryKey(m int, k int) int { panic("uninterpreted") }

//@ uninterpreted
func mapKeyAt(m int, sorted bool, k int) int { panic("uninterpreted") }

// ifacePtr is the pointer to the content of a reflect.Value.
//
//@ uninterpreted
//@ ensures result >= 0
func ifacePtr(v int) int { panic("uninterpreted") }

//@ uninterpreted
func mapIndex(m int, k int) int { panic("uninterpreted") }

// mapItems is the first k members of a map, whose keys kf encodes and whose
// values vf encodes.
//
//@ decreases k
func mapItems(kf int, vf int, flags int, ii int, d int, m int, nl Bytes, ind Bytes, spc Bytes, k int) Bytes {
	if k <= 0 {
		return ""
	}
	if k == 1 {
		return item(0, ind) + item(5, render(0, encItems(kf, flags, ii, d, ifacePtr(mapKeyAt(m, flags/2%2 == 1, 0))))) + item(11, ":") + item(0, spc) + encItems(vf, flags, ii, d, ifacePtr(mapIndex(m, mapKeyAt(m, flags/2%2 == 1, 0))))
	}
	return mapItems(kf, vf, flags, ii, d, m, nl, ind, spc, k-1) + item(10, ",") + item(0, nl) + item(0, ind) + item(5, render(0, encItems(kf, flags, ii, d, ifacePtr(mapKeyAt(m, flags/2%2 == 1, k-1))))) + item(11, ":") + item(0, spc) + encItems(vf, flags, ii, d, ifacePtr(mapIndex(m, mapKeyAt(m, flags/2%2 == 1, k-1))))
}

// ---- values seen through reflection ----

//@ uninterpreted
func newAt(t int, p int) int { panic("uninterpreted") }

//@ uninterpreted
func elemOf(v int) int { panic("uninterpreted") }

// typeID is the address of a type descriptor.
//
//@ uninterpreted
func typeID(t int) int { panic("uninterpreted") }

// encOfType is the encoder of the codec of a type; it does not roll back.
//
//@ uninterpreted
//@ ensures !mayRoll(result)
func encOfType(t int) int { panic("uninterpreted") }

// typeOf is the dynamic type of an interface value.
//
//@ uninterpreted
func typeOf(x int) int { panic("uninterpreted") }

// ---- marshalers ----

//@ uninterpreted
func kindOf(v int) int { panic("uninterpreted") }

//@ uninterpreted
func ifaceOf(v int) int { panic("uninterpreted") }

// jsonOf is what the MarshalJSON method of x returns.
//
//@ uninterpreted
func jsonOf(x int) Bytes { panic("uninterpreted") }

//@ uninterpreted
func jsonNil(x int) bool { panic("uninterpreted") }

//@ uninterpreted
func jsonFails(x int) bool { panic("uninterpreted") }

// textOf is what the MarshalText method of x returns.
//
//@ uninterpreted
func textOf(x int) Bytes { panic("uninterpreted") }

//@ uninterpreted
func textFails(x int) bool { panic("uninterpreted") }

// rawText is what the RawMessage s appends.
//
//@ uninterpreted
func rawText(s Bytes, null bool, flags int, ii int, d int) Bytes { panic("uninterpreted") }

// ---- string maps ----

// strLess is the order of strings.
//
//@ uninterpreted
func strLess(a Bytes, b Bytes) bool { panic("uninterpreted") }

// keyText is the text of a map key in JSON, before escaping; keyString is the
// string which it holds, keyInt the integer.
//
//@ uninterpreted
func keyText(v int) Bytes { panic("uninterpreted") }

//@ uninterpreted
func keyString(v int) Bytes { panic("uninterpreted") }

//@ uninterpreted
func keyInt(v int) int { panic("uninterpreted") }

// perm is the permutation applied by sorting s, permOf its inverse.
//
//@ uninterpreted
func perm(s int, j int) int { panic("uninterpreted") }

//@ uninterpreted
func permOf(s int, j int) int { panic("uninterpreted") }

// mapKeyText is the k-th key in the order of iteration.
//
//@ uninterpreted
func mapKeyText(m int, k int) Bytes { panic("uninterpreted") }

//@ uninterpreted
func mapAny(m int, key Bytes) int { panic("uninterpreted") }

//@ uninterpreted
func mapSeq(m int, key Bytes) Bytes { panic("uninterpreted") }

//@ uninterpreted
func mapSeqNil(m int, key Bytes) bool { panic("uninterpreted") }

// sortedKey is the k-th key in sorted order.
//
//@ uninterpreted
func sortedKey(m int, k int) Bytes { panic("uninterpreted") }

// strKey is the k-th key written.
func strKey(m int, flags int, k int) Bytes {
	if flags/2%2 == 1 {
		return sortedKey(m, k)
	}
	return mapKeyText(m, k)
}

// strVal is the value of the member key of a string map.
func strVal(raw bool, m int, key Bytes, flags int, ii int, d int) Bytes {
	if raw {
		return rawText(mapSeq(m, key), mapSeqNil(m, key), flags, ii, d)
	}
	if mapAny(m, key) == 0 {
		return item(1, "null")
	}
	return encItems(encOfType(typeID(typeOf(mapAny(m, key)))), flags, ii, d, ifacePtr(mapAny(m, key)))
}

// strItems is the first k members of a map[string]RawMessage or, unless raw,
// of a map[string]interface{}.
//
//@ decreases k
func strItems(raw bool, m int, flags int, ii int, d int, nl Bytes, ind Bytes, spc Bytes, k int) Bytes {
	if k <= 0 {
		return ""
	}
	if k == 1 {
		return item(0, ind) + item(5, strText(strKey(m, flags, 0), flags%2 == 1)) + item(11, ":") + item(0, spc) + strVal(raw, m, strKey(m, flags, 0), flags, ii, d)
	}
	return strItems(raw, m, flags, ii, d, nl, ind, spc, k-1) + item(10, ",") + item(0, nl) + item(0, ind) + item(5, strText(strKey(m, flags, k-1), flags%2 == 1)) + item(11, ":") + item(0, spc) + strVal(raw, m, strKey(m, flags, k-1), flags, ii, d)
}
