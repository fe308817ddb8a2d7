package main

// Hash-consed SMT terms with light simplification at construction.

import (
	"fmt"
	"math/big"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SSeq  Sort = "Seq"  // (Seq Int): a byte string
	SArr  Sort = "Arr"  // (Array Int Int)
	SAArr Sort = "AArr" // (Array Int (Array Int Int))
	SBArr Sort = "BArr" // (Array Int Bool)
	SSArr Sort = "SArr" // (Array Int (Seq Int))
)

func (s Sort) smt() string {
	switch s {
	case SSeq:
		return "(Seq Int)"
	case SArr:
		return "(Array Int Int)"
	case SAArr:
		return "(Array Int (Array Int Int))"
	case SBArr:
		return "(Array Int Bool)"
	case SSArr:
		return "(Array Int (Seq Int))"
	}
	return string(s)
}

func elemSort(s Sort) Sort {
	switch s {
	case SArr:
		return SInt
	case SAArr:
		return SArr
	case SBArr:
		return SBool
	case SSArr:
		return SSeq
	}
	panic("elemSort " + string(s))
}

func arrSort(s Sort) Sort {
	switch s {
	case SInt:
		return SArr
	case SArr:
		return SAArr
	case SBool:
		return SBArr
	case SSeq:
		return SSArr
	}
	panic("arrSort " + string(s))
}

type Term struct {
	id   int
	op   string // "int","true","false","var","app", or an SMT operator
	name string // for var, app
	args []*Term
	sort Sort
	iv   *big.Int
	bnd  bool // contains a bound variable (quantified formula)
}

var termTab = map[string]*Term{}
var termCount int

func mk(op, name string, sort Sort, iv *big.Int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	if op == "var" || op == "app" || op == "bvar" || op == "constarr" || op == "seq.empty" {
		sb.WriteString(string(sort))
	}
	if iv != nil {
		sb.WriteString(iv.String())
	}
	bnd := op == "bvar"
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if a.bnd {
			bnd = true
		}
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{id: termCount, op: op, name: name, args: args, sort: sort, iv: iv, bnd: bnd}
	termTab[k] = t
	return t
}

var (
	tTrue  = mk("true", "", SBool, nil)
	tFalse = mk("false", "", SBool, nil)
)

func I(n int64) *Term             { return mk("int", "", SInt, big.NewInt(n)) }
func Ibig(n *big.Int) *Term       { return mk("int", "", SInt, new(big.Int).Set(n)) }
func Var(n string, s Sort) *Term  { return mk("var", n, s, nil) }
func BVar(n string, s Sort) *Term { return mk("bvar", n, s, nil) }
func App(f string, s Sort, args ...*Term) *Term {
	return mk("app", f, s, nil, args...)
}

func B(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isInt() bool   { return t.op == "int" }
func (t *Term) isTrue() bool  { return t == tTrue }
func (t *Term) isFalse() bool { return t == tFalse }

// linear normal form: sum of coef*atom + const
type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
	or []*Term
}

func newLin() *lin { return &lin{c: new(big.Int), co: map[*Term]*big.Int{}} }
func (l *lin) addAtom(t *Term, k *big.Int) {
	if v, ok := l.co[t]; ok {
		l.co[t] = new(big.Int).Add(v, k)
	} else {
		l.co[t] = new(big.Int).Set(k)
		l.or = append(l.or, t)
	}
}
func (l *lin) add(t *Term, k *big.Int) {
	switch t.op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(t.iv, k))
	case "+":
		for _, a := range t.args {
			l.add(a, k)
		}
	case "-":
		l.add(t.args[0], k)
		nk := new(big.Int).Neg(k)
		for _, a := range t.args[1:] {
			l.add(a, nk)
		}
	case "*":
		if t.args[0].isInt() {
			l.add(t.args[1], new(big.Int).Mul(k, t.args[0].iv))
			return
		}
		l.addAtom(t, k)
	default:
		l.addAtom(t, k)
	}
}
func (l *lin) term() *Term {
	var parts []*Term
	for _, a := range l.or {
		k := l.co[a]
		if k.Sign() == 0 {
			continue
		}
		if k.IsInt64() && k.Int64() == 1 {
			parts = append(parts, a)
		} else {
			parts = append(parts, mk("*", "", SInt, nil, Ibig(k), a))
		}
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, Ibig(l.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	// canonical order by id so that equal sums are the same term
	for i := 1; i < len(parts); i++ {
		for j := i; j > 0 && parts[j].id < parts[j-1].id; j-- {
			parts[j], parts[j-1] = parts[j-1], parts[j]
		}
	}
	return mk("+", "", SInt, nil, parts...)
}

var big1 = big.NewInt(1)
var bigm1 = big.NewInt(-1)

func Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.add(t, big1)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, big1)
	l.add(b, bigm1)
	return l.term()
}
func Mul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := newLin()
		l.add(b, a.iv)
		return l.term()
	}
	return mk("*", "", SInt, nil, a, b)
}

// Div and Mod are the SMT (Euclidean for positive divisor) operations.
func Div(a, b *Term) *Term {
	if b.isInt() && b.iv.Sign() > 0 {
		if b.iv.IsInt64() && b.iv.Int64() == 1 {
			return a
		}
		if a.isInt() {
			q, _ := new(big.Int).DivMod(a.iv, b.iv, new(big.Int))
			return Ibig(q)
		}
	}
	return mk("div", "", SInt, nil, a, b)
}
func Mod(a, b *Term) *Term {
	if b.isInt() && b.iv.Sign() > 0 {
		if a.isInt() {
			_, m := new(big.Int).DivMod(a.iv, b.iv, new(big.Int))
			return Ibig(m)
		}
		if a.op == "mod" && a.args[1] == b {
			return a
		}
	}
	return mk("mod", "", SInt, nil, a, b)
}

func constDiff(a, b *Term) (*big.Int, bool) {
	d := Sub(a, b)
	if d.isInt() {
		return d.iv, true
	}
	return nil, false
}

func Le(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return B(d.Sign() <= 0)
	}
	return mk("<=", "", SBool, nil, a, b)
}
func Lt(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return B(d.Sign() < 0)
	}
	return mk("<", "", SBool, nil, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	switch a.sort {
	case SInt:
		if d, ok := constDiff(a, b); ok {
			return B(d.Sign() == 0)
		}
		if b.op == "ite" && a.op != "ite" {
			a, b = b, a
		}
		if a.op == "ite" && b.isInt() && (a.args[1].isInt() || a.args[2].isInt()) {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	case SBool:
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return Not(b)
		}
		if b.isFalse() {
			return Not(a)
		}
	case SSeq:
		if x, ok := seqConst(a); ok {
			if y, ok := seqConst(b); ok {
				return B(x == y)
			}
		}
		// strip the common prefix and suffix of concatenations
		pa, pb := seqParts(a), seqParts(b)
		n := 0
		for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
			pa, pb = pa[1:], pb[1:]
			n++
		}
		for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			n++
		}
		if n > 0 {
			return Eq(Cat(pa...), Cat(pb...))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, nil, a, b)
}

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	case "<=":
		return Lt(a.args[1], a.args[0])
	case "<":
		return Le(a.args[1], a.args[0])
	}
	return mk("not", "", SBool, nil, a)
}
func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.isTrue() || seen[t] {
			return true
		}
		if t.isFalse() || seen[Not(t)] {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("and", "", SBool, nil, out...)
}
func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.isFalse() || seen[t] {
			return true
		}
		if t.isTrue() || seen[Not(t)] {
			return false
		}
		if t.op == "or" {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return tTrue
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk("or", "", SBool, nil, out...)
}
func Imp(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() || a == b {
		return tTrue
	}
	if b.isFalse() {
		return Not(a)
	}
	return mk("=>", "", SBool, nil, a, b)
}
func Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.sort == SBool {
		if a.isTrue() {
			return Or(c, b)
		}
		if a.isFalse() {
			return And(Not(c), b)
		}
		if b.isTrue() {
			return Or(Not(c), a)
		}
		if b.isFalse() {
			return And(c, a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	return mk("ite", "", a.sort, nil, c, a, b)
}

func Select(a, i *Term) *Term {
	switch a.op {
	case "constarr":
		return a.args[0]
	case "store":
		if a.args[1] == i {
			return a.args[2]
		}
		if d, ok := constDiff(a.args[1], i); ok && d.Sign() != 0 {
			return Select(a.args[0], i)
		}
	case "ite":
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	}
	return mk("select", "", elemSort(a.sort), nil, a, i)
}
func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	return mk("store", "", a.sort, nil, a, i, v)
}
func ConstArr(s Sort, v *Term) *Term { return mk("constarr", "", s, nil, v) }

// Sequences.
var seqEmpty = mk("seq.empty", "", SSeq, nil)

func Unit(b *Term) *Term { return mk("seq.unit", "", SSeq, nil, b) }
func seqParts(t *Term) []*Term {
	if t.op == "seq.++" {
		return t.args
	}
	if t == seqEmpty {
		return nil
	}
	return []*Term{t}
}
func Cat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		out = append(out, seqParts(t)...)
	}
	switch len(out) {
	case 0:
		return seqEmpty
	case 1:
		return out[0]
	}
	return mk("seq.++", "", SSeq, nil, out...)
}
func SeqLit(s string) *Term {
	var ps []*Term
	for i := 0; i < len(s); i++ {
		ps = append(ps, Unit(I(int64(s[i]))))
	}
	return Cat(ps...)
}
func seqConst(t *Term) (string, bool) {
	var sb []byte
	for _, p := range seqParts(t) {
		if p.op != "seq.unit" || !p.args[0].isInt() {
			return "", false
		}
		sb = append(sb, byte(p.args[0].iv.Int64()))
	}
	return string(sb), true
}

// seqLens holds the length of sequence variables created with a given length.
var seqLens = map[*Term]*Term{}

// seqVar is an unknown sequence of n bytes; the caller makes sure that n is not
// negative.
func seqVar(name string, n *Term) *Term {
	if n.isInt() && n.iv.Sign() == 0 {
		return seqEmpty
	}
	q := Var(freshName(name), SSeq)
	seqLens[q] = n
	return q
}

func SeqLen(t *Term) *Term {
	if n := seqLens[t]; n != nil {
		return n
	}
	switch t.op {
	case "seq.empty":
		return I(0)
	case "seq.unit":
		return I(1)
	case "seq.++":
		var ls []*Term
		for _, a := range t.args {
			ls = append(ls, SeqLen(a))
		}
		return Add(ls...)
	}
	return mk("seq.len", "", SInt, nil, t)
}
func SeqNth(t, i *Term) *Term {
	if i.isInt() && i.iv.Sign() >= 0 && i.iv.IsInt64() {
		k := i.iv.Int64()
		for n, p := range seqParts(t) {
			if p.op == "seq.unit" {
				if k == 0 {
					return p.args[0]
				}
				k--
				continue
			}
			if n == 0 {
				break
			}
			return SeqNth(Cat(seqParts(t)[n:]...), I(k))
		}
	}
	// index relative to a symbolic prefix: nth(p ++ rest, |p| + k)
	if t.op == "seq.++" {
		acc := I(0)
		for n, p := range t.args {
			if d, ok := constDiff(i, acc); ok && d.Sign() >= 0 && n > 0 {
				// position is inside the tail starting at part n
				return SeqNth(Cat(t.args[n:]...), Ibig(d))
			}
			acc = Add(acc, SeqLen(p))
		}
	}
	return mk("seq.nth", "", SInt, nil, t, i)
}
func SeqExtract(t, off, n *Term) *Term {
	if n.isInt() && n.iv.Sign() <= 0 {
		return seqEmpty
	}
	if off.isInt() && off.iv.Sign() == 0 {
		if SeqLen(t) == n {
			return t
		}
		if t.op == "seq.extract" && t.args[1].isInt() && t.args[1].iv.Sign() == 0 && t.args[2] == n {
			return t
		}
		// exact prefix of parts
		acc := I(0)
		ps := seqParts(t)
		for k, p := range ps {
			acc = Add(acc, SeqLen(p))
			if acc == n {
				return Cat(ps[:k+1]...)
			}
		}
	} else {
		acc := I(0)
		ps := seqParts(t)
		for k, p := range ps {
			acc = Add(acc, SeqLen(p))
			if acc == off && k+1 < len(ps) {
				return SeqExtract(Cat(ps[k+1:]...), I(0), n)
			}
			if acc == off && k+1 == len(ps) {
				return seqEmpty
			}
		}
		// start at the last part which the offset is not before
		acc = I(0)
		last, at := 0, off
		for k, p := range ps {
			if d, ok := constDiff(off, acc); ok && d.Sign() >= 0 {
				last, at = k, Ibig(d)
			}
			acc = Add(acc, SeqLen(p))
		}
		if last > 0 {
			return SeqExtract(Cat(ps[last:]...), at, n)
		}
	}
	return mk("seq.extract", "", SSeq, nil, t, off, n)
}

// BytesOf is the sequence a[i..j) of an array, empty when j <= i.
func BytesOf(a, i, j *Term) *Term {
	if d, ok := constDiff(j, i); ok {
		if d.Sign() <= 0 {
			return seqEmpty
		}
		if d.IsInt64() && d.Int64() <= 8 {
			var ps []*Term
			for k := int64(0); k < d.Int64(); k++ {
				ps = append(ps, Unit(Select(a, Add(i, I(k)))))
			}
			return Cat(ps...)
		}
	}
	return App("bytesOf", SSeq, a, i, j)
}

// Render is the text of a sequence of items in the colors ci (0: no colors).
// It is a homomorphism; item(k, t) is t in the color of kind k.
func Render(ci, t *Term) *Term {
	switch t.op {
	case "seq.empty":
		return t
	case "seq.++":
		var ps []*Term
		for _, a := range t.args {
			ps = append(ps, Render(ci, a))
		}
		return Cat(ps...)
	case "ite":
		return Ite(t.args[0], Render(ci, t.args[1]), Render(ci, t.args[2]))
	case "app":
		if k := t.args[0]; t.name == "item" && k.op == "ite" {
			return Ite(k.args[0], Render(ci, App("item", SSeq, k.args[1], t.args[1])), Render(ci, App("item", SSeq, k.args[2], t.args[1])))
		}
		if t.name == "item" && t.args[0].isInt() {
			x := t.args[1]
			if t.args[0].iv.Sign() == 0 {
				return x
			}
			if ci.isInt() && ci.iv.Sign() == 0 {
				return x
			}
			return App("ritem", SSeq, ci, t.args[0], x)
		}
	}
	return App("render", SSeq, ci, t)
}

func (t *Term) String() string {
	switch t.op {
	case "int":
		return t.iv.String()
	case "true", "false":
		return t.op
	case "var", "bvar":
		return t.name
	case "app":
		var as []string
		for _, a := range t.args {
			as = append(as, a.String())
		}
		return t.name + "(" + strings.Join(as, ",") + ")"
	}
	if c, ok := seqConst(t); ok && t.sort == SSeq {
		return fmt.Sprintf("%q", c)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	return "(" + t.op + " " + strings.Join(as, " ") + ")"
}

// subst replaces terms (usually variables) bottom-up.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "app":
		if t.name == "bytesOf" {
			return BytesOf(a[0], a[1], a[2])
		}
		if t.name == "render" {
			return Render(a[0], a[1])
		}
		return App(t.name, t.sort, a...)
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Imp(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "constarr":
		return ConstArr(t.sort, a[0])
	case "seq.unit":
		return Unit(a[0])
	case "seq.++":
		return Cat(a...)
	case "seq.len":
		return SeqLen(a[0])
	case "seq.nth":
		return SeqNth(a[0], a[1])
	case "seq.extract":
		return SeqExtract(a[0], a[1], a[2])
	}
	return mk(t.op, t.name, t.sort, t.iv, a...)
}
