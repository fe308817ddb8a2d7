package main

// Symbolic values and path states.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
)

type Val interface{}

type VInt struct{ T *Term }
type VBool struct{ T *Term }

// VWord is a machine word seen as bytes, least significant first.
type VWord struct{ L []*Term }

// VSlice is a slice or a string (Str). Elements live in backing store B at
// absolute positions Off..Off+Len.
type VSlice struct {
	B             *Back
	Off, Len, Cap *Term
	Nil           *Term
	Str           bool
	Elem          types.Type
}
type VStruct struct {
	T types.Type
	F []Val
}
type VArray struct { // array value: its elements are in B, positions 0..N
	B    *Back
	N    int64
	Elem types.Type
}
type VPtr struct {
	Nil  *Term
	Loc  *Loc // nil only when Nil is true
	Elem types.Type
	ID   *Term // identity, when known
}
type VUnsafe struct {
	Nil  *Term
	Addr *Term // symbolic address, or nil when Loc is used
	Loc  *Loc
	Elem types.Type // type of the value at Loc
	Data *VSlice    // data pointer of a byte slice (plus Addr offset)
}
type VIface struct {
	Nil  *Term
	ID   *Term // identity of the dynamic value
	Dyn  Val   // known dynamic value
	DynT types.Type
}
type VFunc struct {
	Nil  *Term
	ID   *Term
	Fn   *FuncInfo
	Ext  *types.Func
	Lit  interface{} // *ast.FuncLit
	Env  *frame
	Recv Val
}
type VOpaque struct {
	ID *Term
	T  types.Type
}
type VTuple []Val
type VSeq struct{ T *Term } // specification-only byte string
type VArr struct{ T *Term } // specification-only array

// Cell is a variable or heap object.
type Cell struct {
	Name  string
	T     types.Type
	ID    *Term
	Param bool
	id    int
}

var cellCount int

func newCell(name string, t types.Type) *Cell {
	cellCount++
	return &Cell{Name: name, T: t, id: cellCount}
}

// Loc designates a location: a cell, or an element of a backing store, then a
// path of field indices.
type Loc struct {
	C    *Cell
	B    *Back
	Idx  *Term
	Elem types.Type // element type for B
	Path []int
	Mem  *Term // symbolic address (typed memory)
	MemT types.Type
}

// Back is a backing store.
type Back struct {
	Name   string
	Elem   types.Type
	id     int
	Bytes  bool
	Emit   *emitTag // set if an encoder made it
	InputT *Term    // may share memory with an input of the function
}

var backCount int

func newBack(name string, elem types.Type) *Back {
	backCount++
	return &Back{Name: name, Elem: elem, id: backCount, Bytes: isByte(elem), InputT: tFalse}
}

// Content of a backing store. Bytes: Arr, or Seq of exactly SeqLen bytes.
// Other element types: one array per scalar leaf.
type Content struct {
	Arr    *Term
	Seq    *Term
	SeqLen *Term
	Leaves []*Term
}

type memStore struct {
	addr *Term
	kind string
	val  Val
	t    types.Type
}

type State struct {
	cells    map[*Cell]Val
	backs    map[*Back]Content
	pc       []*Term
	path     []string
	mem      []memStore
	ghost    map[string]*Term
	dead     bool
	memEpoch *Term
	defers   []deferred
}

// deferred is a call to make when the function of fr returns.
type deferred struct {
	fr  *frame
	run func(*State) []sv
}

func newState() *State {
	return &State{cells: map[*Cell]Val{}, backs: map[*Back]Content{}, ghost: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := &State{cells: make(map[*Cell]Val, len(s.cells)), backs: make(map[*Back]Content, len(s.backs)), ghost: make(map[string]*Term, len(s.ghost))}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.backs {
		n.backs[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.path = s.path[:len(s.path):len(s.path)]
	n.mem = s.mem[:len(s.mem):len(s.mem)]
	n.memEpoch = s.memEpoch
	n.defers = s.defers[:len(s.defers):len(s.defers)]
	return n
}

func (s *State) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if t.isFalse() {
		if os.Getenv("GOVC_DEAD") != "" && !s.dead {
			fmt.Fprintf(os.Stderr, "dead: false\n%s\n", debug.Stack())
		}
		s.dead = true
	}
	s.pc = append(s.pc, t)
	n := Not(t)
	for _, p := range s.pc {
		if p == n {
			if os.Getenv("GOVC_DEAD") != "" && !s.dead {
				fmt.Fprintf(os.Stderr, "dead: %s\n%s\n", t, debug.Stack())
			}
			s.dead = true
		}
	}
}

// known reports whether t is syntactically decided by the path condition.
func (s *State) known(t *Term) (bool, bool) {
	if t.isTrue() {
		return true, true
	}
	if t.isFalse() {
		return false, true
	}
	n := Not(t)
	for _, p := range s.pc {
		if p == t {
			return true, true
		}
		if p == n {
			return false, true
		}
	}
	return false, false
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var freshCount = map[string]int{}

func freshName(base string) string {
	freshCount[base]++
	if freshCount[base] == 1 {
		return base
	}
	return fmt.Sprintf("%s!%d", base, freshCount[base])
}

const maxLen = int64(1) << 48

// intRange gives the value range of an integer type.
func intRange(t types.Type) (lo, hi *Term, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := intBits(b)
	one := I(1)
	p := func(n uint) *Term {
		x := one.iv
		return Ibig(newInt().Lsh(x, n))
	}
	if signed {
		return Sub(I(0), p(uint(bits-1))), Sub(p(uint(bits-1)), one), true
	}
	return I(0), Sub(p(uint(bits)), one), true
}

func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

// symbolic value of a type; facts are assumed into st.
func (st *State) symbolic(name string, t types.Type, depth int) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{Var(freshName(name), SBool)}
		case u.Info()&types.IsInteger != 0:
			v := Var(freshName(name), SInt)
			lo, hi, _ := intRange(t)
			st.assume(And(Le(lo, v), Le(v, hi)))
			return VInt{v}
		case u.Info()&types.IsString != 0:
			return st.symSlice(name, types.Typ[types.Uint8], true, true)
		case u.Kind() == types.UnsafePointer:
			a := Var(freshName(name), SInt)
			st.assume(Ge(a, I(0)))
			return VUnsafe{Nil: Eq(a, I(0)), Addr: a}
		case u.Kind() == types.UntypedNil:
			return VIface{Nil: tTrue, ID: I(0)}
		}
		return VOpaque{Var(freshName(name), SInt), t}
	case *types.Slice:
		return st.symSlice(name, u.Elem(), false, true)
	case *types.Array:
		b := newBack(freshName(name), u.Elem())
		st.backs[b] = st.symContent(name, u.Elem())
		return VArray{b, u.Len(), u.Elem()}
	case *types.Struct:
		if isOpaqueStruct(t) {
			return VOpaque{Var(freshName(name), SInt), t}
		}
		v := VStruct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			f := st.symbolic(name+"."+u.Field(i).Name(), u.Field(i).Type(), depth)
			if n, ok := types.Unalias(t).(*types.Named); ok && nonNilFields[n.Obj().Name()+"."+u.Field(i).Name()] {
				if iv, ok := f.(VIface); ok {
					st.assume(Not(iv.Nil))
				}
			}
			v.F = append(v.F, f)
		}
		return v
	case *types.Pointer:
		n := freshName(name)
		id := Var(n, SInt)
		if depth <= 0 || isOpaqueStruct(u.Elem()) {
			c := newCell("*"+n, u.Elem())
			c.ID = id
			return VPtr{Nil: Eq(id, I(0)), Loc: &Loc{C: c}, Elem: u.Elem(), ID: id}
		}
		c := newCell("*"+n, u.Elem())
		c.ID = id
		st.cells[c] = st.symbolic("("+n+")", u.Elem(), depth-1)
		return VPtr{Nil: Eq(id, I(0)), Loc: &Loc{C: c}, Elem: u.Elem(), ID: id}
	case *types.Interface:
		id := Var(freshName(name), SInt)
		return VIface{Nil: Eq(id, I(0)), ID: id}
	case *types.Signature:
		id := Var(freshName(name), SInt)
		return VFunc{Nil: Eq(id, I(0)), ID: id}
	case *types.Tuple:
		var vt VTuple
		for i := 0; i < u.Len(); i++ {
			vt = append(vt, st.symbolic(fmt.Sprintf("%s.%d", name, i), u.At(i).Type(), depth))
		}
		return vt
	}
	return VOpaque{Var(freshName(name), SInt), t}
}

// Structs of other packages are opaque, except a few plain ones.
func isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	p := n.Obj().Pkg()
	if p == nil {
		return false
	}
	if _, mine := pkgs[p.Path()]; mine {
		return false
	}
	return true
}

func (st *State) symContent(name string, elem types.Type) Content {
	if isByte(elem) {
		a := Var(freshName(name+".arr"), SArr)
		byteRoots[a] = true
		return Content{Arr: a}
	}
	var c Content
	for i, l := range leavesOf(elem) {
		v := Var(freshName(fmt.Sprintf("%s.el%d", name, i)), arrSort(l.sort))
		if l.bytes {
			byteRoots[v] = true
		}
		c.Leaves = append(c.Leaves, v)
	}
	return c
}

func (st *State) symSlice(name string, elem types.Type, str bool, input bool) VSlice {
	n := freshName(name)
	b := newBack(n, elem)
	if input {
		b.InputT = tTrue
	}
	st.backs[b] = st.symContent(n, elem)
	off := Var(n+".off", SInt)
	ln := Var(n+".len", SInt)
	st.assume(And(Le(I(0), off), Le(off, I(maxLen)), Le(I(0), ln), Le(ln, I(maxLen))))
	if str {
		return VSlice{B: b, Off: off, Len: ln, Cap: ln, Nil: tFalse, Str: true, Elem: elem}
	}
	cp := Var(n+".cap", SInt)
	nl := Var(n+".nil", SBool)
	st.assume(And(Le(ln, cp), Le(cp, I(maxLen)), Imp(nl, Eq(cp, I(0)))))
	return VSlice{B: b, Off: off, Len: ln, Cap: cp, Nil: nl, Elem: elem}
}

// leaf describes one scalar component of a flattened value.
type leaf struct {
	sort  Sort
	bytes bool
	path  []int
	kind  string // int,bool,arr,off,len,cap,nil,id
	t     types.Type
}

var leafCache = map[string][]leaf{}

func leavesOf(t types.Type) []leaf {
	key := t.String()
	if l, ok := leafCache[key]; ok {
		return l
	}
	l := leavesRec(t, nil)
	leafCache[key] = l
	return l
}

func leavesRec(t types.Type, path []int) []leaf {
	cp := append([]int{}, path...)
	one := func(s Sort, kind string, bytes bool) leaf {
		return leaf{s, bytes, cp, kind, t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leaf{one(SBool, "bool", false)}
		case u.Info()&types.IsInteger != 0:
			return []leaf{one(SInt, "int", false)}
		case u.Info()&types.IsString != 0:
			return []leaf{one(SArr, "sarr", true), one(SInt, "soff", false), one(SInt, "slen", false)}
		}
		return []leaf{one(SInt, "id", false)}
	case *types.Slice:
		if isByte(u.Elem()) {
			return []leaf{one(SArr, "barr", true), one(SInt, "boff", false), one(SInt, "blen", false), one(SBool, "bnil", false)}
		}
		return []leaf{one(SInt, "id", false)}
	case *types.Struct:
		if isOpaqueStruct(t) {
			return []leaf{one(SInt, "id", false)}
		}
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, leavesRec(u.Field(i).Type(), append(cp, i))...)
		}
		return out
	}
	return []leaf{one(SInt, "id", false)}
}

// fromLeaves rebuilds a value of type t from scalar terms.
func (st *State) fromLeaves(t types.Type, ts *[]*Term) Val {
	next := func() *Term { x := (*ts)[0]; *ts = (*ts)[1:]; return x }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{next()}
		case u.Info()&types.IsInteger != 0:
			x := next()
			lo, hi, _ := intRange(t)
			st.assume(And(Le(lo, x), Le(x, hi)))
			return VInt{x}
		case u.Info()&types.IsString != 0:
			a, o, l := next(), next(), next()
			b := newBack("ld", types.Typ[types.Uint8])
			st.backs[b] = Content{Arr: a}
			st.assume(And(Le(I(0), o), Le(o, I(maxLen)), Le(I(0), l), Le(l, I(maxLen))))
			return VSlice{B: b, Off: o, Len: l, Cap: l, Nil: tFalse, Str: true, Elem: types.Typ[types.Uint8]}
		case u.Kind() == types.UnsafePointer:
			x := next()
			return VUnsafe{Nil: Eq(x, I(0)), Addr: x}
		}
		return VOpaque{next(), t}
	case *types.Slice:
		if isByte(u.Elem()) {
			a, o, l, n := next(), next(), next(), next()
			b := newBack("ld", u.Elem())
			st.backs[b] = Content{Arr: a}
			st.assume(And(Le(I(0), o), Le(o, I(maxLen)), Le(I(0), l), Le(l, I(maxLen)), Imp(n, Eq(l, I(0)))))
			return VSlice{B: b, Off: o, Len: l, Cap: l, Nil: n, Elem: u.Elem()}
		}
		return VOpaque{next(), t}
	case *types.Struct:
		if isOpaqueStruct(t) {
			return VOpaque{next(), t}
		}
		v := VStruct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, st.fromLeaves(u.Field(i).Type(), ts))
		}
		return v
	case *types.Interface:
		x := next()
		return VIface{Nil: Eq(x, I(0)), ID: x}
	case *types.Signature:
		x := next()
		return VFunc{Nil: Eq(x, I(0)), ID: x}
	case *types.Pointer:
		x := next()
		c := newCell("*ld", u.Elem())
		c.ID = x
		return VPtr{Nil: Eq(x, I(0)), Loc: &Loc{C: c}, Elem: u.Elem(), ID: x}
	}
	return VOpaque{next(), t}
}

// toLeaves flattens a value.
func (st *State) toLeaves(t types.Type, v Val) []*Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if !isOpaqueStruct(t) {
			var out []*Term
			sv, ok := v.(VStruct)
			if !ok {
				panic(unsupported("flatten %T as %s", v, t))
			}
			for i := 0; i < u.NumFields(); i++ {
				out = append(out, st.toLeaves(u.Field(i).Type(), sv.F[i])...)
			}
			return out
		}
	}
	switch x := v.(type) {
	case VInt:
		return []*Term{x.T}
	case VBool:
		return []*Term{x.T}
	case VSlice:
		if isString(t) {
			return []*Term{st.arrOf(x), x.Off, x.Len}
		}
		if x.B != nil && !x.B.Bytes {
			return []*Term{Var(freshName("sliceid"), SInt)}
		}
		return []*Term{st.arrOf(x), x.Off, x.Len, x.Nil}
	case VOpaque:
		return []*Term{x.ID}
	case VIface:
		return []*Term{st.ifaceID(x)}
	case VFunc:
		return []*Term{x.ID}
	case VPtr:
		if x.ID != nil {
			return []*Term{x.ID}
		}
		return []*Term{Ite(x.Nil, I(0), Var(freshName("ptrid"), SInt))}
	case VUnsafe:
		if x.Addr != nil {
			return []*Term{x.Addr}
		}
		return []*Term{Var(freshName("uptr"), SInt)}
	}
	panic(unsupported("flatten %T", v))
}

func (st *State) ifaceID(x VIface) *Term {
	if x.ID != nil {
		return x.ID
	}
	return Ite(x.Nil, I(0), Var(freshName("ifid"), SInt))
}

// arrOf gives an array term in which slice x occupies x.Off..x.Off+x.Len.
func (st *State) arrOf(x VSlice) *Term {
	if x.B == nil {
		a := Var("nilarr", SArr)
		byteRoots[a] = true
		return a
	}
	c := st.content(x.B)
	if c.Arr != nil {
		return c.Arr
	}
	// view of a sequence as an array
	a := App("arrView", SArr, c.Seq)
	byteRoots[a] = true
	if s, ok := seqConst(c.Seq); ok && len(s) <= 64 {
		for i := 0; i < len(s); i++ {
			st.assumeQuiet(Eq(Select(a, I(int64(i))), I(int64(s[i]))))
		}
	}
	st.assumeQuiet(Eq(App("bytesOf", SSeq, a, I(0), c.SeqLen), c.Seq))
	return a
}

func (s *State) assumeQuiet(t *Term) {
	for _, p := range s.pc {
		if p == t {
			return
		}
	}
	s.pc = append(s.pc, t)
}

// seqOf is the content of a byte slice as a sequence.
func (st *State) seqOf(x VSlice) *Term {
	if x.B == nil || (x.Len.isInt() && x.Len.iv.Sign() == 0) {
		return seqEmpty
	}
	c := st.content(x.B)
	if c.Arr != nil {
		return BytesOf(c.Arr, x.Off, Add(x.Off, x.Len))
	}
	if x.Off.isInt() && x.Off.iv.Sign() == 0 && x.Len == c.SeqLen {
		return c.Seq
	}
	return SeqExtract(c.Seq, x.Off, x.Len)
}

func (st *State) byteAt(x VSlice, i *Term) *Term {
	c := st.content(x.B)
	p := Add(x.Off, i)
	if c.Arr != nil {
		return Select(c.Arr, p)
	}
	return SeqNth(c.Seq, p)
}

// newSeqSlice makes a slice over a fresh backing store holding seq.
func (st *State) newSeqSlice(name string, seq, ln *Term, str bool, t types.Type) VSlice {
	b := newBack(freshName(name), types.Typ[types.Uint8])
	st.backs[b] = Content{Seq: seq, SeqLen: ln}
	v := VSlice{B: b, Off: I(0), Len: ln, Cap: ln, Nil: tFalse, Str: str, Elem: types.Typ[types.Uint8]}
	if !str {
		v.Cap = Var(freshName(name+".cap"), SInt)
		st.assume(And(Le(ln, v.Cap), Le(v.Cap, I(2*maxLen))))
	}
	return v
}

func (st *State) writeByte(x VSlice, i, v *Term) {
	c := st.content(x.B)
	p := Add(x.Off, i)
	if c.Arr != nil {
		st.setBack(x.B, Content{Arr: Store(c.Arr, p, v)})
		if byteArr(c.Arr) {
			return
		}
		return
	}
	n := Cat(SeqExtract(c.Seq, I(0), p), Unit(v), SeqExtract(c.Seq, Add(p, I(1)), Sub(c.SeqLen, Add(p, I(1)))))
	st.setBack(x.B, Content{Seq: n, SeqLen: c.SeqLen})
}

type writeLog struct {
	cells map[*Cell]bool
	backs map[*Back]bool
	mem   bool
	ghost map[string]bool
}

var curLog *writeLog

func (st *State) setBack(b *Back, c Content) {
	st.backs[b] = c
	if curLog != nil {
		curLog.backs[b] = true
	}
}
func (st *State) setCell(c *Cell, v Val) {
	st.cells[c] = v
	if curLog != nil {
		curLog.cells[c] = true
	}
}

func sortedCells(m map[*Cell]bool) []*Cell {
	var out []*Cell
	for c := range m {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
func sortedBacks(m map[*Back]bool) []*Back {
	var out []*Back
	for c := range m {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

type unsupportedErr struct{ msg string }

func (e unsupportedErr) Error() string { return e.msg }
func unsupported(f string, a ...interface{}) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, a...)}
}

// Lazily created heap objects and globals.
var lazyCells = map[*Cell]Val{}
var lazyBacks = map[*Back]Content{}
var lazyFacts = map[*Cell][]*Term{}

func (st *State) content(b *Back) Content {
	if c, ok := st.backs[b]; ok {
		return c
	}
	if c, ok := lazyBacks[b]; ok {
		return c
	}
	tmp := newState()
	c := tmp.symContent(b.Name, b.Elem)
	lazyBacks[b] = c
	return c
}

func (st *State) cell(c *Cell) Val {
	if v, ok := st.cells[c]; ok {
		return v
	}
	v, ok := lazyCells[c]
	if !ok {
		tmp := newState()
		v = tmp.symbolic(c.Name, c.T, 0)
		lazyCells[c] = v
		lazyFacts[c] = tmp.pc
		for b, ct := range tmp.backs {
			lazyBacks[b] = ct
		}
		for k, cv := range tmp.cells {
			lazyCells[k] = cv
		}
	}
	for _, f := range lazyFacts[c] {
		st.assumeQuiet(f)
	}
	return v
}
