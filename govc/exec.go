package main

// Forward symbolic execution of Go function bodies, generating obligations.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

type frame struct {
	fi      *FuncInfo
	pkg     *Pkg
	vars    map[types.Object]*Cell
	results []*Cell
	sig     *types.Signature
	up      *frame
	loops   map[ast.Stmt]int
	con     *Contract
	its     []*Cell
	steps   []*Cell // completed iterations of for loops whose contract mentions step
	depth   int
	itOf    map[ast.Stmt]*Cell
	pnames  map[string]types.Object // contract parameter name -> object
	callPos token.Pos
	caller  *frame
	isLit   bool
}

func (f *frame) find(o types.Object) *Cell {
	for x := f; x != nil; x = x.up {
		if c, ok := x.vars[o]; ok {
			return c
		}
	}
	return nil
}

// lookupName resolves a source-level name at pos (for loop invariants).
func (f *frame) lookupName(n string, pos token.Pos, st *State) (Val, bool) {
	if n == "it" {
		if len(f.its) > 0 {
			return st.cell(f.its[len(f.its)-1]), true
		}
		return nil, false
	}
	if n == "step" && len(f.steps) > 0 {
		return st.cell(f.steps[len(f.steps)-1]), true
	}
	if strings.HasPrefix(n, "it") && len(n) == 3 { // it0: outermost hidden index, it1 ...
		k := int(n[2] - '0')
		if k >= 0 && k < len(f.its) {
			return st.cell(f.its[k]), true
		}
	}
	if o, ok := f.pnames[n]; ok {
		if c := f.find(o); c != nil {
			return st.cell(c), true
		}
	}
	var best types.Object
	for x := f; x != nil; x = x.up {
		for o := range x.vars {
			if o.Name() != n {
				continue
			}
			if o.Pos() > pos {
				continue
			}
			if sc := o.Parent(); sc != nil && pos.IsValid() && !sc.Contains(pos) && sc.Pos().IsValid() {
				continue
			}
			if best == nil || o.Pos() > best.Pos() {
				best = o
			}
		}
		if best != nil {
			return st.cell(x.vars[best]), true
		}
	}
	return nil, false
}

type outKind int

const (
	oNormal outKind = iota
	oReturn
	oBreak
	oContinue
	oFall
)

type outcome struct {
	kind  outKind
	label string
	st    *State
	vals  []Val
}

type sv struct {
	st *State
	v  Val
}

type Exec struct {
	deferred               *ast.CallExpr
	fn                     string
	con                    *Contract
	top                    *frame
	entry                  *State
	olds                   map[string]Val
	vcs                    []*VC
	quiet                  int
	globals                map[types.Object]*Cell
	assumed                map[string]bool // externs without a contract etc.
	usedExt                map[string]bool // trusted contracts relied on
	usedCon                map[string]bool // proved contracts relied on
	inlined                map[string]bool
	seeds                  []SeedVar
	paths                  int
	steps                  int
	safety                 int // trivially discharged
	counts                 map[string]int
	props                  []string
	trivial                int
	hide                   map[string]bool
	measure                []*Term
	emits                  bool // an encoder is verified
	ci, items, rolls, bseq *Term
	ncalls                 *Cell // counts the calls of function values
	sorting                *Cell // names the permutation of the last sort
}

var errorType = types.Universe.Lookup("error").Type()

const maxSteps = 400000
const maxStates = 3000

func (x *Exec) oblige(st *State, kind, name string, goal *Term, pos token.Pos) {
	if x.quiet > 0 || st.dead {
		st.assume(goal)
		return
	}
	n := kind
	if name != "" {
		n = kind + "[" + name + "]"
	}
	if k, ok := st.known(goal); ok && k {
		x.trivial++
		return
	}
	vc := &VC{Fn: x.fn, Name: n, Kind: kind, Pos: posStr(pos), Hyps: st.pc[:len(st.pc):len(st.pc)], Goal: goal, Path: st.path[:len(st.path):len(st.path)], Seeds: x.seeds, Hide: x.hide}
	if !tagged[goal] {
		vc.Hyps = untagged(vc.Hyps)
	}
	x.vcs = append(x.vcs, vc)
	st.assume(goal)
}

func untagged(hs []*Term) []*Term {
	for i, h := range hs {
		if tagged[h] {
			out := append([]*Term{}, hs[:i]...)
			for _, h := range hs[i+1:] {
				if !tagged[h] {
					out = append(out, h)
				}
			}
			return out
		}
	}
	return hs
}

func (x *Exec) note(kind, s string) {
	x.assumed[kind+": "+s] = true
}

func constVal(v constant.Value, t types.Type) Val {
	switch v.Kind() {
	case constant.Bool:
		return VBool{B(constant.BoolVal(v))}
	case constant.Int:
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			panic(unsupported("const %s", v))
		}
		if b, isb := t.Underlying().(*types.Basic); isb && b.Info()&types.IsFloat != 0 {
			return VOpaque{floatVar(v), t}
		}
		return VInt{Ibig(n)}
	case constant.String:
		return VStrConst(constant.StringVal(v))
	case constant.Float:
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			if b, isb := t.Underlying().(*types.Basic); isb && b.Info()&types.IsInteger != 0 {
				return constVal(i, t)
			}
		}
		return VOpaque{floatVar(v), t}
	}
	panic(unsupported("constant %s", v))
}

// floatVar names a floating-point constant.
func floatVar(v constant.Value) *Term {
	f, _ := constant.Float64Val(v)
	return Var("float."+strconv.FormatFloat(f, 'g', -1, 64), SInt)
}

var strBacks = map[string]*Back{}

// VStrConst is a constant string.
func VStrConst(s string) VSlice {
	b, ok := strBacks[s]
	if !ok {
		b = newBack(fmt.Sprintf("%q", s), types.Typ[types.Uint8])
		strBacks[s] = b
		lazyBacks[b] = Content{Seq: SeqLit(s), SeqLen: I(int64(len(s)))}
	}
	n := I(int64(len(s)))
	return VSlice{B: b, Off: I(0), Len: n, Cap: n, Nil: tFalse, Str: true, Elem: types.Typ[types.Uint8]}
}

func (x *Exec) zero(st *State, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{tFalse}
		case u.Info()&types.IsInteger != 0:
			return VInt{I(0)}
		case u.Info()&types.IsString != 0:
			return VStrConst("")
		case u.Kind() == types.UnsafePointer:
			return VUnsafe{Nil: tTrue, Addr: I(0)}
		}
		return VOpaque{Var("float.0", SInt), t}
	case *types.Slice:
		return VSlice{B: nil, Off: I(0), Len: I(0), Cap: I(0), Nil: tTrue, Elem: u.Elem()}
	case *types.Array:
		b := newBack(freshName("arr"), u.Elem())
		c := Content{}
		if b.Bytes {
			c.Arr = ConstArr(SArr, I(0))
		} else {
			c = x.zeroContent(st, u.Elem())
		}
		st.backs[b] = c
		return VArray{b, u.Len(), u.Elem()}
	case *types.Struct:
		if isOpaqueStruct(t) {
			return VOpaque{Var("zero."+t.String(), SInt), t}
		}
		v := VStruct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, x.zero(st, u.Field(i).Type()))
		}
		return v
	case *types.Pointer:
		return VPtr{Nil: tTrue, Elem: u.Elem(), ID: I(0)}
	case *types.Interface:
		return VIface{Nil: tTrue, ID: I(0)}
	case *types.Signature:
		return VFunc{Nil: tTrue, ID: I(0)}
	}
	return VOpaque{I(0), t}
}

func (x *Exec) zeroContent(st *State, elem types.Type) Content {
	if isByte(elem) {
		return Content{Arr: ConstArr(SArr, I(0))}
	}
	var c Content
	for _, l := range leavesOf(elem) {
		var z *Term
		switch l.sort {
		case SInt:
			z = I(0)
		case SBool:
			z = B(l.kind == "bnil")
		case SArr:
			z = ConstArr(SArr, I(0))
		}
		c.Leaves = append(c.Leaves, ConstArr(arrSort(l.sort), z))
	}
	return c
}

func (st *State) loadElem(b *Back, i *Term) Val {
	c := st.content(b)
	if b.Bytes {
		if c.Arr != nil {
			return VInt{Select(c.Arr, i)}
		}
		return VInt{SeqNth(c.Seq, i)}
	}
	var ts []*Term
	for _, l := range c.Leaves {
		ts = append(ts, Select(l, i))
	}
	v := st.fromLeaves(b.Elem, &ts)
	return v
}

func (st *State) storeElem(b *Back, i *Term, v Val) {
	c := st.content(b)
	if b.Bytes {
		st.writeByte(VSlice{B: b, Off: I(0)}, i, v.(VInt).T)
		return
	}
	ts := st.toLeaves(b.Elem, v)
	n := Content{}
	for k, l := range c.Leaves {
		n.Leaves = append(n.Leaves, Store(l, i, ts[k]))
	}
	st.setBack(b, n)
}

// ---- locations ----

func pathType(t types.Type, path []int) types.Type {
	for _, p := range path {
		t = t.Underlying().(*types.Struct).Field(p).Type()
	}
	return t
}

func getPath(v Val, path []int) Val {
	for _, p := range path {
		s, ok := v.(VStruct)
		if !ok {
			panic(unsupported("field of %T", v))
		}
		v = s.F[p]
	}
	return v
}

func setPath(v Val, path []int, n Val) Val {
	if len(path) == 0 {
		return n
	}
	s, ok := v.(VStruct)
	if !ok {
		panic(unsupported("set field of %T", v))
	}
	f := append([]Val{}, s.F...)
	f[path[0]] = setPath(f[path[0]], path[1:], n)
	return VStruct{s.T, f}
}

func (x *Exec) loadLoc(st *State, l *Loc, want types.Type) Val {
	if l == nil {
		panic(unsupported("load through nil location"))
	}
	switch {
	case l.C != nil:
		base := st.cell(l.C)
		if o, ok := base.(VOpaque); ok && len(l.Path) == 1 && want != nil && isUnsafeT(want) { // header of a reflect.Value
			w := App([]string{"ifaceTyp", "ifacePtr"}[l.Path[0]], SInt, o.ID)
			st.assumeQuiet(Ge(w, I(0)))
			return VUnsafe{Nil: Eq(w, I(0)), Addr: w}
		}
		if _, ok := base.(VOpaque); ok && len(l.Path) > 0 {
			return st.symbolic("fld", want, 0)
		}
		if iv, ok := base.(VIface); ok && len(l.Path) == 1 && want != nil && isUnsafeT(want) { // interface header
			id := st.ifaceID(iv)
			w := App([]string{"ifaceTyp", "ifacePtr"}[l.Path[0]], SInt, id)
			st.assumeQuiet(Ge(w, I(0)))
			return VUnsafe{Nil: Eq(w, I(0)), Addr: w}
		}
		v := getPath(base, l.Path)
		return x.reinterpret(st, v, pathType(l.C.T, l.Path), want)
	case l.B != nil:
		v := getPath(st.loadElem(l.B, l.Idx), l.Path)
		return x.reinterpret(st, v, pathType(l.B.Elem, l.Path), want)
	case l.Mem != nil:
		v := x.loadAddr(st, l.Mem, l.MemT)
		return x.reinterpret(st, getPath(v, l.Path), pathType(l.MemT, l.Path), want)
	}
	panic(unsupported("load"))
}

func (x *Exec) storeLoc(st *State, l *Loc, v Val, t types.Type) {
	switch {
	case l.C != nil:
		if len(l.Path) == 0 {
			st.setCell(l.C, x.reinterpret(st, v, t, l.C.T))
			return
		}
		base := st.cell(l.C)
		if _, ok := base.(VOpaque); ok {
			return
		}
		st.setCell(l.C, setPath(base, l.Path, v))
	case l.B != nil:
		if len(l.Path) == 0 {
			st.storeElem(l.B, l.Idx, v)
			return
		}
		st.storeElem(l.B, l.Idx, setPath(st.loadElem(l.B, l.Idx), l.Path, v))
	case l.Mem != nil:
		if len(l.Path) > 0 {
			v = setPath(x.loadAddr(st, l.Mem, l.MemT), l.Path, v)
			t = l.MemT
		}
		x.storeAddr(st, l.Mem, t, v)
	default:
		panic(unsupported("store"))
	}
}

func memKind(t types.Type) string {
	if i, ok := t.Underlying().(*types.Interface); ok && i.Empty() {
		return "interface{}" // also printed as any
	}
	return types.TypeString(t.Underlying(), func(p *types.Package) string { return p.Name() })
}

func (x *Exec) epoch(st *State) *Term {
	if st.memEpoch == nil {
		st.memEpoch = Var("mem0", SInt)
	}
	return st.memEpoch
}

func (x *Exec) loadAddr(st *State, a *Term, t types.Type) Val {
	k := memKind(t)
	for i := len(st.mem) - 1; i >= 0; i-- {
		m := st.mem[i]
		if m.kind != k {
			continue
		}
		if m.addr == a {
			return m.val
		}
		return st.symbolic("memld", t, 0)
	}
	if u, ok := t.Underlying().(*types.Pointer); ok {
		_ = u
	}
	var ts []*Term
	for i, l := range leavesOf(t) {
		n := fmt.Sprintf("mem.%s.%d", k, i)
		v := App(n, l.sort, x.epoch(st), a)
		if l.bytes {
			byteRoots[v] = true
		}
		ts = append(ts, v)
	}
	v := st.fromLeaves(t, &ts)
	if s, ok := v.(VSlice); ok && s.B != nil {
		s.B.InputT = tFalse
	}
	if s, ok := v.(VStruct); ok && len(s.F) == 3 && isSliceHeader(t) {
		x.note("memory", "slice headers in memory have 0 <= len <= cap")
		l, c := intOf(s.F[1]), intOf(s.F[2])
		st.assumeQuiet(And(Le(I(0), l), Le(l, c), Le(c, I(maxLen))))
	}
	return v
}

// isSliceHeader recognises struct { data unsafe.Pointer; len, cap int }.
func isSliceHeader(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 3 && isUnsafeT(s.Field(0).Type()) && types.Identical(s.Field(1).Type(), types.Typ[types.Int]) && types.Identical(s.Field(2).Type(), types.Typ[types.Int])
}

func (x *Exec) storeAddr(st *State, a *Term, t types.Type, v Val) {
	st.mem = append(st.mem, memStore{a, memKind(t), v, t})
	if curLog != nil {
		curLog.mem = true
	}
}

// loadMem loads a value of type t at the place an unsafe.Pointer (or *T) designates.
func (x *Exec) loadMem(st *State, p Val, t types.Type) Val {
	switch u := p.(type) {
	case VUnsafe:
		switch {
		case u.Loc != nil:
			return x.loadLoc(st, u.Loc, t)
		case u.Data != nil:
			panic(unsupported("spec load of slice data"))
		default:
			return x.loadAddr(st, u.Addr, t)
		}
	case VPtr:
		return x.loadLoc(st, u.Loc, t)
	case VInt:
		return x.loadAddr(st, u.T, t)
	}
	panic(unsupported("load from %T", p))
}

// reinterpret converts a value between types of equal memory layout.
func (x *Exec) reinterpret(st *State, v Val, from, to types.Type) Val {
	if to == nil || types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if s, ok := v.(VSlice); ok {
		switch {
		case isString(to):
			s.Str = true
			s.Nil = tFalse
			return s
		case isSliceT(to):
			s.Str = false
			return s
		}
		if isUnsafeT(to) { // data pointer
			return VUnsafe{Nil: tFalse, Data: &s, Addr: I(0)}
		}
		if st2, ok := to.Underlying().(*types.Struct); ok && st2.NumFields() == 3 {
			return VStruct{to, []Val{VUnsafe{Nil: s.Nil, Data: &s, Addr: I(0)}, VInt{s.Len}, VInt{s.Cap}}}
		}
	}
	if st2, ok := to.Underlying().(*types.Struct); ok && st2.NumFields() == 2 && isUnsafeT(st2.Field(0).Type()) {
		// interface header
		var id *Term
		switch u := v.(type) {
		case VIface:
			id = st.ifaceID(u)
		case VOpaque:
			id = u.ID
		default:
			id = Var(freshName("ifhdr"), SInt)
		}
		tp, pp := App("ifaceTyp", SInt, id), App("ifacePtr", SInt, id)
		st.assumeQuiet(And(Ge(tp, I(0)), Ge(pp, I(0))))
		return VStruct{to, []Val{VUnsafe{Nil: Eq(tp, I(0)), Addr: tp}, VUnsafe{Nil: Eq(pp, I(0)), Addr: pp}}}
	}
	if isUnsafeT(to) {
		switch u := v.(type) {
		case VOpaque:
			return VUnsafe{Nil: Eq(u.ID, I(0)), Addr: u.ID}
		case VUnsafe:
			return u
		case VPtr:
			return VUnsafe{Nil: u.Nil, Loc: u.Loc, Elem: u.Elem}
		}
	}
	if u, ok := v.(VUnsafe); ok && u.Addr != nil && u.Data == nil {
		switch to.Underlying().(type) {
		case *types.Map:
			return VOpaque{u.Addr, to}
		}
	}
	if _, ok := v.(VOpaque); ok {
		return st.symbolic("reint", to, 0)
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if i, ok := v.(VInt); ok {
			return i
		}
	}
	if isOpaqueStruct(to) { // a write through a pointer to its first field
		return st.symbolic("reint", to, 0)
	}
	panic(unsupported("reinterpret %s as %s", from, to))
}

func isSliceT(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
func isUnsafeT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func (x *Exec) globalVal(st *State, o *types.Var) Val {
	c, ok := x.globals[o]
	if !ok {
		nm := o.Name()
		if o.Pkg() != nil {
			nm = o.Pkg().Name() + "." + nm
		}
		c = newCell(nm, o.Type())
		x.globals[o] = c
		if pt, ok := o.Type().(*types.Pointer); ok && o.Pkg() != nil && o.Pkg().Path() == "os" { // os.Stdin, os.Stdout, os.Stderr
			id := Var("global."+nm, SInt)
			lazyCells[c] = VPtr{Nil: tFalse, ID: id, Loc: &Loc{C: newCell(nm+".file", pt.Elem())}, Elem: pt.Elem()}
			lazyFacts[c] = []*Term{Not(Eq(id, I(0)))}
			x.note("global", nm+" is assumed non-nil and never reassigned")
		}
		if _, isif := o.Type().Underlying().(*types.Interface); isif {
			id := Var("global."+nm, SInt)
			lazyCells[c] = VIface{Nil: tFalse, ID: id}
			lazyFacts[c] = []*Term{Not(Eq(id, I(0)))}
			if nm == "jsoncolor.nullType" { // reflect.TypeOf(nil)
				lazyCells[c] = VIface{Nil: tTrue, ID: I(0)}
				lazyFacts[c] = nil
			}
			x.note("global", nm+" is assumed non-nil and never reassigned")
		}
	}
	return st.cell(c)
}

// ---- types ----

func (fr *frame) typeOf(e ast.Expr) types.Type {
	for f := fr; f != nil; f = f.up {
		if tv, ok := f.pkg.Info.Types[e]; ok {
			return tv.Type
		}
		if id, ok := e.(*ast.Ident); ok {
			if o := f.pkg.Info.Defs[id]; o != nil {
				return o.Type()
			}
			if o := f.pkg.Info.Uses[id]; o != nil {
				return o.Type()
			}
		}
	}
	panic(unsupported("no type for %s", types.ExprString(e)))
}

func (x *Exec) step() {
	x.steps++
	if x.steps > maxSteps {
		panic(unsupported("too many symbolic execution steps"))
	}
}

// ---- expressions ----

type msv struct {
	st *State
	vs []Val
}

func (x *Exec) evalList(es []ast.Expr, st *State, fr *frame) []msv {
	cur := []msv{{st, nil}}
	for _, e := range es {
		var next []msv
		for _, c := range cur {
			for _, r := range x.eval(e, c.st, fr) {
				next = append(next, msv{r.st, append(c.vs[:len(c.vs):len(c.vs)], r.v)})
			}
		}
		cur = next
	}
	return cur
}

func (x *Exec) eval1(e ast.Expr, st *State, fr *frame, f func(st *State, v Val) Val) []sv {
	var out []sv
	for _, r := range x.eval(e, st, fr) {
		out = append(out, sv{r.st, f(r.st, r.v)})
	}
	return out
}

func (x *Exec) eval(e ast.Expr, st *State, fr *frame) []sv {
	x.step()
	if tv, ok := fr.pkg.Info.Types[e]; ok && tv.Value != nil {
		return []sv{{st, x.convConst(tv.Value, tv.Type)}}
	}
	one := func(v Val) []sv { return []sv{{st, v}} }
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.eval(e.X, st, fr)
	case *ast.Ident:
		if e.Name == "nil" {
			if _, ok := fr.pkg.Info.Uses[e].(*types.Nil); ok {
				return one(x.zero(st, fr.typeOf(e)))
			}
		}
		o := fr.pkg.Info.Uses[e]
		if o == nil {
			o = fr.pkg.Info.Defs[e]
		}
		switch o := o.(type) {
		case *types.Var:
			if c := fr.find(o); c != nil {
				return one(st.cell(c))
			}
			return one(x.globalVal(st, o))
		case *types.Func:
			return one(x.funcVal(o))
		case *types.Const:
			return one(x.convConst(o.Val(), o.Type()))
		}
		panic(unsupported("identifier %s", e.Name))
	case *ast.BasicLit:
		panic(unsupported("literal"))
	case *ast.FuncLit:
		return one(VFunc{Nil: tFalse, ID: Var(freshName("closure"), SInt), Lit: e, Env: fr})
	case *ast.UnaryExpr:
		return x.evalUnary(e, st, fr)
	case *ast.StarExpr:
		var out []sv
		for _, r := range x.eval(e.X, st, fr) {
			out = append(out, sv{r.st, x.deref(r.st, r.v, fr.typeOf(e), e.Pos())})
		}
		return out
	case *ast.BinaryExpr:
		return x.evalBinary(e, st, fr)
	case *ast.SelectorExpr:
		return x.evalSelector(e, st, fr)
	case *ast.IndexExpr:
		return x.evalIndex(e, st, fr)
	case *ast.SliceExpr:
		return x.evalSlice(e, st, fr)
	case *ast.CallExpr:
		return x.evalCall(e, st, fr)
	case *ast.CompositeLit:
		return x.evalComposite(e, st, fr)
	case *ast.TypeAssertExpr:
		return x.evalTypeAssert(e, st, fr, false)
	}
	panic(unsupported("expression %T", e))
}

func (x *Exec) convConst(v constant.Value, t types.Type) Val {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsInteger != 0 && v.Kind() != constant.Int {
			return constVal(constant.ToInt(v), t)
		}
		if b.Info()&types.IsString != 0 && v.Kind() == constant.Int {
			n, _ := constant.Int64Val(v)
			return VStrConst(string(rune(n)))
		}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return VIface{Nil: tFalse, ID: Var("const."+v.ExactString(), SInt), Dyn: constVal(v, types.Default(t)), DynT: t}
	}
	return constVal(v, t)
}

func (x *Exec) funcVal(o *types.Func) Val {
	if fi, ok := byObj[o]; ok {
		return VFunc{Nil: tFalse, ID: Var("fn."+fi.Key, SInt), Fn: fi}
	}
	return VFunc{Nil: tFalse, ID: Var("fn."+extKey(o), SInt), Ext: o}
}

// nonNil obliges p not to be nil. Addresses handed around as unsafe.Pointer are
// assumed to be valid for the type they are converted to.
func (x *Exec) nonNil(st *State, p VPtr, pos token.Pos) {
	if p.Loc != nil && p.Loc.Mem != nil {
		x.assumed["unsafe: an unsafe.Pointer converted to *T points to a valid T"] = true
		st.assume(Not(p.Nil))
		return
	}
	x.oblige(st, "nil", "", Not(p.Nil), pos)
}

func (x *Exec) deref(st *State, v Val, t types.Type, pos token.Pos) Val {
	switch p := v.(type) {
	case VPtr:
		x.nonNil(st, p, pos)
		if p.Loc == nil {
			return st.symbolic("dead", t, 0)
		}
		if p.Loc.B != nil && p.Elem != nil && p.Loc.Idx == nil {
			panic(unsupported("deref"))
		}
		return x.loadLoc(st, p.Loc, t)
	case VUnsafe:
		return x.derefUnsafe(st, p, t, pos)
	}
	panic(unsupported("dereference of %T", v))
}

func (x *Exec) derefUnsafe(st *State, p VUnsafe, t types.Type, pos token.Pos) Val {
	if p.Data != nil {
		// bytes of a slice or string
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			panic(unsupported("load %s from slice data", t))
		}
		bits, _ := intBits(b)
		n := int64(bits / 8)
		x.oblige(st, "bounds", "unsafe", And(Le(I(0), p.Addr), Le(Add(p.Addr, I(n)), p.Data.Len)), pos)
		if n == 1 {
			return VInt{st.byteAt(*p.Data, p.Addr)}
		}
		var w VWord
		for k := int64(0); k < n; k++ {
			w.L = append(w.L, st.byteAt(*p.Data, Add(p.Addr, I(k))))
		}
		return w
	}
	if p.Loc != nil {
		return x.loadLoc(st, p.Loc, t)
	}
	return x.loadAddr(st, p.Addr, t)
}

func (x *Exec) evalUnary(e *ast.UnaryExpr, st *State, fr *frame) []sv {
	switch e.Op {
	case token.AND:
		return x.evalAddr(e.X, st, fr)
	case token.NOT:
		return x.eval1(e.X, st, fr, func(st *State, v Val) Val { return VBool{Not(boolOf(v))} })
	case token.SUB:
		t := fr.typeOf(e)
		return x.eval1(e.X, st, fr, func(st *State, v Val) Val {
			if o, ok := v.(VOpaque); ok {
				return VOpaque{App("fneg", SInt, o.ID), t}
			}
			r := Sub(I(0), intOf(v))
			x.checkRange(st, r, t, e.Pos())
			return VInt{r}
		})
	case token.XOR:
		t := fr.typeOf(e)
		return x.eval1(e.X, st, fr, func(st *State, v Val) Val {
			lo, hi, _ := intRange(t)
			if lo.isInt() && lo.iv.Sign() == 0 {
				return VInt{Sub(hi, intOf(v))}
			}
			return VInt{Sub(I(-1), intOf(v))}
		})
	case token.ADD:
		return x.eval(e.X, st, fr)
	}
	panic(unsupported("unary %s", e.Op))
}

// evalLoc evaluates an addressable expression to a location.
type locRes struct {
	st  *State
	loc *Loc
}

func (x *Exec) evalLoc(e ast.Expr, st *State, fr *frame) []locRes {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.evalLoc(e.X, st, fr)
	case *ast.Ident:
		o := fr.pkg.Info.Uses[e]
		if o == nil {
			o = fr.pkg.Info.Defs[e]
		}
		if c := fr.find(o); c != nil {
			return []locRes{{st, &Loc{C: c}}}
		}
		if v, ok := o.(*types.Var); ok {
			x.globalVal(st, v)
			return []locRes{{st, &Loc{C: x.globals[v]}}}
		}
	case *ast.StarExpr:
		var out []locRes
		for _, r := range x.eval(e.X, st, fr) {
			switch p := r.v.(type) {
			case VPtr:
				x.nonNil(r.st, p, e.Pos())
				if p.Loc == nil {
					r.st.dead = true
					continue
				}
				out = append(out, locRes{r.st, p.Loc})
			default:
				panic(unsupported("location *%T", r.v))
			}
		}
		return out
	case *ast.SelectorExpr:
		if sel, ok := fr.pkg.Info.Selections[e]; ok && sel.Kind() == types.FieldVal {
			return x.fieldLoc(e.X, sel.Index(), fr.typeOf(e.X), st, fr, e.Pos())
		}
		if o, ok := fr.pkg.Info.Uses[e.Sel].(*types.Var); ok { // pkg.Var
			x.globalVal(st, o)
			return []locRes{{st, &Loc{C: x.globals[o]}}}
		}
	case *ast.IndexExpr:
		var out []locRes
		t := fr.typeOf(e.X).Underlying()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem().Underlying()
		}
		for _, m := range x.evalList([]ast.Expr{e.X, e.Index}, st, fr) {
			i := intOf(m.vs[1])
			switch a := m.vs[0].(type) {
			case VSlice:
				x.oblige(m.st, "bounds", "index", And(Le(I(0), i), Lt(i, a.Len)), e.Pos())
				if a.B == nil {
					m.st.dead = true
					continue
				}
				out = append(out, locRes{m.st, &Loc{B: a.B, Idx: Add(a.Off, i), Elem: a.Elem}})
			case VArray:
				x.oblige(m.st, "bounds", "index", And(Le(I(0), i), Lt(i, I(a.N))), e.Pos())
				out = append(out, locRes{m.st, &Loc{B: a.B, Idx: i, Elem: a.Elem}})
			default:
				panic(unsupported("address of index of %T", a))
			}
		}
		return out
	case *ast.CompositeLit:
		var out []locRes
		for _, r := range x.eval(e, st, fr) {
			t := fr.typeOf(e)
			c := newCell(freshName("new"), t)
			r.st.cells[c] = r.v
			out = append(out, locRes{r.st, &Loc{C: c}})
		}
		return out
	}
	panic(unsupported("location %T %s", e, types.ExprString(e)))
}

func (x *Exec) fieldLoc(base ast.Expr, index []int, t types.Type, st *State, fr *frame, pos token.Pos) []locRes {
	var cur []locRes
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		for _, r := range x.eval(base, st, fr) {
			p, ok := r.v.(VPtr)
			if !ok {
				panic(unsupported("field through %T", r.v))
			}
			x.nonNil(r.st, p, pos)
			if p.Loc == nil {
				r.st.dead = true
				continue
			}
			cur = append(cur, locRes{r.st, p.Loc})
		}
		t = pt.Elem()
	} else {
		cur = x.evalLoc(base, st, fr)
	}
	for _, ix := range index {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			for k := range cur {
				v := x.loadLoc(cur[k].st, cur[k].loc, t)
				p := v.(VPtr)
				x.nonNil(cur[k].st, p, pos)
				cur[k].loc = p.Loc
			}
			t = pt.Elem()
		}
		s := t.Underlying().(*types.Struct)
		for k := range cur {
			n := *cur[k].loc
			n.Path = append(append([]int{}, n.Path...), ix)
			cur[k].loc = &n
		}
		t = s.Field(ix).Type()
	}
	return cur
}

func (x *Exec) evalAddr(e ast.Expr, st *State, fr *frame) []sv {
	var out []sv
	t := fr.typeOf(e)
	for _, l := range x.evalLoc(e, st, fr) {
		out = append(out, sv{l.st, VPtr{Nil: tFalse, Loc: l.loc, Elem: t, ID: locID(l.loc)}})
	}
	return out
}

func locID(l *Loc) *Term {
	if l.C != nil && len(l.Path) == 0 && l.C.ID != nil {
		return l.C.ID
	}
	if l.C != nil && len(l.Path) == 0 {
		return Var(fmt.Sprintf("addr.%s.%d", l.C.Name, l.C.id), SInt)
	}
	return nil
}

func (x *Exec) evalSelector(e *ast.SelectorExpr, st *State, fr *frame) []sv {
	if sel, ok := fr.pkg.Info.Selections[e]; ok {
		switch sel.Kind() {
		case types.FieldVal:
			t := fr.typeOf(e.X)
			if _, isp := t.Underlying().(*types.Pointer); isp || isAddressable(e.X) {
				var out []sv
				for _, l := range x.fieldLoc(e.X, sel.Index(), t, st, fr, e.Pos()) {
					out = append(out, sv{l.st, x.loadLoc(l.st, l.loc, sel.Type())})
				}
				return out
			}
			return x.eval1(e.X, st, fr, func(st *State, v Val) Val {
				for _, ix := range sel.Index() {
					switch s := v.(type) {
					case VStruct:
						v = s.F[ix]
					case VPtr:
						x.oblige(st, "nil", "", Not(s.Nil), e.Pos())
						v = x.loadLoc(st, s.Loc, s.Elem).(VStruct).F[ix]
					default:
						return st.symbolic("fld", sel.Type(), 0)
					}
				}
				return v
			})
		case types.MethodExpr:
			return []sv{{st, x.funcVal(sel.Obj().(*types.Func))}}
		case types.MethodVal:
			return x.eval1(e.X, st, fr, func(st *State, v Val) Val {
				f := x.funcVal(sel.Obj().(*types.Func)).(VFunc)
				f.Recv = v
				f.ID = Var(freshName("methodval"), SInt)
				return f
			})
		}
	}
	switch o := fr.pkg.Info.Uses[e.Sel].(type) {
	case *types.Var:
		return []sv{{st, x.globalVal(st, o)}}
	case *types.Func:
		return []sv{{st, x.funcVal(o)}}
	}
	panic(unsupported("selector %s", types.ExprString(e)))
}

func isAddressable(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.ParenExpr:
		return isAddressable(e.X)
	case *ast.SelectorExpr:
		return true
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		return true
	}
	return false
}

func (x *Exec) evalIndex(e *ast.IndexExpr, st *State, fr *frame) []sv {
	var out []sv
	if _, ok := fr.pkg.Info.Types[e.X]; ok {
		if _, isSig := fr.typeOf(e.X).Underlying().(*types.Signature); isSig {
			return x.eval(e.X, st, fr)
		}
	}
	for _, m := range x.evalList([]ast.Expr{e.X, e.Index}, st, fr) {
		switch a := m.vs[0].(type) {
		case VSlice:
			i := intOf(m.vs[1])
			x.oblige(m.st, "bounds", "index", And(Le(I(0), i), Lt(i, a.Len)), e.Pos())
			if a.B == nil {
				m.st.dead = true
				continue
			}
			if a.B.Bytes {
				out = append(out, sv{m.st, VInt{m.st.byteAt(a, i)}})
			} else {
				out = append(out, sv{m.st, m.st.loadElem(a.B, Add(a.Off, i))})
			}
		case VArray:
			i := intOf(m.vs[1])
			x.oblige(m.st, "bounds", "index", And(Le(I(0), i), Lt(i, I(a.N))), e.Pos())
			if a.B.Bytes {
				out = append(out, sv{m.st, VInt{m.st.byteAt(VSlice{B: a.B, Off: I(0)}, i)}})
			} else {
				out = append(out, sv{m.st, m.st.loadElem(a.B, i)})
			}
		case VOpaque: // map lookup
			out = append(out, sv{m.st, x.mapLookup(m.st, a, m.vs[1], fr.typeOf(e))})
		default:
			panic(unsupported("index of %T", a))
		}
	}
	return out
}

// mapLookup models m[k] as an uninterpreted function of the map and the key text.
func (x *Exec) mapLookup(st *State, m VOpaque, k Val, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok { // comma-ok
		v := x.mapLookup(st, m, k, tt.At(0).Type())
		has := App("mapHas", SBool, m.ID, x.keyTerm(st, k))
		return VTuple{v, VBool{has}}
	}
	return x.mapGetKey(st, m, x.keyTerm(st, k), t)
}

func (x *Exec) mapGetKey(st *State, m VOpaque, kt *Term, t types.Type) Val {
	var ts []*Term
	for i, l := range leavesOf(t) {
		v := App(fmt.Sprintf("map.%s.%d.%s", memKind(t), i, kt.sort), l.sort, m.ID, kt)
		if l.bytes {
			byteRoots[v] = true
		}
		ts = append(ts, v)
	}
	v := st.fromLeaves(t, &ts)
	if kt.sort == SSeq { // names for specifications
		switch u := v.(type) {
		case VIface:
			st.assumeQuiet(Eq(App("mapAny", SInt, m.ID, kt), st.ifaceID(u)))
		case VSlice:
			if u.B != nil && u.B.Bytes {
				st.assumeQuiet(Eq(App("mapSeq", SSeq, m.ID, kt), st.seqOf(u)))
				st.assumeQuiet(Eq(App("mapSeqNil", SBool, m.ID, kt), u.Nil))
			}
		}
	}
	return v
}

func (x *Exec) keyTerm(st *State, k Val) *Term {
	if s, ok := k.(VSlice); ok {
		return st.seqOf(s)
	}
	return termOf(k)
}

func (x *Exec) evalSlice(e *ast.SliceExpr, st *State, fr *frame) []sv {
	es := []ast.Expr{e.X}
	li, hi, mi := -1, -1, -1
	if e.Low != nil {
		li = len(es)
		es = append(es, e.Low)
	}
	if e.High != nil {
		hi = len(es)
		es = append(es, e.High)
	}
	if e.Max != nil {
		mi = len(es)
		es = append(es, e.Max)
	}
	// slicing an addressable array
	if at, ok := fr.typeOf(e.X).Underlying().(*types.Array); ok {
		_ = at
	}
	var out []sv
	for _, m := range x.evalList(es, st, fr) {
		var s VSlice
		switch a := m.vs[0].(type) {
		case VSlice:
			s = a
		case VArray:
			n := I(a.N)
			s = VSlice{B: a.B, Off: I(0), Len: n, Cap: n, Nil: tFalse, Elem: a.Elem}
		case VPtr:
			arr := x.deref(m.st, a, a.Elem, e.Pos()).(VArray)
			n := I(arr.N)
			s = VSlice{B: arr.B, Off: I(0), Len: n, Cap: n, Nil: tFalse, Elem: arr.Elem}
		default:
			panic(unsupported("slice of %T", a))
		}
		lo, hiT := I(0), s.Len
		if li >= 0 {
			lo = intOf(m.vs[li])
		}
		if hi >= 0 {
			hiT = intOf(m.vs[hi])
		}
		limit := s.Cap
		if s.Str {
			limit = s.Len
		}
		if mi >= 0 {
			mt := intOf(m.vs[mi])
			x.oblige(m.st, "bounds", "slice", And(Le(hiT, mt), Le(mt, limit)), e.Pos())
			limit = mt
		}
		x.oblige(m.st, "bounds", "slice", And(Le(I(0), lo), Le(lo, hiT), Le(hiT, limit)), e.Pos())
		if s.B != nil && s.B.Bytes && !s.Str {
			x.growSeq(m.st, s, hiT)
		}
		n := s
		n.Off = Add(s.Off, lo)
		n.Len = Sub(hiT, lo)
		if !s.Str {
			n.Cap = Sub(limit, lo)
		} else {
			n.Cap = n.Len
		}
		out = append(out, sv{m.st, n})
	}
	return out
}

// growSeq extends the known content of a sequence-backed store when a slice is
// re-extended beyond its length.
func (x *Exec) growSeq(st *State, s VSlice, hi *Term) {
	c := st.content(s.B)
	if c.Seq == nil {
		return
	}
	end := Add(s.Off, hi)
	if d, ok := constDiff(end, c.SeqLen); ok && d.Sign() <= 0 {
		return
	}
	if hi == s.Len {
		return
	}
	// is the end within the known length?
	if k, ok := st.known(Le(end, c.SeqLen)); ok && k {
		return
	}
	if lt, ok := x.provablyWithin(st, end, c.SeqLen); ok && lt {
		return
	}
	nl := Ite(Le(end, c.SeqLen), c.SeqLen, end)
	if k, ok := st.known(Le(c.SeqLen, end)); ok && k || x.atLeast(st, end, c.SeqLen) {
		nl = end
	}
	g := seqVar("garbage", Sub(nl, c.SeqLen))
	st.setBack(s.B, Content{Seq: Cat(c.Seq, g), SeqLen: nl})
}

// atLeast: a >= b follows from a solver call without sequences.
func (x *Exec) atLeast(st *State, a, b *Term) bool {
	// lengths of sequences stand for any non-negative numbers
	m := map[*Term]*Term{}
	var collect func(t *Term)
	seen := map[*Term]bool{}
	collect = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "seq.len" && t.args[0].op == "var" {
			if m[t] == nil {
				m[t] = Var(freshName("seqlen"), SInt)
			}
			return
		}
		for _, c := range t.args {
			collect(c)
		}
	}
	goal := Ge(a, b)
	collect(goal)
	for _, h := range st.pc {
		collect(h)
	}
	memo := map[*Term]*Term{}
	vc := &VC{Fn: "aux", Name: "aux", Goal: subst(goal, m, memo)}
	for _, h := range st.pc {
		if h = subst(h, m, memo); !hasSeq(h) {
			vc.Hyps = append(vc.Hyps, h)
		}
	}
	for _, l := range m {
		vc.Hyps = append(vc.Hyps, Le(I(0), l))
	}
	if vc.Goal.isTrue() {
		return true
	}
	scr := script(prepare(vc, 1), nil)
	return firstLine(runOnce("z3-new", []string{"-in", "-t:1000"}, scr, 1000)) == "unsat"
}

func (x *Exec) provablyWithin(st *State, a, b *Term) (bool, bool) {
	// a <= b when b - a is a sum of known non-negative terms: cheap check only
	d := Sub(b, a)
	switch d.op {
	case "seq.len":
		return true, true
	}
	return false, false
}

func (x *Exec) evalComposite(e *ast.CompositeLit, st *State, fr *frame) []sv {
	t := fr.typeOf(e)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		_ = u
		panic(unsupported("composite pointer"))
	case *types.Struct:
		if isOpaqueStruct(t) {
			var es []ast.Expr
			for _, el := range e.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					es = append(es, kv.Value)
				} else {
					es = append(es, el)
				}
			}
			var out []sv
			for _, m := range x.evalList(es, st, fr) {
				out = append(out, sv{m.st, VOpaque{Var(freshName("lit"), SInt), t}})
			}
			return out
		}
		var es []ast.Expr
		var idx []int
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				n := kv.Key.(*ast.Ident).Name
				for k := 0; k < u.NumFields(); k++ {
					if u.Field(k).Name() == n {
						idx = append(idx, k)
					}
				}
				es = append(es, kv.Value)
			} else {
				idx = append(idx, i)
				es = append(es, el)
			}
		}
		var out []sv
		for _, m := range x.evalList(es, st, fr) {
			v := x.zero(m.st, t).(VStruct)
			for k, i := range idx {
				v.F[i] = x.convert(m.st, m.vs[k], fr.typeOf(es[k]), u.Field(i).Type(), e.Pos())
			}
			out = append(out, sv{m.st, v})
		}
		return out
	case *types.Array, *types.Slice:
		var elem types.Type
		var n int64
		if a, ok := u.(*types.Array); ok {
			elem, n = a.Elem(), a.Len()
		} else {
			elem, n = u.(*types.Slice).Elem(), int64(len(e.Elts))
		}
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				panic(unsupported("keyed array literal"))
			}
		}
		var out []sv
		for _, m := range x.evalList(e.Elts, st, fr) {
			b := newBack(freshName("lit"), elem)
			m.st.backs[b] = x.zeroContent(m.st, elem)
			for i, v := range m.vs {
				m.st.storeElem(b, I(int64(i)), x.convert(m.st, v, fr.typeOf(e.Elts[i]), elem, e.Pos()))
			}
			if _, ok := u.(*types.Array); ok {
				out = append(out, sv{m.st, VArray{b, n, elem}})
			} else {
				out = append(out, sv{m.st, VSlice{B: b, Off: I(0), Len: I(n), Cap: I(n), Nil: tFalse, Elem: elem}})
			}
		}
		return out
	case *types.Map:
		id := Var(freshName("map"), SInt)
		st.assume(Not(Eq(id, I(0))))
		return []sv{{st, VOpaque{id, t}}}
	}
	panic(unsupported("composite %s", t))
}

func (x *Exec) evalTypeAssert(e *ast.TypeAssertExpr, st *State, fr *frame, commaOk bool) []sv {
	var out []sv
	tt := fr.typeOf(e.Type)
	for _, r := range x.eval(e.X, st, fr) {
		v := r.v.(VIface)
		var dyn Val
		okT := VBool{Var(freshName("typeok"), SBool)}
		if v.Dyn != nil && v.DynT != nil && types.Identical(v.DynT, tt) {
			dyn = v.Dyn
			okT = VBool{tTrue}
		} else if v.Nil.isTrue() {
			okT = VBool{tFalse}
			dyn = x.zero(r.st, tt)
		} else {
			if v.ID != nil {
				okT = VBool{hasType(tt, v.ID)}
				r.st.assumeQuiet(Imp(okT.T, Not(v.Nil)))
			}
			if _, isIf := tt.Underlying().(*types.Interface); isIf {
				id := r.st.ifaceID(v)
				dyn = VIface{Nil: Not(okT.T), ID: Ite(okT.T, id, I(0))}
			} else {
				dyn = r.st.symbolic("assert", tt, 1)
				if p, ok := dyn.(VPtr); ok && p.ID != nil && v.ID != nil {
					r.st.assumeQuiet(Eq(p.ID, Ite(okT.T, App("ifacePtr", SInt, v.ID), I(0))))
				}
			}
		}
		if commaOk {
			if x.con != nil && len(x.con.Trusts) > 0 && x.con.Trusts[0] == "assertions" {
				x.assumed["type assertions on user values in "+x.con.Name+" succeed: codecs use it only for implementing types"] = true
				r.st.assume(okT.T)
			}
			out = append(out, sv{r.st, VTuple{dyn, okT}})
		} else {
			if !x.poolResult(e) {
				x.oblige(r.st, "type-assertion", "", okT.T, e.Pos())
			}
			if p, ok := dyn.(VPtr); ok && x.poolResult(e) {
				r.st.assume(Not(p.Nil))
				x.poolInv(r.st, p, tt, false, e.Pos())
				x.note("extern", "sync.Pool.Get returns a non-nil value of the pooled type with arbitrary contents")
			}
			out = append(out, sv{r.st, dyn})
		}
	}
	return out
}

// poolInv assumes or obliges the invariant of pooled values of a type.
func (x *Exec) poolInv(st *State, p VPtr, t types.Type, oblige bool, pos token.Pos) {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok {
		return
	}
	for _, c := range poolInvs[n.Obj().Name()] {
		en := &env{x: x, st: st, entry: x.entry, vars: map[string]Val{"x": p}, olds: map[string]Val{"x": p}, pkg: n.Obj().Pkg()}
		g := x.clause(c, en)
		if oblige {
			x.oblige(st, "pool", c.Label, g, pos)
		} else {
			st.assume(g)
		}
	}
}

// poolResult recognises pool.Get().(*T).
func (x *Exec) poolResult(e *ast.TypeAssertExpr) bool {
	c, ok := e.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	return ok && s.Sel.Name == "Get"
}

// wide: the types for which nooverflow holds.
var wide = map[types.BasicKind]bool{types.Int: true, types.Int64: true, types.Uint: true, types.Uint64: true, types.Uintptr: true}

func (x *Exec) checkRange(st *State, v *Term, t types.Type, pos token.Pos) {
	lo, hi, ok := intRange(t)
	if !ok {
		return
	}
	if v.isInt() && v.iv.Cmp(lo.iv) >= 0 && v.iv.Cmp(hi.iv) <= 0 {
		return
	}
	if b, ok := t.Underlying().(*types.Basic); x.con != nil && x.con.NoOver && ok && wide[b.Kind()] {
		st.assume(And(Le(lo, v), Le(v, hi)))
		x.note("arithmetic", x.fn+": machine arithmetic assumed not to wrap")
		return
	}
	x.oblige(st, "overflow", "", And(Le(lo, v), Le(v, hi)), pos)
}

func (x *Exec) evalBinary(e *ast.BinaryExpr, st *State, fr *frame) []sv {
	if e.Op == token.LAND || e.Op == token.LOR {
		var out []sv
		for _, a := range x.eval(e.X, st, fr) {
			c := boolOf(a.v)
			isAnd := e.Op == token.LAND
			if k, ok := a.st.known(c); ok {
				if k != isAnd { // short-circuit
					out = append(out, sv{a.st, VBool{B(!isAnd)}})
				} else {
					out = append(out, x.eval(e.Y, a.st, fr)...)
				}
				continue
			}
			g := c
			if !isAnd {
				g = Not(c)
			}
			// try non-forking evaluation
			s2 := a.st.clone()
			s2.assume(g)
			n0 := len(s2.pc)
			saved := curLog
			lg := &writeLog{cells: map[*Cell]bool{}, backs: map[*Back]bool{}, ghost: map[string]bool{}}
			curLog = lg
			rs := x.eval(e.Y, s2, fr)
			curLog = saved
			if saved != nil {
				for k := range lg.cells {
					saved.cells[k] = true
				}
				for k := range lg.backs {
					saved.backs[k] = true
				}
				for g := range lg.ghost {
					saved.ghost[g] = true
				}
				saved.mem = saved.mem || lg.mem
			}
			if len(rs) == 1 && len(lg.cells) == 0 && len(lg.ghost) == 0 && len(lg.backs) == 0 && !lg.mem && !rs[0].st.dead {
				r := boolOf(rs[0].v)
				ns := a.st
				for _, f := range rs[0].st.pc[min(n0, len(rs[0].st.pc)):] {
					ns.assume(Imp(g, f))
				}
				for k, v := range rs[0].st.backs {
					if _, ok := ns.backs[k]; !ok {
						ns.backs[k] = v
					}
				}
				for k, v := range rs[0].st.cells {
					if _, ok := ns.cells[k]; !ok {
						ns.cells[k] = v
					}
				}
				if isAnd {
					out = append(out, sv{ns, VBool{And(c, r)}})
				} else {
					out = append(out, sv{ns, VBool{Or(c, r)}})
				}
				continue
			}
			s3 := a.st.clone()
			s3.assume(Not(g))
			if !s3.dead {
				out = append(out, sv{s3, VBool{B(!isAnd)}})
			}
			for _, r := range rs {
				if !r.st.dead {
					out = append(out, r)
				}
			}
		}
		return out
	}
	var out []sv
	xt, yt := fr.typeOf(e.X), fr.typeOf(e.Y)
	for _, m := range x.evalList([]ast.Expr{e.X, e.Y}, st, fr) {
		out = append(out, sv{m.st, x.binop(m.st, e.Op, m.vs[0], m.vs[1], xt, yt, fr.typeOf(e), e.Pos())})
	}
	return out
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, at, bt, rt types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL, token.NEQ:
		r := x.goEq(st, a, b, at, bt)
		if op == token.NEQ {
			r = Not(r)
		}
		return VBool{r}
	}
	// strings
	if s, ok := a.(VSlice); ok && s.Str {
		t := b.(VSlice)
		switch op {
		case token.ADD:
			return st.newSeqSlice("concat", Cat(st.seqOf(s), st.seqOf(t)), Add(s.Len, t.Len), true, at)
		case token.LSS:
			return VBool{App("strLess", SBool, st.seqOf(s), st.seqOf(t))}
		case token.GTR:
			return VBool{App("strLess", SBool, st.seqOf(t), st.seqOf(s))}
		}
		panic(unsupported("string operator %s", op))
	}
	if isFloatT(at) || isFloatT(bt) {
		ta, tb := x.floatTerm(a), x.floatTerm(b)
		switch op {
		case token.LSS:
			return VBool{App("flt", SBool, ta, tb)}
		case token.GTR:
			return VBool{App("flt", SBool, tb, ta)}
		case token.LEQ:
			return VBool{App("fle", SBool, ta, tb)}
		case token.GEQ:
			return VBool{App("fle", SBool, tb, ta)}
		}
		return VOpaque{App("fop"+op.String(), SInt, ta, tb), rt}
	}
	// pointer arithmetic
	if u, ok := a.(VUnsafe); ok {
		switch op {
		case token.ADD:
			n := u
			n.Nil = tFalse
			n.Addr = Add(u.Addr, intOf(b))
			if u.Addr == nil {
				panic(unsupported("arithmetic on a local address"))
			}
			return n
		}
		panic(unsupported("pointer operator %s", op))
	}
	wa, aw := a.(VWord)
	wb, bw := b.(VWord)
	if aw || bw {
		return x.wordOp(st, op, a, b, wa, wb, aw, bw, rt, pos)
	}
	p, q := intOf(a), intOf(b)
	switch op {
	case token.LSS:
		return VBool{Lt(p, q)}
	case token.LEQ:
		return VBool{Le(p, q)}
	case token.GTR:
		return VBool{Lt(q, p)}
	case token.GEQ:
		return VBool{Le(q, p)}
	case token.ADD:
		r := Add(p, q)
		x.checkRange(st, r, rt, pos)
		return VInt{r}
	case token.SUB:
		r := Sub(p, q)
		x.checkRange(st, r, rt, pos)
		return VInt{r}
	case token.MUL:
		r := Mul(p, q)
		if isUintptr(rt) {
			return VInt{r} // address arithmetic
		}
		x.checkRange(st, r, rt, pos)
		return VInt{r}
	case token.QUO, token.REM:
		x.oblige(st, "div-zero", "", Not(Eq(q, I(0))), pos)
		lo, _, _ := intRange(at)
		if lo != nil && lo.isInt() && lo.iv.Sign() < 0 {
			// truncated division
			if q.isInt() && q.iv.Sign() > 0 {
				d := Ite(Ge(p, I(0)), Div(p, q), Sub(I(0), Div(Sub(I(0), p), q)))
				if op == token.QUO {
					return VInt{d}
				}
				return VInt{Sub(p, Mul(q, d))}
			}
			r := Var(freshName("div"), SInt)
			return VInt{r}
		}
		if op == token.QUO {
			return VInt{Div(p, q)}
		}
		return VInt{Mod(p, q)}
	case token.SHL:
		if q.isInt() && q.iv.IsInt64() && q.iv.Int64() < 64 {
			r := Mul(p, Ibig(newInt().Lsh(big1, uint(q.iv.Int64()))))
			x.checkRange(st, r, rt, pos)
			return VInt{r}
		}
	case token.SHR:
		if q.isInt() && q.iv.IsInt64() && q.iv.Int64() < 64 {
			return VInt{Div(p, Ibig(newInt().Lsh(big1, uint(q.iv.Int64()))))}
		}
	case token.AND:
		if r, ok := andConst(p, q, rt); ok {
			return VInt{r}
		}
	case token.OR:
		if bt, ok := rt.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
			byteLike := func(t *Term) bool { return t.op == "select" || t.op == "seq.nth" }
			if bits, _ := intBits(bt); bits > 8 && (byteLike(p) && q.isInt() || byteLike(q) && p.isInt()) {
				return x.wordOp(st, op, a, b, wa, wb, aw, bw, rt, pos)
			}
		}
		if r, ok := orConst(p, q); ok {
			return VInt{r}
		}
	case token.AND_NOT:
		if q.isInt() && q.iv.Sign() >= 0 {
			return VInt{Sub(p, maskInt(p, q))}
		}
	}
	r := Var(freshName("op"), SInt)
	if lo, hi, ok := intRange(rt); ok {
		st.assume(And(Le(lo, r), Le(r, hi)))
	}
	x.note("arithmetic", fmt.Sprintf("%s: result of %s left unconstrained", x.fn, op))
	return VInt{r}
}

func isUintptr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uintptr
}

func andConst(p, q *Term, t types.Type) (*Term, bool) {
	if p.isInt() && !q.isInt() {
		p, q = q, p
	}
	if !q.isInt() {
		return nil, false
	}
	if q.iv.Sign() >= 0 {
		return maskInt(p, q), true
	}
	// x & ^m  (negative constant): x - (x & m)
	m := newInt().Not(q.iv)
	return Sub(p, maskInt(p, Ibig(m))), true
}

func orConst(p, q *Term) (*Term, bool) {
	if p.isInt() && !q.isInt() {
		p, q = q, p
	}
	if p.isInt() && q.isInt() {
		return Ibig(newInt().Or(p.iv, q.iv)), true
	}
	if q.isInt() && q.iv.Sign() >= 0 {
		// x | m = x + m - (x & m)
		return Sub(Add(p, q), maskInt(p, q)), true
	}
	return nil, false
}

func (x *Exec) floatTerm(v Val) *Term {
	switch f := v.(type) {
	case VOpaque:
		return f.ID
	case VInt:
		if f.T.isInt() {
			return floatVar(constant.MakeFromLiteral(f.T.iv.String(), token.INT, 0))
		}
		return App("toFloat", SInt, f.T)
	}
	panic(unsupported("float of %T", v))
}

// wordOp: byte-lane arithmetic on machine words.
func (x *Exec) wordOp(st *State, op token.Token, a, b Val, wa, wb VWord, aw, bw bool, rt types.Type, pos token.Pos) Val {
	lanesOf := func(v Val, n int) ([]*Term, bool) {
		switch w := v.(type) {
		case VWord:
			l := append([]*Term{}, w.L...)
			for len(l) < n {
				l = append(l, I(0))
			}
			return l, true
		case VInt:
			if w.T.isInt() && w.T.iv.Sign() >= 0 {
				var l []*Term
				t := newInt().Set(w.T.iv)
				for k := 0; k < n; k++ {
					l = append(l, Ibig(newInt().And(t, big.NewInt(255))))
					t.Rsh(t, 8)
				}
				return l, true
			}
			// a byte-sized integer occupies the lowest lane
			if w.T.op == "select" || w.T.op == "seq.nth" {
				l := []*Term{w.T}
				for len(l) < n {
					l = append(l, I(0))
				}
				return l, true
			}
			// any value of an unsigned type splits into base-256 digits
			if bt, ok := rt.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
				var l []*Term
				for k := 0; k < n; k++ {
					l = append(l, Mod(Div(w.T, Ibig(new(big.Int).Lsh(big.NewInt(1), uint(8*k)))), I(256)))
				}
				return l, true
			}
		}
		return nil, false
	}
	n := 8
	if bt, ok := rt.Underlying().(*types.Basic); ok {
		if bits, _ := intBits(bt); bits > 0 {
			n = bits / 8
		}
	}
	if rt.Underlying() == types.Typ[types.Bool] {
		n = 8
	}
	switch op {
	case token.AND, token.OR:
		la, ok1 := lanesOf(a, n)
		lb, ok2 := lanesOf(b, n)
		if ok1 && ok2 {
			var r VWord
			ok := true
			for k := 0; k < n; k++ {
				p, q := la[k], lb[k]
				if p.isInt() && !q.isInt() {
					p, q = q, p
				}
				if !q.isInt() {
					ok = false
					break
				}
				if op == token.AND {
					r.L = append(r.L, maskInt(p, q))
				} else {
					t, _ := orConst(p, q)
					r.L = append(r.L, t)
				}
			}
			if ok {
				return r
			}
		}
	case token.SHL:
		q := intOf(b)
		if aw && q.isInt() && q.iv.Int64()%8 == 0 {
			k := int(q.iv.Int64() / 8)
			var r VWord
			for i := 0; i < k; i++ {
				r.L = append(r.L, I(0))
			}
			r.L = append(r.L, wa.L...)
			if len(r.L) > n {
				r.L = r.L[:n]
			}
			return r
		}
	case token.SHR:
		q := intOf(b)
		if aw && q.isInt() && q.iv.Int64()%8 == 0 && int(q.iv.Int64()/8) <= len(wa.L) {
			return VWord{wa.L[q.iv.Int64()/8:]}
		}
	}
	r := Var(freshName("wordop"), SInt)
	if lo, hi, ok := intRange(rt); ok {
		st.assume(And(Le(lo, r), Le(r, hi)))
	}
	return VInt{r}
}

func pointerID(p VPtr) *Term {
	if p.ID != nil {
		return p.ID
	}
	if p.Loc != nil {
		return locID(p.Loc)
	}
	if p.Nil.isTrue() {
		return I(0)
	}
	return nil
}

func (x *Exec) goEq(st *State, a, b Val, at, bt types.Type) *Term {
	// nil comparisons
	isNilV := func(v Val, t types.Type) bool {
		bb, ok := t.(*types.Basic)
		return ok && bb.Kind() == types.UntypedNil
	}
	if isNilV(b, bt) || isNilV(a, at) {
		if isNilV(a, at) {
			a = b
		}
		switch v := a.(type) {
		case VSlice:
			return v.Nil
		case VPtr:
			return v.Nil
		case VIface:
			return v.Nil
		case VFunc:
			return v.Nil
		case VUnsafe:
			return v.Nil
		case VOpaque:
			return Eq(v.ID, I(0))
		}
		panic(unsupported("nil comparison of %T", a))
	}
	switch u := a.(type) {
	case VInt:
		if w, ok := b.(VWord); ok {
			return x.wordEq(w, u.T)
		}
		return Eq(u.T, intOf(b))
	case VWord:
		if w, ok := b.(VInt); ok && w.T.isInt() {
			return x.wordEq(u, w.T)
		}
		return Eq(termOf(u), termOf(b))
	case VBool:
		return Eq(u.T, boolOf(b))
	case VSlice:
		w := b.(VSlice)
		return x.strEq(st, u, w)
	case VOpaque:
		if o, ok := b.(VOpaque); ok {
			if isFloatT(at) {
				return App("feq", SBool, u.ID, o.ID)
			}
			return Eq(u.ID, o.ID)
		}
		if isFloatT(at) {
			return App("feq", SBool, u.ID, x.floatTerm(b))
		}
	case VIface:
		switch w := b.(type) {
		case VIface:
			return Eq(st.ifaceID(u), st.ifaceID(w))
		case VPtr:
			if p := pointerID(w); p != nil {
				id := st.ifaceID(u)
				return And(Not(u.Nil), hasType(bt, id), Eq(App("ifacePtr", SInt, id), p))
			}
			return Var(freshName("ifeq"), SBool)
		case VStruct, VOpaque:
			return Var(freshName("ifeq"), SBool)
		}
	case VPtr:
		if w, ok := b.(VPtr); ok {
			if u.Nil.isTrue() {
				return w.Nil
			}
			if w.Nil.isTrue() {
				return u.Nil
			}
			if u.Loc != nil && w.Loc != nil && u.Loc.C != nil && u.Loc.C == w.Loc.C && len(u.Loc.Path) == 0 && len(w.Loc.Path) == 0 {
				return tTrue
			}
			return Var(freshName("ptreq"), SBool)
		}
	case VUnsafe:
		if w, ok := b.(VUnsafe); ok && u.Addr != nil && w.Addr != nil {
			return Eq(u.Addr, w.Addr)
		}
	case VStruct:
		if w, ok := b.(VStruct); ok {
			us := u.T.Underlying().(*types.Struct)
			var cs []*Term
			for i := range u.F {
				cs = append(cs, x.goEq(st, u.F[i], w.F[i], us.Field(i).Type(), us.Field(i).Type()))
			}
			return And(cs...)
		}
	}
	panic(unsupported("comparison of %T and %T", a, b))
}

func (x *Exec) wordEq(w VWord, c *Term) *Term {
	var cs []*Term
	t := newInt().Set(c.iv)
	for _, l := range w.L {
		cs = append(cs, Eq(l, Ibig(newInt().And(t, big.NewInt(255)))))
		t.Rsh(t, 8)
	}
	if t.Sign() != 0 {
		return tFalse
	}
	return And(cs...)
}

// strEq compares byte strings; with a constant it expands to bytes.
func (x *Exec) strEq(st *State, a, b VSlice) *Term {
	var s string
	ok := false
	if b.B != nil {
		if c := st.content(b.B); c.Seq != nil && b.Len.isInt() && b.Off.isInt() {
			if k, is := seqConst(st.seqOf(b)); is {
				s, ok = k, true
			}
		}
	} else {
		ok = true
	}
	if !ok {
		if a.B == nil {
			return Eq(b.Len, I(0))
		}
		if c := st.content(a.B); c.Seq != nil && a.Len.isInt() {
			if k, is := seqConst(st.seqOf(a)); is {
				a, b = b, a
				s, ok = k, true
			}
		}
	}
	if ok && len(s) <= 16 {
		cs := []*Term{Eq(a.Len, I(int64(len(s))))}
		if a.B == nil {
			return And(cs...)
		}
		for i := 0; i < len(s); i++ {
			cs = append(cs, Eq(st.byteAt(a, I(int64(i))), I(int64(s[i]))))
		}
		return And(cs...)
	}
	return Eq(st.seqOf(a), st.seqOf(b))
}
