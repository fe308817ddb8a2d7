package main

// Calls: conversions, builtins, contracts, inlining, closures, externals.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// assignConv converts a value implicitly on assignment, call or return.
func (x *Exec) assignConv(st *State, v Val, from, to types.Type) Val {
	if to == nil || from == nil {
		return v
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return x.zero(st, to)
	}
	if v == nil {
		return x.zero(st, to)
	}
	_, toI := to.Underlying().(*types.Interface)
	_, fromI := from.Underlying().(*types.Interface)
	if toI && !fromI {
		if i, ok := v.(VIface); ok {
			return i
		}
		if tt, ok := v.(VTuple); ok && len(tt) == 0 {
			return VIface{Nil: tTrue, ID: I(0)}
		}
		id := Var(freshName("iface"), SInt)
		st.assumeQuiet(Not(Eq(id, I(0))))
		st.assumeQuiet(Eq(App("dynTag", SInt, id), typeTag(from)))
		switch u := v.(type) {
		case VInt:
			st.assumeQuiet(Eq(App("dynInt", SInt, id), u.T))
		case VBool:
			st.assumeQuiet(Eq(App("dynInt", SInt, id), Ite(u.T, I(1), I(0))))
		case VOpaque:
			st.assumeQuiet(Eq(App("dynInt", SInt, id), u.ID))
		case VPtr:
			if pid := pointerID(u); pid != nil {
				st.assumeQuiet(Eq(App("dynInt", SInt, id), pid))
				st.assumeQuiet(Eq(App("ifacePtr", SInt, id), pid))
			}
		case VSlice:
			if u.B == nil || u.B.Bytes {
				if u.Str || x.emits {
					st.assumeQuiet(Eq(App("dynSeq", SSeq, id), st.seqOf(u)))
				}
				if !u.Str && u.Nil != nil {
					st.assumeQuiet(Eq(App("dynNil", SBool, id), u.Nil))
				}
			}
			st.assumeQuiet(Eq(App("dynInt", SInt, id), u.Len))
		}
		if x.emits && types.Identical(to, errorType) {
			r := App("isRoll", SBool, id)
			if n, ok := from.(*types.Named); ok && n.Obj().Name() == "rollback" {
				st.assumeQuiet(r)
			} else {
				st.assumeQuiet(Not(r))
			}
		}
		return VIface{Nil: tFalse, ID: id, Dyn: v, DynT: from}
	}
	if isFloatT(to) {
		if i, ok := v.(VInt); ok {
			return VOpaque{x.floatTerm(i), to}
		}
	}
	return v
}

var typeTags []types.Type

// typeTag numbers the types of interface values.
func typeTag(t types.Type) *Term {
	for i, u := range typeTags {
		if types.Identical(t, u) {
			return I(int64(i + 1))
		}
	}
	typeTags = append(typeTags, t)
	return I(int64(len(typeTags)))
}

// hasType is the condition for the interface value id to have type t.
func hasType(t types.Type, id *Term) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return App("hasType."+types.TypeString(t, nil), SBool, id)
	}
	return Eq(App("dynTag", SInt, id), typeTag(t))
}

func bitsOf(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	return intBits(b)
}

// convert implements an explicit conversion T(v).
func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && fb.Kind() == types.UntypedNil {
		return x.zero(st, to)
	}
	if _, ok := to.Underlying().(*types.Interface); ok {
		return x.assignConv(st, v, from, to)
	}
	// strings and byte slices
	if s, ok := v.(VSlice); ok {
		if s.Str && isSliceT(to) || !s.Str && isString(to) {
			if s.B != nil && !s.B.Bytes { // []rune
				return st.newSeqSlice("runes", Var(freshName("runes"), SSeq), Var(freshName("n"), SInt), isString(to), to)
			}
			if isSliceT(to) && !isByte(to.Underlying().(*types.Slice).Elem()) {
				panic(unsupported("conversion %s to %s", from, to))
			}
			if isString(to) && s.B != nil {
				if c := st.content(s.B); c.Arr != nil { // a snapshot at the same positions
					b := newBack(freshName("str"), types.Typ[types.Uint8])
					st.backs[b] = c
					return VSlice{B: b, Off: s.Off, Len: s.Len, Cap: s.Len, Nil: tFalse, Str: true, Elem: types.Typ[types.Uint8]}
				}
			}
			r := st.newSeqSlice("copy", st.seqOf(s), s.Len, isString(to), to)
			return r
		}
		return s
	}
	if isUnsafeT(to) {
		switch u := v.(type) {
		case VPtr:
			if u.Loc != nil && u.Loc.Mem != nil && len(u.Loc.Path) == 0 {
				return VUnsafe{Nil: u.Nil, Addr: u.Loc.Mem}
			}
			return VUnsafe{Nil: u.Nil, Loc: u.Loc, Elem: u.Elem, Addr: u.ID}
		case VUnsafe:
			return u
		case VInt:
			return VUnsafe{Nil: Eq(u.T, I(0)), Addr: u.T}
		}
	}
	if tb != nil && tb.Kind() == types.Uintptr {
		if u, ok := v.(VUnsafe); ok {
			return u // an address still designating memory
		}
	}
	if pt, ok := to.Underlying().(*types.Pointer); ok {
		switch u := v.(type) {
		case VUnsafe:
			if u.Data != nil {
				return u
			}
			if u.Loc != nil {
				return VPtr{Nil: u.Nil, Loc: u.Loc, Elem: pt.Elem(), ID: u.Addr}
			}
			nl := u.Nil
			if nl == nil {
				nl = Eq(u.Addr, I(0))
			}
			return VPtr{Nil: nl, Loc: &Loc{Mem: u.Addr, MemT: pt.Elem()}, Elem: pt.Elem(), ID: u.Addr}
		case VPtr:
			u.Elem = pt.Elem()
			return u
		}
	}
	if tb != nil && tb.Info()&types.IsInteger != 0 && fb != nil && fb.Info()&types.IsInteger != 0 {
		tbits, tsigned := intBits(tb)
		fbits, fsigned := intBits(fb)
		if w, ok := v.(VWord); ok {
			if tbits/8 < len(w.L) {
				return VWord{w.L[:tbits/8]}
			}
			return w
		}
		if fb.Info()&types.IsUntyped != 0 {
			return v
		}
		i := intOf(v)
		if fsigned == tsigned && tbits >= fbits || !fsigned && tbits > fbits {
			return VInt{i}
		}
		lo, hi, _ := intRange(to)
		in := And(Le(lo, i), Le(i, hi))
		if in.isTrue() {
			return VInt{i}
		}
		if k, ok := st.known(in); ok && k {
			return VInt{i}
		}
		m := Ibig(newInt().Lsh(big1, uint(tbits)))
		if !tsigned {
			if fsigned && tbits >= fbits {
				return VInt{Ite(Le(I(0), i), i, Add(i, m))}
			}
			return VInt{Mod(i, m)}
		}
		h := Ibig(newInt().Lsh(big1, uint(tbits-1)))
		if !fsigned && tbits >= fbits {
			return VInt{Ite(Le(i, hi), i, Sub(i, m))}
		}
		return VInt{Ite(in, i, Sub(Mod(Add(i, h), m), h))}
	}
	if isFloatT(to) {
		if o, ok := v.(VOpaque); ok && isFloatT(from) {
			if types.Identical(from.Underlying(), to.Underlying()) {
				return o
			}
			return VOpaque{App("fconv"+to.Underlying().String(), SInt, o.ID), to}
		}
		return VOpaque{x.floatTerm(v), to}
	}
	if isFloatT(from) && tb != nil && tb.Info()&types.IsInteger != 0 {
		r := App("ftoi", SInt, termOf(v))
		lo, hi, _ := intRange(to)
		st.assumeQuiet(And(Le(lo, r), Le(r, hi)))
		return VInt{r}
	}
	if isString(to) {
		if _, ok := v.(VInt); ok {
			s := App("runeBytes", SSeq, intOf(v))
			n := Var(freshName("rlen"), SInt)
			st.assume(And(Le(I(1), n), Le(n, I(4)), Eq(SeqLen(s), n)))
			return st.newSeqSlice("runestr", s, n, true, to)
		}
	}
	if sv, ok := v.(VStruct); ok {
		sv.T = to
		return sv
	}
	switch v.(type) {
	case VFunc, VIface, VBool, VInt, VOpaque, VPtr, VArray:
		return v
	}
	panic(unsupported("conversion of %T from %s to %s", v, from, to))
}

func tupleOf(vs []Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	return VTuple(vs)
}

func (x *Exec) evalCall(e *ast.CallExpr, st *State, fr *frame) []sv {
	x.step()
	info := fr.pkg.Info
	// conversion
	if tv, ok := info.Types[e.Fun]; ok && tv.IsType() {
		from := fr.typeOf(e.Args[0])
		return x.eval1(e.Args[0], st, fr, func(st *State, v Val) Val {
			return x.convert(st, v, from, tv.Type, e.Pos())
		})
	}
	fun := ast.Unparen(e.Fun)
	// builtin
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			return x.builtin(b.Name(), e, st, fr)
		}
	}
	if s, ok := fun.(*ast.SelectorExpr); ok {
		if b, ok := info.Uses[s.Sel].(*types.Builtin); ok { // unsafe.X
			return x.builtin("unsafe."+b.Name(), e, st, fr)
		}
	}
	sig, ok := fr.typeOf(e.Fun).Underlying().(*types.Signature)
	if !ok {
		panic(unsupported("call of %s", fr.typeOf(e.Fun)))
	}
	later := x.deferred == e
	if later {
		x.deferred = nil
	}
	// receiver / callee value
	type cst struct {
		st *State
		f  VFunc
	}
	var cs []cst
	named := ""
	if n, ok := fr.typeOf(e.Fun).(*types.Named); ok {
		named = n.Obj().Name()
	}
	switch f := fun.(type) {
	case *ast.SelectorExpr:
		if sel, ok := info.Selections[f]; ok && sel.Kind() == types.MethodVal {
			m := sel.Obj().(*types.Func)
			msig := m.Type().(*types.Signature)
			rt := msig.Recv().Type()
			_, ptrRecv := rt.(*types.Pointer)
			xt := fr.typeOf(f.X)
			_, isPtr := xt.Underlying().(*types.Pointer)
			base := x.funcVal(m).(VFunc)
			if path := sel.Index(); len(path) > 1 {
				// promoted through embedded fields
				locs := x.fieldLoc(f.X, path[:len(path)-1], xt, st, fr, e.Pos())
				for _, l := range locs {
					b := base
					ft := sel.Recv()
					_ = ft
					if ptrRecv {
						b.Recv = VPtr{Nil: tFalse, Loc: l.loc, Elem: rt.(*types.Pointer).Elem(), ID: locID(l.loc)}
						// embedded pointer
						lv := x.loadLoc(l.st, l.loc, nil)
						if p, ok := lv.(VPtr); ok {
							b.Recv = p
						}
					} else {
						b.Recv = x.loadLoc(l.st, l.loc, nil)
					}
					cs = append(cs, cst{l.st, b})
				}
				break
			}
			switch {
			case ptrRecv && !isPtr:
				for _, r := range x.evalAddr(f.X, st, fr) {
					b := base
					b.Recv = r.v
					cs = append(cs, cst{r.st, b})
				}
			case !ptrRecv && isPtr:
				for _, r := range x.eval(f.X, st, fr) {
					b := base
					b.Recv = x.deref(r.st, r.v, xt.Underlying().(*types.Pointer).Elem(), e.Pos())
					cs = append(cs, cst{r.st, b})
				}
			default:
				for _, r := range x.eval(f.X, st, fr) {
					b := base
					b.Recv = r.v
					if _, isI := rt.Underlying().(*types.Interface); isI {
						if iv, ok := r.v.(VIface); ok {
							x.oblige(r.st, "nil", "interface", Not(iv.Nil), e.Pos())
							if iv.Dyn != nil && iv.DynT != nil {
								if obj, _, _ := types.LookupFieldOrMethod(iv.DynT, true, m.Pkg(), m.Name()); obj != nil {
									if mf, ok := obj.(*types.Func); ok {
										b = x.funcVal(mf).(VFunc)
										b.Recv = iv.Dyn
									}
								}
							}
						}
					}
					cs = append(cs, cst{r.st, b})
				}
			}
			break
		}
		for _, r := range x.eval(fun, st, fr) {
			cs = append(cs, cst{r.st, asFunc(r.v)})
		}
	default:
		for _, r := range x.eval(fun, st, fr) {
			cs = append(cs, cst{r.st, asFunc(r.v)})
		}
	}
	var out []sv
	for _, c := range cs {
		if c.st.dead {
			continue
		}
		var ms []msv
		if len(e.Args) == 1 && sig.Params().Len() > 1 && !(sig.Variadic() && sig.Params().Len() == 2) {
			// f(g()) with a tuple
			for _, r := range x.eval(e.Args[0], c.st, fr) {
				ms = append(ms, msv{r.st, []Val(r.v.(VTuple))})
			}
		} else {
			ms = x.evalList(e.Args, c.st, fr)
		}
		for _, m := range ms {
			if m.st.dead {
				continue
			}
			args := x.packArgs(m.st, m.vs, e, sig, fr)
			if later {
				f := c.f
				n := m.st.clone()
				n.defers = append(n.defers, deferred{fr, func(st *State) []sv { return x.callFn(st, f, named, sig, args, e.Pos(), fr) }})
				out = append(out, sv{n, tupleOf(nil)})
				continue
			}
			out = append(out, x.callFn(m.st, c.f, named, sig, args, e.Pos(), fr)...)
		}
	}
	return out
}

func asFunc(v Val) VFunc {
	switch f := v.(type) {
	case VFunc:
		return f
	case VOpaque:
		return VFunc{Nil: Eq(f.ID, I(0)), ID: f.ID}
	}
	panic(unsupported("call of %T", v))
}

// packArgs applies implicit conversions and packs variadic arguments.
func (x *Exec) packArgs(st *State, vs []Val, e *ast.CallExpr, sig *types.Signature, fr *frame) []Val {
	n := sig.Params().Len()
	var out []Val
	argT := func(i int) types.Type {
		if len(e.Args) == len(vs) {
			return fr.typeOf(e.Args[i])
		}
		if tt, ok := fr.typeOf(e.Args[0]).(*types.Tuple); ok {
			return tt.At(i).Type()
		}
		return nil
	}
	for i := 0; i < n; i++ {
		pt := sig.Params().At(i).Type()
		if sig.Variadic() && i == n-1 && !e.Ellipsis.IsValid() {
			el := pt.(*types.Slice).Elem()
			k := len(vs) - i
			if k == 0 {
				out = append(out, x.zero(st, pt))
				break
			}
			b := newBack(freshName("varargs"), el)
			var c Content
			if b.Bytes {
				var ts []*Term
				for j := i; j < len(vs); j++ {
					ts = append(ts, Unit(intOf(vs[j])))
				}
				c = Content{Seq: Cat(ts...), SeqLen: I(int64(k))}
				st.backs[b] = c
			} else {
				st.backs[b] = x.zeroContent(st, el)
				for j := i; j < len(vs); j++ {
					st.storeElem(b, I(int64(j-i)), x.assignConv(st, vs[j], argT(j), el))
				}
			}
			out = append(out, VSlice{B: b, Off: I(0), Len: I(int64(k)), Cap: I(int64(k)), Nil: tFalse, Elem: el})
			break
		}
		if i < len(vs) {
			out = append(out, x.assignConv(st, vs[i], argT(i), pt))
		}
	}
	return out
}

const maxInline = 10

// checkAtCall checks what the contract under proof says of every call of name.
func (x *Exec) checkAtCall(st *State, name string, args []Val, pos token.Pos, fr *frame) {
	for _, ac := range x.con.AtCall {
		if ac.Type != name {
			continue
		}
		en := &env{x: x, st: st, entry: x.entry, fr: fr, pos: pos, vars: map[string]Val{}, olds: x.olds, pkg: x.top.pkg.Types}
		for i, n := range ac.Params {
			if i < len(args) {
				en.vars[n] = args[i]
			}
		}
		x.oblige(st, "call", ac.C.Label, x.clause(ac.C, en), pos)
	}
}

// watched: the contract under proof says something of every call of the
// function name, and counts them.
func (x *Exec) watched(st *State, name string, args []Val, pos token.Pos, fr *frame) {
	if x.con == nil || x.quiet != 0 && fr == nil {
		return
	}
	for _, ac := range x.con.AtCall {
		if ac.Type == name {
			if x.ncalls != nil {
				st.setCell(x.ncalls, VInt{Add(intOf(st.cell(x.ncalls)), I(1))})
			}
			x.checkAtCall(st, name, args, pos, fr)
			return
		}
	}
}

func (x *Exec) callFn(st *State, f VFunc, named string, sig *types.Signature, args []Val, pos token.Pos, fr *frame) []sv {
	all := args
	if f.Recv != nil {
		all = append([]Val{f.Recv}, args...)
	}
	switch {
	case f.Fn != nil:
		key := f.Fn.Key
		x.watched(st, key, all, pos, fr)
		if c, ok := contracts[key]; ok && !c.Inline {
			x.usedCon[key] = true
			return x.applyContract(st, c, f.Fn.Obj.Type().(*types.Signature), all, pos, f.ID)
		}
		if f.Fn.Decl.Body == nil {
			return x.havocCall(st, key, sig, all, pos)
		}
		d := 0
		for p := fr; p != nil; p = p.callerOf() {
			if p.fi == f.Fn {
				panic(unsupported("recursive call of %s, which has no contract", key))
			}
			d++
		}
		if d > maxInline {
			panic(unsupported("inlining depth at %s", key))
		}
		x.inlined[key] = true
		return x.inline(st, f.Fn, all, pos, fr)
	case f.Lit != nil:
		return x.inlineLit(st, f, args, pos, fr)
	case f.Ext != nil:
		return x.callExt(st, f, sig, all, pos, fr)
	}
	if x.con != nil {
		for p, ft := range x.con.Takes {
			if v, ok := x.olds[p].(VFunc); ok && v.ID == f.ID {
				x.assumed["argument "+p+" of "+x.con.Name+" is one of: "+strings.Join(funcTypes[ft].Only, ", ")] = true
				named = ft
			}
		}
	}
	if c, ok := funcTypes[named]; ok {
		x.assumed["function values: the functions of type "+named+" in codecs are not nil"] = true
		st.assume(Not(f.Nil))
		x.usedCon["functype "+named] = true
		args := append([]Val{VInt{f.ID}}, all...)
		if x.ncalls != nil {
			st.setCell(x.ncalls, VInt{Add(intOf(st.cell(x.ncalls)), I(1))})
		}
		var kept []Val
		if x.con != nil && x.quiet == 0 || x.con != nil && fr != nil {
			x.checkAtCall(st, named, args[1:], pos, fr)
		}
		if x.con != nil {
			for _, k := range x.con.Keeps {
				x.assumed["separation: "+k.Text+" is not overwritten by decoding an element"] = true
				kept = append(kept, x.clauseVal(k, &env{x: x, st: st, entry: x.entry, vars: x.olds, olds: x.olds, pkg: x.top.pkg.Types}))
			}
		}
		res := x.applyContract(st, c, sig, args, pos, f.ID)
		for _, r := range res {
			for i, v := range kept {
				k := x.con.Keeps[i]
				w := x.clauseVal(k, &env{x: x, st: r.st, entry: x.entry, vars: x.olds, olds: x.olds, pkg: x.top.pkg.Types})
				a, b := toTerms(st, v), toTerms(r.st, w)
				for j := range a {
					if j < len(b) {
						r.st.assume(Eq(a[j], b[j]))
					}
				}
			}
		}
		return res
	}
	x.oblige(st, "nil", "func", Not(f.Nil), pos)
	return x.havocCall(st, "function value "+named, sig, all, pos)
}

func (f *frame) callerOf() *frame { return f.caller }

func (x *Exec) inline(st *State, fi *FuncInfo, args []Val, pos token.Pos, caller *frame) []sv {
	sig := fi.Obj.Type().(*types.Signature)
	nf := &frame{fi: fi, pkg: fi.Pkg, vars: map[types.Object]*Cell{}, sig: sig, caller: caller, callPos: pos}
	if c, ok := contracts[fi.Key]; ok {
		nf.con = c
	}
	x.bindParams(st, nf, fi.Decl.Recv, fi.Decl.Type, args, nil)
	outs := x.runDefers(x.execBlock(fi.Decl.Body.List, st, nf), nf)
	return x.returns(outs, nf, sig)
}

func (x *Exec) inlineLit(st *State, f VFunc, args []Val, pos token.Pos, caller *frame) []sv {
	lit := f.Lit.(*ast.FuncLit)
	sig := f.Env.typeOf(lit).Underlying().(*types.Signature)
	nf := &frame{fi: f.Env.fi, pkg: f.Env.pkg, vars: map[types.Object]*Cell{}, sig: sig, up: f.Env, caller: caller, callPos: pos, con: f.Env.con, isLit: true}
	x.bindParams(st, nf, nil, lit.Type, args, nil)
	outs := x.runDefers(x.execBlock(lit.Body.List, st, nf), nf)
	return x.returns(outs, nf, sig)
}

func (x *Exec) returns(outs []outcome, nf *frame, sig *types.Signature) []sv {
	var out []sv
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		switch o.kind {
		case oReturn:
			out = append(out, sv{o.st, tupleOf(o.vals)})
		case oNormal:
			var vs []Val
			for _, c := range nf.results {
				vs = append(vs, o.st.cell(c))
			}
			out = append(out, sv{o.st, tupleOf(vs)})
		default:
			panic(unsupported("stray branch"))
		}
	}
	return out
}

// bindParams creates cells for receiver, parameters and results.
func (x *Exec) bindParams(st *State, nf *frame, recv *ast.FieldList, ft *ast.FuncType, args []Val, names *[]string) {
	i := 0
	bind := func(id *ast.Ident) {
		v := args[i]
		i++
		if id == nil || id.Name == "_" {
			return
		}
		o := nf.pkg.Info.Defs[id]
		c := newCell(id.Name, o.Type())
		nf.vars[o] = c
		st.cells[c] = v
	}
	each := func(l *ast.FieldList) {
		if l == nil {
			return
		}
		for _, f := range l.List {
			if len(f.Names) == 0 {
				bind(nil)
			}
			for _, n := range f.Names {
				bind(n)
			}
		}
	}
	each(recv)
	each(ft.Params)
	if ft.Results != nil {
		k := 0
		for _, f := range ft.Results.List {
			t := nf.sig.Results().At(k).Type()
			if len(f.Names) == 0 {
				c := newCell("result", t)
				st.cells[c] = x.zero(st, t)
				nf.results = append(nf.results, c)
				k++
			}
			for _, n := range f.Names {
				c := newCell(n.Name, t)
				st.cells[c] = x.zero(st, t)
				nf.results = append(nf.results, c)
				if o := nf.pkg.Info.Defs[n]; o != nil {
					nf.vars[o] = c
				}
				k++
			}
		}
	}
}

// conEnv builds the environment of a contract at a call.
func (x *Exec) conEnv(c *Contract, args []Val, st, entry *State, pkg *types.Package) *env {
	en := &env{x: x, st: st, entry: entry, vars: map[string]Val{}, olds: map[string]Val{}, pkg: pkg, calls: Var(freshName("ncalls"), SInt), sorts: Var(freshName("sorting"), SInt)}
	for i, p := range c.Params {
		if i < len(args) && p != "_" {
			en.vars[p] = args[i]
			en.olds[p] = args[i]
		}
	}
	return en
}

func (x *Exec) specPkg() *types.Package { return pkgs[rootPath].Types }

func (x *Exec) applyContract(st *State, c *Contract, sig *types.Signature, args []Val, pos token.Pos, id *Term) []sv {
	entry := st.clone()
	pkg := x.specPkg()
	if x.top != nil && x.top.pkg != nil {
		pkg = x.top.pkg.Types
	}
	if fi := funcs[c.Name]; fi != nil && !c.Extern {
		pkg = fi.Pkg.Types
	}
	if len(c.Params) != len(args) {
		panic(unsupported("contract of %s names %d parameters, call has %d", c.Name, len(c.Params), len(args)))
	}
	en := x.conEnv(c, args, st, entry, pkg)
	for _, r := range c.Req {
		x.oblige(st, "pre", c.Name+"."+r.Label, x.clause(r, en), pos)
	}
	if len(c.Dec) > 0 && x.con != nil && len(x.measure) > 0 && sameSCC(x.con.Name, c.Name) {
		var ts []*Term
		for _, d := range c.Dec {
			ts = append(ts, intOf(x.clauseVal(d, en)))
		}
		x.oblige(st, "decreases", c.Name, lexLess(ts, x.measure), pos)
	}
	for _, m := range c.Mod {
		x.havocLoc(st, m.E, en)
		if ce, ok := m.E.(*ast.CallExpr); ok && exprString(ce.Fun) == "memory" {
			for _, a := range args { // local variables handed over by address
				if u, ok := a.(VUnsafe); ok && u.Loc != nil && u.Elem != nil && u.Loc.Mem == nil {
					x.storeLoc(st, u.Loc, st.symbolic("hv", u.Elem, 0), u.Elem)
				}
			}
		}
	}
	if c.Emits != nil {
		return x.applyEmits(st, c, sig, args, en, pos)
	}
	if len(c.InIf) > 0 {
		var out []sv
		en0 := *en
		for _, in := range []bool{true, false} {
			s2 := st.clone()
			e2 := en0
			e2.st = s2
			e2.vars = map[string]Val{}
			for k, v := range en0.vars {
				e2.vars[k] = v
			}
			out = append(out, x.contractResults(s2, c, sig, args, &e2, in)...)
		}
		return out
	}
	return x.contractResults(st, c, sig, args, en, true)
}

// contractResults makes the results of a call; in tells whether the results
// which are part of an argument only under a condition are so.
func (x *Exec) contractResults(st *State, c *Contract, sig *types.Signature, args []Val, en *env, in bool) []sv {
	rn := sig.Results().Len()
	res := make([]Val, rn)
	var order []int
	for i := 0; i < rn; i++ {
		if i < len(c.Results) {
			if _, ok := c.InIf[c.Results[i]]; ok {
				continue
			}
		}
		order = append(order, i)
	}
	early := len(order)
	for i := 0; i < rn; i++ {
		if i < len(c.Results) {
			if _, ok := c.InIf[c.Results[i]]; ok {
				order = append(order, i)
			}
		}
	}
	for k, i := range order {
		if k == early {
			for _, n := range c.Results {
				if cl, ok := c.InIf[n]; ok {
					t := x.clause(cl, en)
					if !in {
						t = Not(t)
					}
					st.assume(t)
					if st.dead {
						return nil
					}
				}
			}
		}
		t := sig.Results().At(i).Type()
		name := "r"
		if i < len(c.Results) {
			name = c.Results[i]
		}
		var v Val
		if c.Pure {
			v = x.pureResult(st, c.Name, i, t, args)
		} else if p, ok := c.InOf[name]; ok && (in || c.InIf[name].E == nil) {
			v = x.resultIn(st, freshName(shortName(c.Name)+"."+name), args, c, p, t)
		} else if isString(t) || isSliceT(t) && isByte(t.Underlying().(*types.Slice).Elem()) {
			q := Var(freshName(shortName(c.Name)+"."+name), SSeq)
			n := SeqLen(q)
			st.assume(Le(n, I(maxLen)))
			s := st.newSeqSlice(shortName(c.Name)+"."+name, q, n, isString(t), t)
			s.B.InputT = Var(freshName("mayalias"), SBool)
			if !s.Str {
				s.Nil = Var(freshName("isnil"), SBool)
				st.assume(Imp(s.Nil, Eq(n, I(0))))
			}
			v = s
		} else {
			v = st.symbolic(shortName(c.Name)+"."+name, t, 1)
		}
		if x.emits && types.Identical(t, errorType) {
			if e, ok := v.(VIface); ok {
				x.assumed["the errors of functions other than encoders are not rollbacks"] = true
				st.assumeQuiet(Not(App("isRoll", SBool, st.ifaceID(e))))
			}
		}
		res[i] = v
		if i < len(c.Results) {
			en.vars[c.Results[i]] = v
		}
	}
	var out []sv
	for _, e2 := range x.place(c, en) {
		for _, e := range c.Ens {
			e2.st.assume(x.clause(e, e2))
		}
		for _, u := range c.Use {
			if x.callUse(u) {
				e2.st.assume(x.clause(u, e2))
			}
		}
		if !e2.st.dead {
			out = append(out, sv{e2.st, tupleOf(res)})
		}
	}
	if c.Trusted || c.Extern {
		x.usedExt[c.Name] = true
	}
	return out
}

// place gives the fields named by places clauses memory of the slices they
// are part of. Conditional clauses, which all have the same condition, split
// the state.
func (x *Exec) place(c *Contract, en *env) []*env {
	var always, some []placing
	for _, p := range c.Places {
		if p.If.E == nil {
			always = append(always, p)
		} else {
			some = append(some, p)
		}
	}
	put := func(e *env, p placing) {
		sel := p.Field.E.(*ast.SelectorExpr)
		base, ok := specEval(sel.X, e).(VPtr)
		of, ok2 := specEval(p.Of.E, &env{x: x, st: e.entry, entry: e.entry, vars: e.olds, olds: e.olds, pkg: e.pkg}).(VSlice)
		if !ok || !ok2 || base.Loc == nil {
			panic(unsupported("places %s", p.Field.Text))
		}
		s := base.Elem.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == sel.Sel.Name {
				l := *base.Loc
				l.Path = append(append([]int{}, l.Path...), i)
				v := x.sliceIn(e.st, freshName(shortName(c.Name)+"."+sel.Sel.Name), of, s.Field(i).Type())
				x.storeLoc(e.st, &l, v, s.Field(i).Type())
				return
			}
		}
		panic(unsupported("places %s", p.Field.Text))
	}
	for _, p := range always {
		put(en, p)
	}
	if len(some) == 0 {
		return []*env{en}
	}
	no := *en
	no.st = en.st.clone()
	cond := x.clause(some[0].If, en)
	no.st.assume(Not(x.clause(some[0].If, &no)))
	en.st.assume(cond)
	for _, p := range some {
		if !en.st.dead {
			put(en, p)
		}
	}
	var out []*env
	for _, e := range []*env{en, &no} {
		if !e.st.dead {
			out = append(out, e)
		}
	}
	return out
}

func (x *Exec) callUse(u Clause) bool { return false }

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// clause evaluates a boolean clause.
func (x *Exec) clause(c Clause, en *env) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				panic(unsupported("%s (in clause %q, %s)", u.msg, c.Text, c.Line))
			}
			panic(r)
		}
	}()
	t = boolOf(specEval(c.E, en))
	markTag(t, c.Tag != "")
	return t
}

// tagged: facts which clauses for one property introduced. Only obligations
// for that property may use them, so that they do not burden the others.
var tagged = map[*Term]bool{}

func markTag(t *Term, on bool) {
	if t.op == "and" {
		for _, a := range t.args {
			markTag(a, on)
		}
	}
	if on {
		tagged[t] = true
	} else if tagged[t] {
		delete(tagged, t)
	}
}

func (x *Exec) clauseVal(c Clause, en *env) Val { return specEval(c.E, en) }

// pureResult: the result is a function of the argument identities.
func (x *Exec) pureResult(st *State, name string, i int, t types.Type, args []Val) Val {
	if name == "reflect.TypeOf" {
		if iv, ok := args[0].(VIface); ok && iv.Nil != nil {
			return VIface{Nil: iv.Nil, ID: App("typeOf", SInt, st.ifaceID(iv))}
		}
	}
	var ts []*Term
	for _, a := range args {
		ts = append(ts, x.keyTerms(st, a)...)
	}
	fn := name
	if i > 0 {
		fn = fmt.Sprintf("%s#%d", name, i)
	}
	for _, t := range ts {
		fn += "." + string(t.sort)[:2]
	}
	if isString(t) || isSliceT(t) && isByte(t.Underlying().(*types.Slice).Elem()) {
		q := App(fn, SSeq, ts...)
		n := SeqLen(q)
		st.assumeQuiet(Le(n, I(maxLen)))
		return st.newSeqSlice(shortName(name), q, n, isString(t), t)
	}
	var ls []*Term
	for k, l := range leavesOf(t) {
		f2 := fn
		if k > 0 {
			f2 = fmt.Sprintf("%s@%d", fn, k)
		}
		v := App(f2, l.sort, ts...)
		if l.bytes {
			byteRoots[v] = true
		}
		ls = append(ls, v)
	}
	return st.fromLeaves(t, &ls)
}

func (x *Exec) keyTerms(st *State, v Val) []*Term {
	switch s := v.(type) {
	case VSlice:
		if s.B == nil || s.B.Bytes {
			return []*Term{st.seqOf(s)}
		}
		return []*Term{Var(freshName("slc"), SInt)}
	case VStruct:
		var out []*Term
		for _, f := range s.F {
			out = append(out, x.keyTerms(st, f)...)
		}
		return out
	case VPtr:
		if s.ID != nil {
			return []*Term{s.ID}
		}
		return []*Term{Var(freshName("ptr"), SInt)}
	case VUnsafe:
		if s.Addr != nil {
			return []*Term{s.Addr}
		}
		if s.Loc != nil {
			if id := locID(s.Loc); id != nil {
				return []*Term{id}
			}
		}
		return []*Term{Var(freshName("ptr"), SInt)}
	case VIface:
		return []*Term{st.ifaceID(s)}
	case VArray:
		return []*Term{Var(freshName("array"), SInt)}
	}
	return []*Term{termOf(v)}
}

// resultIn: a slice result lying within the backing store of parameter p.
func (x *Exec) resultIn(st *State, n string, args []Val, c *Contract, p string, t types.Type) Val {
	var arg VSlice
	found := false
	for i, q := range c.Params {
		if q == p {
			arg, found = args[i].(VSlice)
		}
	}
	if !found {
		panic(unsupported("returns %s: no such slice parameter in %s", p, c.Name))
	}
	return x.sliceIn(st, n, arg, t)
}

// sliceIn is an unknown slice of type t in the memory of arg.
func (x *Exec) sliceIn(st *State, n string, arg VSlice, t types.Type) Val {
	off, ln, cp, nl := Var(n+".off", SInt), Var(n+".len", SInt), Var(n+".cap", SInt), Var(n+".nil", SBool)
	st.assume(And(Le(I(0), off), Le(I(0), ln), Le(ln, cp), Le(cp, I(2*maxLen)), Le(off, I(2*maxLen)), Imp(nl, Eq(cp, I(0)))))
	s := VSlice{B: arg.B, Off: off, Len: ln, Cap: cp, Nil: nl, Elem: arg.Elem, Str: isString(t)}
	if s.Str {
		s.Cap, s.Nil = ln, tFalse
	}
	if arg.B == nil { // nil argument: result is empty
		st.assume(Eq(ln, I(0)))
		s.B = nil
		s.Off, s.Len, s.Cap = I(0), I(0), I(0)
	}
	return s
}

// giveUp forgets a value and the elements of its slices, which another user of
// the pool may overwrite at any time.
func (x *Exec) giveUp(st *State, p VPtr) {
	if p.Loc == nil {
		return
	}
	if v, ok := x.loadLoc(st, p.Loc, p.Elem).(VStruct); ok {
		for _, f := range v.F {
			if s, ok := f.(VSlice); ok && s.B != nil {
				nc := st.symContent(s.B.Name+".put", s.B.Elem)
				if c := st.content(s.B); c.Seq != nil {
					nc = Content{Seq: seqVar("putseq", c.SeqLen), SeqLen: c.SeqLen}
				}
				st.setBack(s.B, nc)
			}
		}
	}
	x.storeLoc(st, p.Loc, st.symbolic("put", p.Elem, 0), p.Elem)
}

// havocLoc forgets the value of a modified location.
func (x *Exec) havocLoc(st *State, e ast.Expr, en *env) {
	switch e := e.(type) {
	case *ast.StarExpr:
		v := specEval(e.X, en)
		switch p := v.(type) {
		case VPtr:
			if p.Loc == nil {
				return
			}
			x.storeLoc(st, p.Loc, st.symbolic("hv", p.Elem, 0), p.Elem)
		default:
			panic(unsupported("modifies *%T", v))
		}
		return
	case *ast.SelectorExpr:
		v := specEval(e.X, en)
		if p, ok := v.(VPtr); ok && p.Loc != nil {
			s := p.Elem.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == e.Sel.Name {
					l := *p.Loc
					l.Path = append(append([]int{}, l.Path...), i)
					x.storeLoc(st, &l, st.symbolic("hv."+e.Sel.Name, s.Field(i).Type(), 0), s.Field(i).Type())
					return
				}
			}
		}
		panic(unsupported("modifies %s", exprString(e)))
	case *ast.CallExpr:
		name := exprString(e.Fun)
		switch name {
		case "elems":
			v := specEval(e.Args[0], en)
			s, ok := v.(VSlice)
			if !ok {
				panic(unsupported("modifies elems of %T", v))
			}
			if s.B == nil {
				return
			}
			nc := st.symContent(s.B.Name+".hv", s.B.Elem)
			if c := st.content(s.B); c.Arr != nil && c.Arr.op == "constarr" && s.Off.isInt() && s.Off.iv.Sign() == 0 && s.Len == s.Cap {
				nc = Content{Seq: seqVar("hvseq", s.Len), SeqLen: s.Len} // the whole of a new store
			} else if c.Seq != nil {
				end := Add(s.Off, s.Len)
				q := Cat(SeqExtract(c.Seq, I(0), s.Off), seqVar("hvseq", s.Len), SeqExtract(c.Seq, end, Sub(c.SeqLen, end)))
				nc = Content{Seq: q, SeqLen: c.SeqLen}
			}
			st.setBack(s.B, nc)
			return
		case "load": // modifies load(p, T): the value of type T at p
			p := specEval(e.Args[0], en)
			t := en.typeArg(e.Args[1])
			x.storeMem(st, p, t, st.symbolic("hv", t, 0))
			return
		case "memory":
			x.bumpMem(st)
			return
		case "ghost":
			g := e.Args[0].(*ast.Ident).Name
			old := st.ghost[g]
			st.ghost[g] = Var(freshName("ghost."+g), old.sort)
			if curLog != nil {
				curLog.ghost[g] = true
			}
			return
		}
	}
	panic(unsupported("modifies %s", exprString(e)))
}

func (x *Exec) bumpMem(st *State) {
	x.epoch(st)
	st.memEpoch = Var(freshName("mem"), SInt)
	st.mem = nil
	if curLog != nil {
		curLog.mem = true
	}
}

func (x *Exec) storeMem(st *State, p Val, t types.Type, v Val) {
	switch u := p.(type) {
	case VUnsafe:
		if u.Loc != nil {
			x.storeLoc(st, u.Loc, v, t)
			return
		}
		if u.Addr != nil && u.Data == nil {
			x.storeAddr(st, u.Addr, t, v)
			return
		}
	case VPtr:
		x.storeLoc(st, u.Loc, v, t)
		return
	}
	panic(unsupported("store through %T", p))
}

func (x *Exec) havocCall(st *State, key string, sig *types.Signature, args []Val, pos token.Pos) []sv {
	x.note("unmodelled call", key+" (result arbitrary; memory reachable from pointer arguments forgotten)")
	for _, a := range args { // unless it is of these packages, it may write to a writer it was given
		if quiet[strings.SplitN(key, ".", 2)[0]] {
			break
		}
		if strings.HasSuffix(key, ".UnmarshalJSON") || strings.HasSuffix(key, ".UnmarshalText") {
			x.assumed["user UnmarshalJSON and UnmarshalText methods do not use the Encoder's writer"] = true
			break
		}
		if strings.HasSuffix(key, "error.Error") {
			x.assumed["Error methods do not write to the Encoder's writer"] = true
			break
		}
		switch w := a.(type) {
		case VIface:
			x.bumpGhosts(st, w.Nil)
		case VPtr:
			x.bumpGhosts(st, w.Nil)
		}
	}
	for _, a := range args {
		if p, ok := a.(VPtr); ok && p.Loc != nil {
			if p.Loc.C != nil && isOpaqueStruct(p.Loc.C.T) {
				continue
			}
			x.storeLoc(st, p.Loc, st.symbolic("hv", p.Elem, 0), p.Elem)
		}
		if u, ok := a.(VUnsafe); ok {
			if u.Loc != nil && u.Elem != nil {
				x.storeLoc(st, u.Loc, st.symbolic("hv", u.Elem, 0), u.Elem)
			} else {
				x.bumpMem(st)
			}
		}
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		v := st.symbolic(shortName(key), sig.Results().At(i).Type(), 1)
		if s, ok := v.(VSlice); ok && s.B != nil {
			s.B.InputT = Var(freshName("mayalias"), SBool)
		}
		if e, ok := v.(VIface); ok && x.emits && types.Identical(sig.Results().At(i).Type(), errorType) {
			x.assumed["the errors of functions other than encoders are not rollbacks"] = true
			st.assumeQuiet(Not(App("isRoll", SBool, st.ifaceID(e))))
		}
		res = append(res, v)
	}
	return []sv{{st, tupleOf(res)}}
}

// quiet: packages which do not call methods of values they are given.
var quiet = map[string]bool{"runtime": true, "reflect": true, "strconv": true, "strings": true, "bytes": true, "time": true, "sync": true, "sort": true, "unsafe": true}

func (x *Exec) bumpGhosts(st *State, isNil *Term) {
	if isNil != nil && isNil.isTrue() {
		return
	}
	for g, o := range st.ghost {
		st.ghost[g] = Var(freshName("ghost."+g), o.sort)
		if curLog != nil {
			curLog.ghost[g] = true
		}
	}
}

func (x *Exec) callExt(st *State, f VFunc, sig *types.Signature, all []Val, pos token.Pos, fr *frame) []sv {
	key := extKey(f.Ext)
	if key == "errors.Is" {
		if t, ok := all[1].(VIface); ok && t.DynT != nil {
			if n, ok := t.DynT.(*types.Named); ok && n.Obj().Name() == "rollback" {
				return []sv{{st, VBool{isRoll(st, all[0])}}}
			}
		}
	}
	if c, ok := externs[key]; ok {
		x.usedExt[key] = true
		return x.applyContract(st, c, f.Ext.Type().(*types.Signature), all, pos, f.ID)
	}
	if key == "sort.Sort" || key == "sort.Stable" {
		if v, ok := all[0].(VIface); ok && v.DynT != nil {
			if p, ok := v.Dyn.(VPtr); ok {
				if n, ok := p.Elem.(*types.Named); ok {
					if c, ok := externs["sort.Sort:"+n.Obj().Name()]; ok {
						x.usedExt[key] = true
						return x.applyContract(st, c, f.Ext.Type().(*types.Signature), []Val{p}, pos, f.ID)
					}
				}
			}
		}
	}
	if key == "sort.Slice" || key == "sort.SliceStable" {
		if r := x.sortSlice(st, all, pos); r != nil {
			return r
		}
	}
	switch key {
	case "fmt.Errorf", "errors.New":
		x.usedExt[key+" returns a non-nil error"] = true
		id := Var(freshName("err"), SInt)
		st.assume(Not(Eq(id, I(0))))
		if x.emits {
			st.assumeQuiet(Not(App("isRoll", SBool, id)))
		}
		return []sv{{st, VIface{Nil: tFalse, ID: id}}}
	case "fmt.Sprintf", "fmt.Sprint":
		x.usedExt[key+" (arbitrary string)"] = true
		return []sv{{st, st.symbolic("sprintf", types.Typ[types.String], 0)}}
	case "unicode/utf8.EncodeRune":
		x.usedExt[key+" writes runeBytes(r) and returns its length"] = true
		p := all[0].(VSlice)
		rb := App("runeBytes", SSeq, intOf(all[1]))
		n := SeqLen(rb)
		st.assumeQuiet(And(Le(I(1), n), Le(n, I(4))))
		x.oblige(st, "bounds", "utf8.EncodeRune fits", Le(n, p.Len), pos)
		if p.B == nil {
			return []sv{{st, VInt{n}}}
		}
		c := st.content(p.B)
		if c.Arr != nil {
			nc := st.symContent(p.B.Name+".enc", p.B.Elem)
			st.assume(Eq(BytesOf(nc.Arr, p.Off, Add(p.Off, n)), rb))
			st.setBack(p.B, nc)
		} else {
			end := Add(p.Off, n)
			st.setBack(p.B, Content{Seq: Cat(SeqExtract(c.Seq, I(0), p.Off), rb, SeqExtract(c.Seq, end, Sub(c.SeqLen, end))), SeqLen: c.SeqLen})
		}
		return []sv{{st, VInt{n}}}
	case "errors.As":
		return x.errorsAs(st, all)
	case "sync.Pool.Get":
		return []sv{{st, VIface{Nil: tFalse, ID: Var(freshName("pool"), SInt)}}}
	case "sync.Pool.Put":
		x.usedExt["sync.Pool.Put gives up the value and the memory of its slices"] = true
		if v, ok := all[1].(VIface); ok && v.DynT != nil {
			if p, ok := v.Dyn.(VPtr); ok {
				x.poolInv(st, p, v.DynT, true, pos)
				x.giveUp(st, p)
			}
		}
		return []sv{{st, VTuple{}}}
	}
	if key == "reflect.TypeOf" || strings.HasPrefix(key, "reflect.Type.") || strings.HasPrefix(key, "reflect.Value.") {
		x.usedExt[key+" (uninterpreted function of its arguments)"] = true
		var res []Val
		for i := 0; i < sig.Results().Len(); i++ {
			v := x.pureResult(st, key, i, sig.Results().At(i).Type(), all)
			if iv, ok := v.(VIface); ok && key == "reflect.TypeOf" {
				if a, ok := all[0].(VIface); ok {
					st.assumeQuiet(Eq(iv.Nil, a.Nil))
				}
			}
			if iv, ok := v.(VIface); ok && iv.Nil != nil && typeResult[key] {
				st.assumeQuiet(Not(iv.Nil))
				x.usedExt[key+" returns a non-nil type"] = true
			}
			res = append(res, v)
		}
		return []sv{{st, tupleOf(res)}}
	}
	return x.havocCall(st, key, f.Ext.Type().(*types.Signature), all, pos)
}

// typeResult lists the reflect functions whose result is a type whenever they
// return (they panic on kinds which the codecs do not pass to them).
var typeResult = map[string]bool{"reflect.Type.Elem": true, "reflect.Type.Key": true, "reflect.PointerTo": true, "reflect.Value.Type": true}

// errorsAs models errors.As(err, &target): on success err is not nil and the
// target holds a non-nil value; otherwise the target is left alone.
func (x *Exec) errorsAs(st *State, all []Val) []sv {
	x.usedExt["errors.As sets its target to a non-nil value exactly if it returns true"] = true
	ok := Var(freshName("asOK"), SBool)
	if e, is := all[0].(VIface); is && e.Nil != nil {
		st.assume(Imp(ok, Not(e.Nil)))
	}
	t, is := all[1].(VIface)
	p, isP := t.Dyn.(VPtr)
	if !is || !isP || p.Loc == nil {
		panic(unsupported("errors.As with an unknown target"))
	}
	yes, no := x.fork(st, ok, "errors.As")
	var out []sv
	if yes != nil {
		v := yes.symbolic("asErr", p.Elem, 1)
		switch w := v.(type) {
		case VPtr:
			yes.assume(Not(w.Nil))
		case VIface:
			yes.assume(Not(w.Nil))
		}
		x.storeLoc(yes, p.Loc, v, p.Elem)
		out = append(out, sv{yes, VBool{tTrue}})
	}
	if no != nil {
		out = append(out, sv{no, VBool{tFalse}})
	}
	return out
}

// ---- builtins ----

func (x *Exec) builtin(name string, e *ast.CallExpr, st *State, fr *frame) []sv {
	switch name {
	case "make", "new":
		t := fr.typeOf(e.Args[0])
		if name == "new" {
			c := newCell(freshName("new"), t)
			st.cells[c] = x.zero(st, t)
			return []sv{{st, VPtr{Nil: tFalse, Loc: &Loc{C: c}, Elem: t, ID: locID(&Loc{C: c})}}}
		}
		var out []sv
		for _, m := range x.evalList(e.Args[1:], st, fr) {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				n := intOf(m.vs[0])
				cp := n
				if len(m.vs) > 1 {
					cp = intOf(m.vs[1])
				}
				x.oblige(m.st, "bounds", "make", And(Le(I(0), n), Le(n, cp)), e.Pos())
				b := newBack(freshName("make"), u.Elem())
				m.st.backs[b] = x.zeroContent(m.st, u.Elem())
				out = append(out, sv{m.st, VSlice{B: b, Off: I(0), Len: n, Cap: cp, Nil: tFalse, Elem: u.Elem()}})
			default:
				id := Var(freshName("make"), SInt)
				m.st.assume(Not(Eq(id, I(0))))
				if _, ok := u.(*types.Map); ok {
					m.st.assume(Eq(App("mapLen", SInt, id), I(0)))
				}
				out = append(out, sv{m.st, VOpaque{id, t}})
			}
		}
		return out
	case "unsafe.Sizeof":
		return []sv{{st, x.convConst(fr.pkg.Info.Types[e].Value, fr.typeOf(e))}}
	}
	var out []sv
	for _, m := range x.evalList(e.Args, st, fr) {
		if m.st.dead {
			continue
		}
		st := m.st
		switch name {
		case "len", "cap":
			switch a := m.vs[0].(type) {
			case VSlice:
				if name == "cap" {
					out = append(out, sv{st, VInt{a.Cap}})
				} else {
					out = append(out, sv{st, VInt{a.Len}})
				}
			case VArray:
				out = append(out, sv{st, VInt{I(a.N)}})
			case VOpaque:
				n := App("mapLen", SInt, a.ID)
				st.assumeQuiet(And(Le(I(0), n), Le(n, I(maxLen))))
				if _, ok := fr.typeOf(e.Args[0]).Underlying().(*types.Map); ok {
					st.assumeQuiet(Imp(Eq(a.ID, I(0)), Eq(n, I(0))))
				}
				out = append(out, sv{st, VInt{n}})
			default:
				panic(unsupported("len of %T", a))
			}
		case "append":
			out = append(out, x.appendTo(st, m.vs, e, fr))
		case "copy":
			d, s := m.vs[0].(VSlice), m.vs[1].(VSlice)
			n := Ite(Le(d.Len, s.Len), d.Len, s.Len)
			if n.op == "ite" && x.atLeast(st, d.Len, s.Len) {
				n = s.Len
			}
			if d.B != nil && s.B != nil && d.B.Bytes {
				if c, cs := st.content(d.B), st.content(s.B); c.Arr != nil && c.Arr.op == "constarr" && d.Off.isInt() && d.Off.iv.Sign() == 0 && cs.Seq != nil && x.atLeast(st, d.Len, s.Len) {
					// a new store, as long as what is copied
					st.setBack(d.B, Content{Seq: Cat(st.seqOf(s), seqVar("zeros", Sub(d.Len, s.Len))), SeqLen: d.Len})
					out = append(out, sv{st, VInt{s.Len}})
					continue
				}
			}
			if d.B != nil && s.B != nil {
				x.copyBytes(st, d, s, n)
			}
			out = append(out, sv{st, VInt{n}})
		case "panic":
			x.oblige(st, "panic", "", tFalse, e.Pos())
			st.dead = true
		case "delete":
			x.note("map", "delete on maps not tracked")
			out = append(out, sv{st, VTuple{}})
		case "min", "max":
			a := intOf(m.vs[0])
			for _, v := range m.vs[1:] {
				b := intOf(v)
				if name == "min" {
					a = Ite(Le(a, b), a, b)
				} else {
					a = Ite(Le(a, b), b, a)
				}
			}
			out = append(out, sv{st, VInt{a}})
		case "unsafe.StringData", "unsafe.SliceData":
			s := m.vs[0].(VSlice)
			out = append(out, sv{st, VUnsafe{Nil: tFalse, Data: &s, Addr: I(0)}})
		case "unsafe.Slice", "unsafe.String":
			u, ok := m.vs[0].(VUnsafe)
			if !ok || u.Data == nil {
				panic(unsupported("unsafe.Slice of %T", m.vs[0]))
			}
			n := intOf(m.vs[1])
			x.oblige(st, "bounds", "unsafe.Slice", And(Le(I(0), u.Addr), Le(I(0), n), Le(Add(u.Addr, n), u.Data.Len)), e.Pos())
			s := *u.Data
			s.Off = Add(s.Off, u.Addr)
			s.Len, s.Cap = n, n
			s.Str = name == "unsafe.String"
			s.Nil = tFalse
			out = append(out, sv{st, s})
		default:
			panic(unsupported("builtin %s", name))
		}
	}
	return out
}

func (x *Exec) appendTo(st *State, vs []Val, e *ast.CallExpr, fr *frame) sv {
	b, ok := vs[0].(VSlice)
	if !ok {
		if z, isz := vs[0].(VIface); isz && z.Nil.isTrue() {
			b = x.zero(st, fr.typeOf(e)).(VSlice)
		} else {
			panic(unsupported("append to %T", vs[0]))
		}
	}
	elem := b.Elem
	if elem == nil || isByte(elem) && (b.B == nil || b.B.Bytes) {
		var add, n *Term
		if e.Ellipsis.IsValid() {
			s := vs[1].(VSlice)
			add, n = st.seqOf(s), s.Len
		} else {
			var ts []*Term
			for _, v := range vs[1:] {
				ts = append(ts, Unit(intOf(v)))
			}
			add, n = Cat(ts...), I(int64(len(vs)-1))
		}
		if n.isInt() && n.iv.Sign() == 0 {
			return sv{st, b}
		}
		r := st.newSeqSlice("app", Cat(st.seqOf(b), add), Add(b.Len, n), false, fr.typeOf(e))
		r.Nil = And(b.Nil, Eq(n, I(0)))
		if b.B != nil {
			// may extend the first operand in place
			r.B.InputT = And(b.B.InputT, Not(Eq(b.Cap, I(0))))
		}
		return sv{st, r}
	}
	// other element types: a new store, equal to the old one plus the new elements
	nb := newBack(freshName("app"), elem)
	if b.B == nil {
		st.backs[nb] = x.zeroContent(st, elem)
	} else {
		st.backs[nb] = st.content(b.B)
	}
	if e.Ellipsis.IsValid() {
		s := vs[1].(VSlice)
		if s.B == nil {
			return sv{st, b}
		}
		st.backs[nb] = st.symContent("appended", elem)
		x.note("append", "elements of append(s, t...) for non-byte slices left arbitrary")
		return sv{st, VSlice{B: nb, Off: b.Off, Len: Add(b.Len, s.Len), Cap: Var(freshName("cap"), SInt), Nil: tFalse, Elem: elem}}
	}
	et := elem
	n := b.Len
	for i, v := range vs[1:] {
		st.storeElem(nb, Add(b.Off, n), x.assignConv(st, v, fr.typeOf(e.Args[i+1]), et))
		n = Add(n, I(1))
	}
	cp := Var(freshName("cap"), SInt)
	st.assume(And(Le(n, cp), Le(cp, I(2*maxLen))))
	return sv{st, VSlice{B: nb, Off: b.Off, Len: n, Cap: cp, Nil: tFalse, Elem: elem}}
}

func (x *Exec) copyBytes(st *State, d, s VSlice, n *Term) {
	if !d.B.Bytes {
		st.setBack(d.B, st.symContent("copied", d.B.Elem))
		return
	}
	src := SeqExtract(st.seqOf(s), I(0), n)
	if n == s.Len {
		src = st.seqOf(s)
	} else if c := st.content(s.B); c.Arr != nil {
		src = BytesOf(c.Arr, s.Off, Add(s.Off, n))
	}
	c := st.content(d.B)
	if c.Seq != nil {
		end := Add(d.Off, n)
		nw := Cat(SeqExtract(c.Seq, I(0), d.Off), src, SeqExtract(c.Seq, end, Sub(c.SeqLen, end)))
		st.setBack(d.B, Content{Seq: nw, SeqLen: c.SeqLen})
		return
	}
	a := Var(freshName("copied"), SArr)
	byteRoots[a] = true
	st.assume(Eq(BytesOf(a, d.Off, Add(d.Off, n)), src))
	k := BVar(freshName("?k"), SInt)
	outside := Or(Lt(k, d.Off), Ge(k, Add(d.Off, n)))
	st.assume(Forall(k, Imp(outside, Eq(mk("select", "", SInt, nil, a, k), mk("select", "", SInt, nil, c.Arr, k))), mk("select", "", SInt, nil, a, k)))
	st.setBack(d.B, Content{Arr: a})
}

func lexLess(a, b []*Term) *Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := tFalse
	for i := n - 1; i >= 0; i-- {
		r = Or(And(Lt(a[i], b[i]), Le(I(0), b[i])), And(Eq(a[i], b[i]), r))
	}
	return r
}
