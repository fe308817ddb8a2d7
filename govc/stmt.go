package main

// Statements and loops.

import (
	"go/ast"
	"go/token"
	"go/types"
)

func (x *Exec) execBlock(list []ast.Stmt, st *State, fr *frame) []outcome {
	cur := []*State{st}
	var out []outcome
	for _, s := range list {
		var next []*State
		for _, c := range cur {
			if c.dead {
				continue
			}
			for _, o := range x.execStmt(s, c, fr, "") {
				if o.st.dead {
					continue
				}
				if o.kind == oNormal {
					next = append(next, o.st)
				} else {
					out = append(out, o)
				}
			}
		}
		cur = next
		if len(cur)+len(out) > maxStates {
			panic(unsupported("too many paths"))
		}
		if len(cur) == 0 {
			break
		}
	}
	for _, c := range cur {
		out = append(out, outcome{kind: oNormal, st: c})
	}
	return out
}

func normal(st *State) []outcome { return []outcome{{kind: oNormal, st: st}} }

func fromSV(rs []sv) []outcome {
	var out []outcome
	for _, r := range rs {
		if !r.st.dead {
			out = append(out, outcome{kind: oNormal, st: r.st})
		}
	}
	return out
}

// fork splits a state on a condition.
func (x *Exec) fork(st *State, c *Term, desc string) (yes, no *State) {
	if k, ok := st.known(c); ok {
		if k {
			return st, nil
		}
		return nil, st
	}
	yes, no = st.clone(), st
	yes.assume(c)
	no.assume(Not(c))
	if yes.dead {
		yes = nil
	}
	if no.dead {
		no = nil
	}
	if yes != nil {
		yes.path = append(yes.path, desc+" true")
	}
	if no != nil {
		no.path = append(no.path, desc+" false")
	}
	return
}

func (x *Exec) execStmt(s ast.Stmt, st *State, fr *frame, label string) []outcome {
	x.step()
	switch s := s.(type) {
	case *ast.BlockStmt:
		return x.execBlock(s.List, st, fr)
	case *ast.ExprStmt:
		return fromSV(x.eval(s.X, st, fr))
	case *ast.EmptyStmt:
		return normal(st)
	case *ast.DeclStmt:
		return x.execDecl(s, st, fr)
	case *ast.AssignStmt:
		return x.execAssign(s, st, fr)
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		return x.opAssign(s.X, op, func(st *State) []sv { return []sv{{st, VInt{I(1)}}} }, types.Typ[types.Int], st, fr, s.Pos())
	case *ast.ReturnStmt:
		return x.execReturn(s, st, fr)
	case *ast.IfStmt:
		return x.execIf(s, st, fr)
	case *ast.ForStmt:
		return x.execFor(s, st, fr, label)
	case *ast.RangeStmt:
		return x.execRange(s, st, fr, label)
	case *ast.SwitchStmt:
		return x.execSwitch(s, st, fr, label)
	case *ast.TypeSwitchStmt:
		return x.execTypeSwitch(s, st, fr, label)
	case *ast.LabeledStmt:
		return x.execStmt(s.Stmt, st, fr, s.Label.Name)
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			return []outcome{{kind: oBreak, label: l, st: st}}
		case token.CONTINUE:
			return []outcome{{kind: oContinue, label: l, st: st}}
		case token.FALLTHROUGH:
			return []outcome{{kind: oFall, st: st}}
		}
		panic(unsupported("branch %s", s.Tok))
	case *ast.DeferStmt:
		return x.execDefer(s, st, fr)
	}
	panic(unsupported("statement %T", s))
}

// execDefer evaluates the function and the arguments of a deferred call.
func (x *Exec) execDefer(s *ast.DeferStmt, st *State, fr *frame) []outcome {
	var body *ast.BlockStmt
	loop := false
	ast.Inspect(fr.fi.Decl, func(n ast.Node) bool {
		if n == nil || s.Pos() < n.Pos() || s.End() > n.End() {
			return false
		}
		switch n := n.(type) {
		case *ast.FuncDecl:
			body, loop = n.Body, false
		case *ast.FuncLit:
			body, loop = n.Body, false
		case *ast.ForStmt, *ast.RangeStmt, *ast.LabeledStmt:
			loop = true
		}
		return true
	})
	if body == nil || loop {
		panic(unsupported("defer in a loop"))
	}
	x.deferred = s.Call
	defer func() { x.deferred = nil }()
	var out []outcome
	for _, r := range x.evalCall(s.Call, st, fr) {
		if !r.st.dead {
			out = append(out, outcome{kind: oNormal, st: r.st})
		}
	}
	if x.deferred != nil {
		panic(unsupported("deferred call of a builtin"))
	}
	return out
}

// runDefers runs what fr deferred, last first, before each of its returns.
func (x *Exec) runDefers(outs []outcome, fr *frame) []outcome {
	var res []outcome
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		n := len(o.st.defers)
		k := n
		for k > 0 && o.st.defers[k-1].fr == fr {
			k--
		}
		if k == n || o.kind != oReturn && o.kind != oNormal {
			res = append(res, o)
			continue
		}
		todo := o.st.defers[k:n]
		st := o.st.clone()
		st.defers = st.defers[:k:k]
		cur := []*State{st}
		for i := len(todo) - 1; i >= 0; i-- {
			var next []*State
			for _, s := range cur {
				for _, r := range todo[i].run(s) {
					if !r.st.dead {
						next = append(next, r.st)
					}
				}
			}
			cur = next
		}
		for _, s := range cur {
			var vs []Val
			for _, c := range fr.results {
				vs = append(vs, s.cell(c))
			}
			res = append(res, outcome{kind: oReturn, st: s, vals: vs})
		}
	}
	return res
}

func (x *Exec) newVar(id *ast.Ident, v Val, st *State, fr *frame) {
	if id.Name == "_" {
		return
	}
	o := fr.pkg.Info.Defs[id]
	if o == nil {
		panic(unsupported("definition of %s", id.Name))
	}
	c, ok := fr.vars[o]
	if !ok {
		c = newCell(id.Name, o.Type())
		fr.vars[o] = c
	}
	if arr, ok := v.(VArray); ok { // arrays are values: copy
		nb := newBack(freshName(id.Name), arr.Elem)
		st.backs[nb] = st.content(arr.B)
		v = VArray{nb, arr.N, arr.Elem}
	}
	st.setCell(c, v)
}

func (x *Exec) execDecl(s *ast.DeclStmt, st *State, fr *frame) []outcome {
	gd, ok := s.Decl.(*ast.GenDecl)
	if !ok || gd.Tok != token.VAR {
		return normal(st)
	}
	cur := []*State{st}
	for _, sp := range gd.Specs {
		vs := sp.(*ast.ValueSpec)
		var next []*State
		for _, c := range cur {
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					x.newVar(n, x.zero(c, fr.pkg.Info.Defs[n].Type()), c, fr)
				}
				next = append(next, c)
				continue
			}
			if len(vs.Values) == len(vs.Names) {
				for _, m := range x.evalList(vs.Values, c, fr) {
					for i, n := range vs.Names {
						if n.Name == "_" {
							continue
						}
						x.newVar(n, x.assignConv(m.st, m.vs[i], fr.typeOf(vs.Values[i]), fr.pkg.Info.Defs[n].Type()), m.st, fr)
					}
					next = append(next, m.st)
				}
				continue
			}
			for _, r := range x.evalMulti(vs.Values[0], c, fr) {
				tt := fr.typeOf(vs.Values[0]).(*types.Tuple)
				for i, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					x.newVar(n, x.assignConv(r.st, r.v.(VTuple)[i], tt.At(i).Type(), fr.pkg.Info.Defs[n].Type()), r.st, fr)
				}
				next = append(next, r.st)
			}
		}
		cur = next
	}
	var out []outcome
	for _, c := range cur {
		out = append(out, outcome{kind: oNormal, st: c})
	}
	return out
}

// evalMulti evaluates a multi-valued right-hand side.
func (x *Exec) evalMulti(e ast.Expr, st *State, fr *frame) []sv {
	switch u := ast.Unparen(e).(type) {
	case *ast.TypeAssertExpr:
		return x.evalTypeAssert(u, st, fr, true)
	case *ast.IndexExpr:
		var out []sv
		for _, m := range x.evalList([]ast.Expr{u.X, u.Index}, st, fr) {
			mo, ok := m.vs[0].(VOpaque)
			if !ok {
				panic(unsupported("comma-ok index of %T", m.vs[0]))
			}
			mt := fr.typeOf(u.X).Underlying().(*types.Map)
			tt := types.NewTuple(types.NewVar(token.NoPos, nil, "", mt.Elem()), types.NewVar(token.NoPos, nil, "", types.Typ[types.Bool]))
			out = append(out, sv{m.st, x.mapLookup(m.st, mo, m.vs[1], tt)})
		}
		return out
	}
	return x.eval(e, st, fr)
}

func (x *Exec) rhsTypes(e ast.Expr, n int, fr *frame) []types.Type {
	t := fr.typeOf(e)
	if tt, ok := t.(*types.Tuple); ok {
		var out []types.Type
		for i := 0; i < tt.Len(); i++ {
			out = append(out, tt.At(i).Type())
		}
		return out
	}
	return []types.Type{t, types.Typ[types.Bool]}
}

func (x *Exec) lhsType(l ast.Expr, fr *frame) types.Type {
	if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
		return nil
	}
	return fr.typeOf(l)
}

// assignTo stores v into l.
func (x *Exec) assignTo(l ast.Expr, v Val, from types.Type, st *State, fr *frame) []*State {
	if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
		return []*State{st}
	}
	lt := fr.typeOf(l)
	v = x.assignConv(st, v, from, lt)
	if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok {
		if _, isMap := fr.typeOf(ix.X).Underlying().(*types.Map); isMap {
			var out []*State
			for _, m := range x.evalList([]ast.Expr{ix.X, ix.Index}, st, fr) {
				x.note("map", "stores into maps are not tracked")
				if c, ok := externs["mapassign"]; ok && c != nil {
					x.mapAssign(m.st, m.vs[0], m.vs[1], v)
				}
				out = append(out, m.st)
			}
			return out
		}
	}
	if arr, ok := v.(VArray); ok {
		nb := newBack(freshName("arrcopy"), arr.Elem)
		st.backs[nb] = st.content(arr.B)
		v = VArray{nb, arr.N, arr.Elem}
	}
	var out []*State
	for _, r := range x.evalLoc(l, st, fr) {
		if r.st.dead {
			continue
		}
		x.storeLoc(r.st, r.loc, v, lt)
		out = append(out, r.st)
	}
	return out
}

func (x *Exec) mapAssign(st *State, m, k, v Val) {}

func (x *Exec) execAssign(s *ast.AssignStmt, st *State, fr *frame) []outcome {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
			token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
		return x.opAssign(s.Lhs[0], op, func(st *State) []sv { return x.eval(s.Rhs[0], st, fr) }, fr.typeOf(s.Rhs[0]), st, fr, s.Pos())
	}
	type asg struct {
		st *State
		vs []Val
	}
	var as []asg
	var ts []types.Type
	if len(s.Lhs) == len(s.Rhs) {
		for _, m := range x.evalList(s.Rhs, st, fr) {
			as = append(as, asg{m.st, m.vs})
		}
		for _, r := range s.Rhs {
			ts = append(ts, fr.typeOf(r))
		}
	} else {
		for _, r := range x.evalMulti(s.Rhs[0], st, fr) {
			if r.st.dead {
				continue
			}
			as = append(as, asg{r.st, []Val(r.v.(VTuple))})
		}
		ts = x.rhsTypes(s.Rhs[0], len(s.Lhs), fr)
	}
	var out []outcome
	for _, a := range as {
		if a.st.dead {
			continue
		}
		cur := []*State{a.st}
		for i, l := range s.Lhs {
			var next []*State
			for _, c := range cur {
				if s.Tok == token.DEFINE {
					if id := l.(*ast.Ident); id.Name == "_" || fr.pkg.Info.Defs[id] != nil {
						if id.Name != "_" {
							x.newVar(id, x.assignConv(c, a.vs[i], ts[i], fr.pkg.Info.Defs[id].Type()), c, fr)
						}
						next = append(next, c)
						continue
					}
				}
				next = append(next, x.assignTo(l, a.vs[i], ts[i], c, fr)...)
			}
			cur = next
		}
		for _, c := range cur {
			out = append(out, outcome{kind: oNormal, st: c})
		}
	}
	return out
}

func (x *Exec) opAssign(l ast.Expr, op token.Token, rhs func(*State) []sv, rt types.Type, st *State, fr *frame, pos token.Pos) []outcome {
	lt := fr.typeOf(l)
	var out []outcome
	for _, a := range x.eval(l, st, fr) {
		for _, b := range rhs(a.st) {
			if b.st.dead {
				continue
			}
			v := x.binop(b.st, op, a.v, b.v, lt, rt, lt, pos)
			for _, n := range x.assignTo(l, v, lt, b.st, fr) {
				out = append(out, outcome{kind: oNormal, st: n})
			}
		}
	}
	return out
}

func (x *Exec) execReturn(s *ast.ReturnStmt, st *State, fr *frame) []outcome {
	res := fr.sig.Results()
	var out []outcome
	finish := func(st *State, vs []Val, ts []types.Type) {
		if st.dead {
			return
		}
		var rs []Val
		for i, v := range vs {
			c := x.assignConv(st, v, ts[i], res.At(i).Type())
			st.setCell(fr.results[i], c)
			rs = append(rs, c)
		}
		out = append(out, outcome{kind: oReturn, st: st, vals: rs})
	}
	if len(s.Results) == 0 {
		var vs []Val
		for _, c := range fr.results {
			vs = append(vs, st.cell(c))
		}
		return []outcome{{kind: oReturn, st: st, vals: vs}}
	}
	if len(s.Results) == res.Len() {
		var ts []types.Type
		for _, r := range s.Results {
			ts = append(ts, fr.typeOf(r))
		}
		for _, m := range x.evalList(s.Results, st, fr) {
			finish(m.st, m.vs, ts)
		}
		return out
	}
	ts := x.rhsTypes(s.Results[0], res.Len(), fr)
	for _, r := range x.eval(s.Results[0], st, fr) {
		if r.st.dead {
			continue
		}
		finish(r.st, []Val(r.v.(VTuple)), ts)
	}
	return out
}

func (x *Exec) execIf(s *ast.IfStmt, st *State, fr *frame) []outcome {
	cur := []*State{st}
	var out []outcome
	if s.Init != nil {
		cur = nil
		for _, o := range x.execStmt(s.Init, st, fr, "") {
			if o.kind == oNormal {
				cur = append(cur, o.st)
			} else {
				out = append(out, o)
			}
		}
	}
	for _, c := range cur {
		for _, r := range x.eval(s.Cond, c, fr) {
			if r.st.dead {
				continue
			}
			y, n := x.fork(r.st, boolOf(r.v), "if@"+posStr(s.Pos()))
			if y != nil {
				out = append(out, x.execBlock(s.Body.List, y, fr)...)
			}
			if n != nil {
				if s.Else != nil {
					out = append(out, x.execStmt(s.Else, n, fr, "")...)
				} else {
					out = append(out, outcome{kind: oNormal, st: n})
				}
			}
		}
	}
	return out
}

func breakHere(o outcome, label string) bool {
	return o.kind == oBreak && (o.label == "" || o.label == label)
}

func (x *Exec) execSwitch(s *ast.SwitchStmt, st *State, fr *frame, label string) []outcome {
	var out []outcome
	cur := []*State{st}
	if s.Init != nil {
		cur = nil
		for _, o := range x.execStmt(s.Init, st, fr, "") {
			if o.kind == oNormal {
				cur = append(cur, o.st)
			} else {
				out = append(out, o)
			}
		}
	}
	var raw []outcome
	for _, c := range cur {
		tags := []sv{{c, VBool{tTrue}}}
		var tt types.Type = types.Typ[types.Bool]
		if s.Tag != nil {
			tags = x.eval(s.Tag, c, fr)
			tt = fr.typeOf(s.Tag)
		}
		for _, tg := range tags {
			if tg.st.dead {
				continue
			}
			raw = append(raw, x.switchCases(s, tg, tt, fr)...)
		}
	}
	for _, o := range raw {
		if breakHere(o, label) {
			o = outcome{kind: oNormal, st: o.st}
		}
		out = append(out, o)
	}
	return out
}

func (x *Exec) switchCases(s *ast.SwitchStmt, tg sv, tt types.Type, fr *frame) []outcome {
	var out []outcome
	type pend struct {
		st *State
	}
	rest := []*State{tg.st} // states for which no case has matched yet
	entries := map[int][]*State{}
	def := -1
	for i, cc := range s.Body.List {
		cl := cc.(*ast.CaseClause)
		if cl.List == nil {
			def = i
			continue
		}
		for _, e := range cl.List {
			var next []*State
			for _, r := range rest {
				for _, v := range x.eval(e, r, fr) {
					if v.st.dead {
						continue
					}
					var c *Term
					if s.Tag == nil {
						c = boolOf(v.v)
					} else {
						et := fr.typeOf(e)
						cv := x.assignConv(v.st, v.v, et, tt)
						c = x.goEq(v.st, tg.v, cv, tt, tt)
					}
					y, n := x.fork(v.st, c, "case@"+posStr(e.Pos()))
					if y != nil {
						entries[i] = append(entries[i], y)
					}
					if n != nil {
						next = append(next, n)
					}
				}
			}
			rest = next
		}
	}
	if def >= 0 {
		entries[def] = append(entries[def], rest...)
	} else {
		for _, r := range rest {
			out = append(out, outcome{kind: oNormal, st: r})
		}
	}
	var fall []*State
	for i, cc := range s.Body.List {
		cl := cc.(*ast.CaseClause)
		ents := entries[i]
		ents = append(ents, fall...)
		fall = nil
		// merge the several values of one clause into one state where nothing was written
		ents = x.mergeSame(ents)
		for _, en := range ents {
			for _, o := range x.execBlock(cl.Body, en, fr) {
				if o.kind == oFall {
					fall = append(fall, o.st)
					continue
				}
				out = append(out, o)
			}
		}
	}
	return out
}

// mergeSame joins states that differ only in their path condition.
func (x *Exec) mergeSame(ss []*State) []*State {
	if len(ss) < 2 {
		return ss
	}
	base := ss[0]
	same := func(a, b *State) bool {
		if len(a.mem) != len(b.mem) || a.memEpoch != b.memEpoch || len(a.cells) != len(b.cells) || len(a.backs) != len(b.backs) {
			return false
		}
		for k, v := range a.cells {
			w, ok := b.cells[k]
			if !ok || !sameVal(v, w) {
				return false
			}
		}
		if len(a.defers) != len(b.defers) || len(a.ghost) != len(b.ghost) {
			return false
		}
		for i, d := range a.defers {
			if d.fr != b.defers[i].fr || &a.defers[i] != &b.defers[i] {
				return false
			}
		}
		for g, t := range a.ghost {
			if b.ghost[g] != t {
				return false
			}
		}
		for k, v := range a.backs {
			w, ok := b.backs[k]
			if !ok || v.Arr != w.Arr || v.Seq != w.Seq || len(v.Leaves) != len(w.Leaves) {
				return false
			}
		}
		return true
	}
	n := len(base.pc)
	for _, s := range ss[1:] {
		if !same(base, s) {
			return ss
		}
		if len(s.pc) < n {
			n = len(s.pc)
		}
	}
	k := 0
	for k < n {
		for _, s := range ss[1:] {
			if s.pc[k] != base.pc[k] {
				goto done
			}
		}
		k++
	}
done:
	var alts []*Term
	for _, s := range ss {
		alts = append(alts, And(s.pc[k:]...))
	}
	m := base.clone()
	m.pc = append([]*Term{}, base.pc[:k]...)
	m.assume(Or(alts...))
	return []*State{m}
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case VInt:
		y, ok := b.(VInt)
		return ok && x.T == y.T
	case VBool:
		y, ok := b.(VBool)
		return ok && x.T == y.T
	case VSlice:
		y, ok := b.(VSlice)
		return ok && x.B == y.B && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap && x.Nil == y.Nil && x.Str == y.Str
	case VOpaque:
		y, ok := b.(VOpaque)
		return ok && x.ID == y.ID
	case VIface:
		y, ok := b.(VIface)
		return ok && x.ID == y.ID && x.Nil == y.Nil
	case VPtr:
		y, ok := b.(VPtr)
		return ok && x.Nil == y.Nil && sameLoc(x.Loc, y.Loc)
	case VUnsafe:
		y, ok := b.(VUnsafe)
		return ok && x.Addr == y.Addr && sameLoc(x.Loc, y.Loc) && x.Nil == y.Nil && (x.Data == nil && y.Data == nil || x.Data != nil && y.Data != nil && sameVal(*x.Data, *y.Data))
	case VFunc:
		y, ok := b.(VFunc)
		return ok && x.ID == y.ID && x.Fn == y.Fn && x.Ext == y.Ext && x.Lit == y.Lit
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case VArray:
		y, ok := b.(VArray)
		return ok && x.B == y.B
	case VWord:
		y, ok := b.(VWord)
		if !ok || len(x.L) != len(y.L) {
			return false
		}
		for i := range x.L {
			if x.L[i] != y.L[i] {
				return false
			}
		}
		return true
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func sameLoc(a, b *Loc) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.C != b.C || a.B != b.B || a.Idx != b.Idx || a.Mem != b.Mem || len(a.Path) != len(b.Path) {
		return false
	}
	for i := range a.Path {
		if a.Path[i] != b.Path[i] {
			return false
		}
	}
	return true
}

func (x *Exec) execTypeSwitch(s *ast.TypeSwitchStmt, st *State, fr *frame, label string) []outcome {
	var out []outcome
	cur := []*State{st}
	if s.Init != nil {
		cur = nil
		for _, o := range x.execStmt(s.Init, st, fr, "") {
			if o.kind == oNormal {
				cur = append(cur, o.st)
			} else {
				out = append(out, o)
			}
		}
	}
	var ae *ast.TypeAssertExpr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		ae = a.X.(*ast.TypeAssertExpr)
	case *ast.AssignStmt:
		ae = a.Rhs[0].(*ast.TypeAssertExpr)
	}
	for _, c := range cur {
		for _, r := range x.eval(ae.X, c, fr) {
			iv := r.v.(VIface)
			rest := r.st
			for _, pass := range []bool{false, true} {
				for _, cc := range s.Body.List {
					cl := cc.(*ast.CaseClause)
					if (cl.List == nil) != pass {
						continue
					}
					if rest == nil {
						break
					}
					var ents []*State
					var vals []Val
					if pass {
						ents, vals = []*State{rest}, []Val{iv}
						rest = nil
					}
					for _, e := range cl.List {
						if rest == nil {
							break
						}
						var cond *Term
						var dyn Val = iv
						if id, ok := e.(*ast.Ident); ok && id.Name == "nil" {
							cond = iv.Nil
						} else {
							tt := fr.typeOf(e)
							if iv.Dyn != nil && iv.DynT != nil {
								cond = B(types.Identical(iv.DynT, tt))
								dyn = iv.Dyn
							} else {
								cond = And(Not(iv.Nil), hasType(tt, rest.ifaceID(iv)))
								if _, isI := tt.Underlying().(*types.Interface); !isI {
									dyn = rest.symbolic("dyn", tt, 1)
								}
							}
						}
						y, n := x.fork(rest, cond, "type case@"+posStr(e.Pos()))
						if y != nil {
							ents = append(ents, y)
							if len(cl.List) > 1 {
								dyn = iv
							}
							vals = append(vals, dyn)
						}
						rest = n
					}
					for i, en := range ents {
						if o := fr.pkg.Info.Implicits[cl]; o != nil {
							cell, ok := fr.vars[o]
							if !ok {
								cell = newCell(o.Name(), o.Type())
								fr.vars[o] = cell
							}
							en.setCell(cell, vals[i])
						}
						for _, o := range x.execBlock(cl.Body, en, fr) {
							if breakHere(o, label) {
								o = outcome{kind: oNormal, st: o.st}
							}
							out = append(out, o)
						}
					}
				}
			}
			if rest != nil {
				out = append(out, outcome{kind: oNormal, st: rest})
			}
		}
	}
	return out
}

// ---- loops ----

// loopOrdinal numbers the loops of the enclosing declaration in source order.
func (fr *frame) loopOrdinal(s ast.Stmt) int {
	if fr.fi == nil {
		return 0
	}
	m, ok := loopNums[fr.fi]
	if !ok {
		m = map[ast.Stmt]int{}
		n := 0
		ast.Inspect(fr.fi.Decl, func(nd ast.Node) bool {
			switch l := nd.(type) {
			case *ast.ForStmt:
				n++
				m[l] = n
			case *ast.RangeStmt:
				n++
				m[l] = n
			}
			return true
		})
		loopNums[fr.fi] = m
	}
	return m[s]
}

var loopNums = map[*FuncInfo]map[ast.Stmt]int{}

func (fr *frame) loopSpec(s ast.Stmt) *LoopSpec {
	if fr.con == nil {
		return nil
	}
	return fr.con.Loops[fr.loopOrdinal(s)]
}

// loopDef abstracts for and range loops.
type loopDef struct {
	stmt ast.Stmt
	body *ast.BlockStmt
	pos  token.Pos
	// head evaluates the loop condition: states that continue (body entry
	// prepared) and states that leave.
	head func(st *State) (in []*State, exit []*State, other []outcome)
	post func(st *State) []outcome
	auto func(st *State) *Term // always-true facts at the head, given the shape of the loop
	it   *Cell
}

// snapshot of what back edges look like, for shape-preserving havoc.
type shape struct {
	cells map[*Cell][]Val
}

func (x *Exec) execFor(s *ast.ForStmt, st *State, fr *frame, label string) []outcome {
	cur := []*State{st}
	var out []outcome
	if s.Init != nil {
		cur = nil
		for _, o := range x.execStmt(s.Init, st, fr, "") {
			if o.kind == oNormal {
				cur = append(cur, o.st)
			} else {
				out = append(out, o)
			}
		}
	}
	ld := &loopDef{stmt: s, body: s.Body, pos: s.Body.Lbrace}
	ld.head = func(st *State) (in, exit []*State, other []outcome) {
		if s.Cond == nil {
			return []*State{st}, nil, nil
		}
		for _, r := range x.eval(s.Cond, st, fr) {
			if r.st.dead {
				continue
			}
			y, n := x.fork(r.st, boolOf(r.v), "loop@"+posStr(s.Pos()))
			if y != nil {
				in = append(in, y)
			}
			if n != nil {
				exit = append(exit, n)
			}
		}
		return
	}
	ld.post = func(st *State) []outcome {
		if s.Post == nil {
			return normal(st)
		}
		return x.execStmt(s.Post, st, fr, "")
	}
	if fr.loopSpec(s).mentions("step") {
		it := newCell("step", types.Typ[types.Int])
		ld.it = it
		n := func(st *State) *Term { return intOf(st.cell(it)) }
		ld.auto = func(st *State) *Term { return Le(I(0), n(st)) }
		post := ld.post
		ld.post = func(st *State) []outcome {
			st.setCell(it, VInt{Add(n(st), I(1))})
			return post(st)
		}
		fr.steps = append(fr.steps, it)
		defer func() { fr.steps = fr.steps[:len(fr.steps)-1] }()
		for _, c := range cur {
			c.setCell(it, VInt{I(0)})
		}
	}
	for _, c := range cur {
		out = append(out, x.loop(ld, c, fr, label)...)
	}
	return out
}

func (x *Exec) execRange(s *ast.RangeStmt, st *State, fr *frame, label string) []outcome {
	xt := fr.typeOf(s.X)
	if sig, ok := xt.Underlying().(*types.Signature); ok {
		panic(unsupported("range over %s", sig))
	}
	var out []outcome
	for _, r := range x.eval(s.X, st, fr) {
		if r.st.dead {
			continue
		}
		out = append(out, x.rangeOver(s, r.st, r.v, xt, fr, label)...)
	}
	return out
}

func (x *Exec) setRangeVar(e ast.Expr, v Val, t types.Type, tok token.Token, st *State, fr *frame) {
	if e == nil {
		return
	}
	if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
		return
	}
	if tok == token.DEFINE {
		x.newVar(e.(*ast.Ident), v, st, fr)
		return
	}
	x.assignTo(e, v, t, st, fr)
}

func (x *Exec) rangeOver(s *ast.RangeStmt, st *State, v Val, xt types.Type, fr *frame, label string) []outcome {
	it := newCell("it", types.Typ[types.Int])
	st.setCell(it, VInt{I(0)})
	fr.its = append(fr.its, it)
	defer func() { fr.its = fr.its[:len(fr.its)-1] }()
	ld := &loopDef{stmt: s, body: s.Body, pos: s.Body.Lbrace, it: it}
	itv := func(st *State) *Term { return intOf(st.cell(it)) }
	intT := types.Typ[types.Int]
	if p, ok := v.(VPtr); ok {
		v = x.deref(st, p, p.Elem, s.Pos())
	}
	switch a := v.(type) {
	case VSlice:
		if a.Str {
			ld.auto = func(st *State) *Term { return And(Le(I(0), itv(st)), Le(itv(st), a.Len)) }
			width := func(st *State) *Term {
				return App("utf8Size", SInt, st.arrOf(a), Add(a.Off, itv(st)), Add(a.Off, a.Len))
			}
			ld.head = func(st *State) (in, exit []*State, other []outcome) {
				y, n := x.fork(st, Lt(itv(st), a.Len), "range@"+posStr(s.Pos()))
				if n != nil {
					exit = append(exit, n)
				}
				if y != nil {
					r := App("utf8Rune", SInt, y.arrOf(a), Add(a.Off, itv(y)), Add(a.Off, a.Len))
					w := width(y)
					y.assume(And(Le(I(1), w), Le(w, I(4)), Le(Add(itv(y), w), a.Len), Le(I(0), r), Le(r, I(0x10FFFF))))
					x.setRangeVar(s.Key, VInt{itv(y)}, intT, s.Tok, y, fr)
					x.setRangeVar(s.Value, VInt{r}, types.Typ[types.Rune], s.Tok, y, fr)
					in = append(in, y)
				}
				return
			}
			ld.post = func(st *State) []outcome {
				st.setCell(it, VInt{Add(itv(st), width(st))})
				return normal(st)
			}
			break
		}
		ld.auto = func(st *State) *Term { return And(Le(I(0), itv(st)), Le(itv(st), a.Len)) }
		ld.head = func(st *State) (in, exit []*State, other []outcome) {
			y, n := x.fork(st, Lt(itv(st), a.Len), "range@"+posStr(s.Pos()))
			if n != nil {
				exit = append(exit, n)
			}
			if y != nil && a.B != nil {
				x.setRangeVar(s.Key, VInt{itv(y)}, intT, s.Tok, y, fr)
				if s.Value != nil {
					var el Val
					if a.B.Bytes {
						el = VInt{y.byteAt(a, itv(y))}
					} else {
						el = y.loadElem(a.B, Add(a.Off, itv(y)))
					}
					x.setRangeVar(s.Value, el, a.Elem, s.Tok, y, fr)
				}
				in = append(in, y)
			}
			return
		}
		ld.post = func(st *State) []outcome {
			st.setCell(it, VInt{Add(itv(st), I(1))})
			return normal(st)
		}
	case VArray:
		arr := VSlice{B: a.B, Off: I(0), Len: I(a.N), Cap: I(a.N), Nil: tFalse, Elem: a.Elem}
		fr.its = fr.its[:len(fr.its)-1]
		o := x.rangeOver(s, st, arr, xt, fr, label)
		fr.its = append(fr.its, it)
		return o
	case VInt:
		ld.auto = func(st *State) *Term { return And(Le(I(0), itv(st)), Or(Le(itv(st), a.T), Eq(itv(st), I(0)))) }
		ld.head = func(st *State) (in, exit []*State, other []outcome) {
			y, n := x.fork(st, Lt(itv(st), a.T), "range@"+posStr(s.Pos()))
			if n != nil {
				exit = append(exit, n)
			}
			if y != nil {
				x.setRangeVar(s.Key, VInt{itv(y)}, xt, s.Tok, y, fr)
				in = append(in, y)
			}
			return
		}
		ld.post = func(st *State) []outcome {
			st.setCell(it, VInt{Add(itv(st), I(1))})
			return normal(st)
		}
	case VOpaque: // map: any order, number of iterations = mapLen
		mt, ok := xt.Underlying().(*types.Map)
		if !ok {
			panic(unsupported("range over %s", xt))
		}
		n := App("mapLen", SInt, a.ID)
		st.assumeQuiet(And(Le(I(0), n), Le(n, I(maxLen))))
		ld.auto = func(st *State) *Term { return And(Le(I(0), itv(st)), Le(itv(st), n)) }
		ld.head = func(st *State) (in, exit []*State, other []outcome) {
			y, no := x.fork(st, Lt(itv(st), n), "range@"+posStr(s.Pos()))
			if no != nil {
				exit = append(exit, no)
			}
			if y != nil {
				k := y.symbolic("mapkey", mt.Key(), 1)
				val := x.mapLookup(y, a, k, mt.Elem())
				y.assume(App("mapHas", SBool, a.ID, x.keyTerm(y, k)))
				if ks, ok := k.(VSlice); ok {
					y.assume(Eq(y.seqOf(ks), App("mapKeyText", SSeq, a.ID, itv(y))))
				}
				x.setRangeVar(s.Key, k, mt.Key(), s.Tok, y, fr)
				x.setRangeVar(s.Value, val, mt.Elem(), s.Tok, y, fr)
				in = append(in, y)
			}
			return
		}
		ld.post = func(st *State) []outcome {
			st.setCell(it, VInt{Add(itv(st), I(1))})
			return normal(st)
		}
		x.note("map", "iteration over maps visits keys in an arbitrary order; that each key is visited exactly once is assumed")
	default:
		panic(unsupported("range over %T", v))
	}
	return x.loop(ld, st, fr, label)
}

func contHere(o outcome, label string) bool {
	return o.kind == oContinue && (o.label == "" || o.label == label)
}

// iteration runs one loop iteration from a head state.
func (x *Exec) iteration(ld *loopDef, st *State, fr *frame, label string) (back []*State, out []outcome) {
	in, exit, other := ld.head(st)
	out = append(out, other...)
	for _, e := range exit {
		out = append(out, outcome{kind: oNormal, st: e})
	}
	for _, i := range in {
		for _, o := range x.execBlock(ld.body.List, i, fr) {
			if o.st.dead {
				continue
			}
			switch {
			case o.kind == oNormal || contHere(o, label):
				for _, p := range ld.post(o.st) {
					if p.kind == oNormal && !p.st.dead {
						back = append(back, p.st)
					}
				}
			case breakHere(o, label):
				out = append(out, outcome{kind: oNormal, st: o.st})
			default:
				out = append(out, o)
			}
		}
	}
	return
}

type havocPlan struct {
	cells map[*Cell]string // "full", or a shape-preserving mode
	keep  map[*Cell]Val
	backs map[*Back]bool
	mem   bool
	ghost map[string]bool
}

// havocVal makes a fresh value of the shape of v. same reports, per component,
// that all back edges kept it.
func (x *Exec) havocVal(st *State, name string, v Val, t types.Type, backs []Val, heads []Val) Val {
	allSame := func(f func(Val) bool) bool {
		for _, b := range backs {
			if !f(b) {
				return false
			}
		}
		return true
	}
	same := true
	for i := range backs {
		if !sameVal(backs[i], heads[i]) {
			same = false
		}
	}
	if same && len(backs) > 0 {
		return v
	}
	switch a := v.(type) {
	case VSlice:
		if allSame(func(b Val) bool { s, ok := b.(VSlice); return ok && s.B == a.B }) && a.B != nil {
			n := a
			fn := freshName(name)
			offSame, hiSame, lenSame, capSame, nilSame, chSame := true, true, true, true, true, true
			for i := range backs {
				b, h := backs[i].(VSlice), heads[i].(VSlice)
				offSame = offSame && b.Off == h.Off
				lenSame = lenSame && b.Len == h.Len
				hiSame = hiSame && Add(b.Off, b.Len) == Add(h.Off, h.Len)
				capSame = capSame && b.Cap == h.Cap
				chSame = chSame && Add(b.Off, b.Cap) == Add(h.Off, h.Cap)
				nilSame = nilSame && b.Nil == h.Nil
			}
			if !offSame {
				n.Off = Var(fn+".off", SInt)
			}
			switch {
			case lenSame:
			case hiSame:
				n.Len = Sub(Add(a.Off, a.Len), n.Off)
			default:
				n.Len = Var(fn+".len", SInt)
			}
			if a.Str {
				n.Cap = n.Len
			} else if !capSame {
				if chSame {
					n.Cap = Sub(Add(a.Off, a.Cap), n.Off)
				} else {
					n.Cap = Var(fn+".cap", SInt)
				}
			}
			if !nilSame {
				n.Nil = Var(fn+".nil", SBool)
			}
			st.assume(And(Le(I(0), n.Off), Le(I(0), n.Len), Le(n.Len, n.Cap), Le(n.Cap, I(2*maxLen)), Le(n.Off, I(2*maxLen))))
			return n
		}
		if a.B == nil || a.B.Bytes {
			q := Var(freshName(name+".seq"), SSeq)
			st.assume(Le(SeqLen(q), I(2*maxLen)))
			n := st.newSeqSlice(name, q, SeqLen(q), a.Str, t)
			n.B.InputT = Var(freshName("mayalias"), SBool)
			if !a.Str {
				n.Nil = Var(freshName(name+".nil"), SBool)
				st.assume(Imp(n.Nil, Eq(n.Len, I(0))))
			}
			return n
		}
		return st.symSlice(name, a.Elem, false, false)
	case VIface:
		if a.Nil.isTrue() && allSame(func(b Val) bool { s, ok := b.(VIface); return ok && s.Nil.isTrue() }) {
			return a
		}
		return st.symbolic(name, t, 0)
	case VPtr:
		if allSame(func(b Val) bool { s, ok := b.(VPtr); return ok && sameLoc(s.Loc, a.Loc) }) {
			n := a
			if !a.Nil.isFalse() || !allSame(func(b Val) bool { return b.(VPtr).Nil.isFalse() }) {
				n.Nil = Var(freshName(name+".nil"), SBool)
			}
			return n
		}
		return st.symbolic(name, t, 1)
	case VUnsafe:
		if a.Data != nil && allSame(func(b Val) bool { s, ok := b.(VUnsafe); return ok && s.Data != nil && sameVal(*s.Data, *a.Data) }) {
			n := a
			n.Addr = Var(freshName(name), SInt)
			return n
		}
		return st.symbolic(name, t, 0)
	case VStruct:
		n := VStruct{T: a.T}
		u := a.T.Underlying().(*types.Struct)
		for i := range a.F {
			var bs, hs []Val
			for k := range backs {
				b, ok := backs[k].(VStruct)
				h, ok2 := heads[k].(VStruct)
				if !ok || !ok2 {
					return st.symbolic(name, t, 0)
				}
				bs = append(bs, b.F[i])
				hs = append(hs, h.F[i])
			}
			n.F = append(n.F, x.havocVal(st, name+"."+u.Field(i).Name(), a.F[i], u.Field(i).Type(), bs, hs))
		}
		return n
	case VWord:
		return st.symbolic(name, t, 0)
	case VArray:
		return a // content is havocked through its backing store
	case VTuple:
		panic(unsupported("tuple across a loop"))
	}
	return st.symbolic(name, t, 0)
}

func (x *Exec) loop(ld *loopDef, st *State, fr *frame, label string) []outcome {
	spec := fr.loopSpec(ld.stmt)
	// discovery: which locations does the body write, and how do they look at back edges
	wc := map[*Cell]bool{}
	wb := map[*Back]bool{}
	wmem := false
	wg := map[string]bool{}
	existsC := func(c *Cell) bool { _, ok := st.cells[c]; return ok || lazyCells[c] != nil }
	existsB := func(b *Back) bool {
		if _, ok := st.backs[b]; ok {
			return true
		}
		_, ok := lazyBacks[b]
		return ok
	}
	var backVals map[*Cell][]Val
	var headVals map[*Cell][]Val
	havoc := func(s *State) {
		for _, c := range sortedCells(wc) {
			old := s.cell(c)
			s.setCell(c, x.havocVal(s, c.Name, old, c.T, backVals[c], headVals[c]))
		}
		for _, b := range sortedBacks(wb) {
			nc := s.symContent(b.Name+".hv", b.Elem)
			if c := s.content(b); c.Seq != nil {
				q := Var(freshName("hvseq"), SSeq)
				s.assume(Eq(SeqLen(q), c.SeqLen))
				nc = Content{Seq: q, SeqLen: c.SeqLen}
			}
			s.setBack(b, nc)
		}
		if wmem {
			x.bumpMem(s)
		}
		for g := range wg {
			if o := s.ghost[g]; o != nil {
				s.ghost[g] = Var(freshName("ghost."+g), o.sort)
			}
		}
	}
	savedLog := curLog
	if ld.it != nil {
		wc[ld.it] = true
	}
	backVals, headVals = map[*Cell][]Val{}, map[*Cell][]Val{}
	for round := 0; round < 8; round++ {
		lg := &writeLog{cells: map[*Cell]bool{}, backs: map[*Back]bool{}, ghost: map[string]bool{}}
		d := st.clone()
		curLog = lg
		x.quiet++
		nvars := len(fr.vars)
		havoc(d)
		if ld.auto != nil {
			d.assume(ld.auto(d))
		}
		if spec != nil {
			for _, iv := range spec.Inv {
				d.assume(x.clause(iv, x.loopEnv(d, fr, ld)))
			}
			for _, iv := range spec.Assumes {
				d.assume(x.clause(iv, x.loopEnv(d, fr, ld)))
			}
		}
		h := d.clone()
		back, _ := x.iteration(ld, d, fr, label)
		x.quiet--
		curLog = savedLog
		_ = nvars
		grew := false
		for c := range lg.cells {
			if existsC(c) && !wc[c] {
				wc[c] = true
				grew = true
			}
		}
		for b := range lg.backs {
			if existsB(b) && !wb[b] {
				wb[b] = true
				grew = true
			}
		}
		if lg.mem && !wmem {
			wmem, grew = true, true
		}
		for g := range lg.ghost {
			if !wg[g] {
				wg[g], grew = true, true
			}
		}
		nb, nh := map[*Cell][]Val{}, map[*Cell][]Val{}
		for c := range wc {
			nb[c] = append(nb[c], backVals[c]...)
			nh[c] = append(nh[c], headVals[c]...)
			for _, b := range back {
				bv, hv := b.cell(c), h.cell(c)
				if !sameVal(bv, hv) || len(nb[c]) == 0 {
					nb[c] = append(nb[c], bv)
					nh[c] = append(nh[c], hv)
				}
			}
			if len(nb[c]) != len(backVals[c]) && !(len(backVals[c]) > 0 && x.sameShapes(nb[c], nh[c], backVals[c], headVals[c])) {
				grew = true
			}
			if len(nb[c]) > 64 {
				nb[c], nh[c] = nb[c][:64], nh[c][:64]
			}
		}
		backVals, headVals = nb, nh
		if !grew {
			break
		}
		if round == 7 {
			panic(unsupported("loop shapes do not stabilise"))
		}
	}
	if curLog != nil {
		for c := range wc {
			curLog.cells[c] = true
		}
		for b := range wb {
			curLog.backs[b] = true
		}
		curLog.mem = curLog.mem || wmem
		for g := range wg {
			curLog.ghost[g] = true
		}
	}
	n := fr.loopOrdinal(ld.stmt)
	nm := itoa(n)
	if fr.fi != nil && x.top != nil && fr.fi != x.top.fi {
		nm = fr.fi.Key + "." + nm
	}
	// invariants hold on entry
	if spec != nil {
		for _, u := range spec.Use {
			st.assume(x.clause(u, x.loopEnv(st, fr, ld)))
		}
		for _, iv := range spec.Inv {
			x.oblige(st, "inv-init", nm+"."+iv.Label, x.clause(iv, x.loopEnv(st, fr, ld)), ld.pos)
		}
	}
	havoc(st)
	if ld.auto != nil {
		st.assume(ld.auto(st))
	}
	var dec0 []*Term
	if spec != nil {
		for _, iv := range spec.Inv {
			st.assume(x.clause(iv, x.loopEnv(st, fr, ld)))
		}
		for _, a := range spec.Assumes {
			x.assumed["by definition: "+a.Text] = true
			st.assume(x.clause(a, x.loopEnv(st, fr, ld)))
		}
		for _, u := range spec.Use {
			st.assume(x.clause(u, x.loopEnv(st, fr, ld)))
		}
		for _, d := range spec.Dec {
			dec0 = append(dec0, intOf(x.clauseVal(d, x.loopEnv(st, fr, ld))))
		}
	}
	head := st.clone()
	back, out := x.iteration(ld, st, fr, label)
	for _, b := range back {
		// the shape assumed at the head holds at the back edge
		for _, c := range sortedCells(wc) {
			x.checkShape(b, c.Name, head.cell(c), b.cell(c), ld.pos)
		}
		if spec != nil {
			for _, u := range spec.After {
				t := x.clause(u, x.loopEnv(b, fr, ld))
				if u.Def {
					x.oblige(b, "assert", nm+"."+u.Label, t, ld.pos)
				}
				b.assume(t)
			}
		}
		for _, iv := range useInv(spec) {
			x.oblige(b, "inv-keep", nm+"."+iv.Label, x.clause(iv, x.loopEnv(b, fr, ld)), ld.pos)
		}
		if len(dec0) > 0 {
			var ds []*Term
			for _, d := range spec.Dec {
				ds = append(ds, intOf(x.clauseVal(d, x.loopEnv(b, fr, ld))))
			}
			x.oblige(b, "loop-decreases", nm, lexLess(ds, dec0), ld.pos)
		}
	}
	return out
}

func useInv(s *LoopSpec) []Clause {
	if s == nil {
		return nil
	}
	return s.Inv
}

// sameShapes: adding back-edge values changed nothing about what havoc keeps.
func (x *Exec) sameShapes(nb, nh, ob, oh []Val) bool {
	return x.shapeSig(nb, nh) == x.shapeSig(ob, oh)
}

func (x *Exec) shapeSig(backs, heads []Val) string {
	sig := ""
	bit := func(b bool) {
		if b {
			sig += "1"
		} else {
			sig += "0"
		}
	}
	all := func(f func(b, h Val) bool) bool {
		for i := range backs {
			if !f(backs[i], heads[i]) {
				return false
			}
		}
		return true
	}
	bit(all(sameVal))
	if len(backs) == 0 {
		return sig
	}
	switch heads[0].(type) {
	case VSlice:
		s := func(f func(b, h VSlice) bool) {
			bit(all(func(b, h Val) bool {
				x, ok := b.(VSlice)
				y, ok2 := h.(VSlice)
				return ok && ok2 && f(x, y)
			}))
		}
		s(func(b, h VSlice) bool { return b.B == h.B })
		s(func(b, h VSlice) bool { return b.Off == h.Off })
		s(func(b, h VSlice) bool { return b.Len == h.Len })
		s(func(b, h VSlice) bool { return Add(b.Off, b.Len) == Add(h.Off, h.Len) })
		s(func(b, h VSlice) bool { return b.Cap == h.Cap })
		s(func(b, h VSlice) bool { return Add(b.Off, b.Cap) == Add(h.Off, h.Cap) })
		s(func(b, h VSlice) bool { return b.Nil == h.Nil })
	case VIface:
		bit(all(func(b, h Val) bool { s, ok := b.(VIface); return ok && s.Nil.isTrue() }))
	case VPtr:
		bit(all(func(b, h Val) bool {
			s, ok := b.(VPtr)
			t, ok2 := h.(VPtr)
			return ok && ok2 && sameLoc(s.Loc, t.Loc)
		}))
		bit(all(func(b, h Val) bool { s, ok := b.(VPtr); return ok && s.Nil.isFalse() }))
	case VUnsafe:
		bit(all(func(b, h Val) bool {
			s, ok := b.(VUnsafe)
			t, ok2 := h.(VUnsafe)
			return ok && ok2 && s.Data != nil && t.Data != nil && sameVal(*s.Data, *t.Data)
		}))
	case VStruct:
		for i := range heads[0].(VStruct).F {
			var bs, hs []Val
			for k := range backs {
				b, ok := backs[k].(VStruct)
				h, ok2 := heads[k].(VStruct)
				if ok && ok2 {
					bs = append(bs, b.F[i])
					hs = append(hs, h.F[i])
				}
			}
			sig += "(" + x.shapeSig(bs, hs) + ")"
		}
	}
	return sig
}

// checkShape: facts the havocked head value relied on must hold at the back edge.
func (x *Exec) checkShape(st *State, name string, h, b Val, pos token.Pos) {
	if sameVal(h, b) {
		return
	}
	fail := func() { x.oblige(st, "loop-shape", name, tFalse, pos) }
	switch a := h.(type) {
	case VSlice:
		c, ok := b.(VSlice)
		if !ok {
			fail()
			return
		}
		if a.B == c.B && a.B != nil && a.B.Bytes && a.Off.isInt() && a.Off.iv.Sign() == 0 && a.Len.op == "seq.len" && a.Len.args[0].op == "var" {
			return // arbitrary content, at the head in a store of its own
		}
		if a.B == c.B {
			// linear relations kept by the havoc
			isVar := func(t *Term) bool { return t.op == "var" }
			if !isVar(a.Off) {
				x.oblige(st, "loop-shape", name, Eq(a.Off, c.Off), pos)
			}
			if !isVar(a.Len) && !a.Str || a.Str && !isVar(a.Len) {
				if a.Len == c.Len {
				} else {
					x.oblige(st, "loop-shape", name, Or(Eq(Add(a.Off, a.Len), Add(c.Off, c.Len))), pos)
				}
			}
			return
		}
		if a.B != nil && a.B.Bytes && c.B != nil && st.content(a.B).Seq != nil {
			return // arbitrary content
		}
		if a.B != nil && c.B == nil && st.content(a.B).Seq != nil {
			return
		}
		if a.B != nil && !a.B.Bytes {
			return // arbitrary content
		}
		fail()
	case VIface:
		if a.Nil.isTrue() {
			c, ok := b.(VIface)
			if !ok {
				fail()
				return
			}
			x.oblige(st, "loop-shape", name, c.Nil, pos)
		}
	case VStruct:
		c, ok := b.(VStruct)
		if !ok {
			fail()
			return
		}
		for i := range a.F {
			x.checkShape(st, name, a.F[i], c.F[i], pos)
		}
	case VInt:
		if a.T.isInt() {
			fail()
		}
	case VBool:
		if a.T.isTrue() || a.T.isFalse() {
			fail()
		}
	case VPtr:
		c, ok := b.(VPtr)
		if !ok {
			fail()
			return
		}
		if a.Nil.isFalse() {
			x.oblige(st, "loop-shape", name, Not(c.Nil), pos)
		}
		if !sameLoc(a.Loc, c.Loc) && !(a.Loc != nil && a.Loc.C != nil && a.Loc.C.ID != nil) {
			fail()
		}
	}
}

func (x *Exec) loopEnv(st *State, fr *frame, ld *loopDef) *env {
	en := &env{x: x, st: st, entry: x.entry, fr: fr, pos: ld.pos, vars: map[string]Val{}, olds: x.olds, pkg: fr.pkg.Types, items: x.items}
	return en
}

func itoa(n int) string {
	s := ""
	if n == 0 {
		return "0"
	}
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}
