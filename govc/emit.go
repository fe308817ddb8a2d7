package main

// Encoders: functions which append to their argument b the text of a sequence
// of items in the colors of the encoder.
//
// A contract with "emits X" stands for: if err is nil, the result holds the
// bytes of b followed by render(id of the colors, X); otherwise it begins with
// the bytes of b. "rolls R" tells when the error is a rollback (never, if the
// clause is absent). "spoils L" lists locations changed only if the call
// returns an error which is not a rollback.

import (
	"go/ast"
	"go/token"
	"go/types"
)

// emitTag is left on the result of an encoder.
type emitTag struct {
	base, ci, items, rolls *Term
}

// keyOf identifies what an encoder is given by pointer: an address, or the
// content of a local variable.
func (x *Exec) keyOf(st *State, v Val) *Term {
	loc := func(l *Loc, t types.Type) *Term {
		val := x.loadLoc(st, l, t)
		var ts []*Term
		switch u := val.(type) {
		case VSlice:
			if u.B == nil || u.B.Bytes {
				ts = []*Term{st.seqOf(u)}
			}
		case VUnsafe:
			if u.Addr != nil && u.Loc == nil {
				ts = []*Term{u.Addr}
			}
		case VInt, VBool, VOpaque, VIface:
			ts = []*Term{termOf(val)}
		}
		if ts == nil {
			return Var(freshName("key"), SInt)
		}
		return App("ref."+types.TypeString(t, func(*types.Package) string { return "" }), SInt, ts...)
	}
	switch u := v.(type) {
	case VUnsafe:
		if u.Loc != nil && u.Loc.C != nil && u.Elem != nil && u.Loc.C.ID == nil {
			return loc(u.Loc, u.Elem)
		}
		if u.Addr != nil && u.Data == nil {
			return u.Addr
		}
		if u.Loc != nil {
			if id := locID(u.Loc); id != nil {
				return id
			}
		}
		if u.Nil != nil && u.Nil.isTrue() {
			return I(0)
		}
	case VPtr:
		if u.Nil.isTrue() {
			return I(0)
		}
		if u.Loc != nil && u.Loc.C != nil && u.Loc.C.ID == nil {
			return loc(u.Loc, u.Elem)
		}
		if u.ID != nil {
			return u.ID
		}
	case nil:
		return I(0)
	}
	return Var(freshName("key"), SInt)
}

func ptrID(v Val) *Term {
	switch p := v.(type) {
	case VPtr:
		if p.Nil.isTrue() {
			return I(0)
		}
		if p.ID != nil {
			return p.ID
		}
		if p.Loc != nil {
			if id := locID(p.Loc); id != nil {
				return id
			}
		}
	case VIface:
		if p.Nil.isTrue() {
			return I(0)
		}
	case nil:
		return I(0)
	}
	panic(unsupported("identity of the colors: %T", v))
}

// emitColors is the identity of the colors of an encoder.
func (x *Exec) emitColors(vars map[string]Val) *Term {
	if v, ok := vars["e"].(VStruct); ok {
		u := v.T.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "clrs" {
				return ptrID(v.F[i])
			}
		}
	}
	for _, n := range []string{"clrs", "c"} {
		if v, ok := vars[n]; ok {
			return ptrID(v)
		}
	}
	return I(0)
}

func isRoll(st *State, v Val) *Term {
	e, ok := v.(VIface)
	if !ok {
		return tFalse
	}
	if e.Nil.isTrue() {
		return tFalse
	}
	return And(Not(e.Nil), App("isRoll", SBool, st.ifaceID(e)))
}

// emitParam is the argument b of a function under such a contract.
func emitParam(st *State, name string, t types.Type) VSlice {
	q := Var(freshName(name), SSeq)
	n := SeqLen(q)
	st.assume(Le(n, I(maxLen)))
	s := st.newSeqSlice(name, q, n, false, t)
	s.Nil = Var(freshName(name+".nil"), SBool)
	st.assume(Imp(s.Nil, And(Eq(n, I(0)), Eq(s.Cap, I(0)))))
	s.B.InputT = tTrue
	return s
}

// applyEmits is the effect of a call of such a function; the preconditions
// have been dealt with.
func (x *Exec) applyEmits(st *State, c *Contract, sig *types.Signature, args []Val, en *env, pos token.Pos) []sv {
	b, ok := en.vars["b"].(VSlice)
	if !ok {
		panic(unsupported("%s: emits without a slice b", c.Name))
	}
	bs := st.seqOf(b)
	items := seqVal(specEval(c.Emits.E, en), en)
	ci := x.emitColors(en.vars)
	rolls := tFalse
	if c.Rolls != nil {
		rolls = x.clause(*c.Rolls, en)
	}
	rt := sig.Results().At(0).Type()
	hasErr := sig.Results().Len() == 2
	var out []sv
	fin := func(s *State, q *Term, ev Val, tag *emitTag) {
		if s == nil || s.dead {
			return
		}
		s.assume(Le(SeqLen(q), I(maxLen)))
		r := s.newSeqSlice(shortName(c.Name)+".r", q, SeqLen(q), false, rt)
		r.B.InputT = Var(freshName("mayalias"), SBool)
		r.Nil = Var(freshName("isnil"), SBool)
		s.assume(Imp(r.Nil, Eq(SeqLen(q), I(0))))
		r.B.Emit = tag
		e2 := *en
		e2.st = s
		e2.items = items
		e2.vars = map[string]Val{}
		for k, v := range en.vars {
			e2.vars[k] = v
		}
		res := []Val{r}
		e2.vars[c.Results[0]] = r
		if hasErr {
			res = append(res, ev)
			e2.vars[c.Results[1]] = ev
		}
		for _, e := range c.Ens {
			s.assume(x.clause(e, &e2))
		}
		if !s.dead {
			out = append(out, sv{s, tupleOf(res)})
		}
	}
	if c.Trusted || c.Extern {
		x.usedExt[c.Name] = true
	}
	var okS, rollS, errS *State
	okS = st.clone()
	if hasErr {
		rollS, errS = st.clone(), st.clone()
	}
	if k, known := okS.known(rolls); !(known && k) && !rolls.isTrue() {
		okS.assume(Not(rolls))
		okS.path = append(okS.path[:len(okS.path):len(okS.path)], shortName(c.Name)+" succeeds")
		fin(okS, Cat(bs, Render(ci, items)), VIface{Nil: tTrue, ID: I(0)}, &emitTag{bs, ci, items, rolls})
	}
	if rollS != nil && !rolls.isFalse() {
		rollS.assume(rolls)
		id := Var(freshName("rb"), SInt)
		rollS.assume(And(Not(Eq(id, I(0))), App("isRoll", SBool, id)))
		rollS.path = append(rollS.path[:len(rollS.path):len(rollS.path)], shortName(c.Name)+" rolls back")
		fin(rollS, Cat(bs, Var(freshName("part"), SSeq)), VIface{Nil: tFalse, ID: id}, nil)
	}
	if errS != nil && !rolls.isTrue() {
		errS.assume(Not(rolls))
		id := Var(freshName("err"), SInt)
		errS.assume(And(Not(Eq(id, I(0))), Not(App("isRoll", SBool, id))))
		e2 := *en
		e2.st = errS
		for _, m := range c.Spoils {
			x.havocSpoil(errS, m.E, &e2)
		}
		errS.path = append(errS.path[:len(errS.path):len(errS.path)], shortName(c.Name)+" fails")
		fin(errS, Cat(bs, Var(freshName("part"), SSeq)), VIface{Nil: tFalse, ID: id}, nil)
	}
	return out
}

// havocSpoil forgets a location, unless the pointer to it is nil.
func (x *Exec) havocSpoil(st *State, e ast.Expr, en *env) {
	if s, ok := e.(*ast.SelectorExpr); ok {
		switch p := specEval(s.X, en).(type) {
		case nil:
			return
		case VIface:
			return
		case VPtr:
			if p.Loc == nil || p.Nil.isTrue() {
				return
			}
		}
	}
	x.havocLoc(st, e, en)
}

// emitGoals obliges what an emits clause stands for.
func (x *Exec) emitGoals(st *State, c *Contract, vals []Val, bs, ci, items, rolls *Term, pos token.Pos) {
	r, ok := vals[0].(VSlice)
	if !ok {
		panic(unsupported("emits: the result is a %T", vals[0]))
	}
	var err Val
	errNil := tTrue
	if len(vals) > 1 {
		err = vals[1]
		if e, ok := err.(VIface); ok {
			errNil = e.Nil
		}
	}
	if k, known := st.known(errNil); known {
		errNil = tFalse
		if k {
			errNil = tTrue
		}
	}
	q := st.seqOf(r)
	if !errNil.isFalse() {
		x.oblige(st, "emits", "", Imp(errNil, Eq(q, Cat(bs, Render(ci, items)))), pos)
	}
	if !errNil.isTrue() {
		x.oblige(st, "prefix", "", Imp(Not(errNil), And(Le(SeqLen(bs), SeqLen(q)), Eq(SeqExtract(q, I(0), SeqLen(bs)), bs))), pos)
	}
	roll := tFalse
	if err != nil {
		roll = isRoll(st, err)
	}
	x.oblige(st, "rolls", "", Eq(roll, rolls), pos)
}

// spoilt tells whether st returns an error which is not a rollback.
func spoilt(st *State, vals []Val) bool {
	if len(vals) < 2 {
		return false
	}
	e, ok := vals[1].(VIface)
	if !ok || e.Nil.isTrue() {
		return false
	}
	if k, known := st.known(Not(e.Nil)); !e.Nil.isFalse() && !(known && k) {
		return false
	}
	r := App("isRoll", SBool, st.ifaceID(e))
	k, known := st.known(r)
	return known && !k
}

// freeOf tells whether no variable of vs occurs in t.
func freeOf(t *Term, vs map[*Term]bool) bool {
	ok := true
	walk(t, map[*Term]bool{}, func(y *Term) {
		if vs[y] {
			ok = false
		}
	})
	return ok
}
