package main

// sort.Slice: the elements are permuted, and afterwards none is less than the
// one before it. The function literal which compares two elements has a
// contract r == strLess(key(i), key(j)), checked at the call for arbitrary
// elements; an order of this form is a strict weak one, as sort.Slice needs.

import (
	"fmt"
	"go/ast"
	"go/token"
)

// litKey is the name of a function literal: its place among those of the
// function.
func litKey(fi *FuncInfo, lit *ast.FuncLit) string {
	n, at := 0, 0
	ast.Inspect(fi.Decl.Body, func(nd ast.Node) bool {
		if l, ok := nd.(*ast.FuncLit); ok {
			n++
			if l == lit {
				at = n
			}
		}
		return true
	})
	return fmt.Sprintf("%s$%d", fi.Key, at)
}

func mustClause(t string) ast.Expr {
	c, err := mkClause(t, "sort")
	if err != nil {
		panic(err)
	}
	return c.E
}

var (
	sortElems = mustClause("elems(xs)")
	sortFacts = []ast.Expr{
		mustClause("forall(k, 0, len(xs), 0 <= perm(pid, k) && perm(pid, k) < len(xs))"),
		mustClause("forall(k, 0, len(xs), permOf(pid, perm(pid, k)) == k)"),
		mustClause("forall(k, 0, len(xs), id(xs[k]) == old(id(xs[perm(pid, k)])))"),
	}
)

func (x *Exec) sortSlice(st *State, all []Val, pos token.Pos) []sv {
	iv, ok := all[0].(VIface)
	if !ok {
		return nil
	}
	xs, ok := iv.Dyn.(VSlice)
	f, ok2 := all[1].(VFunc)
	if !ok || !ok2 || f.Lit == nil {
		return nil
	}
	lit := f.Lit.(*ast.FuncLit)
	c := contracts[litKey(f.Env.fi, lit)]
	if c == nil || len(c.Ens) != 1 || len(c.Params) != 2 || len(c.Results) != 1 {
		return nil
	}
	eq, ok := c.Ens[0].E.(*ast.BinaryExpr)
	if !ok || eq.Op != token.EQL {
		return nil
	}
	less, ok := eq.Y.(*ast.CallExpr)
	if !ok || len(less.Args) != 2 || exprString(less.Fun) != "strLess" {
		return nil
	}
	x.usedExt["sort.Slice: an ordered permutation"] = true
	entry := st.clone()
	pid := Var(freshName("sorting"), SInt)
	st.assume(Not(Eq(pid, I(0))))
	en := &env{x: x, st: st, entry: entry, vars: map[string]Val{"xs": xs, "pid": VInt{pid}}, olds: map[string]Val{"xs": xs, "pid": VInt{pid}}, pkg: f.Env.pkg.Types}
	x.havocLoc(st, sortElems, en)
	at := func(s *State, i, j *Term) *env {
		return &env{x: x, st: s, entry: s, vars: map[string]Val{c.Params[0]: VInt{i}, c.Params[1]: VInt{j}}, olds: map[string]Val{}, pkg: f.Env.pkg.Types, fr: f.Env, pos: lit.Body.End()}
	}
	// The literal, on any elements.
	chk := st.clone()
	i, j := Var(freshName("i"), SInt), Var(freshName("j"), SInt)
	chk.assume(And(Le(I(0), i), Lt(i, xs.Len), Le(I(0), j), Lt(j, xs.Len)))
	cl := at(chk, i, j)
	for _, a := range c.Assumes {
		x.assumed["by definition: "+a.Text] = true
		chk.assume(x.clause(a, cl))
	}
	for _, o := range x.inlineLit(chk, f, []Val{VInt{i}, VInt{j}}, pos, nil) {
		if o.st.dead {
			continue
		}
		e := at(o.st, i, j)
		e.vars[c.Results[0]] = valsOf(o.v)[0]
		x.oblige(o.st, "post", c.Name+"."+c.Ens[0].Label, x.clause(c.Ens[0], e), pos)
	}
	// It compares the same key of both elements.
	p := BVar(freshName("?k"), SInt)
	if termOf(specEval(less.Args[0], at(st, p, I(-1)))) != termOf(specEval(less.Args[1], at(st, I(-1), p))) {
		panic(unsupported("%s does not compare the same key of two elements", c.Name))
	}
	for _, s := range sortFacts {
		st.assume(boolOf(specEval(s, en)))
	}
	k := BVar(freshName("?k"), SInt)
	body := boolOf(specEval(less, at(st, Add(k, I(1)), k)))
	st.assume(Forall(k, Imp(And(Le(I(0), k), Lt(k, Sub(xs.Len, I(1)))), Not(body))))
	if x.sorting != nil {
		st.setCell(x.sorting, VInt{pid})
	}
	return []sv{{st, VTuple{}}}
}
