package main

// Conformance of function values: every function, method expression and
// function literal of the package which can be converted to a function type
// under contract is checked against that contract.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type conformer struct {
	key  string // obligation group name
	typ  string // name of the function type
	fi   *FuncInfo
	expr ast.Expr
	pos  token.Pos
}

// conformers lists the function values which may have the named function type.
func conformers(named string) (out []*conformer, err string) {
	if c := funcTypes[named]; c != nil && c.Base != "" {
		all, e := conformers(c.Base)
		if e != "" {
			return nil, e
		}
		for _, f := range c.Only {
			n := len(out)
			for _, a := range all {
				if a.key == f+" as "+c.Base {
					out = append(out, &conformer{f + " as " + named, named, a.fi, a.expr, a.pos})
				}
			}
			if len(out) == n {
				return nil, f + " is not a function value of type " + c.Base
			}
		}
		return out, ""
	}
	var keys []string
	for k := range funcs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var typ *types.Signature
	var home *types.Package
	for _, k := range keys {
		if o := funcs[k].Pkg.Types.Scope().Lookup(named); o != nil {
			if s, ok := o.Type().Underlying().(*types.Signature); ok {
				typ, home = s, funcs[k].Pkg.Types
				break
			}
		}
	}
	if typ == nil {
		return nil, "function type " + named + " not found in the source"
	}
	seen := map[string]bool{}
	for _, k := range keys {
		fi := funcs[k]
		if fi.Pkg.Types != home || fi.Decl.Body == nil {
			continue
		}
		n := 0
		calls := map[ast.Expr]bool{}
		ast.Inspect(fi.Decl.Body, func(nd ast.Node) bool {
			switch e := nd.(type) {
			case *ast.CallExpr:
				calls[ast.Unparen(e.Fun)] = true
			case *ast.FuncLit:
				n++
				if t, ok := fi.Pkg.Info.TypeOf(e).(*types.Signature); ok && types.Identical(t, typ) && !calls[e] {
					out = append(out, &conformer{fmt.Sprintf("%s$%d as %s", k, n, named), named, fi, e, e.Pos()})
				}
			case *ast.SelectorExpr:
				if calls[e] {
					return true
				}
				if f, ok := fi.Pkg.Info.Uses[e.Sel].(*types.Func); ok {
					if t, ok := fi.Pkg.Info.TypeOf(e).(*types.Signature); ok && types.Identical(t, typ) {
						nm := fmt.Sprintf("%s as %s", funcKey(f), named)
						if !seen[nm] {
							seen[nm] = true
							out = append(out, &conformer{nm, named, fi, e, e.Pos()})
						}
					}
				}
			case *ast.Ident:
				if calls[e] {
					return true
				}
				if f, ok := fi.Pkg.Info.Uses[e].(*types.Func); ok && f.Type().(*types.Signature).Recv() == nil {
					if types.Identical(f.Type(), typ) {
						nm := fmt.Sprintf("%s as %s", funcKey(f), named)
						if !seen[nm] {
							seen[nm] = true
							out = append(out, &conformer{nm, named, fi, e, e.Pos()})
						}
					}
				}
			}
			return true
		})
	}
	if len(out) == 0 {
		return nil, "nothing has the function type " + named
	}
	return out, ""
}

func verifyConform(cf *conformer) (rep *FuncReport) {
	rep = &FuncReport{Key: cf.key}
	c := funcTypes[cf.typ]
	x := newExec(cf.key)
	defer func() {
		rep.VCs = x.vcs
		rep.UsedCon, rep.UsedExt, rep.Assumed, rep.Inlined = x.usedCon, x.usedExt, x.assumed, x.inlined
		rep.Trivial, rep.Paths = x.trivial, x.paths
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				rep.Err = u.msg
				return
			}
			if debugPanic {
				panic(r)
			}
			rep.Err = fmt.Sprintf("internal: %v", r)
		}
	}()
	curLog = nil
	x.con = c
	fi := cf.fi
	sig := fi.Pkg.Info.TypeOf(cf.expr).Underlying().(*types.Signature)
	st := newState()
	if len(c.Params) != sig.Params().Len()+1 {
		rep.Err = "the contract of " + cf.typ + " names another number of parameters"
		return
	}
	fid := Var("fn", SInt)
	all := []Val{VInt{fid}}
	x.emits = c.Emits != nil
	for i := 0; i < sig.Params().Len(); i++ {
		if x.emits && c.Params[i+1] == "b" {
			s := emitParam(st, "b", sig.Params().At(i).Type())
			x.bseq = st.seqOf(s)
			all = append(all, s)
			continue
		}
		all = append(all, st.symbolic(c.Params[i+1], sig.Params().At(i).Type(), 1))
	}
	env0 := &frame{fi: fi, pkg: fi.Pkg, vars: map[types.Object]*Cell{}, sig: fi.Obj.Type().(*types.Signature), pnames: map[string]types.Object{}}
	x.top = env0
	x.olds = map[string]Val{}
	for i, p := range c.Params {
		x.olds[p] = all[i]
	}
	for g, s := range ghostVars {
		st.ghost[g] = Var("ghost0."+g, s)
	}
	if lit, ok := cf.expr.(*ast.FuncLit); ok {
		ast.Inspect(lit.Body, func(nd ast.Node) bool {
			id, ok := nd.(*ast.Ident)
			if !ok {
				return true
			}
			o, ok := fi.Pkg.Info.Uses[id].(*types.Var)
			if !ok || o.IsField() || o.Parent() == fi.Pkg.Types.Scope() || o.Pkg() != fi.Pkg.Types {
				return true
			}
			if o.Pos() >= lit.Pos() && o.Pos() < lit.End() {
				return true
			}
			if env0.vars[o] == nil {
				cl := newCell(o.Name(), o.Type())
				v := st.symbolic(o.Name(), o.Type(), 1)
				switch u := v.(type) {
				case VPtr:
					st.assume(Not(u.Nil))
				case VIface:
					st.assume(Not(u.Nil))
				case VFunc:
					if x.emits && u.ID != nil && !strings.Contains(cf.key, "Embedded") {
						st.assume(Not(App("mayRoll", SBool, u.ID)))
						x.assumed["only the encoders of fields reached through embedded pointers roll back"] = true
					}
				}
				x.assumed["variables captured by codec functions (types and struct descriptions) are not nil"] = true
				st.cells[cl] = v
				env0.vars[o] = cl
			}
			return true
		})
	}
	en := &env{x: x, st: st, vars: x.olds, olds: x.olds, pkg: fi.Pkg.Types}
	en.entry = st
	for _, r := range c.Req {
		st.assume(x.clause(r, en))
	}
	x.ncalls = newCell("ncalls", types.Typ[types.Int])
	st.setCell(x.ncalls, VInt{I(0)})
	x.sorting = newCell("sorting", types.Typ[types.Int])
	st.setCell(x.sorting, VInt{I(0)})
	x.entry = st.clone()
	x.vcs = append(x.vcs, &VC{Fn: cf.key, Name: "cover[requires]", Kind: "cover", Pos: posStr(cf.pos), Hyps: st.pc[:len(st.pc):len(st.pc)], Goal: tFalse, Cover: true})
	ret := 0
	for _, r := range x.eval(cf.expr, st, env0) {
		f, ok := r.v.(VFunc)
		if !ok {
			rep.Err = "not a function value"
			return
		}
		var outs []sv
		if f.Lit != nil {
			outs = x.inlineLit(r.st, f, all[1:], cf.pos, nil)
		} else {
			outs = x.callFn(r.st, f, "", sig, all[1:], cf.pos, env0)
		}
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			ret++
			x.paths++
			if x.emits {
				x.conformEmits(o.st, c, cf, en, env0, valsOf(o.v))
			}
			x.checkPost(o.st, c, valsOf(o.v), fi.Pkg.Types, cf.pos)
		}
	}
	if ret == 0 {
		rep.Err = "no path returns"
	}
	return
}

// checkPost obliges the postconditions and the frame of c.
func (x *Exec) checkPost(st *State, c *Contract, vals []Val, pkg *types.Package, pos token.Pos) {
	pen := &env{x: x, st: st, entry: x.entry, vars: map[string]Val{}, olds: x.olds, pkg: pkg}
	for n, v := range x.olds {
		pen.vars[n] = v
	}
	for i, n := range c.Results {
		if i < len(vals) {
			pen.vars[n] = vals[i]
		}
	}
	for r, p := range c.InOf {
		rv, _ := pen.vars[r].(VSlice)
		pv, _ := pen.vars[p].(VSlice)
		if rv.B != nil && rv.B != pv.B {
			g := Eq(rv.Len, I(0))
			if cl, ok := c.InIf[r]; ok {
				g = Or(g, Not(x.clause(cl, pen)))
			}
			x.oblige(st, "result-in", r+" in "+p, g, pos)
		}
	}
	for _, p := range c.Places {
		f, _ := specEval(p.Field.E, pen).(VSlice)
		of, _ := specEval(p.Of.E, &env{x: x, st: x.entry, entry: x.entry, vars: x.olds, olds: x.olds, pkg: pkg}).(VSlice)
		if f.B != nil && f.B != of.B {
			g := Eq(f.Len, I(0))
			if p.If.E != nil {
				g = Or(g, Not(x.clause(p.If, pen)))
			}
			x.oblige(st, "result-in", p.Field.Text+" in "+p.Of.Text, g, pos)
		}
	}
	pen.items = x.items
	if c.Emits != nil && x.ci != nil {
		x.emitGoals(st, c, vals, x.bseq, x.ci, x.items, x.rolls, pos)
	}
	for _, e := range c.Ens {
		if e.Def { // names the result as a function of the function value and the memory it reads
			x.assumed["by definition: "+e.Text] = true
			continue
		}
		x.oblige(st, "post", e.Label, x.clause(e, pen), pos)
	}
	x.frameCheck(st, c, pen, vals, pos)
}

func valsOf(v Val) []Val {
	if t, ok := v.(VTuple); ok {
		return []Val(t)
	}
	return []Val{v}
}

// toTerms flattens a value to scalar terms.
func toTerms(st *State, v Val) []*Term {
	switch u := v.(type) {
	case VStruct:
		var ts []*Term
		for _, f := range u.F {
			ts = append(ts, toTerms(st, f)...)
		}
		return ts
	case VUnsafe:
		if u.Addr == nil || u.Loc != nil || u.Data != nil {
			return []*Term{u.Nil}
		}
		return []*Term{u.Addr}
	case VSlice:
		return []*Term{u.Off, u.Len, u.Cap, u.Nil}
	}
	return []*Term{termOf(v)}
}

// conformEmits finds what a function value appends; the contract of its type
// names these items as a function of the function value, the flags, the
// indentation and the value encoded, so nothing else may occur in them.
func (x *Exec) conformEmits(st *State, c *Contract, cf *conformer, en *env, fr *frame, vals []Val) {
	x.items, x.rolls = nil, tFalse
	ci := x.emitColors(x.olds)
	banned := map[*Term]bool{ci: true}
	if b, ok := x.olds["b"].(VSlice); ok {
		banned[b.Cap], banned[b.Nil] = true, true
	}
	banned[x.bseq] = true
	if lc := litContract(cf); lc != nil {
		e2 := *en
		e2.fr, e2.pos, e2.st, e2.entry = fr, cf.pos, x.entry, x.entry
		e2.vars = map[string]Val{}
		for i, p := range c.Params {
			e2.vars[p] = x.olds[c.Params[i]]
		}
		x.items = seqVal(specEval(lc.Emits.E, &e2), &e2)
		if lc.Rolls != nil {
			x.rolls = x.clause(*lc.Rolls, &e2)
		}
		for _, u := range lc.Use {
			st.assume(x.clause(u, &e2))
		}
	} else if r, ok := vals[0].(VSlice); ok && r.B != nil && r.B.Emit != nil {
		tag := r.B.Emit
		x.oblige(st, "emits", "from the start", And(Eq(tag.base, x.bseq), Eq(tag.ci, ci), Eq(st.seqOf(r), Cat(tag.base, Render(ci, tag.items)))), cf.pos)
		x.items, x.rolls = tag.items, tag.rolls
	}
	ok := tTrue
	if x.items != nil && !freeOf(x.items, banned) || !freeOf(x.rolls, banned) {
		ok = tFalse
	}
	x.oblige(st, "emits", "a function of the value", ok, cf.pos)
	errNil := tTrue
	if len(vals) > 1 {
		if e, isE := vals[1].(VIface); isE {
			errNil = e.Nil
		}
	}
	if x.items == nil {
		x.oblige(st, "emits", "items known", Not(errNil), cf.pos)
		r := vals[0].(VSlice)
		q := st.seqOf(r)
		x.oblige(st, "prefix", "", And(Le(SeqLen(x.bseq), SeqLen(q)), Eq(SeqExtract(q, I(0), SeqLen(x.bseq)), x.bseq)), cf.pos)
		x.items = Var(freshName("items"), SSeq)
		return
	}
	if litContract(cf) != nil {
		x.emitGoals(st, c, vals, x.bseq, ci, x.items, x.rolls, cf.pos)
	}
}

func litContract(cf *conformer) *Contract {
	if _, ok := cf.expr.(*ast.FuncLit); !ok {
		return nil
	}
	k := cf.key[:len(cf.key)-len(" as "+cf.typ)]
	return contracts[k]
}
