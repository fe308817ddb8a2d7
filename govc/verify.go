package main

// Verification of one function against its contract, of specification
// functions and of lemmas.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
)

type FuncReport struct {
	Key     string
	VCs     []*VC
	Err     string // not within the verifier's subset
	UsedCon map[string]bool
	UsedExt map[string]bool
	Assumed map[string]bool
	Inlined map[string]bool
	Trivial int
	Paths   int
	Trusted bool
}

func newExec(key string) *Exec {
	return &Exec{fn: key, globals: map[types.Object]*Cell{}, assumed: map[string]bool{}, usedExt: map[string]bool{},
		usedCon: map[string]bool{}, inlined: map[string]bool{}, counts: map[string]int{}}
}

// verifyFunc generates the obligations of a function under contract.
func verifyFunc(key string) (rep *FuncReport) {
	rep = &FuncReport{Key: key}
	c := contracts[key]
	fi := funcs[key]
	if c == nil {
		rep.Err = "no contract"
		return
	}
	if fi == nil {
		rep.Err = "function not found in the source"
		return
	}
	if c.Trusted {
		rep.Trusted = true
		rep.UsedExt = map[string]bool{key + " (trusted contract: " + c.Note + ")": true}
		return
	}
	if c.Mode == "bv" {
		rep.VCs, rep.Err = bvFunc(fi, c)
		return
	}
	x := newExec(key)
	x.hide = c.Hide
	defer func() {
		rep.VCs = x.vcs
		rep.UsedCon, rep.UsedExt, rep.Assumed, rep.Inlined = x.usedCon, x.usedExt, x.assumed, x.inlined
		rep.Trivial, rep.Paths = x.trivial, x.paths
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				rep.Err = u.msg
				return
			}
			if debugPanic {
				panic(r)
			}
			rep.Err = fmt.Sprintf("internal: %v", r)
		}
	}()
	curLog = nil
	x.con = c
	sig := fi.Obj.Type().(*types.Signature)
	st := newState()
	var args []Val
	var ptypes []types.Type
	if sig.Recv() != nil {
		ptypes = append(ptypes, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptypes = append(ptypes, sig.Params().At(i).Type())
	}
	if len(ptypes) != len(c.Params) {
		rep.Err = fmt.Sprintf("contract names %d parameters, function has %d", len(c.Params), len(ptypes))
		return
	}
	for i, t := range ptypes {
		n := c.Params[i]
		if n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		var v Val
		if c.Emits != nil && n == "b" {
			s := emitParam(st, n, t)
			x.bseq = st.seqOf(s)
			v = s
		} else {
			v = st.symbolic(n, t, 1)
		}
		if s, ok := v.(VSlice); ok && s.B != nil && s.B.Bytes && st.content(s.B).Arr != nil {
			x.seeds = append(x.seeds, SeedVar{n, st.arrOf(s), s.Off, s.Len})
		}
		args = append(args, v)
	}
	fr := &frame{fi: fi, pkg: fi.Pkg, vars: map[types.Object]*Cell{}, sig: sig, con: c, pnames: map[string]types.Object{}}
	x.top = fr
	x.bindParams(st, fr, fi.Decl.Recv, fi.Decl.Type, args, nil)
	// contract parameter and result names -> source objects
	k := 0
	bindNames := func(l *ast.FieldList, names []string, at *int) {
		if l == nil {
			return
		}
		for _, f := range l.List {
			if len(f.Names) == 0 {
				*at++
			}
			for _, n := range f.Names {
				if *at < len(names) && names[*at] != "_" {
					if o := fi.Pkg.Info.Defs[n]; o != nil {
						fr.pnames[names[*at]] = o
					}
				}
				*at++
			}
		}
	}
	bindNames(fi.Decl.Recv, c.Params, &k)
	bindNames(fi.Decl.Type.Params, c.Params, &k)
	rk := 0
	bindNames(fi.Decl.Type.Results, c.Results, &rk)
	x.olds = map[string]Val{}
	for i, p := range c.Params {
		x.olds[p] = args[i]
	}
	for g, s := range ghostVars {
		st.ghost[g] = Var("ghost0."+g, s)
	}
	en := &env{x: x, st: st, vars: x.olds, olds: x.olds, pkg: fi.Pkg.Types}
	en.entry = st
	for _, r := range c.Req {
		st.assume(x.clause(r, en))
	}
	for _, a := range c.Assumes {
		x.assumed["by definition: "+a.Text] = true
		st.assume(x.clause(a, en))
	}
	if c.Emits != nil {
		x.emits = true
		x.ci = x.emitColors(x.olds)
		x.items = seqVal(specEval(c.Emits.E, en), en)
		x.rolls = tFalse
		if c.Rolls != nil {
			x.rolls = x.clause(*c.Rolls, en)
		}
		en.items = x.items
	}
	x.ncalls = newCell("ncalls", types.Typ[types.Int])
	st.setCell(x.ncalls, VInt{I(0)})
	x.sorting = newCell("sorting", types.Typ[types.Int])
	st.setCell(x.sorting, VInt{I(0)})
	x.entry = st.clone()
	for _, u := range c.Use {
		en.entry = x.entry
		st.assume(x.clause(u, en))
	}
	for _, d := range c.Dec {
		x.measure = append(x.measure, intOf(x.clauseVal(d, en)))
	}
	x.vcs = append(x.vcs, &VC{Fn: key, Name: "cover[requires]", Kind: "cover", Pos: posStr(fi.Decl.Pos()), Hyps: st.pc[:len(st.pc):len(st.pc)], Goal: tFalse, Cover: true})
	outs := x.runDefers(x.execBlock(fi.Decl.Body.List, st, fr), fr)
	ret := 0
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		vals := o.vals
		if o.kind == oNormal {
			for _, c := range fr.results {
				vals = append(vals, o.st.cell(c))
			}
		} else if o.kind != oReturn {
			rep.Err = "stray branch"
			return
		}
		ret++
		x.paths++
		if smoke {
			x.vcs = append(x.vcs, &VC{Fn: key, Name: "smoke", Kind: "cover", Pos: posStr(fi.Decl.Pos()), Hyps: o.st.pc[:len(o.st.pc):len(o.st.pc)], Goal: tFalse, Cover: true, Path: o.st.path})
		}
		x.checkPost(o.st, c, vals, fi.Pkg.Types, fi.Decl.Pos())
	}
	if ret == 0 {
		rep.Err = "no path returns"
	}
	return
}

var ghostVars = map[string]Sort{}
var debugPanic = false

// smoke asks, for every path, whether its hypotheses are contradictory.
var smoke = os.Getenv("GOVC_SMOKE") != ""

// frameCheck: nothing outside modifies changed.
func (x *Exec) frameCheck(st *State, c *Contract, en *env, vals []Val, pos token.Pos) {
	allowC := map[*Cell][][]int{}
	if x.ncalls != nil {
		allowC[x.ncalls] = [][]int{{}}
		allowC[x.sorting] = [][]int{{}}
	}
	allowB := map[*Back]bool{}
	ghostOK := map[string]bool{}
	memOK := false
	var memAt []struct {
		a *Term
		k string
	}
	een := *en
	een.st = x.entry
	mods := c.Mod
	if len(c.Spoils) > 0 && spoilt(st, vals) {
		mods = append(mods[:len(mods):len(mods)], c.Spoils...)
	}
	for _, m := range mods {
		switch e := m.E.(type) {
		case *ast.StarExpr:
			if p, ok := specEval(e.X, &een).(VPtr); ok && p.Loc != nil && p.Loc.C != nil {
				allowC[p.Loc.C] = append(allowC[p.Loc.C], p.Loc.Path)
			}
		case *ast.SelectorExpr:
			if p, ok := specEval(e.X, &een).(VPtr); ok && p.Loc != nil && p.Loc.C != nil {
				s := p.Elem.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == e.Sel.Name {
						allowC[p.Loc.C] = append(allowC[p.Loc.C], append(append([]int{}, p.Loc.Path...), i))
					}
				}
			}
		case *ast.CallExpr:
			switch exprString(e.Fun) {
			case "elems":
				if s, ok := specEval(e.Args[0], &een).(VSlice); ok && s.B != nil {
					allowB[s.B] = true
				}
			case "memory":
				memOK = true
			case "ghost":
				ghostOK[e.Args[0].(*ast.Ident).Name] = true
			case "load":
				switch u := specEval(e.Args[0], &een).(type) {
				case VUnsafe:
					if u.Loc != nil && u.Loc.C != nil {
						allowC[u.Loc.C] = append(allowC[u.Loc.C], u.Loc.Path)
					} else if u.Addr != nil {
						memAt = append(memAt, struct {
							a *Term
							k string
						}{u.Addr, memKind(een.typeArg(e.Args[1]))})
					}
				}
			}
		}
	}
	locals := map[*Cell]bool{}
	for _, cl := range x.top.vars {
		locals[cl] = true
	}
	for _, cl := range x.top.results {
		locals[cl] = true
	}
	var cs []*Cell
	for cl := range st.cells {
		cs = append(cs, cl)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, cl := range cs {
		if locals[cl] {
			continue
		}
		old, ok := x.entry.cells[cl]
		if !ok {
			if old, ok = lazyCells[cl]; !ok {
				continue
			}
		}
		s2 := st
		if cl.ID != nil { // what a nil pointer points to does not count
			s2 = st.clone()
			s2.assume(Not(Eq(cl.ID, I(0))))
			if s2.dead {
				continue
			}
		}
		x.sameExcept(s2, cl.Name, old, st.cells[cl], nil, allowC[cl], pos)
	}
	var bs []*Back
	for b := range st.backs {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	for _, b := range bs {
		old, ok := x.entry.backs[b]
		if !ok {
			if old, ok = lazyBacks[b]; !ok {
				continue
			}
		}
		if allowB[b] {
			continue
		}
		nw := st.backs[b]
		if x.emits && old.Seq != nil && nw.Seq != nil {
			if old.Seq != nw.Seq {
				x.oblige(st, "frame", "elements of "+b.Name, Eq(SeqExtract(nw.Seq, I(0), old.SeqLen), old.Seq), pos)
			}
			continue
		}
		if old.Arr != nil && nw.Arr != nil {
			if old.Arr != nw.Arr {
				x.oblige(st, "frame", "elements of "+b.Name, Eq(old.Arr, nw.Arr), pos)
			}
			continue
		}
		same := old.Arr == nw.Arr && old.Seq == nw.Seq && len(old.Leaves) == len(nw.Leaves)
		for i := range nw.Leaves {
			same = same && nw.Leaves[i] == old.Leaves[i]
		}
		if !same {
			x.oblige(st, "frame", "elements of "+b.Name, tFalse, pos)
		}
	}
	for _, g := range sortedKeys(ghostVars) {
		if !ghostOK[g] && st.ghost[g] != x.entry.ghost[g] {
			x.oblige(st, "frame", "ghost "+g, Eq(st.ghost[g], x.entry.ghost[g]), pos)
		}
	}
	if !memOK {
		if st.memEpoch != nil && x.entry.memEpoch != nil && st.memEpoch != x.entry.memEpoch || st.memEpoch != nil && x.entry.memEpoch == nil && st.memEpoch != Var("mem0", SInt) {
			x.oblige(st, "frame", "memory", tFalse, pos)
		}
		for _, m := range st.mem {
			ok := tFalse
			for _, a := range memAt {
				if a.k == m.kind {
					ok = Or(ok, Eq(a.a, m.addr))
				}
			}
			x.oblige(st, "frame", "memory of type "+m.kind, ok, pos)
		}
	}
}

func (x *Exec) sameExcept(st *State, name string, a, b Val, path []int, allow [][]int, pos token.Pos) {
	for _, p := range allow {
		if len(p) <= len(path) {
			ok := true
			for i := range p {
				if p[i] != path[i] {
					ok = false
				}
			}
			if ok {
				return
			}
		}
	}
	if sameVal(a, b) {
		return
	}
	if s, ok := a.(VStruct); ok {
		t, ok2 := b.(VStruct)
		if ok2 && len(s.F) == len(t.F) {
			u := s.T.Underlying().(*types.Struct)
			for i := range s.F {
				x.sameExcept(st, name+"."+u.Field(i).Name(), s.F[i], t.F[i], append(append([]int{}, path...), i), allow, pos)
			}
			return
		}
	}
	goal := tFalse
	switch s := a.(type) {
	case VInt, VBool, VOpaque:
		func() {
			defer func() { recover() }()
			goal = Eq(termOf(a), termOf(b))
		}()
	case VSlice:
		if t, ok := b.(VSlice); ok && s.B == t.B {
			goal = And(Eq(s.Off, t.Off), Eq(s.Len, t.Len))
		}
	case VIface:
		if t, ok := b.(VIface); ok {
			goal = And(Eq(st.ifaceID(s), st.ifaceID(t)))
		}
	}
	x.oblige(st, "frame", name, goal, pos)
}

// ---- call graph ----

var reachTab map[string]map[string]bool

func buildCallGraph() {
	direct := map[string]map[string]bool{}
	for k, f := range funcs {
		m := map[string]bool{}
		if f.Decl.Body != nil {
			ast.Inspect(f.Decl.Body, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					if o, ok := f.Pkg.Info.Uses[id].(*types.Func); ok {
						if g, ok := byObj[o]; ok {
							m[g.Key] = true
						}
					}
				}
				return true
			})
		}
		direct[k] = m
	}
	reachTab = map[string]map[string]bool{}
	for k := range direct {
		seen := map[string]bool{}
		var rec func(string)
		rec = func(n string) {
			for d := range direct[n] {
				if !seen[d] {
					seen[d] = true
					rec(d)
				}
			}
		}
		rec(k)
		reachTab[k] = seen
	}
}

func sameSCC(a, b string) bool { return reachTab[a][b] && reachTab[b][a] }

// ---- specification functions and lemmas ----

func specDeps(ts []*Term, out map[string]bool) {
	seen := map[*Term]bool{}
	for _, t := range ts {
		walk(t, seen, func(x *Term) {
			if x.op == "app" && specFns[x.name] != nil {
				out[x.name] = true
			}
		})
	}
}

// specVCs: termination and declared ensures of a specification function.
func specVCs(name string) (vcs []*VC, err string) {
	sf := specFns[name]
	if sf == nil || sf.Body == nil || !sf.Rec {
		return nil, ""
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Sprint(r)
		}
	}()
	dec := func(n string, args []*Term) []*Term {
		var out []*Term
		f := specFns[n]
		en := &env{vars: map[string]Val{}}
		for i, p := range f.Params {
			en.vars[strings.TrimPrefix(p.name, n+"$")] = termVal(args[i])
		}
		for _, d := range specDirs[n]["decreases"] {
			for _, t := range splitTop(d, ",") {
				c, err := mkClause(strings.TrimSpace(t), n)
				if err != nil {
					panic(err)
				}
				out = append(out, intOf(specEval(c.E, en)))
			}
		}
		return out
	}
	// does n reach name?
	reaches := map[string]bool{}
	var rec func(n string) bool
	seen := map[string]bool{}
	rec = func(n string) bool {
		if n == name {
			return true
		}
		if seen[n] {
			return reaches[n]
		}
		seen[n] = true
		f := specFns[n]
		if f == nil || f.Body == nil {
			return false
		}
		d := map[string]bool{}
		specDeps([]*Term{f.Body}, d)
		for m := range d {
			if rec(m) {
				reaches[n] = true
			}
		}
		return reaches[n]
	}
	my := dec(name, sf.Params)
	var hypsEns []*Term
	visited := map[string]bool{}
	var visit func(t *Term, g []*Term)
	visit = func(t *Term, g []*Term) {
		switch t.op {
		case "ite":
			visit(t.args[0], g)
			visit(t.args[1], append(g[:len(g):len(g)], t.args[0]))
			visit(t.args[2], append(g[:len(g):len(g)], Not(t.args[0])))
			return
		case "and":
			gg := g[:len(g):len(g)]
			for _, a := range t.args {
				visit(a, gg)
				gg = append(gg, a)
			}
			return
		case "or":
			gg := g[:len(g):len(g)]
			for _, a := range t.args {
				visit(a, gg)
				gg = append(gg, Not(a))
			}
			return
		}
		if t.op == "app" && specFns[t.name] != nil && rec(t.name) {
			key := fmt.Sprint(t.id)
			for _, h := range g {
				key += fmt.Sprintf(",%d", h.id)
			}
			if !visited[key] {
				visited[key] = true
				goal := tFalse
				if ds := dec(t.name, t.args); len(ds) > 0 && len(my) > 0 {
					goal = lexLess(ds, my)
				}
				vcs = append(vcs, &VC{Fn: "spec " + name, Name: "terminates", Kind: "spec", Hyps: append([]*Term{}, g...), Goal: goal, Pos: sf.Pos})
			}
		}
		for _, a := range t.args {
			visit(a, g)
		}
	}
	visit(sf.Body, hypsEns)
	for i, e := range sf.Ensures {
		// by induction: the ensures of recursive calls are available
		m := map[*Term]*Term{sf.Result: sf.Body}
		g := subst(e, m, map[*Term]*Term{})
		vcs = append(vcs, &VC{Fn: "spec " + name, Name: fmt.Sprintf("ensures%d", i+1), Kind: "spec", Goal: g, Pos: sf.Pos, SelfApp: App(sf.Name, sf.Ret, sf.Params...)})
	}
	return vcs, ""
}

// lemmaVCs: the proof of a lemma is its body (case splits and lemma calls).
func lemmaVCs(name string) (vcs []*VC, err string) {
	l := lemmas[name]
	fd := lemmaDecls[name]
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Sprint(r)
		}
	}()
	en := &env{vars: map[string]Val{}}
	for _, p := range l.Params {
		en.vars[strings.TrimPrefix(p.name, name+"$")] = termVal(p)
	}
	decOf := func(lm *Lemma, args []*Term) []*Term {
		e := &env{vars: map[string]Val{}}
		for i, p := range lm.Params {
			e.vars[strings.TrimPrefix(p.name, lm.Name+"$")] = termVal(args[i])
		}
		var out []*Term
		for _, d := range specDirs[lm.Name]["decreases"] {
			for _, t := range splitTop(d, ",") {
				c, err := mkClause(strings.TrimSpace(t), lm.Name)
				if err != nil {
					panic(err)
				}
				out = append(out, intOf(specEval(c.E, e)))
			}
		}
		return out
	}
	cur := token.NoPos
	emit := func(hyps []*Term, nm string, g *Term) {
		where := []string{"line " + strconv.Itoa(specSet.Position(cur).Line)}
		vcs = append(vcs, &VC{Fn: name, Name: nm, Kind: "lemma", Path: where, Hyps: append([]*Term{}, hyps...), Goal: g, Pos: specSet.Position(fd.Pos()).String()})
	}
	var run func(list []ast.Stmt, en *env, hyps []*Term)
	end := func(hyps []*Term) {
		for i, e := range l.Ens {
			emit(hyps, fmt.Sprintf("ensures%d", i+1), e)
		}
	}
	run = func(list []ast.Stmt, en *env, hyps []*Term) {
		if len(list) == 0 {
			end(hyps)
			return
		}
		cur = list[0].Pos()
		switch s := list[0].(type) {
		case *ast.ReturnStmt:
			end(hyps)
		case *ast.IfStmt:
			c := boolOf(specEval(s.Cond, en))
			run(append(append([]ast.Stmt{}, s.Body.List...), list[1:]...), en, append(hyps[:len(hyps):len(hyps)], c))
			var els []ast.Stmt
			switch e := s.Else.(type) {
			case *ast.BlockStmt:
				els = e.List
			case *ast.IfStmt:
				els = []ast.Stmt{e}
			}
			run(append(append([]ast.Stmt{}, els...), list[1:]...), en, append(hyps[:len(hyps):len(hyps)], Not(c)))
		case *ast.AssignStmt:
			n := en.child()
			for i, lh := range s.Lhs {
				n.vars[lh.(*ast.Ident).Name] = specEval(s.Rhs[i], en)
			}
			run(list[1:], n, hyps)
		case *ast.ExprStmt:
			ce := s.X.(*ast.CallExpr)
			cn := exprString(ce.Fun)
			if cn == "assert" {
				g := boolOf(specEval(ce.Args[0], en))
				emit(hyps, "assert", g)
				run(list[1:], en, append(hyps[:len(hyps):len(hyps)], g))
				return
			}
			lm := lemmas[cn]
			if lm != nil {
				usedLemmas[cn] = true
			}
			if lm == nil {
				panic("lemma body calls " + cn)
			}
			var args []*Term
			for _, a := range ce.Args {
				args = append(args, termOf(specEval(a, en)))
			}
			m := map[*Term]*Term{}
			for i, p := range lm.Params {
				m[p] = args[i]
			}
			memo := map[*Term]*Term{}
			for i, r := range lm.Req {
				emit(hyps, fmt.Sprintf("pre[%s.%d]", cn, i+1), subst(r, m, memo))
			}
			if lemmaOrder[cn] >= lemmaOrder[name] {
				if cn != name {
					panic("lemma " + name + " uses later lemma " + cn)
				}
				emit(hyps, "decreases", lexLess(decOf(lm, args), decOf(l, l.Params)))
			}
			nh := hyps[:len(hyps):len(hyps)]
			for _, e := range lm.Ens {
				nh = append(nh, subst(e, m, memo))
			}
			run(list[1:], en, nh)
		default:
			panic(fmt.Sprintf("lemma statement %T", s))
		}
	}
	run(fd.Body.List, en, append([]*Term{}, l.Req...))
	return
}

// ---- bit-vector mode: straight-line word arithmetic, proved in QF_BV ----

func bvFunc(fi *FuncInfo, c *Contract) (vcs []*VC, err string) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Sprint(r)
		}
	}()
	if len(fi.Decl.Body.List) == 0 {
		return nil, "empty body"
	}
	w := 64
	sig := fi.Obj.Type().(*types.Signature)
	if b, ok := sig.Params().At(0).Type().Underlying().(*types.Basic); ok {
		w, _ = intBits(b)
	}
	names := map[string]string{}
	decl := ""
	for i := 0; i < sig.Params().Len(); i++ {
		v := fmt.Sprintf("v%d", i)
		decl += fmt.Sprintf("(declare-const %s (_ BitVec %d))\n", v, w)
		names[sig.Params().At(i).Name()] = v
	}
	lit := func(v *big.Int) string {
		m := new(big.Int).Lsh(big1, uint(w))
		return fmt.Sprintf("(_ bv%s %d)", new(big.Int).Mod(v, m), w)
	}
	bin := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor",
		token.LSS: "bvult", token.LEQ: "bvule", token.GTR: "bvugt", token.GEQ: "bvuge", token.EQL: "=", token.LAND: "and", token.LOR: "or", token.QUO: "bvudiv", token.REM: "bvurem", token.SHL: "bvshl", token.SHR: "bvlshr"}
	var tr func(e ast.Expr, info *types.Info, vars map[string]string) string
	tr = func(e ast.Expr, info *types.Info, vars map[string]string) string {
		if info != nil {
			if tv, ok := info.Types[e]; ok && tv.Value != nil && tv.Value.Kind() == constant.Int {
				n, _ := new(big.Int).SetString(tv.Value.ExactString(), 10)
				return lit(n)
			}
		}
		switch e := e.(type) {
		case *ast.ParenExpr:
			return tr(e.X, info, vars)
		case *ast.BasicLit:
			n, _ := new(big.Int).SetString(e.Value, 0)
			return lit(n)
		case *ast.Ident:
			if v, ok := vars[e.Name]; ok {
				return v
			}
			panic("bv: name " + e.Name)
		case *ast.UnaryExpr:
			switch e.Op {
			case token.XOR:
				return "(bvnot " + tr(e.X, info, vars) + ")"
			case token.NOT:
				return "(not " + tr(e.X, info, vars) + ")"
			case token.SUB:
				return "(bvneg " + tr(e.X, info, vars) + ")"
			}
		case *ast.BinaryExpr:
			a, b := tr(e.X, info, vars), tr(e.Y, info, vars)
			if e.Op == token.NEQ {
				return "(not (= " + a + " " + b + "))"
			}
			if e.Op == token.AND_NOT {
				return "(bvand " + a + " (bvnot " + b + "))"
			}
			if o, ok := bin[e.Op]; ok {
				return "(" + o + " " + a + " " + b + ")"
			}
		case *ast.CallExpr:
			if info != nil {
				if tv, ok := info.Types[e.Fun]; ok && tv.IsType() {
					if b, ok := tv.Type.Underlying().(*types.Basic); ok {
						if n, _ := intBits(b); n == w {
							return tr(e.Args[0], info, vars)
						}
					}
				}
				if id, ok := e.Fun.(*ast.Ident); ok { // call of another such function: expand
					if o, ok := info.Uses[id].(*types.Func); ok {
						if g := byObj[o]; g != nil {
							nv := map[string]string{}
							gs := g.Obj.Type().(*types.Signature)
							for i := range e.Args {
								nv[gs.Params().At(i).Name()] = tr(e.Args[i], info, vars)
							}
							return trBody(g.Decl.Body.List, func(e ast.Expr, v map[string]string) string { return tr(e, g.Pkg.Info, v) }, nv)
						}
					}
				}
				panic("bv: call")
			}
			switch exprString(e.Fun) {
			case "lane":
				k := int(parseInt64(exprString(e.Args[1])))
				if 8*k+8 > w {
					return lit(new(big.Int))
				}
				return fmt.Sprintf("((_ zero_extend %d) ((_ extract %d %d) %s))", w-8, 8*k+7, 8*k, tr(e.Args[0], nil, vars))
			case "iff":
				return "(= " + tr(e.Args[0], nil, vars) + " " + tr(e.Args[1], nil, vars) + ")"
			case "imp":
				return "(=> " + tr(e.Args[0], nil, vars) + " " + tr(e.Args[1], nil, vars) + ")"
			}
			if m, ok := macros[exprString(e.Fun)]; ok {
				nv := map[string]string{}
				for i, p := range m.params {
					nv[p] = tr(e.Args[i], nil, vars)
				}
				return tr(m.body, nil, nv)
			}
		}
		panic(fmt.Sprintf("bv: %T", e))
	}
	res := trBody(fi.Decl.Body.List, func(e ast.Expr, v map[string]string) string { return tr(e, fi.Pkg.Info, v) }, names)
	sv := map[string]string{}
	for i, p := range c.Params {
		sv[p] = names[sig.Params().At(i).Name()]
	}
	sv[c.Results[0]] = "result"
	reqs := ""
	for _, r := range c.Req {
		reqs += "(assert " + tr(r.E, nil, sv) + ")\n"
	}
	for _, e := range c.Ens {
		raw := decl + "(define-fun result () Bool " + res + ")\n" + reqs + "(assert (not " + tr(e.E, nil, sv) + "))\n(check-sat)\n"
		vcs = append(vcs, &VC{Fn: fi.Key, Name: "post[" + e.Label + "]", Kind: "post", Pos: posStr(fi.Decl.Pos()), Goal: tFalse, Raw: raw})
	}
	return
}

// trBody translates a chain of returns and ifs.
func trBody(list []ast.Stmt, tr func(ast.Expr, map[string]string) string, vars map[string]string) string {
	if len(list) == 0 {
		panic("bv: falls off")
	}
	switch s := list[0].(type) {
	case *ast.ReturnStmt:
		return tr(s.Results[0], vars)
	case *ast.IfStmt:
		if s.Init == nil {
			a := trBody(append(append([]ast.Stmt{}, s.Body.List...), list[1:]...), tr, vars)
			rest := list[1:]
			if b, ok := s.Else.(*ast.BlockStmt); ok {
				rest = append(append([]ast.Stmt{}, b.List...), list[1:]...)
			}
			return "(ite " + tr(s.Cond, vars) + " " + a + " " + trBody(rest, tr, vars) + ")"
		}
	case *ast.AssignStmt:
		if len(s.Lhs) == 1 {
			if id, ok := s.Lhs[0].(*ast.Ident); ok {
				if id.Name == "_" {
					return trBody(list[1:], tr, vars)
				}
				if s.Tok == token.DEFINE || s.Tok == token.ASSIGN {
					nv := map[string]string{}
					for k, v := range vars {
						nv[k] = v
					}
					nv[id.Name] = tr(s.Rhs[0], vars)
					return trBody(list[1:], tr, nv)
				}
			}
		}
	}
	panic(fmt.Sprintf("bv: statement %T", list[0]))
}

func parseInt64(s string) int64 {
	var n int64
	fmt.Sscan(s, &n)
	return n
}

func sortedKeys(m map[string]Sort) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
