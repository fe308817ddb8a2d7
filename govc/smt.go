package main

// Verification conditions, bounded ground unfolding of specification functions,
// SMT-LIB printing, and the solver pool.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// VC is one proof obligation: the conjunction of Hyps entails Goal.
type VC struct {
	Fn      string // function under contract (or lemma / spec function)
	Name    string // obligation name, e.g. post[sound], inv[1], bounds
	Kind    string
	Pos     string
	Hyps    []*Term
	Goal    *Term
	Path    []string // human-readable path
	Seeds   []SeedVar
	Cover   bool // expected NOT provable-false: Hyps must be satisfiable
	Prop    []string
	Raw     string          // complete SMT-LIB script (bit-vector mode)
	Hide    map[string]bool // specification functions not to be unfolded
	SelfApp *Term           // application whose own ensures may not be used

	Res     string // "proved", "failed", "unknown"
	Solver  string
	MS      float64
	Model   string
	SMTFile string
}

// SeedVar names an input byte slice whose model value seeds the falsifier.
type SeedVar struct {
	Name          string
	Arr, Off, Len *Term
}

var byteRoots = map[*Term]bool{} // array terms holding bytes

func byteArr(t *Term) bool {
	for {
		if byteRoots[t] {
			return true
		}
		switch t.op {
		case "store", "select":
			t = t.args[0]
		default:
			return false
		}
	}
}

// SpecFn is a recursive specification function.
type SpecFn struct {
	Name     string
	Params   []*Term // variables
	Ret      Sort
	Body     *Term // nil if uninterpreted
	Ensures  []*Term
	Result   *Term
	Rec      bool
	Dec      *Term
	DecReq   *Term
	NoUnfold bool
	Pos      string
}

var specFns = map[string]*SpecFn{}

// Lemma is a proved implication available as a pattern-triggered axiom.
type Lemma struct {
	Name   string
	Params []*Term
	Req    []*Term
	Ens    []*Term
	Pats   [][]*Term
	Auto   bool
}

var lemmas = map[string]*Lemma{}

// usedLemmas: lemmas instantiated by the obligations generated so far.
var usedLemmas = map[string]bool{}

func walk(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		walk(a, seen, f)
	}
	f(t)
}

// prepare returns the full list of assertions for a VC at unfolding depth D.
func prepare(vc *VC, D int) []*Term {
	as, _, _, _ := prepareSel(vc, D, nil)
	return as
}

type pend struct{ app, eq *Term }

// prepareSel also unfolds the applications in sel at any depth, and gives the
// applications that were not unfolded with their defining equations.
func prepareSel(vc *VC, D int, sel map[*Term]bool) ([]*Term, []pend, map[*Term][]*Term, map[*Term]bool) {
	owned, isOwned := map[*Term][]*Term{}, map[*Term]bool{}
	var pending []pend
	dupe := map[*Term]bool{}
	asserts := append([]*Term{}, vc.Hyps...)
	if !vc.Cover {
		asserts = append(asserts, Not(vc.Goal))
	}
	seen := map[*Term]bool{}
	depth := map[*Term]int{}
	done := map[*Term]bool{}
	var apps []*Term
	var bo, late []*Term
	renders := map[*Term][]*Term{}
	addTerms := func(t *Term, d int) {
		walk(t, seen, func(x *Term) {
			if x.op == "app" && !x.bnd {
				if x.name == "bytesOf" {
					bo = append(bo, x)
				} else if x.name == "render" {
					a := x.args[1]
					renders[a] = append(renders[a], x)
					if sf := specFns[a.name]; done[a] && sf != nil && sf.Body != nil && !sf.NoUnfold && !vc.Hide[a.name] {
						late = append(late, x)
					}
				} else if sf := specFns[x.name]; sf != nil {
					if _, ok := depth[x]; !ok {
						depth[x] = d
						apps = append(apps, x)
					}
				}
			}
		})
	}
	for _, a := range asserts {
		addTerms(a, 0)
	}
	var extra []*Term
	pushO := func(owner, t *Term, d int) {
		if t.isTrue() {
			return
		}
		if owner != nil && !isOwned[t] {
			isOwned[t] = true
			owned[owner] = append(owned[owner], t)
		}
		extra = append(extra, t)
		addTerms(t, d)
	}
	push := func(t *Term, d int) { pushO(nil, t, d) }
	expand := func() {
		for i := 0; i < len(apps); i++ {
			x := apps[i]
			if done[x] {
				continue
			}
			done[x] = true
			sf := specFns[x.name]
			m := map[*Term]*Term{}
			for k, p := range sf.Params {
				m[p] = x.args[k]
			}
			if sf.Result != nil {
				m[sf.Result] = x
			}
			memo := map[*Term]*Term{}
			if x == vc.SelfApp {
				continue
			}
			for _, e := range sf.Ensures {
				pushO(x, subst(e, m, memo), depth[x]+1)
			}
			if sf.Body != nil && !sf.NoUnfold && !vc.Hide[x.name] {
				if depth[x] < D || sel[x] {
					body := subst(sf.Body, m, memo)
					pushO(x, Eq(x, body), depth[x]+1)
					for _, r := range renders[x] {
						pushO(x, Eq(r, Render(r.args[0], body)), depth[x]+1)
					}
				} else if sel != nil && !dupe[x] {
					dupe[x] = true
					pending = append(pending, pend{x, Eq(x, subst(sf.Body, m, memo))})
				}
			}
		}
	}
	expand()
	// sequence views of arrays
	boSeen := map[[2]*Term]bool{}
	for round := 0; round < 2; round++ {
		cur := append([]*Term{}, bo...)
		if len(cur) > 40 {
			cur = cur[:40]
		}
		for _, x := range cur {
			for _, y := range cur {
				if x == y || boSeen[[2]*Term{x, y}] || x.args[0] != y.args[0] {
					continue
				}
				boSeen[[2]*Term{x, y}] = true
				a := x.args[0]
				if x.args[1] == y.args[1] { // [i,j) and [i,k): if j<=k split y
					j, k := x.args[2], y.args[2]
					push(Imp(And(Le(x.args[1], j), Le(j, k)), Eq(y, Cat(x, BytesOf(a, j, k)))), 9)
				} else if x.args[2] == y.args[2] { // [i,k) and [j,k): if i<=j<=k split x
					i, j, k := x.args[1], y.args[1], x.args[2]
					push(Imp(And(Le(i, j), Le(j, k)), Eq(x, Cat(BytesOf(a, i, j), y))), 9)
				} else if x.args[2] == y.args[1] {
					i, j, k := x.args[1], x.args[2], y.args[2]
					push(Imp(And(Le(i, j), Le(j, k)), Eq(BytesOf(a, i, k), Cat(x, y))), 9)
				}
			}
		}
	}
	// sequence length and element facts
	lenDone := map[*Term]bool{}
	nthDone, viewDone, views := map[*Term]bool{}, map[*Term]bool{}, map[*Term]*Term{}
	for again := true; again; {
		again = false
		expand()
		for len(late) > 0 {
			x := late[0]
			late = late[1:]
			a := x.args[1]
			if depth[a] >= D && !sel[a] {
				continue
			}
			sf := specFns[a.name]
			m := map[*Term]*Term{}
			for k, p := range sf.Params {
				m[p] = a.args[k]
			}
			pushO(a, Eq(x, Render(x.args[0], subst(sf.Body, m, map[*Term]*Term{}))), depth[a]+1)
			again = true
		}
		var all []*Term
		walkAll := map[*Term]bool{}
		for _, l := range [][]*Term{asserts, extra} {
			for _, t := range l {
				walk(t, walkAll, func(x *Term) { all = append(all, x) })
			}
		}
		for _, x := range all {
			if x.op == "app" && x.name == "arrView" && !x.bnd {
				views[x.args[0]] = x
			}
		}
		for _, x := range all {
			if x.bnd {
				continue
			}
			if x.op == "app" && x.name == "bytesOf" && !lenDone[x] {
				lenDone[x] = true
				a, i, j := x.args[0], x.args[1], x.args[2]
				pushO(x, Eq(mk("seq.len", "", SInt, nil, x), Ite(Le(i, j), Sub(j, i), I(0))), 9)
				_ = a
				again = true
			}
			if n := seqLens[x]; n != nil && !lenDone[x] {
				lenDone[x] = true
				pushO(x, Eq(mk("seq.len", "", SInt, nil, x), n), 9)
				again = true
			}
			if x.op == "seq.nth" && !nthDone[x] {
				nthDone[x] = true
				pushO(x, And(Le(I(0), x), Le(x, I(255))), 9)
				s, k := x.args[0], x.args[1]
				if s.op == "app" && s.name == "bytesOf" {
					pushO(x, Imp(And(Le(I(0), k), Lt(k, Sub(s.args[2], s.args[1]))),
						Eq(x, Select(s.args[0], Add(s.args[1], k)))), 9)
				}
				again = true
			}
			if x.op == "seq.nth" && !viewDone[x] && views[x.args[0]] != nil {
				viewDone[x] = true
				k := x.args[1]
				pushO(x, Imp(And(Le(I(0), k), Lt(k, mk("seq.len", "", SInt, nil, x.args[0]))), Eq(x, Select(views[x.args[0]], k))), 9)
				again = true
			}
			if x.op == "select" && x.sort == SInt && !nthDone[x] && byteArr(x.args[0]) {
				nthDone[x] = true
				pushO(x, And(Le(I(0), x), Le(x, I(255))), 9)
			}
		}
	}
	// pattern lemmas: only those all of whose pattern symbols occur
	names := map[string]bool{}
	for x := range seen {
		if x.op == "app" {
			names[x.name] = true
		}
	}
	var lnames []string
	for n := range lemmas {
		lnames = append(lnames, n)
	}
	sort.Strings(lnames)
	for _, n := range lnames {
		l := lemmas[n]
		if !l.Auto || n == vc.Fn || vcNoLemma(vc, n) {
			continue
		}
		use := false
		for _, p := range l.Pats {
			ok := true
			for _, t := range p {
				if t.op == "app" && !names[t.name] {
					ok = false
				}
			}
			use = use || ok
		}
		if use {
			extra = append(extra, lemmaAxiom(l))
		}
	}
	return append(asserts, extra...), pending, owned, isOwned
}

// lazySolve unfolds only those definitions the current candidate model
// violates, to any depth.
func lazySolve(vc *VC, z *z3proc, ms int) (string, *z3proc) {
	t0 := time.Now()
	sel := map[*Term]bool{}
	for round := 0; round < 40; round++ {
		left := ms - int(time.Since(t0).Milliseconds())
		if left < 200 {
			return "timeout", z
		}
		w0 := time.Now()
		termMu.Lock()
		t0 = t0.Add(time.Since(w0)) // waiting for the others does not count
		asserts, pending, owned, isOwned := prepareSel(vc, 1, sel)
		p := &printer{refs: map[*Term]int{}, names: map[*Term]string{}, decl: map[string]bool{}}
		for _, a := range asserts {
			p.count(a)
		}
		for _, q := range pending {
			p.count(q.eq)
		}
		for _, a := range asserts {
			s := p.str(a)
			fmt.Fprintf(&p.sb, "(assert %s)\n", s)
		}
		var gv []string
		for k, q := range pending {
			s := p.str(q.eq)
			fmt.Fprintf(&p.sb, "(define-fun pe!%d () Bool %s)\n", k, s)
			gv = append(gv, fmt.Sprintf("pe!%d", k))
		}
		var bools []*Term
		seenB := map[*Term]bool{}
		for _, a := range asserts {
			walk(a, seenB, func(t *Term) {
				if t.sort == SBool && !t.bnd && t.op != "pat" && t.op != "true" && t.op != "false" {
					bools = append(bools, t)
				}
			})
		}
		for k, t := range bools {
			s := p.str(t)
			fmt.Fprintf(&p.sb, "(define-fun be!%d () Bool %s)\n", k, s)
			gv = append(gv, fmt.Sprintf("be!%d", k))
		}
		scr := strings.Join(p.decls, "\n") + "\n" + p.sb.String() + "(check-sat)\n"
		if len(gv) > 0 {
			scr += "(get-value (" + strings.Join(gv, " ") + "))\n"
		}
		termMu.Unlock()
		if z == nil {
			z = startZ3()
		}
		out, ok := z.run(scr, left)
		if !ok {
			z.kill()
			return "timeout", startZ3()
		}
		ans := firstLine(out)
		if ans == "unsat" {
			return ans, z
		}
		if !strings.Contains(out, "!0 ") {
			return ans, z
		}
		val := map[string]bool{}
		for _, m := range strings.Split(out, "(")[1:] {
			f := strings.Fields(strings.ReplaceAll(m, ")", " "))
			if len(f) >= 2 {
				val[f[0]] = f[1] == "true"
			}
		}
		bval := map[*Term]bool{}
		for k, t := range bools {
			bval[t] = val[fmt.Sprintf("be!%d", k)]
		}
		rel := map[*Term]bool{}
		var visit func(t *Term)
		pick := func(ts []*Term, want bool) {
			for _, t := range ts {
				if rel[t] && bval[t] == want {
					return
				}
			}
			for _, t := range ts {
				if bval[t] == want {
					visit(t)
					return
				}
			}
			for _, t := range ts {
				visit(t)
			}
		}
		visit = func(t *Term) {
			if rel[t] {
				return
			}
			rel[t] = true
			for _, o := range owned[t] {
				visit(o)
			}
			switch t.op {
			case "ite":
				visit(t.args[0])
				if t.args[0].isTrue() || bval[t.args[0]] {
					visit(t.args[1])
				} else {
					visit(t.args[2])
				}
				return
			case "and":
				if !bval[t] {
					pick(t.args, false)
					return
				}
			case "or":
				if bval[t] {
					pick(t.args, true)
					return
				}
			case "=>":
				if bval[t] {
					if !bval[t.args[0]] && !t.args[0].isTrue() {
						visit(t.args[0])
					} else {
						visit(t.args[1])
					}
					return
				}
			}
			for _, a := range t.args {
				visit(a)
			}
		}
		for i, a := range asserts {
			if i <= len(vc.Hyps) || !isOwned[a] {
				visit(a)
			}
		}
		n, nrel := 0, 0
		for k, q := range pending {
			if rel[q.app] {
				nrel++
				if !val[fmt.Sprintf("pe!%d", k)] {
					sel[q.app] = true
					n++
				}
			}
		}
		if n == 0 && round < 25 {
			for _, q := range pending {
				if rel[q.app] && n < 8 {
					sel[q.app] = true
					n++
				}
			}
		}
		if os.Getenv("GOVC_LAZY") != "" {
			fmt.Fprintf(os.Stderr, "lazy %s %s round %d: %s %d pending %d relevant %d selected %dms\n", vc.Fn, vc.Name, round, ans, len(pending), nrel, n, time.Since(t0).Milliseconds())
		}
		if n == 0 {
			return ans, z
		}
	}
	return "unknown", z
}

// A lemma may be used automatically only in VCs that come after it in the
// lemma order (to rule out circular arguments).
var lemmaOrder = map[string]int{}

func vcNoLemma(vc *VC, n string) bool {
	if o, ok := lemmaOrder[vc.Fn]; ok {
		return lemmaOrder[n] >= o
	}
	return false
}

func lemmaAxiom(l *Lemma) *Term {
	m := map[*Term]*Term{}
	var bvs []*Term
	for _, p := range l.Params {
		b := BVar("?"+strings.TrimPrefix(p.name, l.Name+"$"), p.sort)
		m[p] = b
		bvs = append(bvs, b)
	}
	memo := map[*Term]*Term{}
	body := subst(Imp(And(l.Req...), And(l.Ens...)), m, memo)
	q := &Term{op: "forall", sort: SBool, args: append([]*Term{body}, bvs...), bnd: true}
	termCount++
	q.id = termCount
	for _, p := range l.Pats {
		var ts []*Term
		for _, t := range p {
			ts = append(ts, subst(t, m, memo))
		}
		pt := &Term{op: "pat", sort: SBool, args: ts, bnd: true}
		termCount++
		pt.id = termCount
		q.args = append(q.args, pt)
	}
	return q
}

// Forall builds a quantified term over integer variable v.
func Forall(v *Term, body *Term, pats ...*Term) *Term {
	q := &Term{op: "forall", sort: SBool, args: []*Term{body, v}, bnd: false}
	termCount++
	q.id = termCount
	for _, p := range pats {
		pt := &Term{op: "pat", sort: SBool, args: []*Term{p}, bnd: true}
		termCount++
		pt.id = termCount
		q.args = append(q.args, pt)
	}
	return q
}

type printer struct {
	sb    strings.Builder
	refs  map[*Term]int
	names map[*Term]string
	decl  map[string]bool
	decls []string
}

func smtName(n string) string {
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!') {
			return "|" + n + "|"
		}
	}
	return n
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
	switch t.op {
	case "var":
		n := smtName(t.name)
		if !p.decl[n] {
			p.decl[n] = true
			p.decls = append(p.decls, fmt.Sprintf("(declare-const %s %s)", n, t.sort.smt()))
		}
	case "app":
		n := smtName(t.name)
		if !p.decl[n] {
			p.decl[n] = true
			var as []string
			for _, a := range t.args {
				as = append(as, a.sort.smt())
			}
			p.decls = append(p.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(as, " "), t.sort.smt()))
		}
	}
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	var s string
	switch t.op {
	case "int":
		if t.iv.Sign() < 0 {
			s = "(- " + new(big.Int).Neg(t.iv).String() + ")"
		} else {
			s = t.iv.String()
		}
		return s
	case "true", "false":
		return t.op
	case "var", "bvar":
		return smtName(t.name)
	case "seq.empty":
		return "(as seq.empty (Seq Int))"
	case "constarr":
		s = "((as const " + t.sort.smt() + ") " + p.str(t.args[0]) + ")"
	case "forall":
		var vs, ps []string
		for _, a := range t.args[1:] {
			if a.op == "pat" {
				var ts []string
				for _, x := range a.args {
					ts = append(ts, p.str(x))
				}
				ps = append(ps, ":pattern ("+strings.Join(ts, " ")+")")
			} else {
				vs = append(vs, "("+smtName(a.name)+" "+a.sort.smt()+")")
			}
		}
		b := p.str(t.args[0])
		if len(ps) > 0 {
			b = "(! " + b + " " + strings.Join(ps, " ") + ")"
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + b + ")"
	default:
		op := t.op
		if op == "app" {
			op = smtName(t.name)
		}
		if len(t.args) == 0 {
			s = op
			break
		}
		var sb strings.Builder
		sb.WriteString("(" + op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(p.str(a))
		}
		sb.WriteByte(')')
		s = sb.String()
	}
	if p.refs[t] > 1 && !hasBound(t) && len(t.args) > 0 {
		n := fmt.Sprintf("t!%d", t.id)
		p.names[t] = n
		fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, t.sort.smt(), s)
		return n
	}
	return s
}

func hasBound(t *Term) bool { return t.bnd }

func script(asserts []*Term, getval []*Term) string {
	p := &printer{refs: map[*Term]int{}, names: map[*Term]string{}, decl: map[string]bool{}}
	for _, a := range asserts {
		p.count(a)
	}
	for _, g := range getval {
		p.count(g)
	}
	for _, a := range asserts {
		s := p.str(a)
		fmt.Fprintf(&p.sb, "(assert %s)\n", s)
	}
	var gv []string
	for _, g := range getval {
		gv = append(gv, p.str(g))
	}
	out := strings.Join(p.decls, "\n") + "\n" + p.sb.String() + "(check-sat)\n"
	if len(gv) > 0 {
		out += "(get-value (" + strings.Join(gv, " ") + "))\n"
	}
	return out
}

// Solver processes.

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startZ3() *z3proc {
	cmd := exec.Command("z3-new", "-in")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		return nil
	}
	return &z3proc{cmd, in, bufio.NewReaderSize(out, 1<<16)}
}

func (z *z3proc) kill() {
	if z == nil {
		return
	}
	z.in.Close()
	z.cmd.Process.Kill()
	z.cmd.Wait()
}

// run sends a script and returns the answer lines.
func (z *z3proc) run(scr string, ms int) (string, bool) {
	type res struct {
		s  string
		ok bool
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := fmt.Fprintf(z.in, "(reset)\n(set-option :timeout %d)\n%s(echo \"@done\")\n", ms, scr); err != nil {
			ch <- res{"", false}
			return
		}
		var sb strings.Builder
		for {
			l, err := z.out.ReadString('\n')
			if err != nil {
				ch <- res{sb.String(), false}
				return
			}
			if strings.HasPrefix(l, "@done") {
				ch <- res{sb.String(), true}
				return
			}
			sb.WriteString(l)
		}
	}()
	select {
	case r := <-ch:
		return r.s, r.ok
	case <-time.After(time.Duration(ms+2000) * time.Millisecond):
		z.kill()
		return "", false
	}
}

func runOnce(solver string, args []string, scr string, ms int) string {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+500)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, solver, args...)
	cmd.Stdin = strings.NewReader(scr)
	out, _ := cmd.Output()
	return string(out)
}

var solverMS int64 // total solver milliseconds (atomic)

type attempt struct {
	solver string
	depth  int
	ms     int
}

var attempts = []attempt{{"z3-new", 1, 1500}, {"lazy", 1, 8000}, {"z3-new", 2, 3000}, {"cvc5", 1, 4000}, {"z3-new", 4, 6000}, {"cvc5", 3, 6000}, {"z3", 2, 5000}}

var termMu sync.Mutex

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
	return ""
}

var dumpDir = os.Getenv("GOVC_DUMP")

var seqMemo = map[*Term]bool{}

func hasSeq(t *Term) bool {
	termMu.Lock()
	defer termMu.Unlock()
	return hasSeq1(t)
}

func hasSeq1(t *Term) bool {
	if v, ok := seqMemo[t]; ok {
		return v
	}
	r := t.sort == SSeq
	for _, a := range t.args {
		r = r || hasSeq1(a)
	}
	seqMemo[t] = r
	return r
}

// discharge proves all VCs using nworkers parallel solver pools.
func discharge(vcs []*VC, nworkers int, deadline time.Time) {
	jobs := make(chan *VC)
	var wg sync.WaitGroup
	var fails sync.Map // fn -> *int32 of failing VCs
	for w := 0; w < nworkers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			z := startZ3()
			defer func() { z.kill() }()
			for vc := range jobs {
				v, _ := fails.LoadOrStore(vc.Fn, new(int32))
				cnt := v.(*int32)
				z = solveVC(vc, z, atomic.LoadInt32(cnt), deadline)
				if vc.Res != "proved" {
					atomic.AddInt32(cnt, 1)
				}
			}
		}()
	}
	for _, vc := range vcs {
		jobs <- vc
	}
	close(jobs)
	wg.Wait()
	retry(vcs, deadline)
}

// retry gives a few unproved obligations more time, two at once, so that a busy
// machine does not turn a slow proof into a failure.
func retry(vcs []*VC, deadline time.Time) {
	if noRetry {
		return
	}
	var left []*VC
	for _, vc := range vcs {
		if vc.Res != "proved" {
			if vc.Cover || vc.Raw != "" || vc.Solver == "z3-new/lazy:sat" {
				return
			}
			left = append(left, vc)
		}
	}
	if len(left) == 0 || len(left) > 6 {
		return
	}
	if d := time.Now().Add(100 * time.Second); d.Before(deadline) {
		deadline = d
	}
	limitScale = 3
	defer func() { limitScale = 1 }()
	var wg sync.WaitGroup
	for w := 0; w < 2; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			z := startZ3()
			defer func() { z.kill() }()
			for i, vc := range left {
				if i%2 == w && time.Now().Before(deadline) {
					z = solveVC(vc, z, 0, deadline)
				}
			}
		}()
	}
	wg.Wait()
}

var noRetry = os.Getenv("GOVC_NORETRY") != ""

var limitScale = 1 // multiplies the time limits

func solveVC(vc *VC, z *z3proc, nfail int32, deadline time.Time) *z3proc {
	t0 := time.Now()
	defer func() {
		vc.MS = float64(time.Since(t0).Microseconds()) / 1000
		atomic.AddInt64(&solverMS, time.Since(t0).Milliseconds())
	}()
	if vc.Raw != "" {
		vc.Res = "failed"
		for _, sv := range []string{"z3-new", "cvc5"} {
			var ans string
			if sv == "cvc5" {
				ans = firstLine(runOnce("cvc5", []string{"--tlimit=20000"}, "(set-logic QF_BV)\n"+vc.Raw, 20000))
			} else {
				ans = firstLine(runOnce("z3-new", []string{"-in", "-t:10000"}, vc.Raw, 10000))
			}
			if ans == "unsat" {
				vc.Res, vc.Solver = "proved", sv+"/bv"
				return z
			}
			vc.Solver = sv + ":" + ans
			if ans == "sat" {
				return z
			}
		}
		return z
	}
	if !vc.Cover {
		if vc.Goal.isTrue() {
			vc.Res, vc.Solver = "proved", "simplifier"
			return z
		}
		for _, h := range vc.Hyps {
			if h.isFalse() {
				vc.Res, vc.Solver = "proved", "simplifier"
				return z
			}
			if h == vc.Goal {
				vc.Res, vc.Solver = "proved", "simplifier"
				return z
			}
		}
	}
	as := attempts
	if vc.Cover {
		as = []attempt{{"z3-new", 1, 1500}}
		if vc.Name == "smoke" {
			as = []attempt{{"lazy", 1, 2500}}
		}
	}
	if nfail >= 3 {
		as = attempts[:1]
	} else if nfail >= 1 {
		as = attempts[:3]
	}
	vc.Res = "unknown"
	if !vc.Cover && hasSeq(vc.Goal) {
		termMu.Lock()
		done := substSeq(vc)
		termMu.Unlock()
		if done {
			vc.Res, vc.Solver = "proved", "rewriting"
			return z
		}
	}
	w := vc // with quantified hypotheses instantiated
	if !vc.Cover {
		termMu.Lock()
		iv := instantiate(vc)
		termMu.Unlock()
		if iv != nil {
			var ans string
			ms := 5000 * limitScale
			if nfail >= 3 {
				ms = 2000
			}
			ans, z = lazySolve(iv, z, ms)
			if ans == "unsat" {
				vc.Res, vc.Solver = "proved", "z3-new/inst"
				return z
			}
			w = iv
		}
	}
	if !vc.Cover && !hasSeq(vc.Goal) {
		// sequences are expensive: first without the hypotheses about them
		var hs []*Term
		for _, h := range vc.Hyps {
			if !hasSeq(h) {
				hs = append(hs, h)
			}
		}
		if len(hs) < len(vc.Hyps) {
			lite := *vc
			lite.Hyps = hs
			var ans string
			ms := 6000 * limitScale
			if nfail >= 3 {
				ms = 2000
			}
			ans, z = lazySolve(&lite, z, ms)
			if ans == "unsat" {
				vc.Res, vc.Solver = "proved", "z3-new/lazy"
				return z
			}
		}
	}
	if !vc.Cover && nfail < 3 && hasSeq(vc.Goal) {
		termMu.Lock()
		eq := antisym(w)
		done := rewriteSeq(w) || eq != nil && rewriteSeq(eq)
		termMu.Unlock()
		if done {
			vc.Res, vc.Solver = "proved", "rewriting"
			return z
		}
		if eq != nil {
			termMu.Lock()
			scr := script(prepare(eq, 0), nil)
			termMu.Unlock()
			if z == nil {
				z = startZ3()
			}
			out, ok := z.run(scr, 1500*limitScale)
			if !ok {
				z.kill()
				z = startZ3()
			} else if firstLine(out) == "unsat" {
				vc.Res, vc.Solver = "proved", "z3-new/eq"
				return z
			}
			ans := ""
			ans, z = lazySolve(eq, z, 3000*limitScale)
			if ans == "unsat" {
				vc.Res, vc.Solver = "proved", "z3-new/eq"
				return z
			}
		}
	}
	if !vc.Cover && nfail < 3 {
		termMu.Lock()
		gen := generalise(w)
		termMu.Unlock()
		if gen != nil {
			termMu.Lock()
			scr := script(prepare(gen, 1), nil)
			termMu.Unlock()
			if z == nil {
				z = startZ3()
			}
			out, ok := z.run(scr, 1500*limitScale)
			if !ok {
				z.kill()
				z = startZ3()
			} else if firstLine(out) == "unsat" {
				vc.Res, vc.Solver = "proved", "z3-new/gen"
				return z
			}
			ans := ""
			ans, z = lazySolve(gen, z, 4000*limitScale)
			if ans == "unsat" {
				vc.Res, vc.Solver = "proved", "z3-new/gen"
				return z
			}
		}
	}
	for _, a := range as {
		a.ms *= limitScale
		if time.Now().After(deadline) {
			vc.Solver = "deadline"
			return z
		}
		termMu.Lock()
		asserts := prepare(vc, a.depth)
		scr := script(asserts, nil)
		termMu.Unlock()
		if dumpDir != "" {
			os.MkdirAll(dumpDir, 0o755)
			fn := fmt.Sprintf("%s/%s_%s_%d_d%d.smt2", dumpDir, strings.ReplaceAll(vc.Fn, "/", "_"), strings.Map(func(r rune) rune {
				if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
					return r
				}
				return '_'
			}, vc.Name), vc.Goal.id, a.depth)
			os.WriteFile(fn, []byte("(set-logic ALL)\n"+scr), 0o644)
			vc.SMTFile = fn
		}
		var ans string
		switch a.solver {
		case "z3-new":
			if z == nil {
				z = startZ3()
			}
			out, ok := z.run(scr, a.ms)
			if !ok {
				z.kill()
				z = startZ3()
				ans = "timeout"
			} else {
				ans = firstLine(out)
			}
		case "lazy":
			ans, z = lazySolve(vc, z, a.ms)
			if ans == "sat" && !vc.Cover && !strings.Contains(scr, "seq.") {
				vc.Solver, vc.Res = "z3-new/lazy:sat", "failed"
				return z
			}
		case "cvc5":
			ans = firstLine(runOnce("cvc5", []string{fmt.Sprintf("--tlimit=%d", a.ms), "--arrays-exp"}, "(set-logic ALL)\n"+scr, a.ms))
		case "z3":
			ans = firstLine(runOnce("z3", []string{"-in", fmt.Sprintf("-t:%d", a.ms)}, scr, a.ms))
		}
		if vc.Cover {
			switch ans {
			case "unsat":
				vc.Res, vc.Solver = "failed", a.solver
			default:
				vc.Res, vc.Solver = "proved", a.solver
			}
			return z
		}
		if strings.HasPrefix(ans, "(error") {
			vc.Model = ans
		}
		if ans == "unsat" {
			vc.Res, vc.Solver = "proved", fmt.Sprintf("%s/d%d", a.solver, a.depth)
			return z
		}
		vc.Solver = a.solver + ":" + ans
		if ans == "sat" {
			vc.Res = "failed"
		}
	}
	return z
}

// modelSeeds asks for a (bounded) model of the negated obligation and returns
// byte strings for the input slices.
func modelSeeds(vc *VC) [][]byte {
	if len(vc.Seeds) == 0 {
		return nil
	}
	termMu.Lock()
	cp := *vc
	cp.Hyps = append([]*Term{}, vc.Hyps...)
	const K = 24
	var gv []*Term
	for _, s := range vc.Seeds {
		cp.Hyps = append(cp.Hyps, Le(s.Len, I(K)))
		gv = append(gv, s.Len)
		for k := int64(0); k < K; k++ {
			gv = append(gv, Select(s.Arr, Add(s.Off, I(k))))
		}
	}
	asserts := prepare(&cp, 2)
	scr := script(asserts, gv)
	termMu.Unlock()
	out := runOnce("z3-new", []string{"-in", "-t:2500"}, scr, 2500)
	if !strings.HasPrefix(out, "sat") && !strings.HasPrefix(out, "unknown") {
		return nil
	}
	// values in order: parse "(expr value)" pairs by scanning the final token
	vals := parseValues(out)
	var res [][]byte
	idx := 0
	for range vc.Seeds {
		if idx+1+K > len(vals) {
			break
		}
		n := vals[idx]
		idx++
		if n < 0 {
			n = 0
		}
		if n > K {
			n = K
		}
		b := make([]byte, 0, n)
		for k := int64(0); k < K; k++ {
			if k < n {
				b = append(b, byte(vals[idx+int(k)]))
			}
		}
		idx += K
		res = append(res, b)
	}
	return res
}

// parseValues extracts the integer values of a (get-value ...) answer.
func parseValues(out string) []int64 {
	i := strings.IndexByte(out, '(')
	if i < 0 {
		return nil
	}
	s := out[i:]
	var vals []int64
	// s = ((expr val) (expr val) ...)
	pos := 1
	skip := func() {
		for pos < len(s) && strings.IndexByte(" \n\t\r", s[pos]) >= 0 {
			pos++
		}
	}
	sexp := func() string {
		skip()
		st := pos
		if pos >= len(s) {
			return ""
		}
		if s[pos] == '(' {
			d := 0
			for pos < len(s) {
				if s[pos] == '|' {
					pos++
					for pos < len(s) && s[pos] != '|' {
						pos++
					}
				}
				if pos < len(s) && s[pos] == '(' {
					d++
				}
				if pos < len(s) && s[pos] == ')' {
					d--
					if d == 0 {
						pos++
						break
					}
				}
				pos++
			}
			return s[st:pos]
		}
		if s[pos] == '|' {
			pos++
			for pos < len(s) && s[pos] != '|' {
				pos++
			}
			pos++
			return s[st:pos]
		}
		for pos < len(s) && strings.IndexByte(" \n\t\r()", s[pos]) < 0 {
			pos++
		}
		return s[st:pos]
	}
	for {
		skip()
		if pos >= len(s) || s[pos] != '(' {
			break
		}
		pos++
		sexp()
		v := sexp()
		skip()
		pos++ // )
		v = strings.TrimSpace(v)
		neg := false
		if strings.HasPrefix(v, "(-") {
			neg = true
			v = strings.Trim(v[2:], " ()")
		}
		var n int64
		fmt.Sscanf(v, "%d", &n)
		if neg {
			n = -n
		}
		vals = append(vals, n)
	}
	return vals
}

// generalise prepares a goal about sequences: a side of the goal which a
// hypothesis equates with something else becomes an unknown sequence (loop
// invariants have this form), and hypotheses about sequences with no
// connection to the goal are left out. Proving the result proves the goal.
func generalise(vc *VC) *VC {
	n := *vc
	n.Hyps = append([]*Term{}, vc.Hyps...)
	g := vc.Goal
	for g.op == "=>" {
		n.Hyps = append(n.Hyps, g.args[0])
		g = g.args[1]
	}
	if g.op != "=" || g.args[0].sort != SSeq {
		return nil
	}
	sides := map[*Term]bool{}
	var eqs func(t *Term)
	eqs = func(t *Term) {
		switch t.op {
		case "and":
			for _, a := range t.args {
				eqs(a)
			}
		case "=>":
			eqs(t.args[1])
		case "=":
			if t.args[0].sort == SSeq {
				sides[t.args[0]], sides[t.args[1]] = true, true
			}
		}
	}
	for _, h := range n.Hyps {
		eqs(h)
	}
	m := map[*Term]*Term{}
	for _, s := range g.args {
		if sides[s] && len(s.args) > 0 {
			m[s] = Var(freshName("gen"), SSeq)
		}
	}
	if len(m) > 0 {
		memo := map[*Term]*Term{}
		g = subst(g, m, memo)
		for i, h := range n.Hyps {
			n.Hyps[i] = subst(h, m, memo)
		}
	}
	n.Goal = g
	atoms := func(t *Term) map[*Term]bool {
		out := map[*Term]bool{}
		walk(t, map[*Term]bool{}, func(x *Term) {
			if x.sort == SSeq && (x.op == "var" || x.op == "app") {
				out[x] = true
			}
		})
		return out
	}
	live := atoms(g)
	keep := make([]bool, len(n.Hyps))
	ha := make([]map[*Term]bool, len(n.Hyps))
	for i, h := range n.Hyps {
		if hasSeq1(h) {
			ha[i] = atoms(h)
		} else {
			keep[i] = true
		}
	}
	for again := true; again; {
		again = false
		for i, a := range ha {
			if keep[i] {
				continue
			}
			for t := range a {
				if live[t] {
					keep[i] = true
					break
				}
			}
			if keep[i] {
				again = true
				for t := range a {
					live[t] = true
				}
			}
		}
	}
	var hs []*Term
	for i, h := range n.Hyps {
		if keep[i] {
			hs = append(hs, h)
		}
	}
	if len(m) == 0 && len(hs) == len(n.Hyps) {
		return nil
	}
	n.Hyps = hs
	return &n
}

// antisym substitutes the variables which two hypotheses a <= b and b <= a (a
// loop's bound and its exit condition) determine; nil if there are none.
func antisym(vc *VC) *VC {
	le := map[*Term]bool{}
	var ds []*Term
	var add func(t *Term)
	add = func(t *Term) {
		switch t.op {
		case "and":
			for _, a := range t.args {
				add(a)
			}
		case "<=", "<":
			d := Sub(t.args[0], t.args[1])
			if t.op == "<" {
				d = Add(d, I(1))
			}
			if !le[d] {
				le[d] = true
				ds = append(ds, d)
			}
		}
	}
	for _, h := range vc.Hyps {
		add(h)
	}
	hyps, goal := vc.Hyps, vc.Goal
	n := 0
	for _, d := range ds {
		if d.isInt() || !le[Sub(I(0), d)] {
			continue
		}
		l := newLin()
		l.add(d, big1)
		var v *Term
		for _, a := range l.or {
			if k := l.co[a]; a.op == "var" && k.IsInt64() && (k.Int64() == 1 || k.Int64() == -1) && (v == nil || a.id > v.id) {
				v = a
			}
		}
		if v == nil {
			continue
		}
		var val *Term // v = val
		if l.co[v].Sign() > 0 {
			val = Sub(v, d)
		} else {
			val = Add(v, d)
		}
		occurs := false
		walk(val, map[*Term]bool{}, func(x *Term) { occurs = occurs || x == v })
		if occurs {
			continue
		}
		memo, m := map[*Term]*Term{}, map[*Term]*Term{v: val}
		hs := []*Term{}
		for _, h := range hyps {
			hs = append(hs, subst(h, m, memo))
		}
		hyps, goal = hs, subst(goal, m, memo)
		for i := range ds {
			ds[i] = subst(ds[i], m, memo)
		}
		le2 := map[*Term]bool{}
		for t := range le {
			le2[subst(t, m, memo)] = true
		}
		le = le2
		n++
	}
	if n == 0 {
		return nil
	}
	// applications of specification functions with a constant value
	memo, m := map[*Term]*Term{}, map[*Term]*Term{}
	seen := map[*Term]bool{}
	for _, h := range append([]*Term{goal}, hyps...) {
		walk(h, seen, func(x *Term) {
			sf := specFns[x.name]
			if x.op != "app" || x.bnd || sf == nil || sf.Body == nil || sf.NoUnfold || vc.Hide[x.name] || len(sf.Params) != len(x.args) {
				return
			}
			pm := map[*Term]*Term{}
			for k, p := range sf.Params {
				pm[p] = x.args[k]
			}
			if b := subst(sf.Body, pm, map[*Term]*Term{}); len(b.args) == 0 && b.op != "app" {
				m[x] = b
			}
		})
	}
	if len(m) > 0 {
		goal = subst(goal, m, memo)
		for i, h := range hyps {
			hyps[i] = subst(h, m, memo)
		}
	}
	r := *vc
	r.Hyps, r.Goal = nil, goal
	for _, h := range hyps {
		if !h.isTrue() {
			r.Hyps = append(r.Hyps, h)
		}
	}
	return &r
}
