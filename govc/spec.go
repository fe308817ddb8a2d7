package main

// Contract files and specification functions.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func newInt() *big.Int { return new(big.Int) }

type Clause struct {
	Label string
	Text  string
	E     ast.Expr
	Line  string
	Def   bool
	Tag   string // the property the clause is for
}

// placing: a slice field of a pointer shares the memory of an old slice.
type placing struct {
	Field, Of Clause
	If        Clause
}

type LoopSpec struct {
	Assumes []Clause
	Inv     []Clause
	Dec     []Clause
	Use     []Clause
	After   []Clause // lemmas used at the end of an iteration, and what then holds (Def)
}

// mentions reports whether the name n occurs in a clause.
func (l *LoopSpec) mentions(n string) bool {
	if l == nil {
		return false
	}
	found := false
	for _, cs := range [][]Clause{l.Assumes, l.Inv, l.Dec, l.Use, l.After} {
		for _, c := range cs {
			if c.E == nil {
				continue
			}
			ast.Inspect(c.E, func(x ast.Node) bool {
				if id, ok := x.(*ast.Ident); ok && id.Name == n {
					found = true
				}
				return true
			})
		}
	}
	return found
}

type Contract struct {
	Base     string            // function type of which this is a subset
	Only     []string          // the functions which belong to it
	Takes    map[string]string // parameters which are values of a function type under contract
	Trusts   []string          // assumptions, in words known to the engine
	Name     string
	Extern   bool
	Trusted  bool
	FuncType bool
	Inline   bool
	Mode     string
	Params   []string
	Results  []string
	Req, Ens []Clause
	Mod      []Clause
	Dec      []Clause
	Use      []Clause
	Havoc    bool
	InOf     map[string]string // result shares backing of param
	InIf     map[string]Clause // ... when this holds
	Places   []placing         // fields which share the backing of a slice afterwards
	Keeps    []Clause          // memory assumed untouched by calls of function values
	AtCall   []AtCall          // checked at every call of a function value
	Loops    map[int]*LoopSpec
	Pure     bool
	File     string
	Note     string
	Free     bool // extern with no effect on memory
	NoOver   bool
	Emits    *Clause         // items appended to b by an encoder
	Accepts  *Clause         // the condition for err == nil
	Rolls    *Clause         // given an error, the condition for it to be a rollback
	Spoils   []Clause        // modified only when an error other than a rollback is returned
	Assumes  []Clause        // assumed at entry, not checked at calls
	Hide     map[string]bool // specification functions not unfolded in the proof
}

// nonNilFields lists fields which are assumed not nil, as Type.field.
var nonNilFields = map[string]bool{}

// AtCall is an assertion about every call of a function value of type Type.
type AtCall struct {
	Type   string
	Params []string
	C      Clause
}

var contracts = map[string]*Contract{}
var externs = map[string]*Contract{}
var funcTypes = map[string]*Contract{}
var macros = map[string]*macro{}

type macro struct {
	params []string
	body   ast.Expr
}

var keywords = map[string]bool{"requires": true, "ensures": true, "defines": true, "modifies": true, "decreases": true, "loop": true,
	"invariant": true, "use": true, "after": true, "assert": true, "returns": true, "places": true, "mode": true, "trusted": true, "inline": true, "pure": true,
	"func": true, "extern": true, "functype": true, "define": true, "note": true, "nooverflow": true, "hide": true, "keeps": true, "atcall": true,
	"emits": true, "accepts": true, "rolls": true, "spoils": true, "assumes": true, "ghost": true,
	"nonnil": true, "pool": true, "only": true, "takes": true, "trusts": true}

// poolInvs: what holds of the values kept in a sync.Pool, by type.
var poolInvs = map[string][]Clause{}

var headRe = regexp.MustCompile(`^([\w$./:*()-]+?)\(([^()]*)\)\s*(?:\(([^()]*)\))?$`)
var labelRe = regexp.MustCompile(`^([A-Za-z_][\w-]*):\s+`)

func splitNames(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

// arrows rewrites top-level "a ==> b" to imp(a, b), recursively inside parens.
func arrows(s string) string {
	// process innermost parens first by recursive descent
	var out strings.Builder
	i := 0
	for i < len(s) {
		c := s[i]
		if c == '"' || c == '`' {
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' && c == '"' {
					j++
				}
				j++
			}
			out.WriteString(s[i : j+1])
			i = j + 1
			continue
		}
		if c == '\'' {
			j := i + 1
			for j < len(s) && s[j] != '\'' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			out.WriteString(s[i : j+1])
			i = j + 1
			continue
		}
		if c == '(' {
			d := 1
			j := i + 1
			for j < len(s) && d > 0 {
				switch s[j] {
				case '(':
					d++
				case ')':
					d--
				case '"', '`':
					q := s[j]
					j++
					for j < len(s) && s[j] != q {
						if s[j] == '\\' && q == '"' {
							j++
						}
						j++
					}
				case '\'':
					j++
					for j < len(s) && s[j] != '\'' {
						if s[j] == '\\' {
							j++
						}
						j++
					}
				}
				j++
			}
			// arguments separated by top-level commas each processed separately
			out.WriteByte('(')
			parts := splitTop(s[i+1:j-1], ",")
			for k, p := range parts {
				if k > 0 {
					out.WriteByte(',')
				}
				out.WriteString(arrows(p))
			}
			out.WriteByte(')')
			i = j
			continue
		}
		out.WriteByte(c)
		i++
	}
	r := out.String()
	parts := splitTop(r, "==>")
	if len(parts) > 1 {
		t := parts[len(parts)-1]
		for k := len(parts) - 2; k >= 0; k-- {
			t = "imp(" + parts[k] + ", " + t + ")"
		}
		return t
	}
	return r
}

func splitTop(s, sep string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '"', '`':
			q := s[i]
			i++
			for i < len(s) && s[i] != q {
				if s[i] == '\\' && q == '"' {
					i++
				}
				i++
			}
		case '\'':
			i++
			for i < len(s) && s[i] != '\'' {
				if s[i] == '\\' {
					i++
				}
				i++
			}
		default:
			if d == 0 && strings.HasPrefix(s[i:], sep) {
				out = append(out, s[st:i])
				i += len(sep) - 1
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func mkClause(text, where string) (Clause, error) {
	c := Clause{Line: where}
	if m := labelRe.FindStringSubmatch(text); m != nil {
		c.Label = m[1]
		text = text[len(m[0]):]
	}
	c.Text = strings.TrimSpace(text)
	e, err := parser.ParseExpr(arrows(c.Text))
	if err != nil {
		return c, fmt.Errorf("%s: %v in %q", where, err, c.Text)
	}
	c.E = e
	return c, nil
}

// activeProp: the property being checked; "" for all.
var activeProp string

func loadContracts(dir string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.gc"))
	sort.Strings(files)
	for _, f := range files {
		if err := loadContractFile(f); err != nil {
			return err
		}
	}
	return nil
}

func loadContractFile(fn string) error {
	data, err := os.ReadFile(fn)
	if err != nil {
		return err
	}
	type item struct {
		kw, rest, where, tag string
	}
	var items []item
	for n, l := range strings.Split(string(data), "\n") {
		if i := strings.Index(l, "#"); i >= 0 && !strings.Contains(l, "\"") && !strings.Contains(l, "'") {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		w := strings.Fields(t)[0]
		tag := ""
		if w[0] == '@' { // @Cxx clause: for the check of that property only
			if activeProp != "" && w[1:] != activeProp {
				items = append(items, item{kw: "skipped"})
				continue
			}
			tag = w[1:]
			t = strings.TrimSpace(t[len(w):])
			w = strings.Fields(t)[0]
		}
		if keywords[w] {
			items = append(items, item{w, strings.TrimSpace(t[len(w):]), fmt.Sprintf("%s:%d", filepath.Base(fn), n+1), tag})
		} else if len(items) > 0 {
			items[len(items)-1].rest += " " + t
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", fn, n+1, t)
		}
	}
	var cur *Contract
	var loop *LoopSpec
	for _, it := range items {
		mkClause := func(text, where string) (Clause, error) {
			c, err := mkClause(text, where)
			c.Tag = it.tag
			return c, err
		}
		bad := func(f string, a ...interface{}) error { return fmt.Errorf("%s: %s", it.where, fmt.Sprintf(f, a...)) }
		if it.kw == "skipped" {
			continue
		}
		switch it.kw {
		case "define":
			parts := strings.SplitN(it.rest, "=", 2)
			if len(parts) != 2 {
				return bad("define")
			}
			m := headRe.FindStringSubmatch(strings.TrimSpace(parts[0]))
			if m == nil {
				return bad("define head %q", parts[0])
			}
			c, err := mkClause(strings.TrimSpace(parts[1]), it.where)
			if err != nil {
				return err
			}
			macros[m[1]] = &macro{splitNames(m[2]), c.E}
			cur = nil
			continue
		case "ghost":
			for _, f := range strings.Fields(it.rest) {
				n, so, _ := strings.Cut(f, ":")
				ghostVars[n] = map[string]Sort{"int": SInt, "bytes": SSeq, "bool": SBool}[so]
			}
			cur = nil
			continue
		case "pool": // pool TYPE label: invariant of pooled values x
			n, rest, _ := strings.Cut(it.rest, " ")
			c, err := mkClause(rest, it.where)
			if err != nil {
				return err
			}
			poolInvs[n] = append(poolInvs[n], c)
			cur = nil
			continue
		case "nonnil":
			for _, f := range strings.Fields(it.rest) {
				nonNilFields[f] = true
			}
			cur = nil
			continue
		case "func", "extern", "functype":
			m := headRe.FindStringSubmatch(it.rest)
			if m == nil {
				return bad("head %q", it.rest)
			}
			cur = &Contract{Name: m[1], Params: splitNames(m[2]), Results: splitNames(m[3]), InOf: map[string]string{}, Loops: map[int]*LoopSpec{}, File: it.where}
			loop = nil
			switch it.kw {
			case "extern":
				cur.Extern = true
				externs[cur.Name] = cur
			case "functype":
				cur.FuncType = true
				funcTypes[cur.Name] = cur
			default:
				contracts[cur.Name] = cur
			}
			continue
		}
		if cur == nil {
			return bad("clause outside a contract")
		}
		switch it.kw {
		case "emits", "accepts", "rolls", "spoils", "assumes":
			c, err := mkClause(it.rest, it.where)
			if err != nil {
				return err
			}
			switch it.kw {
			case "emits":
				cur.Emits = &c
			case "accepts":
				cur.Accepts = &c
			case "rolls":
				cur.Rolls = &c
			case "spoils":
				cur.Spoils = append(cur.Spoils, c)
			case "assumes":
				if loop != nil {
					loop.Assumes = append(loop.Assumes, c)
				} else {
					cur.Assumes = append(cur.Assumes, c)
				}
			}
		case "requires", "ensures", "defines", "invariant", "decreases", "use", "after", "assert", "modifies":
			if it.kw == "modifies" {
				for _, p := range splitTop(it.rest, ",") {
					c, err := mkClause(strings.TrimSpace(p), it.where)
					if err != nil {
						return err
					}
					cur.Mod = append(cur.Mod, c)
				}
				continue
			}
			var cs []Clause
			if it.kw == "decreases" {
				for _, p := range splitTop(it.rest, ",") {
					c, err := mkClause(strings.TrimSpace(p), it.where)
					if err != nil {
						return err
					}
					cs = append(cs, c)
				}
			} else {
				c, err := mkClause(it.rest, it.where)
				if err != nil {
					return err
				}
				cs = []Clause{c}
			}
			switch it.kw {
			case "requires":
				cur.Req = append(cur.Req, cs...)
			case "ensures":
				cur.Ens = append(cur.Ens, cs...)
			case "defines":
				for i := range cs {
					cs[i].Def = true
				}
				cur.Ens = append(cur.Ens, cs...)
			case "invariant":
				if loop == nil {
					return bad("invariant outside loop")
				}
				loop.Inv = append(loop.Inv, cs...)
			case "decreases":
				if loop != nil {
					loop.Dec = cs
				} else {
					cur.Dec = cs
				}
			case "assert":
				if loop == nil {
					return bad("assert outside loop")
				}
				cs[0].Def = true
				loop.After = append(loop.After, cs...)
			case "after":
				if loop == nil {
					return bad("after outside loop")
				}
				loop.After = append(loop.After, cs...)
			case "use":
				if loop != nil {
					loop.Use = append(loop.Use, cs...)
				} else {
					cur.Use = append(cur.Use, cs...)
				}
			}
		case "loop":
			n, err := strconv.Atoi(strings.TrimSuffix(it.rest, ":"))
			if err != nil {
				return bad("loop %q", it.rest)
			}
			loop = &LoopSpec{}
			cur.Loops[n] = loop
		case "places": // places x.f in slice [if condition]
			m := regexp.MustCompile(`^(\S+) in (.+?)(?: if (.+))?$`).FindStringSubmatch(it.rest)
			if m == nil {
				return bad("places %q", it.rest)
			}
			var p placing
			for i, c := range []*Clause{&p.Field, &p.Of, &p.If} {
				if m[i+1] == "" {
					continue
				}
				var err error
				if *c, err = mkClause(m[i+1], it.where); err != nil {
					return err
				}
			}
			cur.Places = append(cur.Places, p)
		case "returns":
			f := strings.Fields(it.rest)
			if len(f) > 4 && f[3] == "if" {
				c, err := mkClause(strings.Join(f[4:], " "), it.where)
				if err != nil {
					return err
				}
				if cur.InIf == nil {
					cur.InIf = map[string]Clause{}
				}
				cur.InIf[f[0]] = c
				f = f[:3]
			}
			if len(f) != 3 || f[1] != "in" {
				return bad("returns %q", it.rest)
			}
			cur.InOf[f[0]] = f[2]
		case "mode":
			cur.Mode = it.rest
		case "trusted":
			cur.Trusted = true
			cur.Note = it.rest
		case "note":
			cur.Note = it.rest
		case "inline":
			cur.Inline = true
		case "pure":
			cur.Pure = true
		case "only":
			f := strings.Fields(it.rest)
			cur.Base, cur.Only = f[0], f[1:]
		case "takes":
			f := strings.Fields(it.rest)
			if len(f) != 2 {
				return bad("takes")
			}
			if cur.Takes == nil {
				cur.Takes = map[string]string{}
			}
			cur.Takes[f[0]] = f[1]
		case "trusts":
			cur.Trusts = append(cur.Trusts, it.rest)
		case "keeps":
			c, err := mkClause(it.rest, it.where)
			if err != nil {
				return err
			}
			cur.Keeps = append(cur.Keeps, c)
		case "atcall":
			i := strings.Index(it.rest, ")")
			if i < 0 {
				return bad("atcall")
			}
			m := headRe.FindStringSubmatch(it.rest[:i+1])
			if m == nil {
				return bad("atcall %q", it.rest)
			}
			c, err := mkClause(strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(it.rest[i+1:]), ":")), it.where)
			if err != nil {
				return err
			}
			cur.AtCall = append(cur.AtCall, AtCall{m[1], splitNames(m[2]), c})
		case "hide":
			if cur.Hide == nil {
				cur.Hide = map[string]bool{}
			}
			for _, n := range splitNames(it.rest) {
				cur.Hide[n] = true
			}
		case "nooverflow":
			cur.NoOver = true
		}
	}
	return nil
}

// ---- specification functions (a Go file) ----

type specFile struct {
	decls map[string]*ast.FuncDecl
	order []string
}

var specDecls = map[string]*ast.FuncDecl{}
var lemmaDecls = map[string]*ast.FuncDecl{}
var specDirs = map[string]map[string][]string{} // name -> directive -> texts
var specSet = token.NewFileSet()

func specSort(e ast.Expr) Sort {
	if id, ok := e.(*ast.Ident); ok {
		switch id.Name {
		case "int":
			return SInt
		case "bool":
			return SBool
		case "Arr":
			return SArr
		case "Bytes":
			return SSeq
		}
	}
	panic(fmt.Sprintf("spec sort %v", e))
}

func loadSpec(files ...string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("spec: %v", r)
		}
	}()
	type pend struct {
		fd *ast.FuncDecl
		sf *SpecFn
	}
	var ps []pend
	var lms []*ast.FuncDecl
	for _, fn := range files {
		af, err := parser.ParseFile(specSet, fn, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			dirs := map[string][]string{}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					if strings.HasPrefix(t, "@") {
						t = strings.TrimSpace(t[1:])
						w := strings.SplitN(t, " ", 2)
						r := ""
						if len(w) > 1 {
							r = w[1]
						}
						dirs[w[0]] = append(dirs[w[0]], r)
					}
				}
			}
			name := fd.Name.Name
			specDirs[name] = dirs
			if _, ok := dirs["lemma"]; ok {
				lms = append(lms, fd)
				lemmaDecls[name] = fd
				lemmaOrder[name] = len(lms)
				continue
			}
			if _, ok := dirs["exec"]; ok { // executable helper only
				continue
			}
			if fd.Type.Results == nil || len(fd.Type.Results.List) != 1 {
				continue
			}
			sf := &SpecFn{Name: name, Ret: specSort(fd.Type.Results.List[0].Type)}
			for _, f := range fd.Type.Params.List {
				for _, n := range f.Names {
					sf.Params = append(sf.Params, Var(name+"$"+n.Name, specSort(f.Type)))
				}
			}
			for _, p := range sf.Params {
				if p.sort == SArr {
					byteRoots[p] = true
				}
			}
			sf.Result = Var(name+"$result", sf.Ret)
			sf.Pos = specSet.Position(fd.Pos()).String()
			if specFns[name] != nil {
				return fmt.Errorf("duplicate specification function %s", name)
			}
			specFns[name] = sf
			specDecls[name] = fd
			ps = append(ps, pend{fd, sf})
		}
	}
	// bodies; non-recursive functions become macros expanded at construction
	deps := map[string]map[string]bool{}
	for _, p := range ps {
		m := map[string]bool{}
		ast.Inspect(p.fd, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok {
					m[id.Name] = true
				}
			}
			return true
		})
		deps[p.sf.Name] = m
	}
	reach := func(from, to string) bool {
		seen := map[string]bool{}
		var rec func(n string) bool
		rec = func(n string) bool {
			for d := range deps[n] {
				if d == to {
					return true
				}
				if !seen[d] && deps[d] != nil {
					seen[d] = true
					if rec(d) {
						return true
					}
				}
			}
			return false
		}
		return rec(from)
	}
	for _, p := range ps {
		_, un := specDirs[p.sf.Name]["uninterpreted"]
		p.sf.Rec = reach(p.sf.Name, p.sf.Name)
		if _, ok := specDirs[p.sf.Name]["opaque"]; ok {
			p.sf.Rec = true
		}
		if un {
			p.sf.Rec = true
			continue
		}
	}
	bodies := map[string]bool{}
	var build func(name string)
	build = func(name string) {
		if bodies[name] {
			return
		}
		bodies[name] = true
		sf := specFns[name]
		if sf == nil {
			return
		}
		if _, un := specDirs[name]["uninterpreted"]; !un {
			for d := range deps[name] {
				if f := specFns[d]; f != nil && !f.Rec {
					build(d)
				}
			}
			en := &env{vars: map[string]Val{}}
			for _, q := range sf.Params {
				en.vars[strings.TrimPrefix(q.name, name+"$")] = termVal(q)
			}
			sf.Body = specBody(specDecls[name].Body.List, en)
		}
	}
	for _, p := range ps {
		build(p.sf.Name)
	}
	for _, p := range ps {
		for _, t := range specDirs[p.sf.Name]["ensures"] {
			en := &env{vars: map[string]Val{"result": termVal(p.sf.Result)}}
			for _, q := range p.sf.Params {
				en.vars[strings.TrimPrefix(q.name, p.sf.Name+"$")] = termVal(q)
			}
			c, err := mkClause(t, p.sf.Pos)
			if err != nil {
				return err
			}
			p.sf.Ensures = append(p.sf.Ensures, boolOf(specEval(c.E, en)))
		}
	}
	for _, fd := range lms {
		name := fd.Name.Name
		l := &Lemma{Name: name}
		en := &env{vars: map[string]Val{}}
		for _, f := range fd.Type.Params.List {
			for _, n := range f.Names {
				v := Var(name+"$"+n.Name, specSort(f.Type))
				if v.sort == SArr {
					byteRoots[v] = true
				}
				l.Params = append(l.Params, v)
				en.vars[n.Name] = termVal(v)
			}
		}
		for _, t := range specDirs[name]["requires"] {
			c, err := mkClause(t, name)
			if err != nil {
				return err
			}
			l.Req = append(l.Req, boolOf(specEval(c.E, en)))
		}
		for _, t := range specDirs[name]["ensures"] {
			c, err := mkClause(t, name)
			if err != nil {
				return err
			}
			l.Ens = append(l.Ens, boolOf(specEval(c.E, en)))
		}
		for _, t := range specDirs[name]["pattern"] {
			var pat []*Term
			for _, q := range splitTop(t, ";") {
				c, err := mkClause(strings.TrimSpace(q), name)
				if err != nil {
					return err
				}
				pat = append(pat, termOf(specEval(c.E, en)))
			}
			l.Pats = append(l.Pats, pat)
			l.Auto = true
		}
		lemmas[name] = l
	}
	return nil
}

func termVal(t *Term) Val {
	switch t.sort {
	case SInt:
		return VInt{t}
	case SBool:
		return VBool{t}
	case SArr:
		return VArr{t}
	case SSeq:
		return VSeq{t}
	}
	panic("termVal " + string(t.sort))
}

func termOf(v Val) *Term {
	switch x := v.(type) {
	case VInt:
		return x.T
	case VBool:
		return x.T
	case VArr:
		return x.T
	case VSeq:
		return x.T
	case VOpaque:
		return x.ID
	case VPtr:
		if x.ID != nil {
			return x.ID
		}
	case VUnsafe:
		if x.Addr != nil {
			return x.Addr
		}
	case VFunc:
		if x.ID != nil {
			return x.ID
		}
	case VIface:
		if x.ID != nil {
			return x.ID
		}
	case VWord:
		s := I(0)
		m := int64(1)
		for _, l := range x.L {
			s = Add(s, Mul(I(m), l))
			m *= 256
		}
		return s
	}
	panic(unsupported("term of %T", v))
}

// specBody translates a chain of if/switch/return statements to a term.
func specBody(list []ast.Stmt, en *env) *Term {
	if len(list) == 0 {
		panic("spec function falls off its end")
	}
	switch s := list[0].(type) {
	case *ast.ReturnStmt:
		return termOf(specEval(s.Results[0], en))
	case *ast.IfStmt:
		c := boolOf(specEval(s.Cond, en))
		a := specBody(append(append([]ast.Stmt{}, s.Body.List...), list[1:]...), en)
		var b *Term
		switch el := s.Else.(type) {
		case nil:
			b = specBody(list[1:], en)
		case *ast.BlockStmt:
			b = specBody(append(append([]ast.Stmt{}, el.List...), list[1:]...), en)
		case *ast.IfStmt:
			b = specBody(append([]ast.Stmt{el}, list[1:]...), en)
		}
		return Ite(c, a, b)
	case *ast.AssignStmt:
		n := en.child()
		if len(s.Lhs) == len(s.Rhs) {
			for i, l := range s.Lhs {
				n.vars[l.(*ast.Ident).Name] = specEval(s.Rhs[i], en)
			}
		}
		return specBody(list[1:], n)
	case *ast.SwitchStmt:
		var tag Val
		if s.Tag != nil {
			tag = specEval(s.Tag, en)
		}
		type arm struct {
			c *Term
			b []ast.Stmt
		}
		var arms []arm
		def := list[1:]
		for _, cc := range s.Body.List {
			cl := cc.(*ast.CaseClause)
			body := append(append([]ast.Stmt{}, cl.Body...), list[1:]...)
			if cl.List == nil {
				def = body
				continue
			}
			var cs []*Term
			for _, e := range cl.List {
				v := specEval(e, en)
				if tag != nil {
					cs = append(cs, Eq(termOf(tag), termOf(v)))
				} else {
					cs = append(cs, boolOf(v))
				}
			}
			arms = append(arms, arm{Or(cs...), body})
		}
		r := specBody(def, en)
		for i := len(arms) - 1; i >= 0; i-- {
			r = Ite(arms[i].c, specBody(arms[i].b, en), r)
		}
		return r
	}
	panic(fmt.Sprintf("spec statement %T", list[0]))
}

// env is the environment of a specification expression.
type env struct {
	x        *Exec
	st       *State
	entry    *State
	fr       *frame
	pos      token.Pos
	vars     map[string]Val
	olds     map[string]Val // entry values of parameters
	up       *env
	pkg      *types.Package
	backMark int
	items    *Term          // what an encoder appends
	bound    map[string]Val // variables bound by forall
	calls    *Term          // at a call site: the number of function values the callee called
	sortNow  *Term
	sorts    *Term // at a call site: names the permutation the callee applied
}

func (e *env) child() *env {
	n := *e
	n.vars = map[string]Val{}
	n.up = e
	return &n
}

func (e *env) lookup(n string) (Val, bool) {
	for x := e; x != nil; x = x.up {
		if v, ok := x.vars[n]; ok {
			return v, true
		}
	}
	if e.fr != nil {
		if v, ok := e.fr.lookupName(n, e.pos, e.st); ok {
			return v, true
		}
	}
	return nil, false
}

func boolOf(v Val) *Term {
	if b, ok := v.(VBool); ok {
		return b.T
	}
	panic(unsupported("boolean expected, got %T", v))
}
func intOf(v Val) *Term {
	switch x := v.(type) {
	case VInt:
		return x.T
	case VWord:
		return termOf(x)
	case VOpaque:
		return x.ID
	}
	panic(unsupported("integer expected, got %T", v))
}

func specEval(e ast.Expr, en *env) Val {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return specEval(e.X, en)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			n, ok := new(big.Int).SetString(strings.ReplaceAll(e.Value, "_", ""), 0)
			if !ok {
				panic("int literal " + e.Value)
			}
			return VInt{Ibig(n)}
		case token.CHAR:
			s, err := strconv.Unquote(e.Value)
			if err != nil {
				panic(err)
			}
			r := []rune(s)
			return VInt{I(int64(r[0]))}
		case token.STRING:
			s, err := strconv.Unquote(e.Value)
			if err != nil {
				panic(err)
			}
			return VSeq{SeqLit(s)}
		}
	case *ast.Ident:
		switch e.Name {
		case "true":
			return VBool{tTrue}
		case "false":
			return VBool{tFalse}
		case "nil":
			return nil
		case "items":
			if en.items != nil {
				return VSeq{en.items}
			}
		}
		if v, ok := en.lookup(e.Name); ok {
			return v
		}
		if en.pkg != nil {
			o := en.pkg.Scope().Lookup(e.Name)
			if root := pkgs[rootPath]; o == nil && root != nil {
				o = root.Types.Scope().Lookup(e.Name)
			}
			if o != nil {
				switch c := o.(type) {
				case *types.Const:
					return constVal(c.Val(), c.Type())
				case *types.Var:
					if en.x != nil {
						return en.x.globalVal(en.st, c)
					}
				}
			}
		}
		panic(unsupported("unknown name %s", e.Name))
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return VBool{Not(boolOf(specEval(e.X, en)))}
		case token.SUB:
			return VInt{Sub(I(0), intOf(specEval(e.X, en)))}
		}
	case *ast.StarExpr:
		v := specEval(e.X, en)
		p, ok := v.(VPtr)
		if !ok {
			panic(unsupported("spec deref of %T", v))
		}
		return en.x.loadLoc(en.st, p.Loc, p.Elem)
	case *ast.BinaryExpr:
		return specBinary(e, en)
	case *ast.IndexExpr:
		v := specEval(e.X, en)
		i := intOf(specEval(e.Index, en))
		switch x := v.(type) {
		case VArr:
			return VInt{Select(x.T, i)}
		case VSeq:
			return VInt{SeqNth(x.T, i)}
		case VSlice:
			if x.B == nil {
				return VInt{I(0)}
			}
			if x.B.Bytes {
				return VInt{en.st.byteAt(x, i)}
			}
			return en.st.loadElem(x.B, Add(x.Off, i))
		case VArray:
			if x.B.Bytes {
				return VInt{en.st.byteAt(VSlice{B: x.B, Off: I(0)}, i)}
			}
			return en.st.loadElem(x.B, i)
		}
		panic(unsupported("spec index of %T", v))
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, isVar := en.lookup(id.Name); !isVar && en.pkg != nil {
				for _, imp := range en.pkg.Imports() {
					if imp.Name() == id.Name {
						switch o := imp.Scope().Lookup(e.Sel.Name).(type) {
						case *types.Const:
							return constVal(o.Val(), o.Type())
						case *types.Var:
							return en.x.globalVal(en.st, o)
						}
					}
				}
			}
		}
		v := specEval(e.X, en)
		return en.fieldOf(v, e.Sel.Name)
	case *ast.SliceExpr:
		v := specEval(e.X, en)
		var lo, hi *Term
		if e.Low != nil {
			lo = intOf(specEval(e.Low, en))
		} else {
			lo = I(0)
		}
		switch x := v.(type) {
		case VSlice:
			hi = x.Len
			if e.High != nil {
				hi = intOf(specEval(e.High, en))
			}
			n := x
			n.Off = Add(x.Off, lo)
			n.Len = Sub(hi, lo)
			if x.Cap != nil {
				n.Cap = Sub(x.Cap, lo)
			}
			return n
		case VSeq:
			hi = SeqLen(x.T)
			if e.High != nil {
				hi = intOf(specEval(e.High, en))
			}
			return VSeq{SeqExtract(x.T, lo, Sub(hi, lo))}
		}
	case *ast.CallExpr:
		return specCall(e, en)
	}
	panic(unsupported("spec expression %T", e))
}

func (en *env) fieldOf(v Val, name string) Val {
	if p, ok := v.(VPtr); ok {
		v = en.x.loadLoc(en.st, p.Loc, p.Elem)
	}
	switch s := v.(type) {
	case VStruct:
		u := s.T.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return s.F[i]
			}
		}
		panic(unsupported("no field %s in %s", name, s.T))
	}
	panic(unsupported("field %s of %T", name, v))
}

func specEq(a, b Val, en *env) *Term {
	if a == nil {
		a, b = b, a
	}
	if b == nil {
		switch x := a.(type) {
		case VSlice:
			return x.Nil
		case VPtr:
			return x.Nil
		case VIface:
			return x.Nil
		case VFunc:
			return x.Nil
		case VUnsafe:
			return x.Nil
		case VOpaque:
			return Eq(x.ID, I(0))
		case nil:
			return tTrue
		}
		panic(unsupported("compare %T with nil", a))
	}
	if as, ok := a.(VSeq); ok {
		if bs, ok := b.(VSlice); ok {
			return Eq(as.T, en.st.seqOf(bs))
		}
	}
	if as, ok := a.(VSlice); ok {
		switch bs := b.(type) {
		case VSeq:
			return Eq(en.st.seqOf(as), bs.T)
		case VSlice: // content equality in specifications
			return Eq(en.st.seqOf(as), en.st.seqOf(bs))
		}
	}
	if as, ok := a.(VStruct); ok {
		if bs, ok := b.(VStruct); ok {
			var cs []*Term
			for i := range as.F {
				cs = append(cs, specEq(as.F[i], bs.F[i], en))
			}
			return And(cs...)
		}
	}
	if as, ok := a.(VPtr); ok {
		if bs, ok := b.(VPtr); ok && as.Loc != nil && bs.Loc != nil && as.Loc.C == bs.Loc.C && as.Loc.C != nil {
			return tTrue
		}
	}
	return Eq(termOf(a), termOf(b))
}

func specBinary(e *ast.BinaryExpr, en *env) Val {
	if e.Op == token.LAND || e.Op == token.LOR {
		a := boolOf(specEval(e.X, en))
		if e.Op == token.LAND && a.isFalse() {
			return VBool{tFalse}
		}
		if e.Op == token.LOR && a.isTrue() {
			return VBool{tTrue}
		}
		b := boolOf(specEval(e.Y, en))
		if e.Op == token.LAND {
			return VBool{And(a, b)}
		}
		return VBool{Or(a, b)}
	}
	a, b := specEval(e.X, en), specEval(e.Y, en)
	switch e.Op {
	case token.EQL:
		return VBool{specEq(a, b, en)}
	case token.NEQ:
		return VBool{Not(specEq(a, b, en))}
	}
	if e.Op == token.ADD {
		if _, ok := a.(VSeq); ok {
			return VSeq{Cat(seqVal(a, en), seqVal(b, en))}
		}
		if s, ok := a.(VSlice); ok && (s.Str || s.B == nil || s.B.Bytes) {
			return VSeq{Cat(seqVal(a, en), seqVal(b, en))}
		}
	}
	x, y := intOf(a), intOf(b)
	switch e.Op {
	case token.ADD:
		return VInt{Add(x, y)}
	case token.SUB:
		return VInt{Sub(x, y)}
	case token.MUL:
		return VInt{Mul(x, y)}
	case token.QUO:
		return VInt{Div(x, y)}
	case token.REM:
		return VInt{Mod(x, y)}
	case token.LSS:
		return VBool{Lt(x, y)}
	case token.LEQ:
		return VBool{Le(x, y)}
	case token.GTR:
		return VBool{Lt(y, x)}
	case token.GEQ:
		return VBool{Le(y, x)}
	case token.AND:
		return VInt{maskInt(x, y)}
	}
	panic(unsupported("spec operator %s", e.Op))
}

func seqVal(v Val, en *env) *Term {
	switch x := v.(type) {
	case VSeq:
		return x.T
	case VSlice:
		return en.st.seqOf(x)
	}
	panic(unsupported("sequence expected, got %T", v))
}

// maskInt computes x & m for a constant non-negative mask.
func maskInt(x, m *Term) *Term {
	if x.isInt() && !m.isInt() {
		x, m = m, x
	}
	if !m.isInt() || m.iv.Sign() < 0 {
		panic(unsupported("non-constant mask"))
	}
	if x.isInt() && x.iv.Sign() >= 0 {
		return Ibig(newInt().And(x.iv, m.iv))
	}
	// contiguous low mask: mod
	mp1 := newInt().Add(m.iv, big1)
	if newInt().And(mp1, m.iv).Sign() == 0 {
		return Mod(x, Ibig(mp1))
	}
	r := I(0)
	n := m.iv.BitLen()
	for k := 0; k < n; {
		if m.iv.Bit(k) == 0 {
			k++
			continue
		}
		j := k
		for j < n && m.iv.Bit(j) == 1 {
			j++
		}
		lo := Ibig(newInt().Lsh(big1, uint(k)))
		w := Ibig(newInt().Lsh(big1, uint(j-k)))
		r = Add(r, Mul(lo, Mod(Div(x, lo), w)))
		k = j
	}
	return r
}

func specCall(e *ast.CallExpr, en *env) Val {
	name := ""
	switch f := e.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			name = id.Name + "." + f.Sel.Name
		}
	}
	arg := func(i int) Val { return specEval(e.Args[i], en) }
	switch name {
	case "imp":
		a := boolOf(arg(0))
		if a.isFalse() {
			return VBool{tTrue}
		}
		if k, ok := en.known(a); ok && !k {
			return VBool{tTrue}
		}
		return VBool{Imp(a, boolOf(arg(1)))}
	case "iff":
		return VBool{Eq(boolOf(arg(0)), boolOf(arg(1)))}
	case "ite":
		c := boolOf(arg(0))
		if k, ok := en.known(c); ok {
			c = B(k)
		}
		if c.isTrue() {
			return arg(1)
		}
		if c.isFalse() {
			return arg(2)
		}
		a, b := arg(1), arg(2)
		if _, ok := a.(VSlice); ok {
			return VSeq{Ite(c, seqVal(a, en), seqVal(b, en))}
		}
		return termVal(Ite(c, termOf(a), termOf(b)))
	case "old":
		n := *en
		n.st = en.entry
		n.vars = map[string]Val{}
		n.up = nil
		for k, v := range en.olds {
			n.vars[k] = v
		}
		for k, v := range en.bound {
			n.vars[k] = v
		}
		n.fr = nil
		if en.x != nil && en.x.sorting != nil && en.sortNow == nil && en.sorts == nil {
			n.sortNow = intOf(en.st.cell(en.x.sorting))
		}
		return specEval(e.Args[0], &n)
	case "len":
		switch x := arg(0).(type) {
		case VSlice:
			return VInt{x.Len}
		case VSeq:
			return VInt{SeqLen(x.T)}
		case VArray:
			return VInt{I(x.N)}
		case VOpaque:
			if _, ok := x.T.Underlying().(*types.Map); ok {
				n := App("mapLen", SInt, x.ID)
				en.st.assumeQuiet(And(Le(I(0), n), Imp(Eq(x.ID, I(0)), Eq(n, I(0)))))
				return VInt{n}
			}
			panic(unsupported("len of %T", x))
		default:
			panic(unsupported("len of %T", x))
		}
	case "cap":
		return VInt{arg(0).(VSlice).Cap}
	case "arr":
		if x, ok := arg(0).(VSlice); ok {
			return VArr{en.st.arrOf(x)}
		}
		panic(unsupported("arr of non-slice"))
	case "lo":
		return VInt{arg(0).(VSlice).Off}
	case "hi":
		x := arg(0).(VSlice)
		return VInt{Add(x.Off, x.Len)}
	case "seq":
		return VSeq{seqVal(arg(0), en)}
	case "sub":
		a := arg(0)
		i, j := intOf(arg(1)), intOf(arg(2))
		switch x := a.(type) {
		case VArr:
			return VSeq{BytesOf(x.T, i, j)}
		case VSeq:
			return VSeq{SeqExtract(x.T, i, Sub(j, i))}
		case VSlice:
			if x.B == nil {
				return VSeq{seqEmpty}
			}
			if c := en.st.content(x.B); c.Arr != nil {
				return VSeq{BytesOf(c.Arr, Add(x.Off, i), Add(x.Off, j))}
			}
			return VSeq{SeqExtract(en.st.seqOf(x), i, Sub(j, i))}
		}
	case "unit":
		return VSeq{Unit(intOf(arg(0)))}
	case "isNilElem":
		x := arg(0).(VSlice)
		return VBool{x.Nil}
	case "sameBack":
		a, b := backOf(arg(0)), backOf(arg(1))
		return VBool{B(a != nil && a == b)}
	case "own": // appending to it cannot write to, or alias, memory of an input
		if x, ok := arg(0).(VSlice); ok {
			if x.B == nil {
				return VBool{tTrue}
			}
			return VBool{Or(Not(x.B.InputT), Eq(x.Cap, I(0)))}
		}
		panic(unsupported("own of non-slice"))
	case "fresh": // does not share memory with any input of the function
		switch x := arg(0).(type) {
		case VSlice:
			if x.B == nil {
				return VBool{tTrue}
			}
			return VBool{Or(Not(x.B.InputT), Eq(x.Len, I(0)))}
		}
		panic(unsupported("fresh of non-slice"))
	case "load":
		t := en.typeArg(e.Args[1])
		return en.x.loadMem(en.st, arg(0), t)
	case "lane":
		x := arg(0)
		k, ok := intOf(arg(1)), true
		if w, isw := x.(VWord); isw && k.isInt() && ok {
			n := int(k.iv.Int64())
			if n < len(w.L) {
				return VInt{w.L[n]}
			}
			return VInt{I(0)}
		}
		sh := Ibig(newInt().Lsh(big1, uint(8*k.iv.Int64())))
		return VInt{Mod(Div(intOf(x), sh), I(256))}
	case "ghost":
		g := e.Args[0].(*ast.Ident).Name
		if t, ok := en.st.ghost[g]; ok {
			return termVal(t)
		}
		panic(unsupported("ghost %s", g))
	case "forall":
		id := e.Args[0].(*ast.Ident).Name
		if len(e.Args) == 2 {
			bv := BVar(freshName("?"+id), SInt)
			n := en.child()
			n.bind(id, VInt{bv})
			return VBool{Forall(bv, boolOf(specEval(e.Args[1], n)))}
		}
		lo, hi := intOf(arg(1)), intOf(arg(2))
		bv := BVar(freshName("?"+id), SInt)
		n := en.child()
		n.bind(id, VInt{bv})
		body := boolOf(specEval(e.Args[3], n))
		for _, s := range []*State{en.st, en.entry} { // no facts about the variable outside
			if s == nil {
				continue
			}
			var pc []*Term
			for _, h := range s.pc {
				if freeOf(h, map[*Term]bool{bv: true}) {
					pc = append(pc, h)
				}
			}
			s.pc = pc
		}
		return VBool{Forall(bv, Imp(And(Le(lo, bv), Lt(bv, hi)), body))}
	case "ncalls": // calls of function values made so far by this activation
		if en.calls != nil { // the callee's own count
			return VInt{en.calls}
		}
		return en.st.cell(en.x.ncalls)
	case "sorting": // the permutation of the last sort, 0 if there was none
		if en.sorts != nil { // the callee's
			en.st.setCell(en.x.sorting, VInt{en.sorts})
			return VInt{en.sorts}
		}
		if en.sortNow != nil { // inside of old
			return VInt{en.sortNow}
		}
		return en.st.cell(en.x.sorting)
	case "addr":
		if u, ok := arg(0).(VUnsafe); ok && u.Addr != nil && u.Data == nil {
			return VInt{u.Addr}
		}
		panic(unsupported("addr of %T", arg(0)))
	case "dynIs": // dynIs(x, T): the interface x holds a T
		iv := arg(0).(VIface)
		return VBool{And(Not(iv.Nil), hasType(en.typeArg(e.Args[1]), en.st.ifaceID(iv)))}
	case "dynInt":
		return VInt{App("dynInt", SInt, en.st.ifaceID(arg(0).(VIface)))}
	case "dynSeq":
		return VSeq{App("dynSeq", SSeq, en.st.ifaceID(arg(0).(VIface)))}
	case "dynNil":
		return VBool{App("dynNil", SBool, en.st.ifaceID(arg(0).(VIface)))}
	case "isPtr": // isPtr(x): the interface x holds a pointer, by reflection
		iv := arg(0).(VIface)
		t := en.x.pureResult(en.st, "reflect.TypeOf", 0, errorType, []Val{iv})
		k := en.x.pureResult(en.st, "reflect.Type.Kind", 0, types.Typ[types.Uint], []Val{t})
		return VBool{And(Not(iv.Nil), Eq(intOf(k), I(22)))}
	case "get": // get(m, k): the entry of a map
		m, ok := arg(0).(VOpaque)
		mt, ok2 := m.T.Underlying().(*types.Map)
		if !ok || !ok2 {
			panic(unsupported("get of %T", arg(0)))
		}
		k := arg(1)
		if q, ok := k.(VSeq); ok {
			return en.x.mapGetKey(en.st, m, q.T, mt.Elem())
		}
		return en.x.mapLookup(en.st, m, k, mt.Elem())
	case "int":
		return arg(0)
	case "render":
		return VSeq{Render(intOf(arg(0)), seqVal(arg(1), en))}
	case "fconst":
		l := e.Args[0].(*ast.BasicLit)
		t, err := strconv.Unquote(l.Value)
		if err != nil {
			panic(err)
		}
		return VInt{Var("float."+t, SInt)}
	case "keyp":
		return VInt{en.x.keyOf(en.st, arg(0))}
	case "id":
		v := arg(0)
		switch u := v.(type) {
		case nil:
			return VInt{I(0)}
		case VPtr:
			if u.Nil.isTrue() {
				return VInt{I(0)}
			}
		case VIface:
			if u.Nil.isTrue() {
				return VInt{I(0)}
			}
			return VInt{en.st.ifaceID(u)}
		}
		return VInt{termOf(v)}
	}
	if m, ok := macros[name]; ok {
		n := en.child()
		if len(m.params) != len(e.Args) {
			panic(unsupported("macro %s: %d args", name, len(e.Args)))
		}
		for i, p := range m.params {
			n.vars[p] = arg(i)
		}
		return specEval(m.body, n)
	}
	if sf, ok := specFns[name]; ok {
		if len(sf.Params) != len(e.Args) {
			panic(unsupported("spec function %s: %d args, want %d", name, len(e.Args), len(sf.Params)))
		}
		var as []*Term
		for i := range e.Args {
			v := arg(i)
			var t *Term
			switch sf.Params[i].sort {
			case SSeq:
				t = seqVal(v, en)
			case SArr:
				if s, ok := v.(VSlice); ok {
					t = en.st.arrOf(s)
				} else {
					t = termOf(v)
				}
			case SInt:
				t = termOf(v)
			default:
				t = termOf(v)
			}
			if t.sort != sf.Params[i].sort {
				panic(unsupported("spec function %s: argument %d is %s, want %s", name, i, t.sort, sf.Params[i].sort))
			}
			as = append(as, t)
		}
		return termVal(applySpec(sf, as))
	}
	if l, ok := lemmas[name]; ok { // as a formula: its instantiated implication
		usedLemmas[name] = true
		m := map[*Term]*Term{}
		for i, p := range l.Params {
			v := arg(i)
			if s, ok := v.(VSlice); ok {
				if p.sort == SArr {
					m[p] = en.st.arrOf(s)
				} else {
					m[p] = en.st.seqOf(s)
				}
			} else {
				m[p] = termOf(v)
			}
		}
		memo := map[*Term]*Term{}
		return VBool{subst(Imp(And(l.Req...), And(l.Ens...)), m, memo)}
	}
	panic(unsupported("unknown specification function %s", name))
}

func applySpec(sf *SpecFn, as []*Term) *Term {
	if !sf.Rec && sf.Body != nil {
		m := map[*Term]*Term{}
		for i, p := range sf.Params {
			m[p] = as[i]
		}
		return subst(sf.Body, m, map[*Term]*Term{})
	}
	return App(sf.Name, sf.Ret, as...)
}

func backOf(v Val) *Back {
	switch x := v.(type) {
	case VSlice:
		return x.B
	}
	return nil
}

func (en *env) typeArg(e ast.Expr) types.Type {
	if star, ok := e.(*ast.StarExpr); ok {
		return types.NewPointer(en.typeArg(star.X))
	}
	if sel, ok := e.(*ast.SelectorExpr); ok {
		for _, imp := range en.pkg.Imports() {
			if id, ok := sel.X.(*ast.Ident); ok && imp.Name() == id.Name {
				if tn, ok := imp.Scope().Lookup(sel.Sel.Name).(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	}
	tv, err := types.Eval(token.NewFileSet(), en.pkg, token.NoPos, exprString(e))
	if err != nil || !tv.IsType() {
		panic(unsupported("type %s: %v", exprString(e), err))
	}
	return tv.Type
}

func exprString(e ast.Expr) string { return types.ExprString(e) }

func (en *env) known(t *Term) (bool, bool) {
	if en.st == nil {
		return false, false
	}
	return en.st.known(t)
}

// bind adds a bound variable.
func (en *env) bind(id string, v Val) {
	en.vars[id] = v
	b := map[string]Val{id: v}
	for k, w := range en.bound {
		if k != id {
			b[k] = w
		}
	}
	en.bound = b
}
