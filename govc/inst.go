package main

// Instantiation of quantified hypotheses.

import "fmt"

var skCount int

// instantiate returns an obligation in which the quantified hypotheses are
// replaced by instances of them, chosen by matching array, sequence and
// function terms of their bodies with those of the rest of the obligation.
// Proving the result proves vc. It returns nil where no hypothesis is
// quantified.
func instantiate(vc *VC) *VC {
	n := *vc
	n.Hyps = nil
	type quant struct {
		guard, body, v *Term
		done           map[*Term]bool
	}
	var qs []*quant
	var split func(guard, h *Term)
	split = func(guard, h *Term) {
		switch h.op {
		case "and":
			for _, a := range h.args {
				split(guard, a)
			}
		case "=>":
			if hasForall(h.args[1]) {
				split(And(guard, h.args[0]), h.args[1])
				return
			}
			n.Hyps = append(n.Hyps, Imp(guard, h))
		case "forall":
			if len(h.args) == 2 && h.args[1].op == "bvar" && h.args[1].sort == SInt {
				if !h.args[0].isTrue() {
					qs = append(qs, &quant{guard, h.args[0], h.args[1], map[*Term]bool{}})
				}
				return
			}
			n.Hyps = append(n.Hyps, Imp(guard, h))
		default:
			n.Hyps = append(n.Hyps, Imp(guard, h))
		}
	}
	for _, h := range vc.Hyps {
		split(tTrue, h)
	}
	if len(qs) == 0 {
		return nil
	}
	var sk func(g *Term) *Term
	sk = func(g *Term) *Term {
		switch g.op {
		case "and":
			var as []*Term
			for _, a := range g.args {
				as = append(as, sk(a))
			}
			return And(as...)
		case "=>":
			return Imp(g.args[0], sk(g.args[1]))
		case "forall":
			if len(g.args) == 2 && g.args[1].op == "bvar" {
				skCount++
				v := Var(fmt.Sprintf("%s!sk%d", g.args[1].name, skCount), g.args[1].sort)
				return sk(subst(g.args[0], map[*Term]*Term{g.args[1]: v}, map[*Term]*Term{}))
			}
		}
		return g
	}
	n.Goal = sk(vc.Goal)
	seen := map[*Term]bool{}
	ground := map[string][]*Term{}
	add := func(t *Term) {
		walk(t, seen, func(x *Term) {
			if x.bnd {
				return
			}
			switch x.op {
			case "select", "seq.nth":
				ground[x.op] = append(ground[x.op], x)
				for a := x.args[0]; a.op == "store"; {
					a = a.args[0]
					ground[x.op] = append(ground[x.op], mk("select", "", x.sort, nil, a, x.args[1]))
				}
			case "app":
				ground["app "+x.name] = append(ground["app "+x.name], x)
			}
		})
	}
	add(n.Goal)
	for _, h := range n.Hyps {
		add(h)
	}
	total := 0
	for round := 0; round < 4; round++ {
		var fresh []*Term
		for _, q := range qs {
			cand := map[*Term]bool{}
			var order []*Term
			put := func(t *Term) {
				if t != nil && !q.done[t] && !cand[t] && len(order) < 60 {
					cand[t] = true
					order = append(order, t)
				}
			}
			bs := map[*Term]bool{}
			walk(q.body, bs, func(p *Term) {
				if !p.bnd {
					return
				}
				switch p.op {
				case "select", "seq.nth":
					if p.args[0].bnd {
						return
					}
					for _, x := range ground[p.op] {
						if x.args[0] == p.args[0] {
							put(solveFor(q.v, p.args[1], x.args[1]))
						}
					}
				case "app":
					for _, x := range ground["app "+p.name] {
						if len(x.args) != len(p.args) {
							continue
						}
						var c *Term
						ok := true
						for i, a := range p.args {
							if !a.bnd {
								ok = ok && a == x.args[i]
								continue
							}
							if a.sort != SInt {
								ok = false
								break
							}
							s := solveFor(q.v, a, x.args[i])
							ok = ok && s != nil && (c == nil || c == s)
							c = s
						}
						if ok && c != nil {
							put(c)
						}
					}
				}
			})
			for _, c := range order {
				if total > 400 {
					break
				}
				total++
				q.done[c] = true
				fresh = append(fresh, Imp(q.guard, subst(q.body, map[*Term]*Term{q.v: c}, map[*Term]*Term{})))
			}
		}
		if len(fresh) == 0 {
			break
		}
		for _, f := range fresh {
			if !f.isTrue() {
				n.Hyps = append(n.Hyps, f)
				add(f)
			}
		}
	}
	return &n
}

func hasForall(t *Term) bool {
	switch t.op {
	case "forall":
		return true
	case "and":
		for _, a := range t.args {
			if hasForall(a) {
				return true
			}
		}
	case "=>":
		return hasForall(t.args[1])
	}
	return false
}

// solveFor gives the value of v for which p, linear in v, equals x.
func solveFor(v, p, x *Term) *Term {
	l := newLin()
	l.add(p, big1)
	k := l.co[v]
	if k == nil || !k.IsInt64() || k.Int64() != 1 {
		return nil
	}
	for a, c := range l.co {
		if a != v && a.bnd && c.Sign() != 0 {
			return nil
		}
	}
	return Add(Sub(x, p), v)
}
