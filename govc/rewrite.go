package main

import (
	"container/heap"
	"fmt"
	"strings"
)

// rewriteSeq tries to prove an equality of sequences by replacing equals for
// equals: the equalities among the hypotheses are used as rewrite rules, in
// both directions, on the two sides of the goal.
func rewriteSeq(vc *VC) bool {
	hyps := append([]*Term{}, vc.Hyps...)
	g := vc.Goal
	for g.op == "=>" {
		hyps = append(hyps, g.args[0])
		g = g.args[1]
	}
	if g.op != "=" || g.args[0].sort != SSeq {
		return false
	}
	type rule struct{ from, to []*Term }
	var rules []rule
	var add func(t *Term)
	add = func(t *Term) {
		switch t.op {
		case "and":
			for _, a := range t.args {
				add(a)
			}
		case "=":
			if t.args[0].sort == SSeq {
				l, r := seqParts(t.args[0]), seqParts(t.args[1])
				// a common prefix or suffix cancels
				l, r = cancel(l, r)
				if len(l) > 0 {
					rules = append(rules, rule{l, r})
				}
				if len(r) > 0 {
					rules = append(rules, rule{r, l})
				}
			}
		}
	}
	for _, h := range hyps {
		add(h)
	}
	if len(rules) == 0 || len(rules) > 200 {
		return false
	}
	type state = rwState
	q := &rwHeap{}
	seen := map[string]bool{}
	push := func(l, r []*Term) bool {
		l, r = cancel(l, r)
		if len(l) == 0 && len(r) == 0 {
			return true
		}
		if len(l)+len(r) > 120 {
			return false
		}
		var sb strings.Builder
		for _, t := range l {
			fmt.Fprintf(&sb, "%d ", t.id)
		}
		sb.WriteByte('=')
		for _, t := range r {
			fmt.Fprintf(&sb, "%d ", t.id)
		}
		k := sb.String()
		if !seen[k] {
			seen[k] = true
			heap.Push(q, state{l, r, len(seen)})
		}
		return false
	}
	if push(seqParts(g.args[0]), seqParts(g.args[1])) {
		return true
	}
	for n := 0; q.Len() > 0 && n < 400; n++ {
		s := heap.Pop(q).(state)
		for _, ru := range rules {
			for side := 0; side < 2; side++ {
				x := s.l
				if side == 1 {
					x = s.r
				}
				for i := 0; i+len(ru.from) <= len(x); i++ {
					ok := true
					for k, t := range ru.from {
						if x[i+k] != t {
							ok = false
							break
						}
					}
					if !ok {
						continue
					}
					y := append(append(append([]*Term{}, x[:i]...), ru.to...), x[i+len(ru.from):]...)
					l, r := y, s.r
					if side == 1 {
						l, r = s.l, y
					}
					if push(l, r) {
						return true
					}
				}
			}
		}
	}
	return false
}

func cancel(l, r []*Term) ([]*Term, []*Term) {
	for len(l) > 0 && len(r) > 0 && l[0] == r[0] {
		l, r = l[1:], r[1:]
	}
	for len(l) > 0 && len(r) > 0 && l[len(l)-1] == r[len(r)-1] {
		l, r = l[:len(l)-1], r[:len(r)-1]
	}
	return l, r
}

type rwState struct {
	l, r []*Term
	n    int
}
type rwHeap []rwState

func (h rwHeap) Len() int { return len(h) }
func (h rwHeap) Less(i, j int) bool {
	a, b := len(h[i].l)+len(h[i].r), len(h[j].l)+len(h[j].r)
	return a < b || a == b && h[i].n < h[j].n
}
func (h rwHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *rwHeap) Push(x any)   { *h = append(*h, x.(rwState)) }
func (h *rwHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// substSeq replaces the variables of sequences which the hypotheses define in
// the goal and tells whether that makes it trivial.
func substSeq(vc *VC) bool {
	m := map[*Term]*Term{}
	var add func(t *Term)
	add = func(t *Term) {
		switch t.op {
		case "and":
			for _, a := range t.args {
				add(a)
			}
		case "=":
			for k := 0; k < 2; k++ {
				v, d := t.args[k], t.args[1-k]
				if v.op == "var" && v.sort == SSeq && m[v] == nil && freeOf(d, map[*Term]bool{v: true}) {
					m[v] = d
					return
				}
			}
		}
	}
	for _, h := range vc.Hyps {
		add(h)
	}
	if len(m) == 0 {
		return false
	}
	g := vc.Goal
	for i := 0; i < 4; i++ {
		n := subst(g, m, map[*Term]*Term{})
		if n == g {
			break
		}
		if n.isTrue() || longer(n) {
			return true
		}
		g = n
	}
	return false
}

// longer: a length is compared with a sum in which it occurs.
func longer(t *Term) bool {
	if t.op != "<=" {
		return false
	}
	d := Sub(t.args[1], t.args[0])
	ts := []*Term{d}
	if d.op == "+" {
		ts = d.args
	}
	for _, a := range ts {
		if !(a.op == "seq.len" || a.isInt() && a.iv.Sign() >= 0) {
			return false
		}
	}
	return true
}
