package main

// The universe: breadth-first closure of a small start set under the library's
// own operations. Every state is an expression the real code produced.

import (
	"encoding/binary"
	"time"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// St is a reachable expression with the operations that led to it.
type St struct {
	*T
	Path  string
	Depth int
}

func (s *St) String() string { return s.Path + " = " + s.T.String() }

// startSet is the BFS start set; level 0 is the smallest.
func startSet(level int) []*T {
	var out []*T
	add := func(e interface{}) { out = append(out, mkT(Clone(e, Exact))) }
	for _, x := range []sm.K{0, 1, -1, 2} {
		add(x)
	}
	add(vX)
	add(vY)
	add(mono(2, 0, 1))
	add(mono(1, 0, 1, 1, 1))
	add(mono(-1, 1, 1, 0, 1))
	add(mono(1, 0, 2, 1, 1))
	add(mono(3, 1, 2, 0, 1))
	add(poly(mono(1, 0, 1), mono(1)))
	add(poly(mono(1, 0, 1), mono(-1, 1, 1)))
	add(poly(mono(1, 0, 1, 1, 1), mono(1, 1, 1, 0, 1), mono(-2)))
	if level >= 1 {
		add(vB)
		add(mono(-2))
		add(mono(0, 0, 1))
		add(poly(mono(2), mono(1, 11, 1), mono(-1, 0, 2)))
		add(poly(mono(1, 0, 2, 1, 1), mono(-1, 1, 2, 0, 1)))
		add(poly(mono(1, 0, 1), mono(-1, 0, 1)))
	}
	for _, k := range []Kind{KKV, KVV, KMV, KPV} {
		es := entriesOf(k)
		out = append(out, fill(k, 2, 1, func(i, j int) interface{} { return es[i%len(es)] }))
		if level >= 1 {
			out = append(out, fill(k, 2, 1, func(i, j int) interface{} { return es[(4*i+9)%len(es)] }))
			out = append(out, fill(k, 1, 1, func(i, j int) interface{} { return es[(7)%len(es)] }))
		}
	}
	for _, k := range []Kind{KKM, KVM, KMM, KPM} {
		es := entriesOf(k)
		out = append(out, fill(k, 2, 2, func(i, j int) interface{} { return es[(5*i+3*j)%len(es)] }))
		out = append(out, fill(k, 1, 2, func(i, j int) interface{} { return es[(j+4)%len(es)] }))
		if level >= 1 {
			out = append(out, fill(k, 2, 2, func(i, j int) interface{} { return es[(4*i+9*j+8)%len(es)] }))
			out = append(out, fill(k, 3, 2, func(i, j int) interface{} { return es[(2*i+7*j+1)%len(es)] }))
		}
	}
	return dedupe(out)
}

type uop struct {
	name  string
	arity int
	f     func(a, b *T) interface{}
}

func universeOps() []uop {
	sx := func() sm.ScalarExpression { return poly(mono(1, 1, 1), mono(1)) }
	return []uop{
		{"Plus", 2, func(a, b *T) interface{} { return a.Expr().Plus(b.New()) }},
		{"Multiply", 2, func(a, b *T) interface{} { return a.Expr().Multiply(b.New()) }},
		{"Minus", 2, func(a, b *T) interface{} { return a.Expr().Minus(b.New()) }},
		{"Transpose", 1, func(a, b *T) interface{} { return a.Expr().Transpose() }},
		{"DerivativeWrt(x_0)", 1, func(a, b *T) interface{} { return a.Expr().DerivativeWrt(vX) }},
		{"Substitute(x_0,x_1+1)", 1, func(a, b *T) interface{} { return a.Expr().Substitute(vX, sx()) }},
		{"Substitute(x_1,0)", 1, func(a, b *T) interface{} { return a.Expr().Substitute(vY, sm.K(0)) }},
		{"SubstituteAccordingTo(swap)", 1, func(a, b *T) interface{} {
			return a.Expr().SubstituteAccordingTo(map[sm.Variable]sm.Expression{vX: vY, vY: vX})
		}},
		{"AsSimplifiedExpression", 1, func(a, b *T) interface{} { return a.Expr().AsSimplifiedExpression() }},
		{"Power(2)", 1, func(a, b *T) interface{} { return a.Expr().Power(2) }},
		{"HStack", 2, func(a, b *T) interface{} { return sm.HStack(a.Expr(), b.Expr()) }},
		{"VStack", 2, func(a, b *T) interface{} { return sm.VStack(a.Expr(), b.Expr()) }},
	}
}

func nTerms(e interface{}) int {
	_, _, es, err := entries(e)
	if err != nil {
		return 1 << 20
	}
	n := 0
	for _, x := range es {
		if p, ok := x.(sm.Polynomial); ok {
			n += len(p.Monomials)
		} else {
			n++
		}
	}
	return n
}

func small(e interface{}, d *Mat) bool {
	return d.R <= 4 && d.C <= 4 && d.R*d.C <= 8 && mDegree(d) <= 7 && nTerms(e) <= 40
}

// Universe returns the states reachable from the start set within depth
// operations (the second operand of a binary operation is from the start set,
// on either side), up to maxStates of them, in breadth-first order.
func (r *R) Universe(level, depth, maxStates int) []*St {
	setMapSeed(uint64(r.Replica))
	defer r.caseStart.Store(0)
	s0 := startSet(level)
	seen := map[string]bool{}
	var all []*St
	for _, t := range s0 {
		seen[Key(t.Proto, false)] = true
		all = append(all, &St{T: t, Path: "start"})
	}
	frontier := all
	truncated := false
	for d := 1; d <= depth; d++ {
		var next []*St
		expand := func(op, name string, f func() interface{}) {
			if len(all)+len(next) >= maxStates {
				truncated = true
				return
			}
			r.caseStart.Store(time.Now().UnixNano())
			binary.LittleEndian.PutUint64(r.prog, uint64(r.idx)+1)
			if r.Shard == 0 { // every worker computes the same closure
				r.rep.Transitions++
				r.opsSeen["universe:"+op]++
			}
			var v interface{}
			ok := func() (ok bool) {
				defer func() {
					if recover() != nil {
						ok = false
					}
				}()
				v = f()
				return true
			}()
			if !ok || v == nil {
				return
			}
			if _, ok := v.(sm.Expression); !ok {
				return
			}
			v = Clone(v, Exact)
			den, err := Den(v)
			if err != nil || !small(v, den) {
				return
			}
			k := Key(v, false)
			if seen[k] {
				return
			}
			if _, ok := kindOf(v); !ok {
				return
			}
			seen[k] = true
			next = append(next, &St{T: mkT(v), Path: name, Depth: d})
		}
		for _, op := range universeOps() {
			for _, a := range frontier {
				if op.arity == 1 {
					a, op := a, op
					expand(op.name, op.name+"("+a.T.String()+")", func() interface{} { return op.f(a.T, nil) })
					continue
				}
				for _, b := range s0 {
					a, b, op := a, b, op
					expand(op.name, op.name+"("+a.T.String()+", "+b.String()+")", func() interface{} { return op.f(a.T, b) })
					expand(op.name, op.name+"("+b.String()+", "+a.T.String()+")", func() interface{} { return op.f(b, a.T) })
				}
			}
		}
		all = append(all, next...)
		frontier = next
	}
	if truncated {
		r.rep.Notes = append(r.rep.Notes, "the reachable-state set was truncated at its size bound")
	}
	for _, s := range all {
		r.addState(hash64(Key(s.Proto, false)))
	}
	return all
}
