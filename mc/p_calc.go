package main

// Derivatives, substitutions and simplification (C04 to C07).

import (
	"fmt"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

func init() {
	props["C04"] = propDerivative
	props["C05"] = propSubstitute
	props["C06"] = propSubstituteMap
	props["C07"] = propSimplify
}

// operands yields every operand of the one-operand properties: all curated
// scalars, the fill patterns of every vector and matrix shape (with every
// alphabet entry at every position of some shapes), systematically enumerated
// monomials and polynomials of two and three terms, and the states reachable
// from the start set.
type operandBounds struct {
	fillLevel    int
	maxCells     int
	positions    bool
	poly2, poly3 int // number of monomial forms (0: none)
	depth        int
	level        int
}

func (r *R) operands(b operandBounds, f func(t *T)) {
	for _, k := range []Kind{KK, KVar, KMono, KPoly} {
		for _, t := range scalarTs(k, 0) {
			f(t)
		}
		for _, t := range wideScalars(k) {
			f(t)
		}
	}
	for _, k := range exprKinds {
		if k.isScalar() {
			continue
		}
		var sh []shape
		if k.isVector() {
			for _, n := range vecLens {
				sh = append(sh, shape{n, 1})
			}
		} else {
			sh = matShapes
		}
		for _, s := range sh {
			if s.r*s.c > b.maxCells {
				continue
			}
			for _, t := range fills(k, s.r, s.c, b.fillLevel) {
				f(t)
			}
		}
		for _, t := range bigTs(k) {
			f(t)
		}
		for _, t := range needleTs(k) {
			f(t)
		}
		if b.positions {
			ps := []shape{{3, 1}}
			if k.isMatrix() {
				ps = []shape{{2, 2}, {2, 3}, {3, 1}}
			}
			for _, s := range ps {
				for _, t := range fills(k, s.r, s.c, 3) {
					f(t)
				}
			}
		}
	}
	for _, m := range sysMonos(14, 1, -1, 2, 0.5, 0) {
		f(mkT(m))
	}
	if b.poly2 > 0 {
		sysPolys(sysMonos(b.poly2, 1, -1, 2), 2, func(p sm.Polynomial) { f(mkT(p)) })
	}
	if b.poly3 > 0 {
		sysPolys(sysMonos(b.poly3, 1, -1), 3, func(p sm.Polynomial) { f(mkT(p)) })
	}
	for n := 2; n <= 3; n++ {
		odd := oddMonos()
		if n == 3 {
			odd = odd[:6]
		}
		sysPolys(odd, n, func(p sm.Polynomial) { f(mkT(p)) })
	}
	if b.depth > 0 {
		for _, s := range r.Universe(b.level, b.depth, 300000) {
			f(s.T)
		}
	}
}

func (r *R) skip() bool {
	if !r.mine() || r.stopped {
		r.idx++
		return true
	}
	return false
}

// mustAccept reports a refusal as a violation.
func (c *C) mustAccept(sig string, res Res) bool {
	if res.Panicked {
		c.Sig("refused " + sig)
		c.Failf("%s refused: %s", sig, res.why())
		return false
	}
	return true
}

// ------------------------------------------------------------- derivatives

func propDerivative(r *R) {
	defer r.derivativesOfResults()
	vars := []sm.Variable{vX, vY, vZ, vB, vW, vN}
	more := append(append([]sm.Variable{}, vars...), vs[14], vs[16], vs[redeclared])
	one := func(t *T, v sm.Variable) {
		if r.skip() {
			return
		}
		vi := vIndex[vkey{v.Environment, v.ID}]
		sig := "DerivativeWrt|" + t.Sig()
		r.Case(func() string { return fmt.Sprintf("DerivativeWrt(%s, %s)", t, v.Name) }, func(c *C) {
			c.State(t.Proto)
			res := c.Do("DerivativeWrt", func() interface{} { return t.Expr().DerivativeWrt(v) })
			if c.mustAccept(sig, res) {
				c.value(sig, res.Val, mMap(t.D, func(p Poly) Poly { return pDeriv(p, vi) }))
			}
		})
	}
	r.operands(operandBounds{fillLevel: 2, maxCells: r.pick(9, 16), positions: true, poly2: r.pick(11, 14), poly3: r.pick(7, 10), depth: r.pick(1, 2), level: r.pick(1, 0)}, func(t *T) {
		vars := vars
		if t.R*t.C <= 2 {
			vars = more
		}
		for _, v := range vars {
			one(t, v)
		}
	})
	// repeated derivatives along every sequence of variables
	depth := r.pick(3, 4)
	seqs := [][]sm.Variable{}
	var rec func(pre []sm.Variable)
	rec = func(pre []sm.Variable) {
		if len(pre) > 1 {
			seqs = append(seqs, append([]sm.Variable{}, pre...))
		}
		if len(pre) == depth {
			return
		}
		for _, v := range []sm.Variable{vX, vY, vZ} {
			rec(append(append([]sm.Variable{}, pre...), v))
		}
	}
	rec(nil)
	r.operands(operandBounds{fillLevel: 2, maxCells: r.pick(4, 9), poly2: r.pick(5, 9), poly3: 0}, func(t *T) {
		for _, s := range seqs {
			if r.skip() {
				continue
			}
			r.Case(func() string { return fmt.Sprintf("repeated DerivativeWrt(%s, %s)", t, Show(s)) }, func(c *C) {
				e, d := t.Expr(), t.D
				for _, v := range s {
					vi := vIndex[vkey{v.Environment, v.ID}]
					sig := "DerivativeWrt|sequence"
					res := c.Do("DerivativeWrt", func() interface{} { return e.DerivativeWrt(v) })
					if !c.mustAccept(sig, res) {
						return
					}
					d = mMap(d, func(p Poly) Poly { return pDeriv(p, vi) })
					c.value(sig, res.Val, d)
					if len(c.fail) > 0 {
						return
					}
					e = res.Val.(sm.Expression)
				}
			})
		}
	})
}

// ----------------------------------------------------------- substitutions

func replacements(level int) []*T {
	xs := []interface{}{
		sm.K(0), sm.K(1), sm.K(-2), vX, vY, vN, mono(2, 0, 1), mono(-1, 0, 1, 1, 1),
		poly(mono(1, 0, 1), mono(1)), poly(mono(1, 1, 1), mono(-1, 0, 1)), poly(mono(2), mono(1, 0, 2)),
		mono(1, 1, 2, 0, 1), poly(mono(1, 1, 1), mono(1, 2, 1)), sm.K(0.5), mono(0, 0, 1), poly(mono(1, 0, 1), mono(-1, 0, 1)), mono(1, 1, 1), poly(mono(3)), mono(4), poly(mono(1, 0, 1)),
	}
	if level < len(xs) {
		xs = xs[:level]
	}
	var out []*T
	for _, x := range xs {
		out = append(out, mkT(x))
	}
	return out
}

func propSubstitute(r *R) {
	defer r.substitutionsOfResults(false)
	one := func(t *T, v sm.Variable, e *T) {
		if r.skip() {
			return
		}
		vi := vIndex[vkey{v.Environment, v.ID}]
		sig := "Substitute|" + t.Sig() + "|" + e.Sig()
		r.Case(func() string { return fmt.Sprintf("Substitute(%s, %s, %s)", t, v.Name, e) }, func(c *C) {
			c.State(t.Proto)
			res := c.Do("Substitute", func() interface{} { return t.Expr().Substitute(v, e.Scalar()) })
			if c.mustAccept(sig, res) {
				m := map[int]Poly{vi: e.D.E[0]}
				c.value(sig, res.Val, mMap(t.D, func(p Poly) Poly { return pSubst(p, m) }))
			}
		})
	}
	big := replacements(20)
	small := replacements(11)
	n := 0
	r.operands(operandBounds{fillLevel: 2, maxCells: r.pick(6, 9), positions: r.thorough(), poly2: 0, poly3: 0, depth: 1, level: 0}, func(t *T) {
		vars := []sm.Variable{vX, vY, vW, vN}
		rs := big
		if t.R*t.C > 1 || r.idx > 60000 {
			rs = small
		}
		if t.R*t.C > 4 {
			vars = vars[:2]
		}
		if t.R*t.C <= 2 && r.idx < 100000 {
			vars = append(vars, vs[14], vs[16], vs[redeclared])
		}
		for _, v := range vars {
			for _, e := range rs {
				one(t, v, e)
				n++
			}
		}
	})
	sysPolys(sysMonos(r.pick(8, 12), 1, -1, 2), 2, func(p sm.Polynomial) {
		t := mkT(p)
		for _, v := range []sm.Variable{vX, vY} {
			for _, e := range small {
				one(t, v, e)
			}
		}
	})
	sysPolys(sysMonos(r.pick(6, 8), 1, -1), 3, func(p sm.Polynomial) {
		t := mkT(p)
		for _, v := range []sm.Variable{vX, vY} {
			for _, e := range replacements(r.pick(5, 9))[2:] {
				one(t, v, e)
			}
		}
	})
	// high powers
	for e := 1; e <= 6; e++ {
		for _, m := range []sm.Monomial{mono(2, 0, e), mono(-1, 0, e, 1, 1), mono(1, 1, 2, 0, e)} {
			for _, x := range big {
				one(mkT(m), vX, x)
				one(mkT(m), vY, x)
				one(mkT(poly(m, mono(1, 0, 1), mono(1))), vX, x)
			}
		}
	}
	for _, e := range []int{7, 8, 9, 10, 13, 16, 17, 21, 24} {
		for _, m := range []sm.Monomial{mono(2, 0, e), mono(-1, 0, e, 1, 1), mono(1, 1, 2, 0, e), mono(1, 1, e-1, 0, 1)} {
			for _, x := range replacements(r.pick(9, 14)) {
				one(mkT(m), vX, x)
				one(mkT(m), vY, x)
				one(mkT(poly(m, mono(1, 0, 1), mono(1))), vX, x)
			}
		}
	}
}

type subMap struct {
	vars []sm.Variable
	to   []*T
}

func (m subMap) String() string {
	s := "{"
	for i := range m.vars {
		if i > 0 {
			s += ", "
		}
		s += m.vars[i].Name + "->" + m.to[i].String()
	}
	return s + "}"
}

// terms is the largest number of terms of a replacement.
func (m subMap) terms() int {
	n := 0
	for _, t := range m.to {
		n = max(n, len(t.D.E[0]))
	}
	return n
}

// build inserts the entries in the order given by perm.
func (m subMap) build(perm []int) map[sm.Variable]sm.Expression {
	out := map[sm.Variable]sm.Expression{}
	for _, i := range perm {
		out[m.vars[i]] = m.to[i].Expr()
	}
	return out
}

func (m subMap) ref() map[int]Poly {
	out := map[int]Poly{}
	for i, v := range m.vars {
		out[vIndex[vkey{v.Environment, v.ID}]] = m.to[i].D.E[0]
	}
	return out
}

func subMaps(all bool) []subMap {
	t := func(x interface{}) *T { return mkT(x) }
	k := func(x float64) *T { return mkT(sm.K(x)) }
	xp1 := poly(mono(1, 0, 1), mono(1))
	ymx := poly(mono(1, 1, 1), mono(-1, 0, 1))
	out := []subMap{
		{},
		{[]sm.Variable{vX}, []*T{k(2)}},
		{[]sm.Variable{vN}, []*T{k(2)}},
		{[]sm.Variable{vX, vY}, []*T{t(vY), t(vX)}},
		{[]sm.Variable{vX, vY, vZ}, []*T{t(vY), t(vZ), t(vX)}},
		{[]sm.Variable{vX, vY}, []*T{t(vY), k(3)}},
		{[]sm.Variable{vX, vY}, []*T{k(0), t(vX)}},
		{[]sm.Variable{vX, vY}, []*T{t(xp1), t(ymx)}},
		{[]sm.Variable{vX, vY, vZ}, []*T{t(mono(2, 1, 1)), t(poly(mono(1, 0, 1), mono(1, 2, 1))), k(-1)}},
		{[]sm.Variable{vX, vY, vZ, vB}, []*T{t(vY), t(vZ), t(vB), t(vX)}},
		{[]sm.Variable{vX, vY, vB, vW}, []*T{t(mono(1, 0, 1, 1, 1)), t(vX), t(vW), t(vB)}},
		{[]sm.Variable{vX, vY, vW}, []*T{t(vX), t(ymx), t(vN)}},
		{[]sm.Variable{vX, vY, vZ}, []*T{k(1), k(2), k(3)}},
		{[]sm.Variable{vY, vX}, []*T{t(mono(1, 0, 2)), t(poly(mono(1, 1, 1), mono(2)))}},
	}
	// maps of five entries and more, beyond one bucket of a Go map: rotations of
	// the variables, constants for half of them, and polynomials
	rot := func(n int) (m subMap) {
		for i := 0; i < n; i++ {
			m.vars = append(m.vars, vs[i])
			m.to = append(m.to, t(vs[(i+1)%n]))
		}
		return m
	}
	half := func(n int) (m subMap) {
		for i := 0; i < n; i++ {
			m.vars = append(m.vars, vs[i])
			if i%2 == 0 {
				m.to = append(m.to, k(float64(i)-1))
			} else {
				m.to = append(m.to, t(poly(mono(1, i-1, 1), mono(2, (i+2)%n, 1))))
			}
		}
		return m
	}
	out = append(out,
		subMap{[]sm.Variable{vs[14], vX}, []*T{t(vX), t(vs[14])}},
		subMap{[]sm.Variable{vs[16], vX}, []*T{t(vX), t(vs[16])}},
		subMap{[]sm.Variable{vs[16], vs[18]}, []*T{k(2), t(vX)}},
		subMap{[]sm.Variable{vs[redeclared], vY}, []*T{t(vY), t(vs[redeclared])}},
		subMap{[]sm.Variable{vs[13], vs[15], vY}, []*T{t(vY), k(2), t(vs[13])}},
		rot(5), half(6), rot(9), half(12), rot(18))
	if !all {
		return out[1:10]
	}
	return out
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			q = append(q, p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func propSubstituteMap(r *R) {
	defer r.substitutionsOfResults(true)
	ms := subMaps(true)
	one := func(t *T, m subMap, orders bool) {
		if r.skip() {
			return
		}
		sig := "SubstituteAccordingTo|" + t.Sig()
		r.Case(func() string {
			return fmt.Sprintf("SubstituteAccordingTo(%s, %s) all insertion orders and iteration orders: %v", t, m, orders)
		}, func(c *C) {
			c.State(t.Proto)
			ref := m.ref()
			want := mMap(t.D, func(p Poly) Poly { return pSubst(p, ref) })
			var ps [][]int
			if n := len(m.vars); n <= 4 {
				ps = perms(n)
			} else {
				fwd, bwd := make([]int, n), make([]int, n)
				for i := range fwd {
					fwd[i], bwd[i] = i, n-1-i
				}
				ps = [][]int{fwd, bwd}
			}
			seeds := 8
			if !orders {
				// the identity order, and one rotated iteration
				if len(ps) > 2 {
					ps = ps[:2]
				}
				seeds = 2
			}
			if len(m.vars) == 4 && len(ps) == 24 {
				ps = [][]int{ps[0], ps[7], ps[13], ps[23]}
			}
			for _, perm := range ps {
				for s := 0; s < seeds; s++ {
					setMapSeed(uint64(s))
					mp := m.build(perm)
					res := c.Do("SubstituteAccordingTo", func() interface{} { return t.Expr().SubstituteAccordingTo(mp) })
					if !c.mustAccept(sig, res) {
						return
					}
					c.value(sig, res.Val, want)
					if len(c.fail) > 0 {
						c.Failf("insertion order %v, iteration seed %d", perm, s)
						return
					}
				}
			}
		})
	}
	r.operands(operandBounds{fillLevel: r.pick(1, 2), maxCells: r.pick(6, 9), positions: r.thorough(), depth: 1, level: 0}, func(t *T) {
		for _, m := range ms {
			one(t, m, t.R*t.C == 1 && r.idx < 40000)
		}
	})
	sysPolys(sysMonos(r.pick(6, 10), 1, -1), 2, func(p sm.Polynomial) {
		t := mkT(p)
		for _, m := range ms {
			one(t, m, true)
		}
	})
	// high powers
	for _, e := range []int{4, 6, 7, 9, 12, 17} {
		for _, m := range []sm.Monomial{mono(2, 0, e), mono(-1, 0, e, 1, 1), mono(1, 1, 2, 0, e)} {
			for _, s := range ms {
				if s.terms() <= 2 {
					one(mkT(m), s, false)
					one(mkT(poly(m, mono(1, 0, 1), mono(1))), s, false)
				}
			}
		}
	}
	// the map check
	good := []sm.Expression{sm.K(0), vX, mono(2, 0, 1), poly(mono(1, 0, 1), mono(1)), mono(0), poly(mono(0))}
	badV := sm.Variable{ID: 9, Lower: 1, Upper: 0, Name: "bad", Environment: &alphaEnv}
	bad := []sm.Expression{
		sm.Monomial{Coefficient: 1, Exponents: []int{1, 2}, VariableFactors: []sm.Variable{vX}},
		sm.Polynomial{}, badV,
		sm.Polynomial{Monomials: []sm.Monomial{mono(1, 0, 1), {Coefficient: 1, Exponents: []int{1}}}},
		sm.KVector{1, 2}, sm.KVector{1}, sm.VariableVector{vX}, sm.VariableVector{vX, vY}, sm.MonomialVector{mono(1, 0, 1)}, sm.PolynomialVector{poly(mono(1)), poly(mono(2))},
		sm.KMatrix{{1}}, sm.VariableMatrix{{vX, vY}}, sm.MonomialMatrix{{mono(1)}}, sm.PolynomialMatrix{{poly(mono(1))}},
	}
	type entry struct {
		v  sm.Variable
		e  sm.Expression
		ok bool
	}
	var es []entry
	for i, g := range good {
		es = append(es, entry{vs[20+i], g, true})
	}
	for i, b := range bad {
		es = append(es, entry{vs[30+i], b, false})
	}
	es = append(es, entry{badV, sm.K(1), false}, entry{badV, vX, false})
	recv := []*T{mkT(sm.K(2)), mkT(vX), mkT(mono(2, 0, 1)), mkT(poly(mono(1, 0, 1), mono(1)))}
	for _, k := range exprKinds {
		if k.isVector() {
			recv = append(recv, fills(k, 2, 1, 1)[0])
		}
		if k.isMatrix() {
			recv = append(recv, fills(k, 2, 2, 1)[0])
		}
	}
	for i := range es {
		for j := range es {
			for k := range es {
				if j < i || k < j || (!r.thorough() && k != j) {
					continue
				}
				if r.skip() {
					continue
				}
				sel := []entry{es[i], es[j], es[k]}
				r.Case(func() string { return fmt.Sprintf("CheckSubstitutionMap entries %d %d %d", i, j, k) }, func(c *C) {
					ok := es[i].ok && es[j].ok && es[k].ok
					for _, perm := range [][]int{{0, 1, 2}, {2, 1, 0}} {
						for s := 0; s < 8; s++ {
							setMapSeed(uint64(s))
							mp := map[sm.Variable]sm.Expression{}
							for _, p := range perm {
								mp[sel[p].v] = sel[p].e
							}
							res := c.Do("CheckSubstitutionMap", func() interface{} { return sm.CheckSubstitutionMap(mp) == nil })
							if res.Panicked || res.Val.(bool) != ok {
								c.Sig("CheckSubstitutionMap")
								c.Failf("map {%s->%s, %s->%s, %s->%s} accepted=%v (panic %v), expected %v", sel[0].v.Name, Show(sel[0].e), sel[1].v.Name, Show(sel[1].e), sel[2].v.Name, Show(sel[2].e), res.Val, res.PV, ok)
								return
							}
						}
					}
					if !ok {
						for _, t := range recv {
							mp := map[sm.Variable]sm.Expression{}
							for _, p := range sel {
								mp[p.v] = p.e
							}
							if t.Kind == KK || t.Kind == KKV || t.Kind == KKM {
								continue // nothing to substitute in constants
							}
							res := c.Do("SubstituteAccordingTo", func() interface{} { return t.Expr().SubstituteAccordingTo(mp) })
							if !res.Panicked {
								c.Sig("malformed map accepted " + t.Kind.String())
								c.Failf("SubstituteAccordingTo(%s) accepted a malformed map", t)
								return
							}
						}
					}
				})
			}
		}
	}
}

// ------------------------------------------------------------ simplification

// canonical reports why a simplified value is not in canonical form.
func canonicalPoly(p sm.Polynomial) string {
	seen := map[string]bool{}
	for _, m := range p.Monomials {
		k, co, err := denMono(m)
		if err != nil {
			return err.Error()
		}
		if seen[k] {
			return "two like terms in " + rawPoly(p)
		}
		seen[k] = true
		if co == 0 && len(p.Monomials) > 1 {
			return "a zero term next to other terms in " + rawPoly(p)
		}
	}
	return ""
}

func simplestKind(d Poly) []Kind {
	switch {
	case len(d) == 0:
		return []Kind{KK}
	case len(d) == 1:
		for k, co := range d {
			if k == "" {
				return []Kind{KK}
			}
			if co == 1 && keyDeg(k) == 1 {
				return []Kind{KVar}
			}
		}
		return []Kind{KMono}
	}
	return []Kind{KPoly}
}

func (c *C) canonical(sig string, v interface{}, reduced bool) {
	_, _, es, err := entries(v)
	if err != nil {
		c.Failf("%v", err)
		return
	}
	for _, x := range es {
		if p, ok := x.(sm.Polynomial); ok {
			if why := canonicalPoly(p); why != "" {
				c.Sig("not canonical " + sig)
				c.Failf("%s: %s", sig, why)
				return
			}
		}
	}
	if reduced && len(es) == 1 {
		if k, ok := kindOf(v); ok && k.isScalar() {
			d, _ := denScalar(v)
			want := simplestKind(d)[0]
			if k != want {
				c.Sig("not reduced " + sig)
				c.Failf("%s: result %s is a %v, expected a %v", sig, Show(v), k, want)
			}
		}
	}
}

func propSimplify(r *R) {
	defer r.simplificationsOfResults()
	call := func(t *T, op string, reduced bool, f func(e sm.Expression) interface{}) {
		if r.skip() {
			return
		}
		sig := op + "|" + t.Sig()
		r.Case(func() string { return fmt.Sprintf("%s(%s)", op, t) }, func(c *C) {
			c.State(t.Proto)
			res := c.Do(op, func() interface{} { return f(t.Expr()) })
			if !c.mustAccept(sig, res) {
				return
			}
			c.value(sig, res.Val, t.D)
			if len(c.fail) > 0 {
				return
			}
			c.canonical(sig, res.Val, reduced)
			if len(c.fail) > 0 {
				return
			}
			k1 := Key(res.Val, false)
			again := c.Do(op, func() interface{} {
				e := Clone(res.Val, Exact).(sm.Expression)
				if op == "Simplify" {
					// the result may be of another kind; simplify it if it can be
					switch x := e.(type) {
					case sm.Polynomial, sm.PolynomialVector, sm.PolynomialMatrix:
						return f(x)
					}
					return e
				}
				return f(e)
			})
			if !c.mustAccept(sig, again) {
				return
			}
			if k2 := Key(again.Val, false); k1 != k2 {
				c.Sig("not idempotent " + sig)
				c.Failf("%s: simplifying %s again gives %s", sig, Show(res.Val), Show(again.Val))
			}
		})
	}
	r.operands(operandBounds{fillLevel: 2, maxCells: 16, positions: true, poly2: 14, poly3: r.pick(12, 14), depth: r.pick(1, 2), level: 0}, func(t *T) {
		call(t, "AsSimplifiedExpression", true, func(e sm.Expression) interface{} { return e.AsSimplifiedExpression() })
		switch t.Kind {
		case KPoly:
			call(t, "Simplify", false, func(e sm.Expression) interface{} { return e.(sm.Polynomial).Simplify() })
		case KPV:
			call(t, "Simplify", false, func(e sm.Expression) interface{} { return e.(sm.PolynomialVector).Simplify() })
		case KPM:
			call(t, "Simplify", false, func(e sm.Expression) interface{} { return e.(sm.PolynomialMatrix).Simplify() })
		}
	})
	// four terms
	sysPolys(sysMonos(r.pick(5, 8), 1, -1), 4, func(p sm.Polynomial) {
		t := mkT(p)
		call(t, "AsSimplifiedExpression", true, func(e sm.Expression) interface{} { return e.AsSimplifiedExpression() })
		call(t, "Simplify", false, func(e sm.Expression) interface{} { return e.(sm.Polynomial).Simplify() })
	})
	// every pair of monomials: do they match exactly when they are like terms?
	ms := append(sysMonos(14, 1, 2), monos()...)
	for _, a := range ms {
		for _, b := range ms {
			if r.skip() {
				continue
			}
			r.Case(func() string { return fmt.Sprintf("MatchesFormOf(%s, %s)", rawMono(a), rawMono(b)) }, func(c *C) {
				ka, _, _ := denMono(a)
				kb, _, _ := denMono(b)
				res := c.Do("MatchesFormOf", func() interface{} { return cloneMono(a, Exact).MatchesFormOf(cloneMono(b, Exact)) })
				if res.Panicked || res.Val.(bool) != (ka == kb) {
					c.Sig("MatchesFormOf")
					c.Failf("MatchesFormOf(%s, %s) = %v (panic %v)", rawMono(a), rawMono(b), res.Val, res.PV)
				}
			})
		}
	}
}
