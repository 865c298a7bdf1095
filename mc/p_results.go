package main

// Every operation applied to the raw result of every operation (depth two over
// the whole operation alphabet): the universe explores a chosen set of
// operations deeply, this explores all of them once more.

import (
	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// afterOps calls f with the result of every pool call of every operation. Results
// that one worker has already seen are skipped; how tells the call.
func (r *R) afterOps(what string, f func(c *C, t *T, raw sm.Expression)) {
	seen := map[uint64]struct{}{}
	p := r.pools()
	p.Calls(allOps(), func(o *Op, args []*V) {
		if o.Class == "Check" || o.Class == "Dims" || o.Class == "String" {
			return
		}
		r.Case(func() string { return what + " of the result of " + callText(o, args) }, func(c *C) {
			res := c.Do(o.Name, func() interface{} { return o.Call(newArgs(args, Exact)) })
			if res.Panicked {
				return
			}
			e, ok := res.Val.(sm.Expression)
			if !ok || e == nil {
				return
			}
			if _, ok := kindOf(e); !ok {
				return
			}
			k := hash64(Key(e, true))
			if _, dup := seen[k]; dup {
				return
			}
			seen[k] = struct{}{}
			_, err := Den(e)
			if err != nil || e.Check() != nil {
				return // other properties
			}
			c.r.addState(k)
			f(c, mkT(Clone(e, Exact)), e)
			if len(c.fail) > 0 {
				c.Failf("the call was %s, its result %s", callText(o, args), Show(res.Val))
			}
		})
	})
}

// one unary operation of the raw result
func (c *C) unary(op, sig string, want *Mat, f func() interface{}) (Res, bool) {
	res := c.Do(op, f)
	sig = "after an operation: " + op + "|" + sig
	if !c.mustAccept(sig, res) {
		return res, false
	}
	c.value(sig, res.Val, want)
	return res, len(c.fail) == 0
}

func (r *R) arithOfResults(mul bool) {
	others := []*T{mkT(sm.K(-2)), mkT(vX), mkT(mono(-1, 0, 1, 1, 1)), mkT(poly(mono(1, 0, 1), mono(-1)))}
	what := "sums"
	if mul {
		what = "products"
	}
	r.afterOps(what, func(c *C, t *T, e sm.Expression) {
		if nTerms(e) > 60 {
			return
		}
		// the raw result goes in on both sides
		bin := func(op string, a, b *T, ref func(x, y *Mat) (*Mat, bool), f func(x, y sm.Expression) interface{}) {
			want, ok := ref(a.D, b.D)
			if !ok {
				return
			}
			operand := func(x *T) sm.Expression {
				if x == t {
					return e
				}
				return x.Expr()
			}
			c.acceptValue(op, binSig(op, a, b), want, func() interface{} { return f(operand(a), operand(b)) })
		}
		times := func(x, y sm.Expression) interface{} { return x.Multiply(y) }
		plus := func(x, y sm.Expression) interface{} { return x.Plus(y) }
		minus := func(x, y sm.Expression) interface{} { return x.Minus(y) }
		list := others
		if t.R*t.C > 1 || nTerms(e) <= 12 {
			list = append(others[:len(others):len(others)], t)
		}
		for _, s := range list {
			if mul {
				if fitsMul(t, s) {
					bin("Multiply", t, s, mMul, times)
				}
				if s != t && fitsMul(s, t) {
					bin("Multiply", s, t, mMul, times)
				}
				continue
			}
			bin("Plus", t, s, mAdd, plus)
			bin("Minus", t, s, mSub, minus)
			if s != t {
				bin("Plus", s, t, mAdd, plus)
				bin("Minus", s, t, mSub, minus)
			}
		}
	})
}

// acceptValue judges the value of an operation unless the committed table does
// not list it as supported.
func (c *C) acceptValue(op, sig string, want *Mat, f func() interface{}) {
	if len(c.fail) > 0 {
		return
	}
	if res := c.Do(op, f); c.Accept(sig, res) {
		c.value(sig, res.Val, want)
	}
}

func (r *R) powersOfResults() {
	r.afterOps("powers", func(c *C, t *T, e sm.Expression) {
		if t.R != t.C || t.R > 3 || nTerms(e) > 12 || mDegree(t.D) > 6 {
			return
		}
		for n := 0; n <= 3; n++ {
			n := n
			c.acceptValue("Power", "Power|"+t.Sig()+"|nonneg", mPow(t.D, n), func() interface{} { return e.Power(n) })
		}
	})
}

func (r *R) derivativesOfResults() {
	r.afterOps("derivatives", func(c *C, t *T, e sm.Expression) {
		for _, v := range []sm.Variable{vX, vY, vB} {
			v, vi := v, idxOf(v)
			if _, ok := c.unary("DerivativeWrt", t.Sig(), mMap(t.D, func(p Poly) Poly { return pDeriv(p, vi) }), func() interface{} { return e.DerivativeWrt(v) }); !ok {
				return
			}
		}
	})
}

func (r *R) substitutionsOfResults(maps bool) {
	xp1 := poly(mono(1, 0, 1), mono(1))
	neg := mono(-1, 1, 1)
	r.afterOps("substitution", func(c *C, t *T, e sm.Expression) {
		if nTerms(e) > 40 || mDegree(t.D) > 8 {
			return
		}
		if maps {
			for _, m := range []map[sm.Variable]sm.Expression{{vX: vY, vY: vX}, {vX: xp1, vY: sm.K(2)}, {vY: neg}} {
				ref := map[int]Poly{}
				for v, x := range m {
					d, _ := Den(x)
					ref[idxOf(v)] = d.E[0]
				}
				m := m
				if _, ok := c.unary("SubstituteAccordingTo", t.Sig(), mMap(t.D, func(p Poly) Poly { return pSubst(p, ref) }), func() interface{} { return e.SubstituteAccordingTo(m) }); !ok {
					return
				}
			}
			return
		}
		for _, s := range []struct {
			v sm.Variable
			x sm.ScalarExpression
		}{{vX, xp1}, {vX, sm.K(0)}, {vY, vX}, {vY, neg}} {
			s := s
			d, _ := Den(s.x)
			ref := map[int]Poly{idxOf(s.v): d.E[0]}
			if _, ok := c.unary("Substitute", t.Sig(), mMap(t.D, func(p Poly) Poly { return pSubst(p, ref) }), func() interface{} { return e.Substitute(s.v, s.x) }); !ok {
				return
			}
		}
	})
}

func (r *R) simplificationsOfResults() {
	r.afterOps("simplification", func(c *C, t *T, e sm.Expression) {
		res, ok := c.unary("AsSimplifiedExpression", t.Sig(), t.D, func() interface{} { return e.AsSimplifiedExpression() })
		if !ok {
			return
		}
		sig := "after an operation: AsSimplifiedExpression|" + t.Sig()
		c.canonical(sig, res.Val, true)
		if len(c.fail) > 0 {
			return
		}
		again := c.Do("AsSimplifiedExpression", func() interface{} {
			return Clone(res.Val, Exact).(sm.Expression).AsSimplifiedExpression()
		})
		if c.mustAccept(sig, again) && Key(res.Val, false) != Key(again.Val, false) {
			c.Sig("not idempotent " + sig)
			c.Failf("simplifying %s again gives %s", Show(res.Val), Show(again.Val))
		}
	})
}

func (r *R) coefficientsOfResults() {
	lists := [][]sm.Variable{{vX}, {vY, vX}, {vN, vZ, vX}}
	r.afterOps("coefficients", func(c *C, t *T, e sm.Expression) {
		sig := "after an operation: Constant|" + t.Sig()
		res := c.Do("Constant", func() interface{} { return constantOf(e) })
		if !c.mustAccept(sig, res) {
			return
		}
		var want []float64
		for _, p := range t.D.E {
			want = append(want, p[""])
		}
		if rr, cc, got, ok := matVals(res.Val); !ok || rr != t.R || cc != t.C || !floatsEq(got, want) {
			c.Sig("wrong " + sig)
			c.Failf("Constant = %v, expected %v", got, want)
			return
		}
		if !hasLinearCoeff(t.Kind) {
			return
		}
		sig = "after an operation: LinearCoeff|" + t.Sig()
		for _, l := range lists {
			l := append([]sm.Variable{}, l...)
			res := c.Do("LinearCoeff", func() interface{} { return linearCoeffOf(e, l) })
			if !c.mustAccept(sig, res) {
				return
			}
			wr, wc := len(l), 1
			if t.Kind.isVector() {
				wr, wc = t.R, len(l)
			}
			want := refCoeffs(t.D, l)
			if rr, cc, got, ok := matVals(res.Val); !ok || rr != wr || cc != wc || !floatsEq(got, want) {
				c.Sig("wrong " + sig)
				c.Failf("LinearCoeff with respect to %s = %v, expected %v", Show(l), got, want)
				return
			}
		}
	})
}

func (r *R) shapesOfResults() {
	r.afterOps("dimensions and entries", func(c *C, t *T, e sm.Expression) { c.shape(t, e) })
}

func (r *R) printingOfResults(names map[string]int) {
	r.afterOps("String", func(c *C, t *T, e sm.Expression) {
		sig := "after an operation: String|" + t.Sig()
		res := c.Do("String", func() interface{} { return e.String() })
		if !c.mustAccept(sig, res) {
			return
		}
		c.Sig(sig)
		got, err := readExpr(res.Val.(string), names)
		if err != nil {
			c.Failf("%q cannot be read back: %v", res.Val, err)
			return
		}
		if !exactEq(got, t.D) {
			c.Failf("%q reads as %s, not as %s", res.Val, got, t.D)
		}
	})
}

// partner is another operand for comparisons with a value of t's class.
func partner(t *T, n int) *T {
	switch {
	case t.Kind.isScalar():
		return []*T{mkT(sm.K(2)), mkT(poly(mono(1, 1, 1), mono(-1)))}[n%2]
	case t.Kind.isVector():
		k := []Kind{KKV, KPV}[n%2]
		return fill(k, t.R, 1, func(i, j int) interface{} { return distinctEntry(k, i) })
	}
	k := []Kind{KKM, KPM}[n%2]
	return fill(k, t.R, t.C, func(i, j int) interface{} { return distinctEntry(k, i*t.C+j) })
}

func (r *R) comparisonsOfResults() {
	r.afterOps("comparisons", func(c *C, t *T, e sm.Expression) {
		if nTerms(e) > 60 {
			return
		}
		one := func(op cmpOp, a, b *T) {
			if len(c.fail) > 0 {
				return
			}
			rr, cc := a.R, a.C
			if a.Kind.isScalar() {
				rr, cc = b.R, b.C
			}
			operand := func(x *T) sm.Expression {
				if x == t {
					return e
				}
				return x.Expr()
			}
			sig := binSig(op.name, a, b)
			res := c.Do(op.name, func() interface{} { return op.f(operand(a), operand(b)) })
			if !c.Accept(sig, res) {
				return
			}
			if c.saysExactly(sig, res.Val, broadcast(a.D, rr, cc), broadcast(b.D, rr, cc), op.sense) {
				c.checkParts(sig, res.Val)
			}
		}
		for i, op := range r.cmp() {
			s := mkT([]interface{}{sm.K(-1), vY}[i%2])
			if i < 3 {
				one(op, t, partner(t, i))
				one(op, partner(t, i+1), t)
			}
			one(op, t, s)
			one(op, s, t)
		}
	})
}

func (r *R) rewritingsOfResults() {
	xp1 := mkT(poly(mono(1, 1, 1), mono(-1, 0, 1)))
	m := map[int]Poly{idxOf(vX): xp1.D.E[0]}
	sub := func(p Poly) Poly { return pSubst(p, m) }
	r.afterOps("rewriting of constraints", func(c *C, t *T, e sm.Expression) {
		if nTerms(e) > 20 || mDegree(t.D) > 5 {
			return
		}
		n := int(r.idx)
		s := senses[n%3]
		b := partner(t, n/3)
		want := CD{broadcast(t.D, t.R, t.C), b.D, s}
		cls := constrClass(t)
		run := func(op string, f func(con sm.Constraint) interface{}, want CD, constRight bool) {
			if len(c.fail) > 0 {
				return
			}
			sig := op + "|" + cls + "|" + t.Sig() + "|" + b.Sig()
			con := mkConstr(t, b, s)
			res := c.Do(cls+"."+op, func() interface{} { return f(con) })
			if !c.mustAccept(sig, res) {
				return
			}
			c.equivConstr(sig, res.Val, want)
			if constRight && len(c.fail) == 0 {
				if cd, _ := denConstr(res.Val); mDegree(cd.R) != 0 {
					c.Sig("right side " + sig)
					c.Failf("%s: the right side of %s is not constant", sig, Show(res.Val))
				}
			}
		}
		run("AsSimplifiedConstraint", func(con sm.Constraint) interface{} { return con.AsSimplifiedConstraint() }, want, true)
		if cls == "ScalarConstraint" {
			run("Simplify", func(con sm.Constraint) interface{} { return con.(sm.ScalarConstraint).Simplify() }, want, true)
			run("ScaleBy", func(con sm.Constraint) interface{} { return con.(sm.ScalarConstraint).ScaleBy(-2) }, want, false)
		}
		subst := CD{mMap(want.L, sub), mMap(want.R, sub), s}
		run("Substitute", func(con sm.Constraint) interface{} { return con.Substitute(vX, xp1.Scalar()) }, subst, false)
		run("SubstituteAccordingTo", func(con sm.Constraint) interface{} {
			return con.SubstituteAccordingTo(map[sm.Variable]sm.Expression{vX: xp1.Scalar()})
		}, subst, false)
	})
}

func (r *R) linearFormsOfResults() {
	reps := []linearRep{{"LinearInequalityConstraintRepresentation", false}, {"LinearEqualityConstraintRepresentation", true}}
	r.afterOps("linear forms of constraints", func(c *C, t *T, e sm.Expression) {
		if t.Kind.isMatrix() {
			return
		}
		for n, s := range senses {
			for i := 0; i < 2; i++ {
				a, b := t, partner(t, n+i)
				if i == 1 {
					a, b = b, a
				}
				app := map[int]bool{}
				for _, x := range []*T{a, b} {
					for i := range appearing(x.Proto) {
						app[i] = true
					}
				}
				own := []sm.Variable{vN}
				for _, i := range sortedInts(app) {
					own = append(own, vList[i])
				}
				mustLin := max(rawDegree(a.Proto, true), rawDegree(b.Proto, true)) <= 1
				mustNot := max(mDegree(a.D), mDegree(b.D)) > 1
				for _, rp := range reps {
					for _, wrt := range [][]sm.Variable{nil, own} {
						if c.linearForm(a, b, s, rp, wrt, mustLin, mustNot); len(c.fail) > 0 {
							return
						}
					}
				}
			}
		}
	})
}
