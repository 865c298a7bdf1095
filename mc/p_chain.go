package main

// Composition (C23): every sequence of operations over a small alphabet, executed
// on the real code side by side with the reference. A state is an expression the
// code produced together with what it has to denote; it is kept as it came out of
// the operation, shared by everything that is done with it afterwards.

import (
	"fmt"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

func init() { props["C23"] = propChains }

// chainOp is one step. ref says what the result has to denote (nil: the operation
// does not apply), sig is the acceptance signature ("" for: always accepted).
type chainOp struct {
	name string
	ref  func(d *Mat) *Mat
	sig  func(t *T) string
	f    func(e sm.Expression) interface{}
}

func chainAlphabet(partners []*T) []chainOp {
	always := func(*T) string { return "" }
	entrywise := func(f func(p Poly) Poly) func(d *Mat) *Mat {
		return func(d *Mat) *Mat { return mMap(d, f) }
	}
	subst := func(m map[int]Poly) func(d *Mat) *Mat {
		return entrywise(func(p Poly) Poly { return pSubst(p, m) })
	}
	x, y := idxOf(vX), idxOf(vY)
	yp1 := poly(mono(1, 1, 1), mono(1))
	ops := []chainOp{
		{"Transpose()", mT, always, func(e sm.Expression) interface{} { return e.Transpose() }},
		{"DerivativeWrt(x_0)", entrywise(func(p Poly) Poly { return pDeriv(p, x) }), always, func(e sm.Expression) interface{} { return e.DerivativeWrt(vX) }},
		{"DerivativeWrt(x_1)", entrywise(func(p Poly) Poly { return pDeriv(p, y) }), always, func(e sm.Expression) interface{} { return e.DerivativeWrt(vY) }},
		{"Substitute(x_0, x_1+1)", subst(map[int]Poly{x: pAdd(pVar(y), pConst(1))}), always, func(e sm.Expression) interface{} { return e.Substitute(vX, clonePoly(yp1, Exact)) }},
		{"Substitute(x_1, x_0)", subst(map[int]Poly{y: pVar(x)}), always, func(e sm.Expression) interface{} { return e.Substitute(vY, vX) }},
		{"SubstituteAccordingTo(swap)", subst(map[int]Poly{x: pVar(y), y: pVar(x)}), always, func(e sm.Expression) interface{} {
			return e.SubstituteAccordingTo(map[sm.Variable]sm.Expression{vX: vY, vY: vX})
		}},
		{"SubstituteAccordingTo(x_0: 2)", subst(map[int]Poly{x: pConst(2)}), always, func(e sm.Expression) interface{} {
			return e.SubstituteAccordingTo(map[sm.Variable]sm.Expression{vX: sm.K(2)})
		}},
		{"AsSimplifiedExpression()", func(d *Mat) *Mat { return d }, always, func(e sm.Expression) interface{} { return e.AsSimplifiedExpression() }},
		{"Power(2)", func(d *Mat) *Mat {
			if d.R != d.C {
				return nil
			}
			return mPow(d, 2)
		}, func(t *T) string { return "Power|" + t.Sig() + "|nonneg" }, func(e sm.Expression) interface{} { return e.Power(2) }},
		{"Plus(itself)", func(d *Mat) *Mat { m, _ := mAdd(d, d); return m }, func(t *T) string { return binSig("Plus", t, t) }, func(e sm.Expression) interface{} { return e.Plus(e) }},
		{"At(last)", func(d *Mat) *Mat {
			if d.R*d.C == 1 {
				return nil
			}
			return one(d.at(d.R-1, d.C-1))
		}, always, func(e sm.Expression) interface{} { n := e.Dims(); return e.At(n[0]-1, n[1]-1) }},
		{"HStack(itself, itself)", func(d *Mat) *Mat { m, _ := hcat(d, d); return m }, always, func(e sm.Expression) interface{} { return sm.HStack(e, e) }},
	}
	for _, p := range partners {
		p := p
		bin := func(name, op string, flip bool, fits func(a, b *T) bool, ref func(a, b *Mat) (*Mat, bool), f func(a, b sm.Expression) interface{}) {
			if flip {
				ops = append(ops, chainOp{
					fmt.Sprintf("%s.%s(_)", p, op),
					func(d *Mat) *Mat {
						if m, ok := ref(p.D, d); ok {
							return m
						}
						return nil
					},
					func(t *T) string {
						if !fits(p, t) {
							return "-"
						}
						return binSig(op, p, t)
					},
					func(e sm.Expression) interface{} { return f(p.Expr(), e) },
				})
				return
			}
			ops = append(ops, chainOp{
				fmt.Sprintf("%s(%s)", op, p),
				func(d *Mat) *Mat {
					if m, ok := ref(d, p.D); ok {
						return m
					}
					return nil
				},
				func(t *T) string {
					if !fits(t, p) {
						return "-"
					}
					return binSig(op, t, p)
				},
				func(e sm.Expression) interface{} { return f(e, p.Expr()) },
			})
		}
		for _, fl := range []bool{false, true} {
			bin("", "Plus", fl, fitsAdd, mAdd, func(a, b sm.Expression) interface{} { return a.Plus(b) })
			bin("", "Minus", fl, fitsAdd, mSub, func(a, b sm.Expression) interface{} { return a.Minus(b) })
			bin("", "Multiply", fl, fitsMul, mMul, func(a, b sm.Expression) interface{} { return a.Multiply(b) })
		}
		all := func(a, b *T) bool { return true }
		stackSig := func(o chainOp) chainOp { o.sig = always; return o }
		bin("", "HStack", false, all, func(a, b *Mat) (*Mat, bool) { return hcat(a, b) }, func(a, b sm.Expression) interface{} { return sm.HStack(a, b) })
		ops[len(ops)-1] = stackSig(ops[len(ops)-1])
		bin("", "VStack", true, all, func(a, b *Mat) (*Mat, bool) { return vcat(a, b) }, func(a, b sm.Expression) interface{} { return sm.VStack(a, b) })
		ops[len(ops)-1] = stackSig(ops[len(ops)-1])
	}
	return ops
}

func propChains(r *R) {
	accepted := map[string]string{}
	for _, p := range []string{"C01", "C02", "C08"} {
		for k, v := range loadSupport(p) {
			accepted[k] = v
		}
	}
	v := func(k Kind, es ...interface{}) *T {
		return fill(k, len(es), 1, func(i, j int) interface{} { return es[i] })
	}
	m := func(k Kind, rows, cols int, es ...interface{}) *T {
		return fill(k, rows, cols, func(i, j int) interface{} { return es[i*cols+j] })
	}
	xm1 := poly(mono(1, 0, 1), mono(-1))
	partners := []*T{
		mkT(sm.K(-2)), mkT(vX), mkT(mono(2, 0, 1, 1, 1)), mkT(xm1),
		v(KKV, sm.K(1), sm.K(-2)), v(KVV, vX, vY), v(KMV, mono(2, 0, 1), mono(-1, 1, 2)), v(KPV, xm1, poly(mono(1, 1, 1))),
		m(KKM, 2, 2, sm.K(1), sm.K(2), sm.K(0), sm.K(-1)), m(KVM, 1, 2, vX, vY), m(KMM, 2, 2, mono(0), mono(1, 0, 1), mono(-1, 1, 1), mono(3)),
		m(KPM, 2, 2, xm1, poly(mono(2)), poly(mono(1, 1, 1)), poly(mono(1, 0, 1), mono(1, 1, 1))),
	}
	starts := append(partners[1:len(partners):len(partners)],
		mkT(sm.K(0)), mkT(poly(mono(1, 0, 1), mono(-1, 0, 1), mono(2, 1, 1), mono(1, 1, 1))), mkT(mono(0, 0, 1)),
		m(KVM, 2, 2, vX, vY, vY, vX), m(KKM, 1, 2, sm.K(3), sm.K(0)), m(KPM, 1, 1, xm1), v(KVV, vY), v(KPV, poly(mono(1, 0, 1), mono(-1, 0, 1)), poly(mono(0), mono(1, 0, 1), mono(2))))
	r.constraintChains(partners)
	few := []*T{partners[0], partners[3], partners[5], partners[11]}
	r.expressionChains(accepted, few, starts, 4, 10)
	if r.thorough() {
		r.expressionChains(accepted, partners, starts, 4, 12)
		r.expressionChains(accepted, []*T{partners[0], partners[7]}, starts, 5, 10)
	}
}

func (r *R) expressionChains(accepted map[string]string, partners, starts []*T, depth, maxTerms int) {
	ops := chainAlphabet(partners)
	seen := map[uint64]int8{} // states this worker expanded, with the remaining depth
	var step func(c *C, e sm.Expression, t *T, path []int, left int)
	apply := func(c *C, e sm.Expression, t *T, path []int, o int) (sm.Expression, *T) {
		op := ops[o]
		want := op.ref(t.D)
		if want == nil {
			return nil, nil
		}
		sig := op.sig(t)
		if sig == "-" {
			return nil, nil
		}
		res := c.Do(op.name, func() interface{} { return op.f(e) })
		tell := func() {
			s := ""
			for _, i := range append(path, o) {
				s += " . " + ops[i].name
			}
			c.Failf("after%s", s)
		}
		if res.Panicked {
			if sig == "" || accepted[sig] == "A" {
				c.Sig("refused " + op.name)
				c.Failf("%s of %s refused: %s", op.name, Show(e), res.why())
				tell()
			}
			return nil, nil
		}
		c.value(op.name, res.Val, want)
		if len(c.fail) > 0 {
			tell()
			return nil, nil
		}
		x, ok := res.Val.(sm.Expression)
		if !ok {
			c.Sig("type " + op.name)
			c.Failf("%s of %s returned a %T", op.name, Show(e), res.Val)
			tell()
			return nil, nil
		}
		k, ok := kindOf(x)
		if !ok {
			return nil, nil
		}
		if nTerms(x) > maxTerms || mDegree(want) > 6 || want.R > 3 || want.C > 3 {
			return nil, nil
		}
		return x, &T{Proto: x, D: want, Kind: k, R: want.R, C: want.C}
	}
	step = func(c *C, e sm.Expression, t *T, path []int, left int) {
		k := hash64(Key(e, true))
		if n, ok := seen[k]; ok && int(n) >= left {
			return
		}
		before := Key(e, false)
		if _, ok := seen[k]; !ok {
			c.readExpr(e, t)
			if len(c.fail) > 0 {
				for _, i := range path {
					c.Failf("after %s", ops[i].name)
				}
				return
			}
		}
		seen[k] = int8(left)
		for o := range ops {
			x, tx := apply(c, e, t, path, o)
			if len(c.fail) > 0 {
				return
			}
			if x != nil && left > 1 {
				step(c, x, tx, append(path[:len(path):len(path)], o), left-1)
				if len(c.fail) > 0 {
					return
				}
			}
		}
		// everything that was done with it has left it as it was
		if Key(e, false) != before {
			c.Sig("changed")
			c.Failf("an expression changed while it was being used: now %s", Show(e))
		}
	}
	for _, s := range starts {
		for o1 := range ops {
			for o2 := range ops {
				if r.skip() {
					continue
				}
				r.Case(func() string {
					return fmt.Sprintf("every sequence of %d operations that begins with %s . %s . %s", depth, s, ops[o1].name, ops[o2].name)
				}, func(c *C) {
					e := s.Expr()
					x, t := apply(c, e, s, nil, o1)
					if x == nil {
						return
					}
					y, ty := apply(c, x, t, []int{o1}, o2)
					if y == nil {
						return
					}
					step(c, y, ty, []int{o1, o2}, depth-2)
				})
			}
		}
	}
}

// conOp is one step on a constraint. want says what the result has to be
// equivalent to (nil: the step does not apply); exact asks for the same relation
// rather than an equivalent one.
type conOp struct {
	name  string
	want  func(cd CD) *CD
	exact bool
	f     func(con sm.Constraint) interface{}
}

func conAlphabet() []conOp {
	same := func(cd CD) *CD { return &cd }
	sub := func(m map[int]Poly) func(cd CD) *CD {
		f := func(p Poly) Poly { return pSubst(p, m) }
		return func(cd CD) *CD { return &CD{mMap(cd.L, f), mMap(cd.R, f), cd.Sense} }
	}
	entry := func(i, j func(m *Mat) int) func(cd CD) *CD {
		return func(cd CD) *CD {
			a, b := i(cd.L), j(cd.L)
			return &CD{one(cd.L.at(a, b)), one(cd.R.at(a, b)), cd.Sense}
		}
	}
	lastR, lastC := func(m *Mat) int { return m.R - 1 }, func(m *Mat) int { return m.C - 1 }
	zero := func(m *Mat) int { return 0 }
	x, y := idxOf(vX), idxOf(vY)
	ymx := poly(mono(1, 1, 1), mono(-1, 0, 1))
	return []conOp{
		{"AsSimplifiedConstraint()", same, false, func(c sm.Constraint) interface{} { return c.AsSimplifiedConstraint() }},
		{"Simplify()", same, false, func(c sm.Constraint) interface{} {
			if s, ok := c.(sm.ScalarConstraint); ok {
				return s.Simplify()
			}
			return nil
		}},
		{"ScaleBy(-2)", same, false, func(c sm.Constraint) interface{} {
			if s, ok := c.(sm.ScalarConstraint); ok {
				return s.ScaleBy(-2)
			}
			return nil
		}},
		{"ScaleBy(0.5)", same, false, func(c sm.Constraint) interface{} {
			if s, ok := c.(sm.ScalarConstraint); ok {
				return s.ScaleBy(0.5)
			}
			return nil
		}},
		{"Substitute(x_0, x_1-x_0)", sub(map[int]Poly{x: pSub(pVar(y), pVar(x))}), false, func(c sm.Constraint) interface{} { return c.Substitute(vX, clonePoly(ymx, Exact)) }},
		{"Substitute(x_1, x_0)", sub(map[int]Poly{y: pVar(x)}), false, func(c sm.Constraint) interface{} { return c.Substitute(vY, vX) }},
		{"Substitute(x_0, 2)", sub(map[int]Poly{x: pConst(2)}), false, func(c sm.Constraint) interface{} { return c.Substitute(vX, sm.K(2)) }},
		{"SubstituteAccordingTo(swap)", sub(map[int]Poly{x: pVar(y), y: pVar(x)}), false, func(c sm.Constraint) interface{} {
			return c.SubstituteAccordingTo(map[sm.Variable]sm.Expression{vX: vY, vY: vX})
		}},
		{"SubstituteAccordingTo(x_1: -3*x_0)", sub(map[int]Poly{y: pScale(pVar(x), -3)}), false, func(c sm.Constraint) interface{} {
			return c.SubstituteAccordingTo(map[sm.Variable]sm.Expression{vY: mono(-3, 0, 1)})
		}},
		{"At(first)", entry(zero, zero), true, func(c sm.Constraint) interface{} {
			switch t := c.(type) {
			case sm.VectorConstraint:
				return t.AtVec(0)
			case sm.MatrixConstraint:
				return t.At(0, 0)
			}
			return nil
		}},
		{"At(last)", entry(lastR, lastC), true, func(c sm.Constraint) interface{} {
			switch t := c.(type) {
			case sm.VectorConstraint:
				return t.AtVec(t.Len() - 1)
			case sm.MatrixConstraint:
				return t.At(t.Dims()[0]-1, t.Dims()[1]-1)
			}
			return nil
		}},
		{"Compile(it, it)[last]", entry(lastR, lastC), true, func(c sm.Constraint) interface{} {
			out := sm.CompileConstraintsIntoScalarConstraints([]sm.Constraint{c, c})
			return out[len(out)-1]
		}},
	}
}

func (r *R) constraintChains(sides []*T) {
	ops := conAlphabet()
	v := func(k Kind, es ...interface{}) *T {
		return fill(k, len(es), 1, func(i, j int) interface{} { return es[i] })
	}
	xm1 := poly(mono(1, 0, 1), mono(-1))
	sides = append(sides[:len(sides):len(sides)],
		mkT(sm.K(0)), mkT(poly(mono(1, 0, 1), mono(2), mono(-1, 0, 1), mono(1, 1, 1))), mkT(mono(-3, 1, 1)),
		v(KKV, sm.K(0), sm.K(0)), v(KVV, vY, vY), v(KPV, poly(mono(2, 0, 1), mono(1, 1, 1), mono(3)), xm1), v(KMV, mono(0, 0, 1), mono(2)))
	depth := r.pick(4, 5)
	seen := map[uint64]int8{}
	apply := func(c *C, con sm.Constraint, cd CD, path []int, o int) (sm.Constraint, CD) {
		op := ops[o]
		tell := func() {
			s := ""
			for _, i := range append(path, o) {
				s += " . " + ops[i].name
			}
			c.Failf("after%s", s)
		}
		res := c.Do(op.name, func() interface{} { return op.f(con) })
		if !res.Panicked && res.Val == nil {
			return nil, cd
		}
		if !c.mustAccept(op.name, res) {
			tell()
			return nil, cd
		}
		want := op.want(cd)
		if op.exact {
			c.saysExactly(op.name, res.Val, want.L, want.R, want.Sense)
		} else {
			c.equivConstr(op.name, res.Val, *want)
		}
		if len(c.fail) > 0 {
			tell()
			return nil, cd
		}
		next, err := denConstr(res.Val)
		if err != nil {
			c.Failf("%v", err)
			tell()
			return nil, cd
		}
		return res.Val.(sm.Constraint), next
	}
	// everything that can be read off a constraint
	read := func(c *C, con sm.Constraint, cd CD) {
		c.checkParts("a reached constraint", con)
		if len(c.fail) > 0 {
			return
		}
		a, b := asT(con.Left()), asT(con.Right())
		if a == nil || b == nil {
			return
		}
		if s, ok := con.(sm.ScalarConstraint); ok {
			res := c.Do("IsNonnegativityConstraint", func() interface{} { return s.IsNonnegativityConstraint() })
			if !c.mustAccept("IsNonnegativityConstraint", res) {
				return
			}
			if want := isNonneg(cd.diff().E[0], cd.Sense); res.Val.(bool) != want {
				c.Sig("IsNonnegativityConstraint")
				c.Failf("IsNonnegativityConstraint of %s is %v", Show(con), !want)
				return
			}
		}
		if _, ok := con.(sm.MatrixConstraint); ok {
			return
		}
		mustLin := max(rawDegree(a.Proto, true), rawDegree(b.Proto, true)) <= 1
		mustNot := max(mDegree(a.D), mDegree(b.D)) > 1
		for _, rp := range []linearRep{{"LinearInequalityConstraintRepresentation", false}, {"LinearEqualityConstraintRepresentation", true}} {
			for _, wrt := range [][]sm.Variable{nil, {vY, vX, vN}} {
				if wrt != nil {
					covered := true
					for _, t := range []*T{a, b} {
						for i := range appearing(t.Proto) {
							covered = covered && (i == idxOf(vX) || i == idxOf(vY))
						}
					}
					if !covered {
						continue
					}
				}
				c.linearForm(a, b, cd.Sense, rp, wrt, mustLin, mustNot)
			}
		}
	}
	var step func(c *C, con sm.Constraint, cd CD, path []int, left int)
	step = func(c *C, con sm.Constraint, cd CD, path []int, left int) {
		k := hash64(Key(con, true))
		n, ok := seen[k]
		if ok && int(n) >= left {
			return
		}
		seen[k] = int8(left)
		before := Key(con, false)
		if !ok {
			read(c, con, cd)
			if len(c.fail) > 0 {
				for _, i := range path {
					c.Failf("after %s", ops[i].name)
				}
				return
			}
		}
		for o := range ops {
			if left == 0 {
				break
			}
			x, next := apply(c, con, cd, path, o)
			if len(c.fail) > 0 {
				return
			}
			if x != nil {
				step(c, x, next, append(path[:len(path):len(path)], o), left-1)
				if len(c.fail) > 0 {
					return
				}
			}
		}
		if Key(con, false) != before {
			c.Sig("changed constraint")
			c.Failf("a constraint changed while it was being used: now %s", Show(con))
		}
	}
	for _, a := range sides {
		for _, b := range sides {
			if a.R != b.R || a.C != b.C || a.Kind.isScalar() != b.Kind.isScalar() || a.Kind.isVector() != b.Kind.isVector() {
				continue
			}
			for _, s := range senses {
				for o := range ops {
					if r.skip() {
						continue
					}
					r.Case(func() string {
						return fmt.Sprintf("every sequence of %d steps on {%s} that begins with %s", depth, constrStr(a, b, s), ops[o].name)
					}, func(c *C) {
						con := mkConstr(a, b, s)
						cd := CD{broadcast(a.D, a.R, a.C), b.D, s}
						if x, next := apply(c, con, cd, nil, o); x != nil {
							step(c, x, next, []int{o}, depth-1)
						}
					})
				}
			}
		}
	}
}

func asT(e sm.Expression) *T {
	k, ok := kindOf(e)
	if !ok {
		return nil
	}
	d, err := Den(e)
	if err != nil {
		return nil
	}
	return &T{Proto: e, D: d, Kind: k, R: d.R, C: d.C}
}

// readExpr compares what an expression tells about itself with what it denotes.
func (c *C) readExpr(e sm.Expression, t *T) {
	vres := c.Do("Variables", func() interface{} { return e.Variables() })
	if !c.mustAccept("Variables", vres) {
		return
	}
	c.checkVariables("Variables", vres.Val.([]sm.Variable), mVars(t.D), appearing(e))
	if pl, ok := e.(interface{ Degree() int }); ok {
		res := c.Do("Degree", func() interface{} { return pl.Degree() })
		lo, hi := rawDegree(e, false), rawDegree(e, true)
		if res.Panicked || (res.Val.(int) != lo && res.Val.(int) != hi) {
			c.Sig("Degree")
			c.Failf("Degree of %s is %v (%v), expected %d", Show(e), res.Val, res.PV, hi)
		}
	}
	floats := func(name string, f func() interface{}, r, n int, want []float64) {
		res := c.Do(name, f)
		if !c.mustAccept(name, res) {
			return
		}
		rr, cc, got, ok := matVals(res.Val)
		if !ok || rr != r || cc != n || !floatsEq(got, want) {
			c.Sig("wrong " + name)
			c.Failf("%s of %s is %dx%d %v, expected %dx%d %v", name, Show(e), rr, cc, got, r, n, want)
		}
	}
	var consts []float64
	for _, p := range t.D.E {
		consts = append(consts, p[""])
	}
	floats("Constant", func() interface{} { return constantOf(e) }, t.R, t.C, consts)
	if hasLinearCoeff(t.Kind) {
		list := []sm.Variable{vY, vX, vN}
		r, n := len(list), 1
		if t.Kind.isVector() {
			r, n = t.R, len(list)
		}
		floats("LinearCoeff", func() interface{} { return linearCoeffOf(e, append([]sm.Variable{}, list...)) }, r, n, refCoeffs(t.D, list))
	}
}
