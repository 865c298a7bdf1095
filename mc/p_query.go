package main

// Coefficients, variables, degree, shape, indexing, transposing and stacking
// (C09 to C11).

import (
	"fmt"
	"sort"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["C09"] = propCoefficients
	props["C10"] = propQueries
	props["C11"] = propShape
}

func idxOf(v sm.Variable) int { return vIndex[vkey{v.Environment, v.ID}] }

// vecVals and matVals read gonum values through their exported access methods.
func matVals(x interface{}) (r, c int, out []float64, ok bool) {
	switch m := x.(type) {
	case float64:
		return 1, 1, []float64{m}, true
	case mat.VecDense:
		for i := 0; i < m.Len(); i++ {
			out = append(out, m.AtVec(i))
		}
		return m.Len(), 1, out, true
	case mat.Dense:
		r, c := m.Dims()
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				out = append(out, m.At(i, j))
			}
		}
		return r, c, out, true
	}
	return 0, 0, nil, false
}

func constantOf(e sm.Expression) interface{} {
	switch x := e.(type) {
	case interface{ Constant() float64 }:
		return x.Constant()
	case interface{ Constant() mat.VecDense }:
		return x.Constant()
	case interface{ Constant() mat.Dense }:
		return x.Constant()
	}
	panic(fmt.Sprintf("no Constant method on %T", e))
}

func linearCoeffOf(e sm.Expression, wrt ...[]sm.Variable) interface{} {
	switch x := e.(type) {
	case interface {
		LinearCoeff(wrt ...[]sm.Variable) mat.VecDense
	}:
		return x.LinearCoeff(wrt...)
	case interface {
		LinearCoeff(wrt ...[]sm.Variable) mat.Dense
	}:
		return x.LinearCoeff(wrt...)
	}
	return nil
}

func hasLinearCoeff(k Kind) bool { return !k.isMatrix() && !k.isRaw() }

// refCoeffs are the true linear coefficients, row by row.
func refCoeffs(d *Mat, wrt []sm.Variable) []float64 {
	var out []float64
	for _, p := range d.E {
		for _, v := range wrt {
			out = append(out, p[mkKey([]fac{{idxOf(v), 1}})])
		}
	}
	return out
}

func floatsEq(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !feq(a[i], b[i]) {
			return false
		}
	}
	return true
}

// wrtLists are all lists of distinct variables of length 1 to 3 from a pool,
// and some longer ones.
func wrtLists(n int) [][]sm.Variable {
	pool := []sm.Variable{vX, vY, vZ, vW, vN, vB}[:n]
	var out [][]sm.Variable
	var rec func(pre []sm.Variable)
	rec = func(pre []sm.Variable) {
		if len(pre) > 0 {
			out = append(out, append([]sm.Variable{}, pre...))
		}
		if len(pre) == 3 {
			return
		}
		for _, v := range pool {
			dup := false
			for _, w := range pre {
				dup = dup || w == v
			}
			if !dup {
				rec(append(append([]sm.Variable{}, pre...), v))
			}
		}
	}
	rec(nil)
	return append(out, []sm.Variable{vW, vB, vZ, vY, vX}, []sm.Variable{vs[4], vs[5], vs[6], vX, vN, vY, vs[7]})
}

func longLists(t *T) [][]sm.Variable {
	own := sortedInts(mVars(t.D))
	var other []int
	for i := nVars - 3; i >= 0 && len(other) < len(own)+9; i-- {
		if k := sort.SearchInts(own, i); k == len(own) || own[k] != i {
			other = append(other, i)
		}
	}
	var a, b, c []sm.Variable
	for _, i := range own {
		a = append(a, vs[i])
	}
	for k, i := range other {
		a = append(a, vs[i])
		b = append(b, vs[i])
		c = append(c, vs[i])
		if k < len(own) {
			c = append(c, vs[own[len(own)-1-k]])
		}
	}
	for k := range own {
		b = append(b, vs[own[len(own)-1-k]])
	}
	return [][]sm.Variable{a, b, c}
}

func propCoefficients(r *R) {
	defer r.coefficientsOfResults()
	wl := wrtLists(r.pick(4, 6))
	wlSmall := [][]sm.Variable{{vX}, {vY, vX}, {vN}, {vX, vY, vZ}, {vW, vN, vX}, {vN, vY}, {vB, vX, vW, vY, vZ}, {vs[16], vX}, {vY, vs[redeclared]}, {vs[14], vs[17]}}
	coeff := func(t *T, wrt []sm.Variable, mode string) {
		if r.skip() {
			return
		}
		sig := "LinearCoeff|" + t.Sig() + "|" + mode
		r.Case(func() string { return fmt.Sprintf("LinearCoeff(%s, %s %s)", t, mode, Show(wrt)) }, func(c *C) {
			c.State(t.Proto)
			e := t.Expr()
			args := [][]sm.Variable{}
			list := wrt
			switch mode {
			case "list":
				args = append(args, append([]sm.Variable{}, wrt...))
			case "empty":
				args = append(args, []sm.Variable{})
			case "own":
				vres := c.Do("Variables", func() interface{} { return e.Variables() })
				if !c.mustAccept("Variables|"+t.Sig(), vres) {
					return
				}
				list = append([]sm.Variable{}, vres.Val.([]sm.Variable)...)
			}
			res := c.Do("LinearCoeff", func() interface{} { return linearCoeffOf(e, args...) })
			if len(list) == 0 {
				if !res.Panicked {
					c.Sig("accepted no variables " + sig)
					c.Failf("%s of %s with respect to no variables returned %v", sig, t, res.Val)
				} else if res.Runtime {
					c.Sig("run-time error " + sig)
					c.Failf("%s of %s with respect to no variables: %s", sig, t, res.why())
				}
				return
			}
			if !c.mustAccept(sig, res) {
				return
			}
			rr, cc, got, ok := matVals(res.Val)
			want := refCoeffs(t.D, list)
			wr, wc := len(list), 1
			if t.Kind.isVector() {
				wr, wc = t.R, len(list)
			}
			if !ok || rr != wr || cc != wc || !floatsEq(got, want) {
				c.Sig("wrong " + sig)
				c.Failf("LinearCoeff(%s, %s) = %dx%d %v, expected %dx%d %v", t, Show(list), rr, cc, got, wr, wc, want)
			}
		})
	}
	r.operands(operandBounds{fillLevel: 2, maxCells: r.pick(9, 16), positions: true, poly2: r.pick(11, 14), poly3: r.pick(7, 11), depth: r.pick(1, 2), level: 0}, func(t *T) {
		if !r.skip() {
			r.Case(func() string { return "Constant(" + t.String() + ")" }, func(c *C) {
				c.State(t.Proto)
				sig := "Constant|" + t.Sig()
				res := c.Do("Constant", func() interface{} { return constantOf(t.Expr()) })
				if !c.mustAccept(sig, res) {
					return
				}
				rr, cc, got, ok := matVals(res.Val)
				var want []float64
				for _, p := range t.D.E {
					want = append(want, p[""])
				}
				if !ok || rr != t.R || cc != t.C || !floatsEq(got, want) {
					c.Sig("wrong " + sig)
					c.Failf("Constant(%s) = %dx%d %v, expected %v", t, rr, cc, got, want)
				}
			})
		}
		if !hasLinearCoeff(t.Kind) {
			return
		}
		coeff(t, nil, "own")
		coeff(t, nil, "empty")
		lists := wlSmall
		if t.R*t.C == 1 && r.idx < 8000 || t.R*t.C == 3 && r.idx < 30000 {
			lists = wl
		}
		for _, l := range lists {
			coeff(t, l, "list")
		}
		// all its variables and many others: behind, in front and in between
		for _, l := range longLists(t) {
			coeff(t, l, "list")
		}
	})
	sysPolys(sysMonos(r.pick(8, 14), 1, 2), 2, func(p sm.Polynomial) {
		t := mkT(p)
		for _, l := range wl {
			coeff(t, l, "list")
		}
	})
}

// ------------------------------------------------------------------ queries

// appearing lists the variables that occur anywhere in a value.
func appearing(e interface{}) map[int]bool { return occurring(e, true) }

// occurring lists the variables of the terms as written; zero tells whether factors
// with the exponent zero count.
func occurring(e interface{}, zero bool) map[int]bool {
	out := map[int]bool{}
	_, _, es, _ := entries(e)
	for _, x := range es {
		var ms []sm.Monomial
		switch y := x.(type) {
		case sm.Variable:
			out[idxOf(y)] = true
		case sm.Monomial:
			ms = []sm.Monomial{y}
		case sm.Polynomial:
			ms = y.Monomials
		}
		for _, m := range ms {
			for i, v := range m.VariableFactors {
				if zero || m.Exponents[i] != 0 {
					out[idxOf(v)] = true
				}
			}
		}
	}
	return out
}

// rawDegree is the largest total degree of the terms that appear; zero tells
// whether terms with a zero coefficient count.
func rawDegree(e interface{}, zero bool) int {
	d := 0
	_, _, es, _ := entries(e)
	upd := func(m sm.Monomial) {
		if m.Coefficient == 0 && !zero {
			return
		}
		s := 0
		for _, x := range m.Exponents {
			s += x
		}
		if s > d {
			d = s
		}
	}
	for _, x := range es {
		switch y := x.(type) {
		case sm.Variable:
			if d < 1 {
				d = 1
			}
		case sm.Monomial:
			upd(y)
		case sm.Polynomial:
			for _, m := range y.Monomials {
				upd(m)
			}
		}
	}
	return d
}

func (c *C) checkVariables(sig string, vars []sm.Variable, influencing, appears map[int]bool) {
	seen := map[int]bool{}
	for _, v := range vars {
		i, err := varIdx(v)
		if err != nil {
			c.Sig(sig)
			c.Failf("%s: %v", sig, err)
			return
		}
		if seen[i] {
			c.Sig(sig)
			c.Failf("%s lists %s twice: %s", sig, v.Name, Show(vars))
			return
		}
		seen[i] = true
		if !appears[i] {
			c.Sig(sig)
			c.Failf("%s lists %s, which does not appear: %s", sig, v.Name, Show(vars))
			return
		}
	}
	for i := range influencing {
		if !seen[i] {
			c.Sig(sig)
			c.Failf("%s does not list %s: %s", sig, vList[i].Name, Show(vars))
			return
		}
	}
}

func (c *C) boolQuery(name string, f func() bool, lo, hi bool) {
	res := c.Do(name, func() interface{} { return f() })
	if res.Panicked {
		c.Sig("refused " + name)
		c.Failf("%s refused: %s", name, res.why())
		return
	}
	// lo and hi are the answers under the two readings of zero coefficients
	if b := res.Val.(bool); b != lo && b != hi {
		c.Sig("wrong " + name)
		c.Failf("%s = %v", name, b)
	}
}

func propQueries(r *R) {
	r.operands(operandBounds{fillLevel: 2, maxCells: 16, positions: true, poly2: 14, poly3: r.pick(9, 14), depth: r.pick(1, 2), level: 0}, func(t *T) {
		if r.skip() {
			return
		}
		r.Case(func() string { return "queries of " + t.String() }, func(c *C) {
			c.State(t.Proto)
			e := t.Expr()
			sig := t.Sig()
			inf, app := mVars(t.D), appearing(t.Proto)
			vres := c.Do("Variables", func() interface{} { return e.Variables() })
			if !c.mustAccept("Variables|"+sig, vres) {
				return
			}
			vars := vres.Val.([]sm.Variable)
			c.checkVariables("Variables|"+sig, vars, inf, app)
			nv := c.Do("NumVariables", func() interface{} { return sm.NumVariables(e) })
			if nv.Panicked || nv.Val.(int) != len(vars) {
				c.Sig("NumVariables|" + sig)
				c.Failf("NumVariables = %v with %d variables", nv.Val, len(vars))
			}
			ids := c.Do("VariableIDs", func() interface{} { return sm.VariableIDs(e) })
			if ids.Panicked {
				c.Failf("VariableIDs panicked: %s", ids.why())
			} else {
				set := map[uint64]int{}
				for _, id := range ids.Val.([]uint64) {
					set[id]++
				}
				for _, v := range vars {
					if set[v.ID] != 1 {
						c.Sig("VariableIDs|" + sig)
						c.Failf("VariableIDs = %v for %s", ids.Val, Show(vars))
						break
					}
				}
				distinct := map[uint64]bool{} // identifiers may recur across environments
				for _, v := range vars {
					distinct[v.ID] = true
				}
				if len(set) != len(distinct) {
					c.Sig("VariableIDs|" + sig)
					c.Failf("VariableIDs = %v for %s", ids.Val, Show(vars))
				}
			}
			// degree
			if pl, ok := e.(interface{ Degree() int }); ok {
				res := c.Do("Degree", func() interface{} { return pl.Degree() })
				lo, hi := rawDegree(t.Proto, false), rawDegree(t.Proto, true)
				if res.Panicked || (res.Val.(int) != lo && res.Val.(int) != hi) {
					c.Sig("Degree|" + sig)
					c.Failf("Degree(%s) = %v (%v), expected %d", t, res.Val, res.PV, hi)
				} else {
					g := res.Val.(int)
					c.boolQuery("IsLinear|"+sig, func() bool { return sm.IsLinear(e) }, g <= 1, g <= 1)
					c.boolQuery("IsQuadratic|"+sig, func() bool { return sm.IsQuadratic(e) }, g <= 2, g <= 2)
				}
			} else {
				c.Sig("Degree|" + sig)
				c.Failf("%T has no Degree method", e)
			}
			if me, ok := e.(sm.MatrixExpression); ok && t.Kind.isMatrix() {
				c.boolQuery("IsSquare|"+sig, func() bool { return sm.IsSquare(me) }, t.R == t.C, t.R == t.C)
			}
			switch x := e.(type) {
			case sm.Monomial:
				noVars := len(occurring(t.Proto, false)) == 0
				isZero := x.Coefficient == 0
				c.boolQuery("Monomial.IsConstant", func() bool { return x.IsConstant() }, noVars, noVars)
				c.boolQuery("Monomial.IsZero", func() bool { return x.IsZero() }, isZero, isZero)
				for _, v := range []sm.Variable{vX, vY, vW, vN} {
					p := t.D.E[0]
					k := mkKey([]fac{{idxOf(v), 1}})
					key, _, _ := denMono(x)
					c.boolQuery("Monomial.IsVariable", func() bool { return x.IsVariable(v) }, p[k] == 1 && len(p) == 1, p[k] == 1 && len(p) == 1)
					c.boolQuery("Monomial.IsDegreeOneContainingVariable", func() bool { return x.IsDegreeOneContainingVariable(v) }, key == k, key == k)
				}
				res := c.Do("Monomial.ToVariable", func() interface{} { return x.ToVariable() })
				isVar := simplestKind(t.D.E[0])[0] == KVar
				if isVar && (res.Panicked || func() bool { d, err := denScalar(res.Val); return err != nil || !pEq(d, t.D.E[0]) }()) {
					c.Sig("Monomial.ToVariable")
					c.Failf("ToVariable(%s) = %v (%v)", t, res.Val, res.PV)
				}
				if !isVar && !res.Panicked {
					c.Sig("Monomial.ToVariable")
					c.Failf("ToVariable(%s) = %s although it is not a variable", t, Show(res.Val))
				}
			case sm.Polynomial:
				noVars := len(occurring(t.Proto, false)) == 0
				c.boolQuery("Polynomial.IsConstant", func() bool { return x.IsConstant() }, noVars, noVars)
				idx := func(name string, f func() int, ok func(m sm.Monomial) bool) {
					res := c.Do(name, func() interface{} { return f() })
					if res.Panicked {
						c.Sig(name)
						c.Failf("%s(%s) refused: %s", name, t, res.why())
						return
					}
					i := res.Val.(int)
					any := false
					for _, m := range t.Proto.(sm.Polynomial).Monomials {
						any = any || ok(m)
					}
					if (i < 0) == any || i >= len(x.Monomials) || (i >= 0 && !ok(t.Proto.(sm.Polynomial).Monomials[i])) {
						c.Sig(name)
						c.Failf("%s(%s) = %d", name, t, i)
					}
				}
				key := func(m sm.Monomial) string { k, _, _ := denMono(m); return k }
				idx("ConstantMonomialIndex", func() int { return x.ConstantMonomialIndex() }, func(m sm.Monomial) bool { return key(m) == "" })
				for _, v := range []sm.Variable{vX, vY, vW, vN} {
					k := mkKey([]fac{{idxOf(v), 1}})
					idx("VariableMonomialIndex", func() int { return x.VariableMonomialIndex(v) }, func(m sm.Monomial) bool { return key(m) == k })
				}
				for _, f := range forms(14) {
					q := mono(7, f...)
					k := key(q)
					idx("MonomialIndex", func() int { return x.MonomialIndex(cloneMono(q, Exact)) }, func(m sm.Monomial) bool { return key(m) == k })
				}
			case sm.MonomialVector:
				c.boolQuery("MonomialVector.IsConstant", func() bool { return x.IsConstant() }, len(occurring(t.Proto, false)) == 0, len(occurring(t.Proto, false)) == 0)
			case sm.PolynomialVector:
				c.boolQuery("PolynomialVector.IsConstantVector", func() bool { return x.IsConstantVector() }, len(occurring(t.Proto, false)) == 0, len(occurring(t.Proto, false)) == 0)
			}
		})
	})
	r.queriesOfResults()
	// set functions over all short lists
	pool := []sm.Variable{vX, vY, vW}
	var lists [][]sm.Variable
	var rec func(pre []sm.Variable, n int)
	rec = func(pre []sm.Variable, n int) {
		lists = append(lists, append([]sm.Variable{}, pre...))
		if n == 0 {
			return
		}
		for _, v := range pool {
			rec(append(append([]sm.Variable{}, pre...), v), n-1)
		}
	}
	rec(nil, r.pick(5, 7))
	sameSet := func(got []sm.Variable, want map[int]bool) bool {
		seen := map[int]bool{}
		for _, v := range got {
			i, err := varIdx(v)
			if err != nil || seen[i] || !want[i] {
				return false
			}
			seen[i] = true
		}
		return len(seen) == len(want)
	}
	toSet := func(ls ...[]sm.Variable) map[int]bool {
		out := map[int]bool{}
		for _, l := range ls {
			for _, v := range l {
				out[idxOf(v)] = true
			}
		}
		return out
	}
	for _, l := range lists {
		if r.skip() {
			continue
		}
		r.Case(func() string { return "UniqueVars/Unique/FindInSlice of " + Show(l) }, func(c *C) {
			in := append([]sm.Variable{}, l...)
			res := c.Do("UniqueVars", func() interface{} { return sm.UniqueVars(in) })
			if res.Panicked || !sameSet(res.Val.([]sm.Variable), toSet(l)) {
				c.Sig("UniqueVars")
				c.Failf("UniqueVars(%s) = %v", Show(l), res.Val)
			}
			var ids []uint64
			for _, v := range l {
				ids = append(ids, v.ID)
			}
			ures := c.Do("Unique", func() interface{} { return sm.Unique(append([]uint64{}, ids...)) })
			want := map[uint64]bool{}
			for _, i := range ids {
				want[i] = true
			}
			if ures.Panicked {
				c.Failf("Unique panicked: %s", ures.why())
			} else {
				got := map[uint64]bool{}
				for _, i := range ures.Val.([]uint64) {
					if got[i] || !want[i] {
						c.Sig("Unique")
						c.Failf("Unique(%v) = %v", ids, ures.Val)
					}
					got[i] = true
				}
				if len(got) != len(want) {
					c.Sig("Unique")
					c.Failf("Unique(%v) = %v", ids, ures.Val)
				}
			}
			// FindInSlice agrees with membership for every element type
			var strs []string
			var ints []int
			for _, v := range l {
				strs = append(strs, v.Name)
				ints = append(ints, int(v.ID))
			}
			for _, v := range append(append([]sm.Variable{}, pool...), vN) {
				member := toSet(l)[idxOf(v)]
				for _, q := range []struct{ x, s interface{} }{{v, in}, {v.ID, ids}, {v.Name, strs}, {int(v.ID), ints}} {
					res := c.Do("FindInSlice", func() interface{} { i, err := sm.FindInSlice(q.x, q.s); return []interface{}{i, err} })
					if res.Panicked {
						c.Sig("FindInSlice")
						c.Failf("FindInSlice(%v, %v) panicked: %s", q.x, q.s, res.why())
						continue
					}
					rv := res.Val.([]interface{})
					i := rv[0].(int)
					if rv[1] != nil || (i >= 0) != member || i >= len(l) || (i >= 0 && l[i].ID != v.ID) {
						c.Sig("FindInSlice")
						c.Failf("FindInSlice(%v) in %s = %d, %v", v.Name, Show(l), i, rv[1])
					}
				}
			}
		})
	}
	short := [][]sm.Variable{}
	for _, l := range lists {
		if len(l) <= 3 {
			short = append(short, l)
		}
	}
	for _, a := range short {
		for _, b := range short {
			if r.skip() {
				continue
			}
			r.Case(func() string { return fmt.Sprintf("UnionOfVariables(%s, %s)", Show(a), Show(b)) }, func(c *C) {
				third := []sm.Variable{vN, vX}
				res := c.Do("UnionOfVariables", func() interface{} {
					return sm.UnionOfVariables(append([]sm.Variable{}, a...), append([]sm.Variable{}, b...), third)
				})
				if res.Panicked || !sameSet(res.Val.([]sm.Variable), toSet(a, b, third)) {
					c.Sig("UnionOfVariables")
					c.Failf("UnionOfVariables(%s, %s, %s) = %v", Show(a), Show(b), Show(third), res.Val)
				}
				res = c.Do("UnionOfVariables", func() interface{} {
					return sm.UnionOfVariables(append([]sm.Variable{}, a...), append([]sm.Variable{}, b...))
				})
				if res.Panicked || !sameSet(res.Val.([]sm.Variable), toSet(a, b)) {
					c.Sig("UnionOfVariables")
					c.Failf("UnionOfVariables(%s, %s) = %v", Show(a), Show(b), res.Val)
				}
			})
		}
	}
	// many lists
	for _, n := range []int{1, 3, 4, 5, 6, 9, 12, 17} {
		for step := 0; step < 4; step++ {
			n, step := n, step
			r.Case(func() string { return fmt.Sprintf("UnionOfVariables of %d lists, step %d", n, step) }, func(c *C) {
				var ls [][]sm.Variable
				for i := 0; i < n; i++ {
					l := []sm.Variable{vs[(20+i*step)%nVars]}
					switch i % 3 {
					case 1:
						l = append(l, vs[20], vs[(21+i)%nVars])
					case 2:
						l = nil
					}
					ls = append(ls, l)
				}
				want := toSet(ls...)
				res := c.Do("UnionOfVariables", func() interface{} { return sm.UnionOfVariables(ls...) })
				if res.Panicked || !sameSet(res.Val.([]sm.Variable), want) {
					c.Sig("UnionOfVariables")
					c.Failf("UnionOfVariables of %d lists = %v", n, res.Val)
				}
			})
		}
	}
}

// queriesOfResults asks the results of every operation, exactly as they come out of it,
// for their variables and degree.
func (r *R) queriesOfResults() {
	p := r.pools()
	p.Calls(allOps(), func(o *Op, args []*V) {
		if o.Class == "Check" {
			return
		}
		r.Case(func() string { return "queries of the result of " + callText(o, args) }, func(c *C) {
			res := c.Do(o.Name, func() interface{} { return o.Call(newArgs(args, Exact)) })
			if res.Panicked {
				return
			}
			e, ok := res.Val.(sm.Expression)
			if !ok || e == nil {
				return
			}
			d, err := Den(e)
			if err != nil || e.Check() != nil {
				return // other properties
			}
			c.State(e)
			inf, app := mVars(d), appearing(e)
			name := "the result of " + o.Name
			vres := c.Do("Variables", func() interface{} { return e.Variables() })
			if vres.Panicked {
				c.Sig("Variables of " + name)
				c.Failf("Variables of the result %s of %s refused: %s", Show(e), callText(o, args), vres.why())
				return
			}
			c.checkVariables("Variables of "+name, vres.Val.([]sm.Variable), inf, app)
			if pl, ok := e.(interface{ Degree() int }); ok {
				dres := c.Do("Degree", func() interface{} { return pl.Degree() })
				lo, hi := rawDegree(e, false), rawDegree(e, true)
				if dres.Panicked || (dres.Val.(int) != lo && dres.Val.(int) != hi) {
					c.Sig("Degree of " + name)
					c.Failf("Degree of the result %s of %s = %v (%v), expected %d", Show(e), callText(o, args), dres.Val, dres.PV, hi)
				}
			}
			if len(c.fail) > 0 {
				c.Failf("the call was %s", callText(o, args))
			}
		})
	})
}

// ------------------------------------------------------------------- shape

func hcat(ms ...*Mat) (*Mat, bool) {
	c := 0
	for _, m := range ms {
		if m.R != ms[0].R {
			return nil, false
		}
		c += m.C
	}
	out := newMat(ms[0].R, c)
	off := 0
	for _, m := range ms {
		for i := 0; i < m.R; i++ {
			for j := 0; j < m.C; j++ {
				out.set(i, off+j, m.at(i, j))
			}
		}
		off += m.C
	}
	return out, true
}

func vcat(ms ...*Mat) (*Mat, bool) {
	var ts []*Mat
	for _, m := range ms {
		ts = append(ts, mT(m))
	}
	h, ok := hcat(ts...)
	if !ok {
		return nil, false
	}
	return mT(h), true
}

// shape judges the dimensions, entries and transposes of one value.
func (c *C) shape(t *T, e sm.Expression) {
	c.State(t.Proto)
	sig := t.Sig()
	dres := c.Do("Dims", func() interface{} { return e.Dims() })
	if d, ok := dres.Val.([]int); !ok || len(d) != 2 || d[0] != t.R || d[1] != t.C {
		c.Sig("Dims|" + sig)
		c.Failf("Dims(%s) = %v (%v)", t, dres.Val, dres.PV)
		return
	}
	if l, ok := e.(interface{ Len() int }); ok && t.Kind.isVector() {
		if res := c.Do("Len", func() interface{} { return l.Len() }); res.Panicked || res.Val.(int) != t.R {
			c.Sig("Len|" + sig)
			c.Failf("Len(%s) = %v", t, res.Val)
		}
	}
	if l, ok := e.(interface{ Length() int }); ok {
		if res := c.Do("Length", func() interface{} { return l.Length() }); res.Panicked || res.Val.(int) != t.R {
			c.Sig("Length|" + sig)
			c.Failf("Length(%s) = %v", t, res.Val)
		}
	}
	for i := 0; i < t.R; i++ {
		for j := 0; j < t.C; j++ {
			res := c.Do("At", func() interface{} { return e.At(i, j) })
			if !c.mustAccept("At|"+sig, res) {
				return
			}
			c.valueNoDims("At|"+sig, res.Val, &Mat{1, 1, []Poly{t.D.at(i, j)}})
		}
		if av, ok := e.(interface {
			AtVec(int) sm.ScalarExpression
		}); ok {
			res := c.Do("AtVec", func() interface{} { return av.AtVec(i) })
			if !c.mustAccept("AtVec|"+sig, res) {
				return
			}
			c.valueNoDims("AtVec|"+sig, res.Val, &Mat{1, 1, []Poly{t.D.at(i, 0)}})
		}
	}
	tr := c.Do("Transpose", func() interface{} { return e.Transpose() })
	if !c.mustAccept("Transpose|"+sig, tr) {
		return
	}
	c.value("Transpose|"+sig, tr.Val, mT(t.D))
	if len(c.fail) > 0 {
		return
	}
	back := c.Do("Transpose", func() interface{} { return tr.Val.(sm.Expression).Transpose() })
	if c.mustAccept("Transpose twice|"+sig, back) {
		c.value("Transpose twice|"+sig, back.Val, t.D)
	}
}

func propShape(r *R) {
	defer r.shapesOfResults()
	r.operands(operandBounds{fillLevel: 2, maxCells: 16, positions: true, poly2: r.pick(7, 12), depth: r.pick(1, 2), level: 0}, func(t *T) {
		if r.skip() {
			return
		}
		r.Case(func() string { return "Dims/At/AtVec/Len/Transpose of " + t.String() }, func(c *C) {
			c.shape(t, t.Expr())
		})
	})
	// stacking: all pairs of kinds and shapes, and triples
	stack := func(ts ...*T) {
		var ds []*Mat
		name := ""
		sg := ""
		for _, t := range ts {
			ds = append(ds, t.D)
			name += ", " + t.String()
			sg += "|" + t.Sig()
		}
		if len(ts) > 2 {
			sg = fmt.Sprintf("|%d operands", len(ts))
		}
		es := func() []sm.Expression {
			var out []sm.Expression
			for _, t := range ts {
				out = append(out, t.Expr())
			}
			return out
		}
		if want, ok := hcat(ds...); ok && !r.skip() {
			r.Case(func() string { return "HStack(" + name[2:] + ")" }, func(c *C) {
				res := c.Do("HStack", func() interface{} { return sm.HStack(es()...) })
				if c.mustAccept("HStack"+sg, res) {
					c.value("HStack"+sg, res.Val, want)
				}
			})
		}
		if want, ok := vcat(ds...); ok && !r.skip() {
			r.Case(func() string { return "VStack(" + name[2:] + ")" }, func(c *C) {
				res := c.Do("VStack", func() interface{} { return sm.VStack(es()...) })
				if c.mustAccept("VStack"+sg, res) {
					c.value("VStack"+sg, res.Val, want)
				}
			})
		}
	}
	var pool []*T
	for _, k := range exprKinds {
		if k.isScalar() {
			pool = append(pool, scalarTs(k, r.pick(3, 8))...)
			continue
		}
		sh := []shape{{1, 1}, {2, 1}, {3, 1}}
		if k.isMatrix() {
			sh = []shape{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 1}, {1, 3}}
		}
		for _, s := range sh {
			f := fills(k, s.r, s.c, 1)
			pool = append(pool, f[:min(len(f), r.pick(3, 6))]...)
		}
	}
	for _, a := range pool {
		stack(a)
		for _, b := range pool {
			stack(a, b)
		}
	}
	var pool3 []*T
	for _, k := range exprKinds {
		if k.isScalar() {
			pool3 = append(pool3, scalarTs(k, 1)...)
		} else if k.isVector() {
			pool3 = append(pool3, fills(k, 2, 1, 1)[0], fills(k, 1, 1, 1)[0])
		} else {
			pool3 = append(pool3, fills(k, 2, 2, 1)[0], fills(k, 2, 1, 1)[0], fills(k, 1, 2, 1)[0])
			if r.thorough() {
				pool3 = append(pool3, fills(k, 2, 3, 1)[0], fills(k, 3, 2, 1)[1])
			}
		}
	}
	for _, a := range pool3 {
		for _, b := range pool3 {
			for _, c := range pool3 {
				stack(a, b, c)
			}
		}
	}
	for _, s := range []*T{pool3[0], pool3[1], pool3[len(pool3)-1], pool3[5]} {
		for _, n := range []int{4, 5, 8, 10, 13, 17, 24} {
			var ts []*T
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					ts = append(ts, s)
				} else {
					ts = append(ts, fills(KPM, s.R, s.C, 1)[0])
				}
			}
			stack(ts...)
		}
	}
	// four and five operands of every mix of sizes
	var pool4 []*T
	for _, k := range []Kind{KVar, KKV, KPV, KVM, KKM, KPM} {
		switch {
		case k.isScalar():
			pool4 = append(pool4, scalarTs(k, 1)...)
		case k.isVector():
			pool4 = append(pool4, fills(k, 1, 1, 1)[0], fills(k, 2, 1, 1)[0], fills(k, 3, 1, 1)[0])
		case k == KKM:
			pool4 = append(pool4, fills(k, 1, 3, 1)[0], fills(k, 2, 3, 1)[0], fills(k, 3, 2, 1)[0])
		case k == KVM:
			pool4 = append(pool4, fills(k, 1, 2, 1)[0], fills(k, 2, 2, 1)[0])
		default:
			pool4 = append(pool4, fills(k, 1, 1, 1)[0], fills(k, 2, 1, 1)[0], fills(k, 3, 1, 1)[0])
		}
	}
	for _, a := range pool4 {
		for _, b := range pool4 {
			for _, c := range pool4 {
				for _, d := range pool4 {
					if a.R == b.R && b.R == c.R && c.R == d.R || a.C == b.C && b.C == c.C && c.C == d.C {
						stack(a, b, c, d)
						stack(a, b, c, d, a)
						stack(a, a, b, c, d, d)
					}
				}
			}
		}
	}
	for _, k := range exprKinds {
		bt := bigTs(k)
		for _, a := range bt {
			for _, b := range bt {
				stack(a, b)
				stack(a, b, a)
			}
		}
	}
	// reachable states stacked with each other
	us := r.Universe(0, 1, r.pick(400, 1500))
	for _, a := range us {
		for _, b := range startSet(0) {
			stack(a.T, b)
			stack(b, a.T)
		}
	}
	r.concretize()
}

// concretize assembles scalars of every mix of kinds into vectors and matrices.
func (r *R) concretize() {
	xs := []sm.ScalarExpression{
		sm.K(2), vX, mono(3, 1, 1), poly(mono(1, 0, 1), mono(1)), sm.K(0), vW, mono(-1, 1, 1, 0, 2), poly(mono(4)), mono(5), poly(mono(1, 1, 1)),
	}
	den := make([]Poly, len(xs))
	for i := range xs {
		den[i], _ = denScalar(xs[i])
	}
	pick := func(sel []int) []sm.ScalarExpression {
		var out []sm.ScalarExpression
		for _, i := range sel {
			out = append(out, Clone(xs[i], Exact).(sm.ScalarExpression))
		}
		return out
	}
	combos := func(n, base int, f func(sel []int)) {
		sel := make([]int, n)
		for {
			f(append([]int{}, sel...))
			i := n - 1
			for ; i >= 0; i-- {
				sel[i]++
				if sel[i] < base {
					break
				}
				sel[i] = 0
			}
			if i < 0 {
				return
			}
		}
	}
	one := func(rr, cc int, sel []int) {
		want := newMat(rr, cc)
		for i, s := range sel {
			want.E[i] = den[s]
		}
		type form struct {
			name string
			f    func() interface{}
		}
		rows := func() [][]sm.ScalarExpression {
			flat := pick(sel)
			var out [][]sm.ScalarExpression
			for i := 0; i < rr; i++ {
				out = append(out, append([]sm.ScalarExpression{}, flat[i*cc:(i+1)*cc]...))
			}
			return out
		}
		fs := []form{
			{"ConcretizeExpression(matrix)", func() interface{} { return sm.ConcretizeExpression(rows()) }},
			{"ConcretizeMatrixExpression", func() interface{} { return sm.ConcretizeMatrixExpression(rows()) }},
		}
		if cc == 1 {
			fs = append(fs, form{"ConcretizeExpression(vector)", func() interface{} { return sm.ConcretizeExpression(pick(sel)) }},
				form{"ConcretizeVectorExpression", func() interface{} { return sm.ConcretizeVectorExpression(pick(sel)) }})
			if rr == 1 {
				fs = append(fs, form{"ConcretizeExpression(scalar)", func() interface{} { return sm.ConcretizeExpression(pick(sel)[0]) }})
			}
		}
		for _, fm := range fs {
			if r.skip() {
				continue
			}
			r.Case(func() string {
				var parts []string
				for _, s := range sel {
					parts = append(parts, Show(xs[s]))
				}
				return fmt.Sprintf("%s %dx%d %v", fm.name, rr, cc, parts)
			}, func(c *C) {
				res := c.Do(fm.name, fm.f)
				if c.mustAccept(fm.name, res) {
					c.value(fm.name, res.Val, want)
				}
			})
		}
	}
	combos(1, len(xs), func(sel []int) { one(1, 1, sel) })
	combos(2, len(xs), func(sel []int) { one(2, 1, sel); one(1, 2, sel) })
	combos(3, r.pick(6, 10), func(sel []int) { one(3, 1, sel); one(1, 3, sel) })
	combos(4, r.pick(4, 7), func(sel []int) { one(4, 1, sel); one(2, 2, sel) })
	combos(6, r.pick(3, 4), func(sel []int) { one(2, 3, sel); one(3, 2, sel) })
	// larger ones, with the kinds in every rotation
	for off := range xs {
		for step := 1; step <= 3; step++ {
			big := func(rr, cc int) {
				sel := make([]int, rr*cc)
				for i := range sel {
					sel[i] = (off + i*step) % len(xs)
				}
				one(rr, cc, sel)
			}
			for _, n := range bigVecLens {
				big(n, 1)
			}
			for _, s := range bigMatShapes {
				big(s.r, s.c)
			}
		}
	}
}

func sortedInts(m map[int]bool) []int {
	var out []int
	for i := range m {
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}
