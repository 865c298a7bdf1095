package main

// Constraints (C12 to C15).

import (
	"fmt"
	"math"
	"reflect"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

func init() {
	props["C12"] = propComparison
	props["C13"] = propRewrite
	props["C14"] = propLinearForm
	props["C15"] = propImplication
}

var senses = []sm.ConstrSense{sm.SenseLessThanEqual, sm.SenseGreaterThanEqual, sm.SenseEqual}

func flip(s sm.ConstrSense) sm.ConstrSense {
	switch s {
	case sm.SenseLessThanEqual:
		return sm.SenseGreaterThanEqual
	case sm.SenseGreaterThanEqual:
		return sm.SenseLessThanEqual
	}
	return s
}

// broadcast gives a scalar the shape of the other side.
func broadcast(m *Mat, r, c int) *Mat {
	if m.R == r && m.C == c || !m.isScalar() {
		return m
	}
	out := newMat(r, c)
	for i := range out.E {
		out.E[i] = m.E[0]
	}
	return out
}

// CD is what a constraint says: two sides and a sense.
type CD struct {
	L, R  *Mat
	Sense sm.ConstrSense
}

func denConstr(v interface{}) (CD, error) {
	c, ok := v.(sm.Constraint)
	if !ok || v == nil {
		return CD{}, fmt.Errorf("%T is not a constraint", v)
	}
	var l, r interface{}
	var s sm.ConstrSense
	switch x := v.(type) {
	case sm.ScalarConstraint:
		l, r, s = x.LeftHandSide, x.RightHandSide, x.Sense
	case sm.VectorConstraint:
		l, r, s = x.LeftHandSide, x.RightHandSide, x.Sense
	case sm.MatrixConstraint:
		l, r, s = x.LeftHandSide, x.RightHandSide, x.Sense
	default:
		return CD{}, fmt.Errorf("constraint of type %T", v)
	}
	_ = c
	dl, err := Den(l)
	if err != nil {
		return CD{}, fmt.Errorf("left side: %v", err)
	}
	dr, err := Den(r)
	if err != nil {
		return CD{}, fmt.Errorf("right side: %v", err)
	}
	return CD{dl, dr, s}, nil
}

func (a CD) diff() *Mat {
	d, ok := mSub(a.L, a.R)
	if !ok {
		return nil
	}
	return d
}

// -------------------------------------------------------------- comparisons

type cmpOp struct {
	name  string
	sense sm.ConstrSense
	f     func(a sm.Expression, b interface{}) interface{}
}

func cmpOps() []cmpOp {
	out := []cmpOp{
		{"LessEq", sm.SenseLessThanEqual, func(a sm.Expression, b interface{}) interface{} { return a.LessEq(b) }},
		{"GreaterEq", sm.SenseGreaterThanEqual, func(a sm.Expression, b interface{}) interface{} { return a.GreaterEq(b) }},
		{"Eq", sm.SenseEqual, func(a sm.Expression, b interface{}) interface{} { return a.Eq(b) }},
	}
	for _, s := range senses {
		s := s
		out = append(out, cmpOp{"Comparison" + s.String(), s, func(a sm.Expression, b interface{}) interface{} { return a.Comparison(b, s) }})
	}
	return out
}

// saysExactly checks that a scalar constraint states l (sense) r.
func (c *C) saysExactly(sig string, v interface{}, l, r *Mat, s sm.ConstrSense) bool {
	cd, err := denConstr(v)
	if err != nil {
		c.Sig("malformed " + sig)
		c.Failf("%s: %v", sig, err)
		return false
	}
	same := cd.Sense == s && mEq(cd.L, l) && mEq(cd.R, r)
	mirrored := cd.Sense == flip(s) && mEq(cd.L, r) && mEq(cd.R, l)
	if !same && !mirrored {
		c.Sig("wrong " + sig)
		c.Failf("%s: got %s, expected %v %s %v", sig, Show(v), l, senseStr(s), r)
		return false
	}
	return true
}

func one(p Poly) *Mat { return &Mat{1, 1, []Poly{p}} }

// checkParts reads a constraint through all its queries and compares them
// with what the constraint's sides say.
func (c *C) checkParts(sig string, v interface{}) {
	con := v.(sm.Constraint)
	cd, err := denConstr(v)
	if err != nil {
		c.Sig("malformed " + sig)
		c.Failf("%s: %v", sig, err)
		return
	}
	res := c.Do("IsConstraint", func() interface{} { return sm.IsConstraint(v) })
	if res.Panicked || !res.Val.(bool) {
		c.Sig("IsConstraint " + sig)
		c.Failf("%s: IsConstraint is false", sig)
	}
	res = c.Do("Check", func() interface{} { return con.Check() })
	if res.Panicked || res.Val != nil {
		c.Sig("Check " + sig)
		c.Failf("%s: Check reports %v %v", sig, res.Val, res.PV)
	}
	res = c.Do("Left,Right,ConstrSense", func() interface{} {
		return []interface{}{con.Left(), con.Right(), con.ConstrSense()}
	})
	if res.Panicked {
		c.Sig("refused parts " + sig)
		c.Failf("%s: parts: %s", sig, res.why())
		return
	}
	p := res.Val.([]interface{})
	dl, e1 := Den(p[0])
	dr, e2 := Den(p[1])
	if e1 != nil || e2 != nil || !mEq(dl, cd.L) || !mEq(dr, cd.R) || p[2].(sm.ConstrSense) != cd.Sense {
		c.Sig("parts " + sig)
		c.Failf("%s: Left/Right/ConstrSense of %s are %s, %s, %v", sig, Show(v), Show(p[0]), Show(p[1]), p[2])
		return
	}
	// variables
	infl, app := map[int]bool{}, map[int]bool{}
	for _, s := range []interface{}{p[0], p[1]} {
		for i := range appearing(s) {
			app[i] = true
		}
	}
	for _, m := range []*Mat{cd.L, cd.R} {
		for i := range mVars(m) {
			infl[i] = true
		}
	}
	for k, f := range map[string]func() interface{}{
		"Variables":                 func() interface{} { return con.Variables() },
		"VariablesInThisConstraint": func() interface{} { return sm.VariablesInThisConstraint(con) },
	} {
		res = c.Do(k, f)
		if res.Panicked {
			c.Sig("refused " + k + " " + sig)
			c.Failf("%s: %s refused: %s", sig, k, res.why())
			return
		}
		c.checkVariables(k+"|"+sig, res.Val.([]sm.Variable), infl, app)
	}
	// linearity
	lo := max(rawDegree(p[0], true), rawDegree(p[1], true)) <= 1
	hi := max(mDegree(cd.L), mDegree(cd.R)) <= 1
	c.boolQuery("IsLinear|"+sig, func() bool { return con.IsLinear() }, lo, hi)
	// entries
	entry := func(name string, i, j int, get func() interface{}) {
		res := c.Do(name, get)
		if !c.mustAccept(name+"|"+sig, res) {
			return
		}
		if _, ok := res.Val.(sm.ScalarConstraint); !ok {
			c.Failf("%s: %s is a %T", sig, name, res.Val)
			return
		}
		c.saysExactly(fmt.Sprintf("%s(%d,%d)|%s", name, i, j, sig), res.Val, one(cd.L.at(i, j)), one(cd.R.at(i, j)), cd.Sense)
	}
	dims := func(f func() interface{}) {
		res := c.Do("Dims", f)
		if res.Panicked {
			c.Sig("refused Dims|" + sig)
			c.Failf("%s: Dims refused: %s", sig, res.why())
			return
		}
		d := res.Val.([]int)
		if len(d) != 2 || d[0] != cd.L.R || d[1] != cd.L.C {
			c.Sig("Dims|" + sig)
			c.Failf("%s: Dims = %v", sig, d)
		}
	}
	switch x := v.(type) {
	case sm.VectorConstraint:
		dims(func() interface{} { return x.Dims() })
		res := c.Do("Len", func() interface{} { return x.Len() })
		if res.Panicked || res.Val.(int) != cd.L.R {
			c.Sig("Len|" + sig)
			c.Failf("%s: Len = %v %v", sig, res.Val, res.PV)
		}
		for i := 0; i < cd.L.R; i++ {
			entry("AtVec", i, 0, func() interface{} { return x.AtVec(i) })
		}
	case sm.MatrixConstraint:
		dims(func() interface{} { return x.Dims() })
		for i := 0; i < cd.L.R; i++ {
			for j := 0; j < cd.L.C; j++ {
				entry("At", i, j, func() interface{} { return x.At(i, j) })
			}
		}
	}
}

func (r *R) compare(a, b *T) {
	same := a.R == b.R && a.C == b.C
	if !same && !a.Kind.isScalar() && !b.Kind.isScalar() {
		return
	}
	rr, cc := a.R, a.C
	if a.Kind.isScalar() {
		rr, cc = b.R, b.C
	}
	for _, op := range r.cmp() {
		if r.skip() {
			continue
		}
		sig := binSig(op.name, a, b)
		r.Case(func() string { return fmt.Sprintf("%s(%s, %s)", op.name, a, b) }, func(c *C) {
			c.State(a.Proto)
			c.State(b.Proto)
			res := c.Do(op.name, func() interface{} { return op.f(a.Expr(), b.New()) })
			if !c.Accept(sig, res) {
				return
			}
			c.State(res.Val)
			if c.saysExactly(sig, res.Val, broadcast(a.D, rr, cc), broadcast(b.D, rr, cc), op.sense) {
				c.checkParts(sig, res.Val)
			}
		})
	}
}

var cmpOpsCache []cmpOp

func (r *R) cmp() []cmpOp {
	if cmpOpsCache == nil {
		cmpOpsCache = cmpOps()
	}
	return cmpOpsCache
}

func propComparison(r *R) {
	defer r.comparisonsOfResults()
	// scalars
	var sc []*T
	for _, k := range []Kind{KK, KVar, KMono, KPoly} {
		sc = append(sc, scalarTs(k, 0)...)
	}
	raw := append(scalarTs(KFloat, 0), scalarTs(KInt, 0)...)
	for _, a := range sc {
		for _, b := range append(append([]*T{}, sc...), raw...) {
			r.compare(a, b)
		}
	}
	get := func(k Kind, s shape, level int) []*T { return fills(k, s.r, s.c, level) }
	shapes := func(k Kind) []shape {
		if k.isVector() {
			return []shape{{1, 1}, {2, 1}, {3, 1}, {4, 1}, {7, 1}}
		}
		return matShapes
	}
	for _, ka := range exprKinds {
		for n, a := range needleTs(ka) {
			for _, kb := range []Kind{KK, KPoly, KFloat} {
				ss := scalarTs(kb, 2)
				r.compare(a, ss[n%len(ss)])
				if !kb.isRaw() {
					r.compare(ss[n%len(ss)], a)
				}
			}
			for _, kb := range exprKinds {
				if !kb.isScalar() && kb.isVector() == ka.isVector() {
					r.compare(a, fills(kb, a.R, a.C, 1)[0])
				}
			}
		}
		for _, a := range bigTs(ka) {
			for _, kb := range allKinds {
				if kb.isScalar() {
					for _, b := range scalarTs(kb, 2) {
						r.compare(a, b)
						if !kb.isRaw() {
							r.compare(b, a)
						}
					}
				} else if !kb.isVector() || a.C == 1 {
					r.compare(a, fills(kb, a.R, a.C, 1)[0])
				}
			}
		}
	}
	for _, ka := range exprKinds {
		for _, kb := range allKinds {
			switch {
			case ka.isScalar() && kb.isScalar():
			case ka.isScalar():
				for _, s := range shapes(kb) {
					for _, b := range get(kb, s, 1) {
						for _, a := range scalarTs(ka, r.pick(6, 20)) {
							r.compare(a, b)
						}
					}
				}
			case kb.isScalar():
				for _, s := range shapes(ka) {
					for _, a := range get(ka, s, 1) {
						for _, b := range scalarTs(kb, r.pick(6, 20)) {
							r.compare(a, b)
						}
					}
				}
			default:
				for _, s := range shapes(ka) {
					if kb.isVector() && s.c != 1 {
						continue
					}
					la, lb := get(ka, s, 1), get(kb, s, r.pick(1, 2))
					for _, a := range la {
						for _, b := range lb {
							r.compare(a, b)
						}
					}
				}
			}
		}
	}
	// compiling lists of constraints
	var pool []interface{}
	add := func(x interface{}) { pool = append(pool, x) }
	de := func(k Kind, r, c, off int) interface{} {
		return fill(k, r, c, func(i, j int) interface{} { return distinctEntry(k, i*c+j+off) }).New()
	}
	add(sm.ScalarConstraint{LeftHandSide: vX, RightHandSide: sm.K(3), Sense: sm.SenseLessThanEqual})
	add(sm.ScalarConstraint{LeftHandSide: poly(mono(1, 0, 1), mono(2)), RightHandSide: mono(2, 1, 1), Sense: sm.SenseEqual})
	add(sm.VectorConstraint{LeftHandSide: de(KVV, 3, 1, 0).(sm.VectorExpression), RightHandSide: de(KKV, 3, 1, 4).(sm.VectorExpression), Sense: sm.SenseGreaterThanEqual})
	add(sm.VectorConstraint{LeftHandSide: de(KPV, 1, 1, 0).(sm.VectorExpression), RightHandSide: de(KMV, 1, 1, 4).(sm.VectorExpression), Sense: sm.SenseLessThanEqual})
	add(sm.VectorConstraint{LeftHandSide: de(KMV, 2, 1, 8).(sm.VectorExpression), RightHandSide: de(KPV, 2, 1, 4).(sm.VectorExpression), Sense: sm.SenseEqual})
	add(sm.MatrixConstraint{LeftHandSide: de(KPM, 2, 2, 0).(sm.MatrixExpression), RightHandSide: de(KKM, 2, 2, 4).(sm.MatrixExpression), Sense: sm.SenseLessThanEqual})
	add(sm.MatrixConstraint{LeftHandSide: de(KMM, 2, 3, 0).(sm.MatrixExpression), RightHandSide: de(KVM, 2, 3, 4).(sm.MatrixExpression), Sense: sm.SenseGreaterThanEqual})
	add(sm.MatrixConstraint{LeftHandSide: de(KVM, 1, 1, 3).(sm.MatrixExpression), RightHandSide: de(KKM, 1, 1, 4).(sm.MatrixExpression), Sense: sm.SenseEqual})
	add(sm.MatrixConstraint{LeftHandSide: de(KKM, 3, 1, 3).(sm.MatrixExpression), RightHandSide: de(KPM, 3, 1, 4).(sm.MatrixExpression), Sense: sm.SenseGreaterThanEqual})
	if r.thorough() {
		add(sm.ScalarConstraint{LeftHandSide: sm.K(1), RightHandSide: vX, Sense: sm.SenseGreaterThanEqual})
		add(sm.MatrixConstraint{LeftHandSide: de(KVM, 3, 2, 3).(sm.MatrixExpression), RightHandSide: de(KMM, 3, 2, 9).(sm.MatrixExpression), Sense: sm.SenseLessThanEqual})
	}
	nSmall := len(pool)
	for i, s := range append(append([]shape{}, matShapes...), bigMatShapes...) {
		for j, ks := range [][2]Kind{{KVM, KKM}, {KPM, KMM}, {KKM, KVM}, {KMM, KPM}} {
			add(sm.MatrixConstraint{LeftHandSide: de(ks[0], s.r, s.c, i).(sm.MatrixExpression), RightHandSide: de(ks[1], s.r, s.c, i+3).(sm.MatrixExpression),
				Sense: []sm.ConstrSense{sm.SenseLessThanEqual, sm.SenseEqual, sm.SenseGreaterThanEqual}[(i+j)%3]})
		}
	}
	for i, n := range append(append([]int{}, vecLens...), bigVecLens...) {
		for j, ks := range [][2]Kind{{KVV, KKV}, {KPV, KMV}, {KKV, KVV}, {KMV, KPV}} {
			add(sm.VectorConstraint{LeftHandSide: de(ks[0], n, 1, i).(sm.VectorExpression), RightHandSide: de(ks[1], n, 1, i+3).(sm.VectorExpression),
				Sense: []sm.ConstrSense{sm.SenseLessThanEqual, sm.SenseEqual, sm.SenseGreaterThanEqual}[(i+j)%3]})
		}
	}
	maxLen := r.pick(4, 5)
	var rec func(pre []int)
	rec = func(pre []int) {
		if !r.skip() {
			sel := append([]int{}, pre...)
			r.Case(func() string { return fmt.Sprintf("CompileConstraintsIntoScalarConstraints of constraints %v", sel) }, func(c *C) {
				var in []sm.Constraint
				type want struct {
					l, r Poly
					s    sm.ConstrSense
				}
				var ws []want
				for _, i := range sel {
					x := Clone(pool[i], Exact)
					in = append(in, x.(sm.Constraint))
					cd, err := denConstr(x)
					if err != nil {
						c.Failf("%v", err)
						return
					}
					for i := range cd.L.E {
						ws = append(ws, want{cd.L.E[i], cd.R.E[i], cd.Sense})
					}
				}
				sig := "CompileConstraintsIntoScalarConstraints"
				res := c.Do(sig, func() interface{} { return sm.CompileConstraintsIntoScalarConstraints(in) })
				if !c.mustAccept(sig, res) {
					return
				}
				got := res.Val.([]sm.ScalarConstraint)
				if len(got) != len(ws) {
					c.Sig("count " + sig)
					c.Failf("%d scalar constraints, expected %d", len(got), len(ws))
					return
				}
				for i, w := range ws {
					if !c.saysExactly(fmt.Sprintf("%s entry", sig), got[i], one(w.l), one(w.r), w.s) {
						c.Failf("at position %d", i)
						return
					}
				}
			})
		}
		if len(pre) >= maxLen {
			return
		}
		for i := range pool[:nSmall] {
			rec(append(append([]int{}, pre...), i))
		}
	}
	rec(nil)
	// every pair of constraints of every size
	maxLen = 0
	for i := range pool {
		rec([]int{i})
		for j := range pool {
			rec([]int{i, j})
			rec([]int{j, i % nSmall, i})
		}
	}
	// long lists
	for _, n := range []int{5, 6, 8, 9, 12, 17, 33} {
		for step := 1; step <= len(pool); step += 2 {
			var sel []int
			for i := 0; i < n; i++ {
				sel = append(sel, (step+i*step)%len(pool))
			}
			rec(sel)
		}
	}
}

// ------------------------------------------------- equivalence of relations

var gridVals = []float64{0, 1, -1, 2, -2, 0.5, 3, -3, 10, -10}

// holds tells whether D (sense) 0 holds at a point; known is false close to
// the boundary.
func holds(d Poly, s sm.ConstrSense, x map[int]float64) (h, known bool) {
	v := pEval(d, x)
	scale := 0.0
	for k, c := range d {
		t := math.Abs(c)
		for _, f := range unKey(k) {
			for i := 0; i < f.e; i++ {
				t *= math.Abs(x[f.v])
			}
		}
		scale += t
	}
	if math.Abs(v) <= 1e-12*scale && v != 0 {
		return false, false
	}
	switch s {
	case sm.SenseLessThanEqual:
		return v <= 0, true
	case sm.SenseGreaterThanEqual:
		return v >= 0, true
	}
	return v == 0, true
}

func gridPoints(vars []int, f func(x map[int]float64) bool) {
	vals := gridVals
	if len(vars) > 3 {
		vals = vals[:4]
	}
	if len(vars) > 6 {
		vals = vals[:2]
	}
	x := map[int]float64{}
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(vars) {
			return f(x)
		}
		for _, v := range vals {
			x[vars[i]] = v
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	rec(0)
}

func showPoint(x map[int]float64) string {
	s := ""
	for _, i := range sortedPoint(x) {
		s += fmt.Sprintf("%s=%v ", vList[i].Name, x[i])
	}
	return s
}

func sortedPoint(x map[int]float64) []int {
	m := map[int]bool{}
	for i := range x {
		m[i] = true
	}
	return sortedInts(m)
}

// relEquiv decides whether d1 (s1) 0 and d2 (s2) 0 have the same solutions. It
// returns a reason when they do not.
func relEquiv(d1 Poly, s1 sm.ConstrSense, d2 Poly, s2 sm.ConstrSense) string {
	norm := func(d Poly, s sm.ConstrSense) (Poly, bool) {
		if s == sm.SenseGreaterThanEqual {
			return pScale(d, -1), false
		}
		return d, s == sm.SenseEqual
	}
	a, aEq := norm(d1, s1)
	b, bEq := norm(d2, s2)
	ca, cb := pDegree(a) == 0, pDegree(b) == 0
	if ca && cb {
		ta, tb := a[""] <= 0, b[""] <= 0
		if aEq {
			ta = a[""] == 0
		}
		if bEq {
			tb = b[""] == 0
		}
		if ta != tb {
			return fmt.Sprintf("a constant relation changes from %v to %v", ta, tb)
		}
		return ""
	}
	if aEq == bEq && !ca && !cb {
		// proportional?
		var k0 string
		for _, k := range sortedKeys(a) {
			if a[k] != 0 && k != "" {
				k0 = k
				break
			}
		}
		if k0 != "" && b[k0] != 0 {
			f := b[k0] / a[k0]
			if pEq(pScale(a, f), b) && (f > 0 || aEq) {
				return ""
			}
		}
	}
	if pDegree(a) <= 1 && pDegree(b) <= 1 {
		return fmt.Sprintf("{%s %s 0} and {%s %s 0} have different solutions", pStr(d1), senseStr(s1), pStr(d2), senseStr(s2))
	}
	vars := map[int]bool{}
	for i := range pVars(a) {
		vars[i] = true
	}
	for i := range pVars(b) {
		vars[i] = true
	}
	why := ""
	gridPoints(sortedInts(vars), func(x map[int]float64) bool {
		ha, ka := holds(d1, s1, x)
		hb, kb := holds(d2, s2, x)
		if ka && kb && ha != hb {
			why = fmt.Sprintf("{%s %s 0} is %v and {%s %s 0} is %v at %s", pStr(d1), senseStr(s1), ha, pStr(d2), senseStr(s2), hb, showPoint(x))
			return false
		}
		return true
	})
	return why
}

func (c *C) equivConstr(sig string, v interface{}, want CD) {
	c.State(v)
	cd, err := denConstr(v)
	if err != nil {
		c.Sig("malformed " + sig)
		c.Failf("%s: %v", sig, err)
		return
	}
	d1, d2 := want.diff(), cd.diff()
	if d1 == nil || d2 == nil || d1.R != d2.R || d1.C != d2.C || cd.L.R != cd.R.R || cd.L.C != cd.R.C {
		c.Sig("dims " + sig)
		c.Failf("%s: result %s has other dimensions", sig, Show(v))
		return
	}
	for i := range d1.E {
		if why := relEquiv(d1.E[i], want.Sense, d2.E[i], cd.Sense); why != "" {
			c.Sig("wrong " + sig)
			c.Failf("%s: result %s: entry %d: %s", sig, Show(v), i, why)
			return
		}
	}
	con := v.(sm.Constraint)
	res := c.Do("Check", func() interface{} { return con.Check() })
	if res.Panicked || res.Val != nil {
		c.Sig("Check " + sig)
		c.Failf("%s: Check of the result: %v %v", sig, res.Val, res.PV)
	}
}

// ------------------------------------------------------------ constraint sets

// scalarPairs yields the sides of the explored scalar constraints.
func (r *R) scalarPairs(f func(a, b *T)) {
	var sc []*T
	for _, k := range []Kind{KK, KVar, KMono, KPoly} {
		sc = append(sc, scalarTs(k, 0)...)
	}
	for _, a := range sc {
		for _, b := range sc {
			f(a, b)
		}
	}
	var wide []*T
	for _, k := range []Kind{KVar, KMono, KPoly} {
		wide = append(wide, wideScalars(k)...)
	}
	for _, a := range wide {
		for _, b := range wide {
			f(a, b)
		}
		for _, k := range []Kind{KK, KVar, KMono, KPoly} {
			for _, b := range scalarTs(k, 6) {
				f(a, b)
				f(b, a)
			}
		}
	}
	// systematic linear sides
	var lin []*T
	cs := []float64{0, 1, -2}
	for _, c0 := range []float64{0, 3, -1} {
		for _, cx := range cs {
			for _, cy := range cs {
				var ms []sm.Monomial
				if cx != 0 {
					ms = append(ms, mono(cx, 0, 1))
				}
				if c0 != 0 {
					ms = append(ms, mono(c0))
				}
				if cy != 0 {
					ms = append(ms, mono(cy, 1, 1))
				}
				if len(ms) == 0 {
					ms = append(ms, mono(0))
				}
				lin = append(lin, mkT(poly(ms...)))
			}
		}
	}
	for _, a := range lin {
		for _, b := range lin {
			f(a, b)
		}
	}
}

// arrayPairs yields the sides of the explored vector and matrix constraints.
func (r *R) arrayPairs(kinds func(k Kind) bool, f func(a, b *T)) {
	for _, ka := range exprKinds {
		if ka.isScalar() || !kinds(ka) {
			continue
		}
		sh := []shape{{1, 1}, {2, 1}, {3, 1}}
		if ka.isMatrix() {
			sh = []shape{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 1}}
		}
		if r.thorough() {
			sh = append(sh, shape{4, 1})
			if ka.isMatrix() {
				sh = append(sh, shape{3, 2}, shape{1, 3}, shape{3, 3})
			}
		}
		for _, kb := range exprKinds {
			if kb.isScalar() || ka.isVector() != kb.isVector() {
				continue
			}
			if e := entryKind(kb); e == KK || e == KPoly {
				for n, a := range needleTs(ka) {
					b := fills(kb, a.R, a.C, 1)[0]
					if n%2 == 0 {
						f(a, b)
					} else {
						f(b, a)
					}
				}
			}
			for _, a := range bigTs(ka) {
				bs := fills(kb, a.R, a.C, 1)
				f(a, bs[0])
				f(a, bs[len(bs)-1])
			}
			for _, s := range sh {
				lb := fills(kb, s.r, s.c, 1)
				for _, a := range fills(ka, s.r, s.c, r.pick(1, 2)) {
					for _, b := range lb {
						f(a, b)
					}
				}
			}
		}
	}
}

func mkConstr(a, b *T, s sm.ConstrSense) sm.Constraint {
	switch {
	case a.Kind.isScalar():
		return sm.ScalarConstraint{LeftHandSide: a.Scalar(), RightHandSide: b.Scalar(), Sense: s}
	case a.Kind.isVector():
		return sm.VectorConstraint{LeftHandSide: a.New().(sm.VectorExpression), RightHandSide: b.New().(sm.VectorExpression), Sense: s}
	}
	return sm.MatrixConstraint{LeftHandSide: a.New().(sm.MatrixExpression), RightHandSide: b.New().(sm.MatrixExpression), Sense: s}
}

func constrClass(a *T) string {
	switch {
	case a.Kind.isScalar():
		return "ScalarConstraint"
	case a.Kind.isVector():
		return "VectorConstraint"
	}
	return "MatrixConstraint"
}

func constrStr(a, b *T, s sm.ConstrSense) string {
	return fmt.Sprintf("%s %s %s", a, senseStr(s), b)
}

// ------------------------------------------------------------------ rewriting

func propRewrite(r *R) {
	defer r.rewritingsOfResults()
	factors := []float64{2, -1, -0.5, 1, 0.25, -3, 1 << 20, -tiny, tiny}
	reps := []*T{mkT(sm.K(2)), mkT(sm.K(0)), mkT(vY), mkT(mono(-2, 0, 1)), mkT(poly(mono(1, 0, 1), mono(1))), mkT(poly(mono(1, 1, 1), mono(-1, 0, 1)))}
	ms := subMaps(true)
	do := func(a, b *T, full bool) {
		for _, s := range senses {
			s := s
			want := CD{broadcast(a.D, a.R, a.C), b.D, s}
			cls := constrClass(a)
			run := func(op string, arg string, f func(con sm.Constraint) interface{}, want func() CD, constRight bool) {
				if r.skip() {
					return
				}
				sig := op + "|" + cls + "|" + a.Sig() + "|" + b.Sig()
				r.Case(func() string { return fmt.Sprintf("%s(%s) of %s", op, arg, constrStr(a, b, s)) }, func(c *C) {
					con := mkConstr(a, b, s)
					c.State(con)
					res := c.Do(cls+"."+op, func() interface{} { return f(con) })
					if !c.mustAccept(sig, res) {
						return
					}
					c.equivConstr(sig, res.Val, want())
					if constRight && len(c.fail) == 0 {
						cd, _ := denConstr(res.Val)
						if mDegree(cd.R) != 0 {
							c.Sig("right side " + sig)
							c.Failf("%s: the right side of %s is not constant", sig, Show(res.Val))
						}
					}
				})
			}
			id := func() CD { return want }
			run("AsSimplifiedConstraint", "", func(con sm.Constraint) interface{} { return con.AsSimplifiedConstraint() }, id, true)
			if cls == "ScalarConstraint" {
				run("Simplify", "", func(con sm.Constraint) interface{} { return con.(sm.ScalarConstraint).Simplify() }, id, true)
				fs := factors
				if !full {
					fs = factors[:3]
				}
				for _, f := range fs {
					f := f
					run("ScaleBy", fmt.Sprint(f), func(con sm.Constraint) interface{} { return con.(sm.ScalarConstraint).ScaleBy(f) }, id, false)
				}
			}
			rs, mm := reps, ms
			vars := []sm.Variable{vX, vY}
			if !full {
				rs, mm, vars = reps[2:5], ms[3:6], vars[:1]
			}
			for _, v := range vars {
				for _, e := range rs {
					m := map[int]Poly{idxOf(v): e.D.E[0]}
					run("Substitute", v.Name+" -> "+e.String(), func(con sm.Constraint) interface{} { return con.Substitute(v, e.Scalar()) },
						func() CD {
							sub := func(p Poly) Poly { return pSubst(p, m) }
							return CD{mMap(want.L, sub), mMap(want.R, sub), s}
						}, false)
				}
			}
			for _, m := range mm {
				ref := m.ref()
				id := make([]int, len(m.vars))
				for i := range id {
					id[i] = i
				}
				run("SubstituteAccordingTo", m.String(), func(con sm.Constraint) interface{} { return con.SubstituteAccordingTo(m.build(id)) },
					func() CD {
						sub := func(p Poly) Poly { return pSubst(p, ref) }
						return CD{mMap(want.L, sub), mMap(want.R, sub), s}
					}, false)
			}
		}
	}
	n := 0
	r.scalarPairs(func(a, b *T) {
		do(a, b, r.thorough() || n%9 == 0)
		n++
	})
	r.arrayPairs(func(Kind) bool { return true }, func(a, b *T) {
		do(a, b, n%17 == 0)
		n++
	})
	// chains of two rewritings on one scalar constraint
	chain := []struct {
		name string
		f    func(sm.ScalarConstraint) interface{}
		g    func(CD) CD
	}{
		{"Simplify", func(c sm.ScalarConstraint) interface{} { return c.Simplify() }, func(d CD) CD { return d }},
		{"AsSimplifiedConstraint", func(c sm.ScalarConstraint) interface{} { return c.AsSimplifiedConstraint() }, func(d CD) CD { return d }},
		{"ScaleBy(-2)", func(c sm.ScalarConstraint) interface{} { return c.ScaleBy(-2) }, func(d CD) CD { return d }},
		{"ScaleBy(0.5)", func(c sm.ScalarConstraint) interface{} { return c.ScaleBy(0.5) }, func(d CD) CD { return d }},
		{"Substitute(x_0, x_1-x_0)", func(c sm.ScalarConstraint) interface{} {
			return c.Substitute(vX, poly(mono(1, 1, 1), mono(-1, 0, 1)))
		}, func(d CD) CD {
			m := map[int]Poly{0: pSub(pVar(1), pVar(0))}
			sub := func(p Poly) Poly { return pSubst(p, m) }
			return CD{mMap(d.L, sub), mMap(d.R, sub), d.Sense}
		}},
		{"SubstituteAccordingTo(swap)", func(c sm.ScalarConstraint) interface{} {
			return c.SubstituteAccordingTo(map[sm.Variable]sm.Expression{vX: vY, vY: vX})
		}, func(d CD) CD {
			m := map[int]Poly{0: pVar(1), 1: pVar(0)}
			sub := func(p Poly) Poly { return pSubst(p, m) }
			return CD{mMap(d.L, sub), mMap(d.R, sub), d.Sense}
		}},
	}
	var few []*T
	for _, k := range []Kind{KK, KVar, KMono, KPoly} {
		few = append(few, scalarTs(k, r.pick(5, 10))...)
	}
	depth := r.pick(2, 3)
	var rec func(pre []int, f func([]int))
	rec = func(pre []int, f func([]int)) {
		if len(pre) == depth {
			f(pre)
			return
		}
		for i := range chain {
			rec(append(append([]int{}, pre...), i), f)
		}
	}
	for _, a := range few {
		for _, b := range few {
			for _, s := range senses {
				rec(nil, func(seq []int) {
					if r.skip() {
						return
					}
					name := ""
					for _, i := range seq {
						name += "." + chain[i].name
					}
					r.Case(func() string { return constrStr(a, b, s) + name }, func(c *C) {
						con := mkConstr(a, b, s).(sm.ScalarConstraint)
						want := CD{a.D, b.D, s}
						for _, i := range seq {
							res := c.Do("ScalarConstraint."+chain[i].name, func() interface{} { return chain[i].f(con) })
							if !c.mustAccept("chain "+chain[i].name, res) {
								return
							}
							want = chain[i].g(want)
							c.equivConstr("chain "+chain[i].name, res.Val, want)
							if len(c.fail) > 0 {
								return
							}
							con = res.Val.(sm.ScalarConstraint)
						}
					})
				})
			}
		}
	}
}

// --------------------------------------------------------------- linear forms

type linearRep struct {
	name string
	eq   bool
}

// linearForm judges one linear form of the constraint a (s) b with respect to a
// list of variables (nil: its own).
func (c *C) linearForm(a, b *T, s sm.ConstrSense, rp linearRep, wrt []sm.Variable, mustLin, mustNot bool) {
	vec := a.Kind.isVector()
	sig := rp.name + "|" + constrClass(a) + "|" + a.Sig() + "|" + b.Sig()
	con := mkConstr(a, b, s)
	c.State(con)
	var args []reflect.Value
	if wrt != nil {
		args = append(args, reflect.ValueOf(append([]sm.Variable{}, wrt...)))
	}
	res := c.Do(constrClass(a)+"."+rp.name, func() interface{} {
		out := reflect.ValueOf(con).MethodByName(rp.name).Call(args)
		return []interface{}{out[0].Interface(), out[1].Interface()}
	})
	wrongSense := rp.eq != (s == sm.SenseEqual)
	if c.r.Prop == "C25" {
		c.formRefused(sig, a, b, s, rp, wrongSense, mustNot, res)
		return
	}
	if wrongSense || mustNot {
		if !res.Panicked {
			c.Sig("not refused " + sig)
			c.Failf("%s: %s is not refused: %v", rp.name, constrStr(a, b, s), res.Val)
		}
		return
	}
	diff := CD{a.D, b.D, s}.diff()
	var cands [][]sm.Variable
	if wrt != nil {
		cands = [][]sm.Variable{wrt}
	} else {
		// the constraint's own variables
		vr := c.Do("Variables", func() interface{} { return con.Variables() })
		if vr.Panicked {
			c.Sig("refused Variables|" + sig)
			c.Failf("Variables refused: %s", vr.why())
			return
		}
		cands = append(cands, vr.Val.([]sm.Variable))
	}
	if res.Panicked {
		if mustLin && len(cands[0]) > 0 {
			c.Sig("refused " + sig)
			c.Failf("%s of %s refused: %s", rp.name, constrStr(a, b, s), res.why())
		}
		return
	}
	out := res.Val.([]interface{})
	ar, ac, av, ok1 := matVals(out[0])
	br, _, bv, ok2 := matVals(out[1])
	if !ok1 || !ok2 {
		c.Sig("type " + sig)
		c.Failf("%s returned %T, %T", rp.name, out[0], out[1])
		return
	}
	why := ""
	for _, list := range cands {
		why = ""
		wr, wc := len(list), 1
		nb := 1
		if vec {
			wr, wc = a.R, len(list)
			nb = a.R
		}
		if ar != wr || ac != wc || br != nb {
			why = fmt.Sprintf("shapes %dx%d and %d, expected %dx%d and %d", ar, ac, br, wr, wc, nb)
			continue
		}
		for i := 0; i < diff.R; i++ {
			p := pConst(-bv[i])
			for j, v := range list {
				p = pAdd(p, pScale(pVar(idxOf(v)), av[i*len(list)+j]))
			}
			rs := sm.SenseLessThanEqual
			if rp.eq {
				rs = sm.SenseEqual
			}
			if w := relEquiv(diff.E[i], s, p, rs); w != "" {
				why = fmt.Sprintf("row %d: %s", i, w)
				break
			}
		}
		if why == "" {
			break
		}
	}
	if why != "" {
		c.Sig("wrong " + sig)
		c.Failf("%s(%s) of %s = %v, %v: %s", rp.name, Show(wrt), constrStr(a, b, s), av, bv, why)
	}
}

func propLinearForm(r *R) {
	if r.Prop != "C25" {
		defer r.linearFormsOfResults()
	}
	reps := []linearRep{{"LinearInequalityConstraintRepresentation", false}, {"LinearEqualityConstraintRepresentation", true}}
	do := func(a, b *T, lists bool) {
		infl := map[int]bool{}
		app := map[int]bool{}
		for _, t := range []*T{a, b} {
			for i := range mVars(t.D) {
				infl[i] = true
			}
			for i := range appearing(t.Proto) {
				app[i] = true
			}
		}
		mustLin := max(rawDegree(a.Proto, true), rawDegree(b.Proto, true)) <= 1
		mustNot := max(mDegree(a.D), mDegree(b.D)) > 1
		var own []sm.Variable
		for _, i := range sortedInts(app) {
			own = append(own, vList[i])
		}
		var wrts [][]sm.Variable
		wrts = append(wrts, nil)
		if mustNot {
			wrts = append(wrts, []sm.Variable{vX, vY})
		} else {
			base := [][]sm.Variable{own, append([]sm.Variable{vN}, own...), append(append([]sm.Variable{}, own...), vN)}
			if len(own) >= 1 {
				mid := append([]sm.Variable{own[0], vs[nVars-4]}, own[1:]...)
				base = append(base, mid)
			}
			for _, l := range base {
				if len(l) == 0 {
					continue
				}
				if len(l) <= 4 && lists {
					for _, p := range perms(len(l)) {
						w := make([]sm.Variable, len(l))
						for i, j := range p {
							w[i] = l[j]
						}
						wrts = append(wrts, w)
					}
				} else {
					rev := make([]sm.Variable, len(l))
					for i := range l {
						rev[len(l)-1-i] = l[i]
					}
					wrts = append(wrts, l, rev)
				}
			}
		}
		for _, s := range senses {
			for _, rp := range reps {
				for _, wrt := range wrts {
					if r.skip() {
						continue
					}
					r.Case(func() string { return fmt.Sprintf("%s(%s) of %s", rp.name, Show(wrt), constrStr(a, b, s)) }, func(c *C) {
						c.linearForm(a, b, s, rp, wrt, mustLin, mustNot)
					})
				}
			}
		}
	}
	r.scalarPairs(func(a, b *T) { do(a, b, true) })
	// linear vectors: every pair of kinds, every pattern of linear entries
	linEntries := func(k Kind) []interface{} {
		switch entryKind(k) {
		case KK:
			return []interface{}{sm.K(0), sm.K(3), sm.K(-1)}
		case KVar:
			return []interface{}{vX, vY, vW}
		case KMono:
			return []interface{}{mono(2, 0, 1), mono(-1, 1, 1), mono(3), mono(0, 0, 1), mono(0)}
		}
		return []interface{}{poly(mono(1, 0, 1), mono(1)), poly(mono(-2), mono(-1, 1, 1), mono(3, 0, 1)), poly(mono(4)), poly(mono(2, 11, 1)), poly(mono(1, 0, 1), mono(-1, 0, 1)), poly(mono(0))}
	}
	for _, ka := range []Kind{KKV, KVV, KMV, KPV} {
		for _, kb := range []Kind{KKV, KVV, KMV, KPV} {
			ea, eb := linEntries(ka), linEntries(kb)
			// length 1 and 2: every choice of entries
			for n := 1; n <= 2; n++ {
				na, nb := 1, 1
				for i := 0; i < n; i++ {
					na *= len(ea)
					nb *= len(eb)
				}
				for x := 0; x < na; x++ {
					for y := 0; y < nb; y++ {
						at := func(es []interface{}, n int) func(i, j int) interface{} {
							return func(i, j int) interface{} {
								if i == 1 {
									return es[n/len(es)%len(es)]
								}
								return es[n%len(es)]
							}
						}
						do(fill(ka, n, 1, at(ea, x)), fill(kb, n, 1, at(eb, y)), n == 1)
					}
				}
			}
			for n := 3; n <= r.pick(4, 6); n++ {
				for p := 0; p < len(ea)*r.pick(1, 3); p++ {
					for q := 0; q < len(eb)*r.pick(1, 3); q++ {
						do(fill(ka, n, 1, func(i, j int) interface{} { return ea[(i*(1+p/len(ea))+p)%len(ea)] }),
							fill(kb, n, 1, func(i, j int) interface{} { return eb[(i*(1+q/len(eb))+q)%len(eb)] }), r.thorough())
					}
				}
			}
		}
	}
	// general vectors (mostly nonlinear: must be refused)
	r.arrayPairs(func(k Kind) bool { return k.isVector() }, func(a, b *T) { do(a, b, false) })
}

// ---------------------------------------------------------------- implication

type scon struct {
	a, b *T
	s    sm.ConstrSense
	d    Poly
}

func (x scon) con() sm.ScalarConstraint { return mkConstr(x.a, x.b, x.s).(sm.ScalarConstraint) }
func (x scon) String() string           { return constrStr(x.a, x.b, x.s) }

// interval is the solution set of a linear relation in at most one variable.
type interval struct {
	lo, hi float64
	empty  bool
}

func solve(d Poly, s sm.ConstrSense) (iv interval, v int, ok bool) {
	inf := math.Inf(1)
	if pDegree(d) > 1 || len(pVars(d)) > 1 {
		return iv, -1, false
	}
	c0 := d[""]
	v = -1
	for i := range pVars(d) {
		v = i
	}
	if v < 0 {
		h, _ := holds(d, s, nil)
		return interval{-inf, inf, !h}, -1, true
	}
	k := d[mkKey([]fac{{v, 1}})]
	b := -c0 / k
	if s == sm.SenseEqual {
		return interval{b, b, false}, v, true
	}
	if (s == sm.SenseLessThanEqual) == (k > 0) {
		return interval{-inf, b, false}, v, true
	}
	return interval{b, inf, false}, v, true
}

// impliedWrong returns a witness when the second relation does not follow from
// the conjunction of the first ones.
func impliedWrong(first []scon, second scon) string {
	// exact when everything is linear in one and the same variable
	all := interval{math.Inf(-1), math.Inf(1), false}
	v, exact := -1, true
	for _, f := range first {
		iv, fv, ok := solve(f.d, f.s)
		if !ok || (fv >= 0 && v >= 0 && fv != v) {
			exact = false
			break
		}
		if fv >= 0 {
			v = fv
		}
		all.empty = all.empty || iv.empty
		all.lo, all.hi = math.Max(all.lo, iv.lo), math.Min(all.hi, iv.hi)
	}
	iv2, v2, ok2 := solve(second.d, second.s)
	if exact && ok2 {
		if all.empty || all.lo > all.hi || (iv2.lo == math.Inf(-1) && iv2.hi == math.Inf(1) && !iv2.empty) {
			return ""
		}
		if v2 >= 0 && v >= 0 && v2 != v {
			return fmt.Sprintf("they restrict different variables")
		}
		tol := func(a, b float64) bool {
			return a == b || !math.IsInf(a, 0) && !math.IsInf(b, 0) && math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
		}
		if iv2.empty {
			return "the second has no solution"
		}
		if v < 0 {
			return "the first restricts nothing"
		}
		loOK := all.lo >= iv2.lo || tol(all.lo, iv2.lo)
		hiOK := all.hi <= iv2.hi || tol(all.hi, iv2.hi)
		if !loOK || !hiOK {
			return fmt.Sprintf("[%v, %v] is not inside [%v, %v]", all.lo, all.hi, iv2.lo, iv2.hi)
		}
		return ""
	}
	vars := map[int]bool{}
	for _, f := range append(append([]scon{}, first...), second) {
		for i := range pVars(f.d) {
			vars[i] = true
		}
	}
	why := ""
	gridPoints(sortedInts(vars), func(x map[int]float64) bool {
		for _, f := range first {
			if h, k := holds(f.d, f.s, x); !k || !h {
				return true
			}
		}
		if h, k := holds(second.d, second.s, x); k && !h {
			why = "counterexample " + showPoint(x)
			return false
		}
		return true
	})
	return why
}

func isNonneg(d Poly, s sm.ConstrSense) bool {
	if s == sm.SenseEqual || len(d) != 1 {
		return false
	}
	for k, c := range d {
		if keyDeg(k) != 1 {
			return false
		}
		return (c > 0) == (s == sm.SenseGreaterThanEqual)
	}
	return false
}

func propImplication(r *R) {
	var cons []scon
	add := func(a, b interface{}, ss ...sm.ConstrSense) {
		ta, tb := mkT(a), mkT(b)
		if len(ss) == 0 {
			ss = senses
		}
		for _, s := range ss {
			cons = append(cons, scon{ta, tb, s, pSub(ta.D.E[0], tb.D.E[0])})
		}
	}
	for _, c := range []float64{1, 2, -1, -3, 0.5} {
		for _, b := range []float64{0, 1, -2, 4} {
			if c == 1 && b == 0 {
				add(vX, sm.K(0))
				continue
			}
			add(mono(c, 0, 1), sm.K(b))
		}
	}
	add(vX, sm.K(1))
	add(vX, sm.K(2))
	add(sm.K(1), vX)
	add(sm.K(0), vX)
	add(sm.K(-2), mono(-2, 0, 1))
	add(sm.K(1), sm.K(2))
	add(sm.K(2), sm.K(1))
	add(sm.K(0), sm.K(0))
	add(poly(mono(1, 0, 1), mono(1)), sm.K(2))
	add(poly(mono(1, 0, 1), mono(-1)), sm.K(2))
	add(poly(mono(1), mono(-2, 0, 1)), sm.K(3))
	add(sm.K(2), poly(mono(1, 0, 1), mono(1)))
	add(poly(mono(2, 0, 1), mono(1)), poly(mono(1, 0, 1), mono(3)))
	add(poly(mono(1, 0, 1), mono(1)), poly(mono(2, 0, 1), mono(3)))
	add(poly(mono(1, 0, 1), mono(1)), poly(mono(1, 0, 1), mono(2)))
	add(poly(mono(1, 0, 1), mono(1, 1, 1)), sm.K(1))
	add(poly(mono(1, 0, 1), mono(1, 1, 1)), vY)
	add(poly(mono(1, 0, 1), mono(-1, 1, 1)), sm.K(0))
	add(vX, vY)
	add(vY, vX)
	add(vX, vX)
	add(vY, sm.K(0))
	add(vY, sm.K(1))
	add(mono(-1, 1, 1), sm.K(1))
	add(mono(1, 0, 2), sm.K(1))
	add(mono(1, 0, 2), sm.K(0))
	add(mono(1, 0, 2), sm.K(4))
	add(mono(-1, 0, 2), sm.K(-4))
	add(mono(1, 0, 3), sm.K(1))
	add(mono(1, 0, 1, 1, 1), sm.K(1))
	add(poly(mono(1, 0, 2), mono(1, 0, 1)), sm.K(2))
	add(poly(mono(1, 0, 2), mono(1, 0, 1)), mono(1, 0, 2))
	add(poly(mono(0, 0, 1), mono(2)), sm.K(1))
	add(mono(0, 0, 1), sm.K(1))
	add(mono(0, 0, 1), sm.K(-1))
	add(mono(3), vX)
	add(vX, mono(3))
	add(vX, poly(mono(3)))
	add(mono(0), vX)
	add(poly(mono(0)), mono(2, 0, 1))
	add(poly(mono(1, 0, 1), mono(1, 0, 1)), sm.K(2))
	add(poly(mono(1, 0, 1), mono(-1, 0, 1)), sm.K(2))
	add(poly(mono(1, 0, 1), mono(-1, 0, 1), mono(1, 1, 1)), sm.K(0))
	add(vX, mono(2, 0, 1))
	add(mono(2, 0, 1), vX)
	add(poly(mono(1, 0, 1), mono(1)), mono(1))
	add(mono(1), poly(mono(1, 0, 1), mono(1)))
	add(poly(mono(1), mono(1, 0, 1)), sm.K(1))
	add(poly(mono(1), mono(-1, 0, 1)), sm.K(1))
	add(mono(tiny, 0, 1), sm.K(0))
	add(mono(tiny, 0, 1), sm.K(tiny))
	add(vW, sm.K(0))
	add(vB, sm.K(0))
	add(vB, sm.K(1))
	add(sm.K(0), vB)
	// bounds far apart, on either side, with the constant on either side
	for i, c := range []float64{1, -1, 2, -0.25} {
		for j, b := range []float64{-40, -10, -5, -2.5, -0.5, 0.5, 2.5, 5, 10, 40} {
			switch (i + j) % 4 {
			case 0:
				add(mono(c, 0, 1), sm.K(b))
			case 1:
				add(sm.K(b), mono(c, 0, 1))
			case 2:
				add(poly(mono(c, 0, 1), mono(b/2)), sm.K(b))
			default:
				add(mono(b), poly(mono(-3), mono(c, 0, 1)))
			}
		}
	}
	for _, b := range []float64{-10, -2.5, 5} {
		add(vX, sm.K(b))
		add(vY, sm.K(b))
		add(sm.K(b), vX)
		add(mono(b, 0, 1), sm.K(1))
		add(mono(1, 0, 2), sm.K(b))
		add(mono(1, 0, 1, 1, 1), sm.K(b))
		add(poly(mono(1, 0, 1), mono(1, 1, 1)), sm.K(b))
	}
	// bounds that nearly agree, and variables whose identifiers nearly agree
	for i, b := range []float64{1 + 1.0/(1<<20), 1 - 1.0/(1<<20), 1 + 1.0/(1<<10), 1 + 1.0/(1<<27), 1.0 / (1 << 20), -1.0 / (1 << 20), 1.0 / (1 << 30), 1048576, 1048577} {
		add(vX, sm.K(b))
		if i%2 == 0 {
			add(mono(-1, 0, 1), sm.K(b))
		} else {
			add(sm.K(b), vX)
		}
	}
	add(vs[14], sm.K(0))
	add(vs[14], sm.K(1))
	add(vs[15], sm.K(1))
	add(vs[13], sm.K(0))
	add(sm.K(1), vs[14])
	if r.thorough() {
		for _, c := range []float64{3, -0.5, 7} {
			for _, b := range []float64{-1, 0.5, 3, 6} {
				add(mono(c, 0, 1), sm.K(b))
				add(sm.K(b), mono(c, 0, 1))
				add(poly(mono(c, 0, 1), mono(b)), mono(b))
				add(poly(mono(b), mono(c, 1, 1)), sm.K(1))
			}
		}
		add(mono(1, 1, 2), sm.K(1))
		add(mono(1, 0, 4), sm.K(1))
		add(poly(mono(1, 0, 2), mono(1, 1, 2)), sm.K(1))
		add(mono(1, 0, 2), vX)
	}
	// scalar against scalar
	for _, x := range cons {
		for _, y := range cons {
			if r.skip() {
				continue
			}
			r.Case(func() string { return fmt.Sprintf("(%s) implies (%s)?", x, y) }, func(c *C) {
				cx, cy := x.con(), y.con()
				c.State(cx)
				c.State(cy)
				sig := "ScalarConstraint.ImpliesThisIsAlsoSatisfied"
				res := c.Do(sig, func() interface{} { return cx.ImpliesThisIsAlsoSatisfied(cy) })
				if !c.mustAccept(sig, res) {
					return
				}
				if res.Val.(bool) {
					if why := impliedWrong([]scon{x}, y); why != "" {
						c.Sig("unsound " + sig)
						c.Failf("(%s) is said to imply (%s): %s", x, y, why)
					}
				}
			})
		}
	}
	// vector and matrix constraints first (and, for the non-scalar second
	// constraints, an answer of yes must be right, too)
	vecOf := func(xs []scon) sm.Constraint {
		k := KPV
		a := fill(k, len(xs), 1, func(i, j int) interface{} { return toPoly(xs[i].a.Proto) })
		b := fill(k, len(xs), 1, func(i, j int) interface{} { return toPoly(xs[i].b.Proto) })
		return mkConstr(a, b, xs[0].s)
	}
	matOf := func(xs []scon, rr, cc int) sm.Constraint {
		a := fill(KPM, rr, cc, func(i, j int) interface{} { return toPoly(xs[i*cc+j].a.Proto) })
		b := fill(KPM, rr, cc, func(i, j int) interface{} { return toPoly(xs[i*cc+j].b.Proto) })
		return mkConstr(a, b, xs[0].s)
	}
	bySense := map[sm.ConstrSense][]scon{}
	for _, x := range cons {
		bySense[x.s] = append(bySense[x.s], x)
	}
	step := r.pick(5, 2)
	for _, s := range senses {
		xs := bySense[s]
		for i := 0; i < len(xs); i += step {
			for j := 0; j < len(xs); j += step {
				first := []scon{xs[i], xs[j]}
				for k, y := range cons {
					if k%r.pick(3, 1) != 0 {
						continue
					}
					for _, form := range []string{"vector", "1x2 matrix", "2x1 matrix"} {
						if r.skip() {
							continue
						}
						r.Case(func() string { return fmt.Sprintf("%s of (%s), (%s) implies (%s)?", form, xs[i], xs[j], y) }, func(c *C) {
							var con sm.Constraint
							switch form {
							case "vector":
								con = vecOf(first)
							case "1x2 matrix":
								con = matOf(first, 1, 2)
							default:
								con = matOf(first, 2, 1)
							}
							cy := y.con()
							c.State(con)
							sig := fmt.Sprintf("%T.ImpliesThisIsAlsoSatisfied", con)
							res := c.Do(sig, func() interface{} { return con.ImpliesThisIsAlsoSatisfied(cy) })
							if !c.mustAccept(sig, res) {
								return
							}
							if res.Val.(bool) {
								if why := impliedWrong(first, y); why != "" {
									c.Sig("unsound " + sig)
									c.Failf("%s is said to imply (%s): %s", Show(con), y, why)
								}
							}
						})
					}
				}
			}
		}
	}
	// many entries, of which one decides
	for i := 0; i < len(cons); i += r.pick(7, 3) {
		x := cons[i]
		for _, n := range []int{3, 5, 8} {
			for at := 0; at < n; at += 2 {
				for k, y := range cons {
					if (k+i)%r.pick(5, 2) != 0 || r.skip() {
						continue
					}
					first := make([]scon, n)
					for e := range first {
						q := mono(1, 40+e, 1)
						ta, tb := mkT(q), mkT(sm.K(1))
						first[e] = scon{ta, tb, x.s, pSub(ta.D.E[0], tb.D.E[0])}
					}
					first[at] = x
					r.Case(func() string { return fmt.Sprintf("%d entries, (%s) at %d, imply (%s)?", n, x, at, y) }, func(c *C) {
						var con sm.Constraint = vecOf(first)
						if n == 8 {
							con = matOf(first, 2, 4)
						}
						sig := fmt.Sprintf("%T.ImpliesThisIsAlsoSatisfied", con)
						c.State(con)
						res := c.Do(sig, func() interface{} { return con.ImpliesThisIsAlsoSatisfied(y.con()) })
						if !c.mustAccept(sig, res) {
							return
						}
						if res.Val.(bool) {
							// the other entries restrict other variables only
							if why := impliedWrong([]scon{x}, y); why != "" {
								c.Sig("unsound " + sig)
								c.Failf("%s is said to imply (%s): %s", Show(con), y, why)
							}
						}
					})
				}
			}
		}
	}
	// second constraints with several entries
	for i := 0; i < len(cons); i += r.pick(3, 1) {
		for j := 0; j < len(cons); j += r.pick(7, 3) {
			x, y := cons[i], cons[j]
			second := []scon{y}
			for _, z := range bySense[y.s] {
				if len(second) < 2 && z.String() != y.String() {
					second = append(second, z)
				}
			}
			for _, form := range []string{"vector", "matrix"} {
				for _, ff := range []string{"scalar", "vector", "matrix"} {
					if r.skip() {
						continue
					}
					r.Case(func() string {
						return fmt.Sprintf("%s (%s) implies %s of (%s), (%s)?", ff, x, form, second[0], second[1])
					}, func(c *C) {
						var other, first sm.Constraint
						other = vecOf(second)
						if form == "matrix" {
							other = matOf(second, 1, 2)
						}
						switch ff {
						case "scalar":
							first = x.con()
						case "vector":
							first = vecOf([]scon{x})
						default:
							first = matOf([]scon{x}, 1, 1)
						}
						sig := fmt.Sprintf("%T.ImpliesThisIsAlsoSatisfied(%T)", first, other)
						res := c.Do(sig, func() interface{} { return first.ImpliesThisIsAlsoSatisfied(other) })
						if !c.mustAccept(sig, res) {
							return
						}
						if res.Val.(bool) {
							for _, y := range second {
								if why := impliedWrong([]scon{x}, y); why != "" {
									c.Sig("unsound " + sig)
									c.Failf("%s is said to imply %s: %s", Show(first), Show(other), why)
								}
							}
						}
					})
				}
			}
		}
	}
	// the non-negativity recogniser, on all of these and on all pairs of scalars
	nonneg := func(a, b *T, s sm.ConstrSense) {
		if r.skip() {
			return
		}
		r.Case(func() string { return "IsNonnegativityConstraint of " + constrStr(a, b, s) }, func(c *C) {
			con := mkConstr(a, b, s).(sm.ScalarConstraint)
			c.State(con)
			sig := "IsNonnegativityConstraint"
			res := c.Do(sig, func() interface{} { return con.IsNonnegativityConstraint() })
			if !c.mustAccept(sig, res) {
				return
			}
			want := isNonneg(pSub(a.D.E[0], b.D.E[0]), s)
			if res.Val.(bool) != want {
				c.Sig(fmt.Sprintf("%s is %v", sig, !want))
				c.Failf("IsNonnegativityConstraint of %s is %v", constrStr(a, b, s), !want)
			}
		})
	}
	for _, x := range cons {
		nonneg(x.a, x.b, x.s)
	}
	r.scalarPairs(func(a, b *T) {
		for _, s := range senses {
			nonneg(a, b, s)
		}
	})
}

func toPoly(e interface{}) sm.Polynomial {
	switch x := e.(type) {
	case sm.K:
		return poly(mono(float64(x)))
	case sm.Variable:
		return poly(sm.Monomial{Coefficient: 1, VariableFactors: []sm.Variable{x}, Exponents: []int{1}})
	case sm.Monomial:
		return poly(x)
	case sm.Polynomial:
		return x
	}
	panic("toPoly")
}
