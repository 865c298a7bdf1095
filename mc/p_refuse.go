package main

// C16: everything that does not fit is refused. C22: Check is exact and every
// result passes it.

import (
	"fmt"
	"math"
	"reflect"

	"github.com/MatProGo-dev/SymbolicMath.go/smErrors"
	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

func init() {
	props["C16"] = propRefuse
	props["C22"] = propCheck
}

func (c *C) mustRefuse(what, text string, o *Op, args []interface{}) {
	res := c.Do(o.Name, func() interface{} { return o.Call(args) })
	if c.r.Prop == "C25" {
		c.saysWhy(what, text, o, args, res)
		return
	}
	if !res.Panicked {
		c.Sig("accepted " + o.Name + " " + what)
		c.Failf("%s: %s returned %s", what, text, Show(res.Val))
	}
}

// classOps filters the operations by class; templates are left out.
func classOps(classes ...string) []*Op {
	var out []*Op
	for _, o := range allOps() {
		for _, c := range classes {
			if o.Class == c {
				out = append(out, o)
			}
		}
	}
	return out
}

type dimsOnly struct{ r, c int }

func (d dimsOnly) Dims() []int { return []int{d.r, d.c} }

type dimsVec struct{ dimsOnly }

func (d dimsVec) Len() int { return d.r }

func propRefuse(r *R) {
	pb := poolBounds{scalars: 8, vecLens: []int{1, 2, 3, 4}, matShapes: []shape{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}}, fillLevel: 1, maxPerCls: 6, constrs: 1}
	if r.thorough() {
		pb.vecLens = []int{1, 2, 3, 4, 7}
		pb.matShapes = matShapes
		pb.fillLevel, pb.maxPerCls = 2, 12
	}
	p := newPools(pb)
	arith := classOps("Plus", "Minus", "Multiply", "LessEq", "GreaterEq", "Eq", "Comparison")
	// (a) dimensions that do not fit
	p.Calls(arith, func(o *Op, args []*V) {
		if fitsCall(o, args) {
			return
		}
		r.Case(func() string { return callText(o, args) }, func(c *C) {
			c.mustRefuse("operands that do not fit", callText(o, args), o, newArgs(args, Exact))
		})
	})
	// arguments that are no expressions
	for _, o := range arith {
		recvs := p.byType[o.In[0]]
		if !o.Method || len(o.In) < 2 || o.In[1] != tIface {
			continue
		}
		for _, v := range recvs {
			for i, x := range strangers() {
				if _, isInt := x.(int); isInt || isPointer(x) {
					continue // some operations take them for what they stand for
				}
				for s := 0; s < 3; s++ {
					if len(o.In) < 3 && s > 0 {
						continue
					}
					o, v, i, s := o, v, i, s
					text := fmt.Sprintf("%s(%s, stranger %d (%T))", o.Name, v.Text, i, x)
					r.Case(func() string { return text }, func(c *C) {
						args := []interface{}{v.New(), strangers()[i]}
						if len(o.In) == 3 {
							args = append(args, []sm.ConstrSense{sm.SenseEqual, sm.SenseLessThanEqual, sm.SenseGreaterThanEqual}[s])
						}
						c.mustRefuse("an argument that is no expression", text, o, args)
					})
				}
			}
		}
	}
	// stacking
	stackOps := classOps("HStack", "VStack")
	stack := func(ts ...*V) {
		for _, o := range stackOps {
			o := o
			es := make([]sm.Expression, len(ts))
			fit, same := len(ts) > 0, 0
			for i, t := range ts {
				es[i] = t.Proto.(sm.Expression)
				d := t.T.R
				if o.Class == "VStack" {
					d = t.T.C
				}
				if i == 0 {
					same = d
				}
				fit = fit && d == same
			}
			if fit {
				continue
			}
			v := &V{Proto: es, Text: Show(es)}
			r.Case(func() string { return o.Name + stackText(ts) }, func(c *C) {
				c.mustRefuse("operands that do not fit", o.Name+stackText(ts), o, newArgs([]*V{v}, Exact))
			})
		}
	}
	stack()
	perSig := map[string]int{}
	var few []*V
	for _, v := range p.exprs {
		if perSig[v.Sig] < r.pick(1, 2) {
			perSig[v.Sig]++
			few = append(few, v)
		}
	}
	for _, a := range few {
		for _, b := range few {
			stack(a, b)
		}
	}
	var fewer []*V
	for i, v := range few {
		if i%r.pick(4, 2) == 0 {
			fewer = append(fewer, v)
		}
	}
	for _, a := range fewer {
		for _, b := range fewer {
			for _, x := range fewer {
				stack(a, b, x)
			}
		}
	}
	// powers of anything that is not square
	for _, o := range classOps("Power") {
		for _, v := range p.byType[o.In[0]] {
			if v.T.R == v.T.C {
				continue
			}
			for n := -2; n <= 5; n++ {
				o, v, n := o, v, n
				r.Case(func() string { return fmt.Sprintf("%s(%s, %d)", o.Name, v.Text, n) }, func(c *C) {
					c.mustRefuse("power of a non-square expression", fmt.Sprintf("%s(%s, %d)", o.Name, v.Text, n), o, []interface{}{v.New(), n})
				})
			}
		}
	}
	// (b) indices outside
	idx := func(n int) []int {
		out := []int{-1 << 40, -2, -1}
		for i := 0; i < n+3; i++ {
			out = append(out, i)
		}
		return append(out, 100, 1<<40, math.MaxInt)
	}
	for _, o := range classOps("At", "AtVec") {
		for _, v := range p.byType[o.In[0]] {
			rr, cc := dimsOf(v)
			if len(o.In) == 2 {
				for _, i := range idx(rr) {
					if i >= 0 && i < rr {
						continue
					}
					o, v, i := o, v, i
					r.Case(func() string { return fmt.Sprintf("%s(%s, %d)", o.Name, v.Text, i) }, func(c *C) {
						c.mustRefuse("index outside", fmt.Sprintf("%s(%s, %d)", o.Name, v.Text, i), o, []interface{}{v.New(), i})
					})
				}
				continue
			}
			for _, i := range idx(rr) {
				for _, j := range idx(cc) {
					if i >= 0 && i < rr && j >= 0 && j < cc {
						continue
					}
					o, v, i, j := o, v, i, j
					r.Case(func() string { return fmt.Sprintf("%s(%s, %d, %d)", o.Name, v.Text, i, j) }, func(c *C) {
						c.mustRefuse("index outside", fmt.Sprintf("%s(%s, %d, %d)", o.Name, v.Text, i, j), o, []interface{}{v.New(), i, j})
					})
				}
			}
		}
	}
	// (c) malformed operands in every position
	var bads []Bad
	for _, k := range exprKinds {
		bads = append(bads, malformed(k, r.pick(0, 1))...)
	}
	small := newPools(poolBounds{scalars: 5, vecLens: []int{1, 2, 3}, matShapes: []shape{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}}, fillLevel: 1, maxPerCls: 1, constrs: 7})
	isConst := func(t reflect.Type) bool {
		return t == reflect.TypeOf(sm.K(0)) || t == reflect.TypeOf(sm.KVector{}) || t == reflect.TypeOf(sm.KMatrix{})
	}
	guarded := classOps("Plus", "Minus", "Multiply", "LessEq", "GreaterEq", "Eq", "Comparison", "Power", "DerivativeWrt", "Substitute", "SubstituteAccordingTo")
	for _, o := range guarded {
		o := o
		if (o.Class == "DerivativeWrt" || o.Class == "Substitute") && o.Method && isConst(o.In[0]) {
			continue // constants ignore what is substituted into them
		}
		if o.Method && reflect.Zero(o.In[0]).Type().Implements(tConstr) {
			continue // checked through their sides
		}
		for pos := range o.In {
			for _, b := range bads {
				b := b
				t := reflect.TypeOf(b.Proto)
				if pos == 0 && o.Method || o.In[pos].Kind() != reflect.Interface {
					if t != o.In[pos] {
						continue
					}
				} else if !t.Implements(o.In[pos]) {
					continue
				}
				var rec func(i int, args []*V)
				rec = func(i int, args []*V) {
					if i == len(o.In) {
						r.Case(func() string { return callText(o, args) }, func(c *C) {
							c.mustRefuse("malformed operand", callText(o, args), o, newArgs(args, Exact))
						})
						return
					}
					if i == pos {
						rec(i+1, append(args[:i:i], b.V))
						return
					}
					for _, x := range small.pool(o, i, args) {
						rec(i+1, append(args[:i:i], x))
					}
				}
				rec(0, nil)
			}
		}
	}
	// malformed operands of a stack
	fullBads := bads
	for _, o := range stackOps {
		o := o
		for _, b := range fullBads {
			b := b
			if b.Base == nil {
				continue
			}
			for _, x := range small.exprs {
				if (o.Class == "HStack" && x.T.R != b.Base.T.R) || (o.Class == "VStack" && x.T.C != b.Base.T.C) {
					continue
				}
				x := x
				for pos := 0; pos < 2; pos++ {
					pos := pos
					r.Case(func() string {
						return fmt.Sprintf("%s of %s and %s, the malformed one at %d", o.Name, b.Text, x.Text, pos)
					}, func(c *C) {
						es := []sm.Expression{b.New().(sm.Expression), x.New().(sm.Expression)}
						if pos == 1 {
							es[0], es[1] = es[1], es[0]
						}
						c.mustRefuse("malformed operand", fmt.Sprintf("%s of %s and %s", o.Name, b.Text, x.Text), o, []interface{}{es})
					})
				}
			}
		}
	}
	// (d) the errors package
	r.errorsPackage()
}

func stackText(ts []*V) string {
	s := "("
	for i, t := range ts {
		if i > 0 {
			s += "; "
		}
		s += t.Text
	}
	return s + ")"
}

func dimsOf(v *V) (int, int) {
	switch d := v.Proto.(type) {
	case sm.VectorConstraint:
		return d.LeftHandSide.Len(), 1
	case sm.MatrixConstraint:
		x := d.LeftHandSide.Dims()
		return x[0], x[1]
	}
	if v.T != nil {
		return v.T.R, v.T.C
	}
	return 1, 1
}

func (r *R) errorsPackage() {
	n := r.pick(5, 8)
	judge := func(name string, want bool, err error, c *C, text string) {
		if (err == nil) != want {
			c.Sig("smErrors " + name)
			c.Failf("%s(%s) = %v, expected acceptance %v", name, text, err, want)
		}
		if err != nil {
			res := c.Do("Error", func() interface{} { return err.Error() })
			if res.Panicked {
				c.Sig("smErrors " + name + " message")
				c.Failf("the error of %s(%s) cannot be printed: %s", name, text, res.why())
			}
		}
	}
	var shapes []dimsOnly
	for i := 1; i <= n; i++ {
		for j := 1; j <= n; j++ {
			shapes = append(shapes, dimsOnly{i, j})
		}
	}
	wrap := func(d dimsOnly, vec bool) smErrors.MatrixLike {
		if vec {
			return dimsVec{d}
		}
		return d
	}
	for _, a := range shapes {
		for _, b := range shapes {
			a, b := a, b
			r.Case(func() string { return fmt.Sprintf("smErrors dimension checks %v %v", a, b) }, func(c *C) {
				sa, sb := a == dimsOnly{1, 1}, b == dimsOnly{1, 1}
				for m := 0; m < 4; m++ {
					x, y := wrap(a, m&1 != 0), wrap(b, m&2 != 0)
					text := fmt.Sprintf("%v, %v", a, b)
					c.r.rep.Transitions += 6
					judge("CheckDimensionsInAddition", a == b || sa || sb, smErrors.CheckDimensionsInAddition(x, y), c, text)
					judge("CheckDimensionsInSubtraction", a == b || sa || sb, smErrors.CheckDimensionsInSubtraction(x, y), c, text)
					judge("CheckDimensionsInMultiplication", a.c == b.r || sa || sb, smErrors.CheckDimensionsInMultiplication(x, y), c, text)
					judge("CheckDimensionsInComparison", a == b || sa || sb, smErrors.CheckDimensionsInComparison(x, y, "<="), c, text)
					judge("CheckDimensionsInHStack", a.r == b.r, smErrors.CheckDimensionsInHStack(x, y), c, text)
					judge("CheckDimensionsInVStack", a.c == b.c, smErrors.CheckDimensionsInVStack(x, y), c, text)
				}
				if smErrors.IsScalarExpression(a) != sa {
					c.Sig("smErrors IsScalarExpression")
					c.Failf("IsScalarExpression(%v) = %v", a, !sa)
				}
			})
		}
	}
	sm3 := shapes[:0:0]
	for _, s := range shapes {
		if s.r <= 3 && s.c <= 3 {
			sm3 = append(sm3, s)
		}
	}
	for _, a := range sm3 {
		a := a
		r.Case(func() string { return fmt.Sprintf("smErrors stack checks from %v", a) }, func(c *C) {
			judge("CheckDimensionsInHStack", true, smErrors.CheckDimensionsInHStack(a), c, fmt.Sprint(a))
			judge("CheckDimensionsInVStack", true, smErrors.CheckDimensionsInVStack(a), c, fmt.Sprint(a))
			for _, b := range sm3 {
				for _, d := range sm3 {
					text := fmt.Sprintf("%v, %v, %v", a, b, d)
					judge("CheckDimensionsInHStack", a.r == b.r && b.r == d.r, smErrors.CheckDimensionsInHStack(a, b, d), c, text)
					judge("CheckDimensionsInVStack", a.c == b.c && b.c == d.c, smErrors.CheckDimensionsInVStack(a, b, d), c, text)
					for _, e := range sm3 {
						judge("CheckDimensionsInHStack", a.r == b.r && b.r == d.r && d.r == e.r, smErrors.CheckDimensionsInHStack(a, b, d, e), c, text)
						judge("CheckDimensionsInVStack", a.c == b.c && b.c == d.c && d.c == e.c, smErrors.CheckDimensionsInVStack(a, b, d, e), c, text)
					}
				}
			}
		})
		r.Case(func() string { return fmt.Sprintf("smErrors index checks on %v", a) }, func(c *C) {
			for i := -3; i <= a.r+3; i++ {
				judge("CheckIndexOnVector", i >= 0 && i < a.r, smErrors.CheckIndexOnVector(i, a), c, fmt.Sprintf("%d, %v", i, a))
				for j := -3; j <= a.c+3; j++ {
					judge("CheckIndexOnMatrix", i >= 0 && i < a.r && j >= 0 && j < a.c, smErrors.CheckIndexOnMatrix(i, j, a), c, fmt.Sprintf("%d, %d, %v", i, j, a))
				}
			}
		})
	}
}

// ------------------------------------------------------------------- C22

// checkable visits every expression and constraint inside a result.
func checkable(v interface{}, f func(x interface{}, err error)) {
	switch s := v.(type) {
	case nil, error, bool, int, float64, string, uint64:
		return
	case sm.Constraint:
		f(s, s.Check())
		return
	case sm.Expression:
		f(s, s.Check())
		return
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Slice {
		for i := 0; i < rv.Len(); i++ {
			checkable(rv.Index(i).Interface(), f)
		}
	}
}

func propCheck(r *R) {
	chk := func(e interface{}) (err error, res Res) {
		return err, res
	}
	_ = chk
	check := func(kind, text string, want bool, e func() interface{ Check() error }) {
		r.Case(func() string { return "Check of " + text }, func(c *C) {
			x := e()
			res := c.Do("Check", func() interface{} { return x.Check() })
			if res.Panicked {
				c.Sig("Check panics " + kind)
				c.Failf("Check of %s: %s", text, res.why())
				return
			}
			ok := res.Val == nil
			if ok != want {
				c.Sig("Check " + kind)
				c.Failf("Check of %s gives %v, expected well formed = %v", text, res.Val, want)
			}
		})
	}
	rich := deepPools()
	rich.fillLevel, rich.maxPerCls, rich.scalars = 2, 0, 0
	rp := newPools(rich)
	for _, v := range rp.exprs {
		v := v
		check(v.Sig, v.Text, true, func() interface{ Check() error } { return v.New().(interface{ Check() error }) })
	}
	sysPolys(sysMonos(r.pick(6, 9), 0, 1, -1), r.pick(2, 3), func(p sm.Polynomial) {
		check("Polynomial", Show(p), true, func() interface{ Check() error } { return clonePoly(p, Exact) })
	})
	for _, s := range r.Universe(1, r.pick(1, 2), r.pick(60000, 400000)) {
		s := s
		check(s.T.Kind.String(), s.String(), true, func() interface{ Check() error } { return s.T.New().(interface{ Check() error }) })
	}
	// variables: all pairs of bounds
	bounds := []float64{math.Inf(-1), -1e30, -2, 0, 1, 1.5, 7, 1e30, math.Inf(1)}
	for _, lo := range bounds {
		for _, hi := range bounds {
			v := vX
			v.Lower, v.Upper = lo, hi
			check("Variable", fmt.Sprintf("variable with bounds [%v, %v]", lo, hi), lo < hi, func() interface{ Check() error } { return v })
		}
	}
	// monomials: all numbers of factors and exponents
	for nf := 0; nf <= 4; nf++ {
		for ne := 0; ne <= 4; ne++ {
			for _, cf := range []float64{0, 1, -2} {
				m := sm.Monomial{Coefficient: cf}
				for i := 0; i < nf; i++ {
					m.VariableFactors = append(m.VariableFactors, vs[i])
				}
				for i := 0; i < ne; i++ {
					m.Exponents = append(m.Exponents, i+1)
				}
				check("Monomial", fmt.Sprintf("monomial with %d factors and %d exponents", nf, ne), nf == ne, func() interface{ Check() error } { return cloneMono(m, Exact) })
			}
		}
	}
	var bads []Bad
	for _, k := range exprKinds {
		for _, b := range malformed(k, 1) {
			b := b
			bads = append(bads, b)
			check(b.Sig, b.Text, false, func() interface{ Check() error } { return b.New().(interface{ Check() error }) })
		}
	}
	// constraints
	for s := -2; s < 256; s++ {
		s := s
		cs := sm.ConstrSense(s)
		want := cs == sm.SenseEqual || cs == sm.SenseLessThanEqual || cs == sm.SenseGreaterThanEqual
		check("ConstrSense", fmt.Sprintf("sense %d", s), want, func() interface{ Check() error } { return cs })
		check("ScalarConstraint", fmt.Sprintf("scalar constraint with sense %d", s), want, func() interface{ Check() error } {
			return sm.ScalarConstraint{LeftHandSide: vX, RightHandSide: sm.K(1), Sense: cs}
		})
		check("VectorConstraint", fmt.Sprintf("vector constraint with sense %d", s), want, func() interface{ Check() error } {
			return sm.VectorConstraint{LeftHandSide: sm.VariableVector{vX, vY}, RightHandSide: sm.KVector{1, 2}, Sense: cs}
		})
		check("MatrixConstraint", fmt.Sprintf("matrix constraint with sense %d", s), want, func() interface{ Check() error } {
			return sm.MatrixConstraint{LeftHandSide: sm.VariableMatrix{{vX, vY}}, RightHandSide: sm.KMatrix{{1, 2}}, Sense: cs}
		})
	}
	senses := []sm.ConstrSense{sm.SenseEqual, sm.SenseLessThanEqual, sm.SenseGreaterThanEqual}
	shp := newPools(poolBounds{scalars: 4, vecLens: []int{1, 2, 3, 4}, matShapes: []shape{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}}, fillLevel: 1, maxPerCls: r.pick(1, 3), constrs: 50})
	build := func(a, b interface{}, s sm.ConstrSense) interface{ Check() error } {
		switch x := a.(type) {
		case sm.ScalarExpression:
			if y, ok := b.(sm.ScalarExpression); ok {
				return sm.ScalarConstraint{LeftHandSide: x, RightHandSide: y, Sense: s}
			}
		case sm.VectorExpression:
			if y, ok := b.(sm.VectorExpression); ok {
				return sm.VectorConstraint{LeftHandSide: x, RightHandSide: y, Sense: s}
			}
		case sm.MatrixExpression:
			if y, ok := b.(sm.MatrixExpression); ok {
				return sm.MatrixConstraint{LeftHandSide: x, RightHandSide: y, Sense: s}
			}
		}
		return nil
	}
	for _, a := range shp.exprs {
		for _, b := range shp.exprs {
			for _, s := range senses {
				a, b, s := a, b, s
				if build(a.Proto, b.Proto, s) == nil {
					continue
				}
				check("constraint", fmt.Sprintf("constraint %s %s %s", a.Text, senseStr(s), b.Text), a.T.R == b.T.R && a.T.C == b.T.C, func() interface{ Check() error } { return build(a.New(), b.New(), s) })
			}
		}
	}
	for _, bad := range bads {
		for _, g := range shp.exprs {
			bad, g := bad, g
			if bad.Base != nil && (g.T.R != bad.Base.T.R || g.T.C != bad.Base.T.C) {
				continue
			}
			for i := 0; i < 2; i++ {
				i := i
				a, b := interface{}(bad.Proto), g.Proto
				if i == 1 {
					a, b = b, a
				}
				if build(a, b, senses[0]) == nil {
					continue
				}
				check("constraint", fmt.Sprintf("constraint between %s and %s, malformed side %d", bad.Text, g.Text, i), false, func() interface{ Check() error } {
					x, y := bad.New(), g.New()
					if i == 1 {
						x, y = y, x
					}
					return build(x, y, senses[(i+1)%3])
				})
			}
		}
	}
	// results
	result := func(o *Op, args []*V) {
		if o.Class == "Check" {
			return
		}
		r.Case(func() string { return callText(o, args) }, func(c *C) {
			res := c.Do(o.Name, func() interface{} { return o.Call(newArgs(args, Exact)) })
			if res.Panicked {
				return
			}
			if rs, ok := res.Val.([]interface{}); ok && len(rs) > 0 {
				if _, bad := rs[len(rs)-1].(error); bad {
					return // refused with an error
				}
			}
			c.State(res.Val)
			r2 := c.Do("Check", func() interface{} {
				var first error
				checkable(res.Val, func(x interface{}, err error) {
					if err != nil && first == nil {
						first = fmt.Errorf("%s: %v", Show(x), err)
					}
				})
				return first
			})
			if r2.Panicked {
				c.Sig("result check panics " + o.Name)
				c.Failf("Check of the result %s of %s: %s", Key(res.Val, false), callText(o, args), r2.why())
			} else if r2.Val != nil {
				c.Sig("malformed result " + o.Name)
				c.Failf("the result of %s is malformed: %v", callText(o, args), r2.Val)
			}
		})
	}
	r.pools().Calls(allOps(), result)
	// methods of many more operands, with arguments that make terms cancel
	zero, one, x, y := vOfT(mkT(sm.K(0))), vOfT(mkT(sm.K(1))), vOfT(mkT(vX)), vOfT(mkT(vY))
	byRecv := map[reflect.Type][]*Op{}
	for _, o := range allOps() {
		if o.Method {
			byRecv[o.In[0]] = append(byRecv[o.In[0]], o)
		}
	}
	tVar, tAny, tScalar := reflect.TypeOf(vX), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*sm.ScalarExpression)(nil)).Elem()
	methods := func(t *T) {
		v := vOfT(t)
		for _, o := range byRecv[reflect.TypeOf(t.Proto)] {
			switch {
			case o.Variadic:
			case len(o.In) == 1:
				result(o, []*V{v})
			case len(o.In) == 2 && o.In[1] == tVar:
				result(o, []*V{v, x})
				result(o, []*V{v, y})
			case len(o.In) == 2 && o.In[1] == tAny && (o.Class == "Plus" || o.Class == "Minus"):
				result(o, []*V{v, v})
			case len(o.In) == 2 && o.In[1] == tAny && o.Class == "Multiply":
				result(o, []*V{v, zero})
			case len(o.In) == 3 && o.In[1] == tVar && o.In[2] == tScalar:
				result(o, []*V{v, x, zero})
				result(o, []*V{v, x, one})
				result(o, []*V{v, x, y})
			}
		}
	}
	r.operands(operandBounds{fillLevel: 2, maxCells: r.pick(6, 12), positions: true, poly2: r.pick(14, 17), poly3: r.pick(7, 12), depth: 1, level: 0}, methods)
	// polynomials all of whose terms may cancel
	sysPolys(sysMonos(r.pick(6, 8), 0, 1, -1), 2, func(p sm.Polynomial) { methods(mkT(p)) })
	sysPolys(sysMonos(r.pick(4, 6), 0, 1, -1), 3, func(p sm.Polynomial) { methods(mkT(p)) })
	sysPolys(sysMonos(r.pick(4, 6), 1, -1), 4, func(p sm.Polynomial) { methods(mkT(p)) })
}

func isPointer(x interface{}) bool { return x != nil && reflect.TypeOf(x).Kind() == reflect.Ptr }
