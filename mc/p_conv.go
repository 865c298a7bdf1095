package main

// Conversions between kinds and to and from Go and gonum numbers (C20).

import (
	"fmt"
	"reflect"
	"strings"

	getKMatrix "github.com/MatProGo-dev/SymbolicMath.go/get/KMatrix"
	getKVector "github.com/MatProGo-dev/SymbolicMath.go/get/KVector"
	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

func init() { props["C20"] = propConvert }

// a conv is a conversion function with its predicate and the kinds it
// documents; it may accept more kinds, never fewer.
type conv struct {
	name  string
	is    func(x interface{}) bool
	to    func(x interface{}) (interface{}, error)
	kinds map[Kind]bool
}

func kindSet(ks ...Kind) map[Kind]bool {
	out := map[Kind]bool{}
	for _, k := range ks {
		out[k] = true
	}
	return out
}

func joinKinds(ms ...map[Kind]bool) map[Kind]bool {
	out := map[Kind]bool{}
	for _, m := range ms {
		for k := range m {
			out[k] = true
		}
	}
	return out
}

func convs() []conv {
	sc := kindSet(KK, KVar, KMono, KPoly, KFloat)
	ve := kindSet(KKV, KVV, KMV, KPV, KVecDense)
	ma := kindSet(KKM, KVM, KMM, KPM, KDense)
	vp, mp := joinKinds(ve, kindSet(KVecDenseP)), joinKinds(ma, kindSet(KDenseP))
	return []conv{
		{"ScalarExpression", sm.IsScalarExpression, func(x interface{}) (interface{}, error) { return sm.ToScalarExpression(x) }, sc},
		{"VectorExpression", sm.IsVectorExpression, func(x interface{}) (interface{}, error) { return sm.ToVectorExpression(x) }, vp},
		{"MatrixExpression", sm.IsMatrixExpression, func(x interface{}) (interface{}, error) { return sm.ToMatrixExpression(x) }, mp},
		{"Expression", sm.IsExpression, func(x interface{}) (interface{}, error) { return sm.ToExpression(x) }, joinKinds(sc, vp, mp)},
		{"PolynomialLikeScalar", sm.IsPolynomialLikeScalar, func(x interface{}) (interface{}, error) { return sm.ToPolynomialLikeScalar(x) }, sc},
		{"PolynomialLikeVector", sm.IsPolynomialLikeVector, func(x interface{}) (interface{}, error) { return sm.ToPolynomialLikeVector(x) }, ve},
		{"PolynomialLikeMatrix", sm.IsPolynomialLikeMatrix, func(x interface{}) (interface{}, error) { return sm.ToPolynomialLikeMatrix(x) }, ma},
		{"PolynomialLike", sm.IsPolynomialLike, func(x interface{}) (interface{}, error) { return sm.ToPolynomialLike(x) }, joinKinds(sc, ve, ma)},
	}
}

// strangers are values that are no expressions.
func strangers() []interface{} {
	x := vX
	k := sm.K(2)
	m := mono(2, 0, 1)
	p := poly(mono(1, 0, 1), mono(3))
	return []interface{}{
		nil, "x_0", "", 7, int8(1), int64(3), uint64(0), float32(1.5), true, complex(1, 2), []float64{1, 2}, [][]float64{{1, 2}}, []int{1},
		&x, &k, &m, &p, []sm.Variable{x}, []sm.K{1}, []sm.Monomial{m}, []sm.Polynomial{p}, [][]sm.K{{1}}, [][]sm.Variable{{x}},
		[]sm.ScalarExpression{x}, []sm.Expression{x}, []interface{}{x}, map[sm.Variable]sm.Expression{x: k}, fmt.Errorf("x"), struct{}{}, &sm.VariableVector{x},
		mat.NewSymDense(1, []float64{2}), mat.NewDense(1, 2, []float64{1, 2}).T(), mat.NewDiagDense(2, []float64{1, 2}),
		sm.ScalarConstraint{LeftHandSide: x, RightHandSide: k, Sense: sm.SenseEqual}, sm.SenseEqual, alphaEnv, &alphaEnv, func() {}, []string{"x"}, [2]float64{1, 2},
	}
}

// rawViews yields gonum values of other memory layouts: strided vectors and
// windows into larger matrices.
func rawViews() []interface{} {
	var out []interface{}
	big := func() *mat.Dense {
		d := mat.NewDense(4, 5, nil)
		for i := 0; i < 4; i++ {
			for j := 0; j < 5; j++ {
				d.Set(i, j, float64(10*i+j)-7.5)
			}
		}
		return d
	}
	for j := 0; j < 5; j++ {
		v := big().ColView(j).(*mat.VecDense)
		out = append(out, v, *v)
		w := v.SliceVec(1, 3).(*mat.VecDense)
		out = append(out, w, *w)
	}
	for i := 0; i < 4; i++ {
		v := big().RowView(i).(*mat.VecDense)
		out = append(out, v, *v)
	}
	for i := 0; i < 4; i++ {
		for k := i + 1; k <= 4; k++ {
			for j := 0; j < 5; j++ {
				for l := j + 1; l <= 5; l++ {
					d := big().Slice(i, k, j, l).(*mat.Dense)
					out = append(out, d, *d)
				}
			}
		}
	}
	return out
}

// scribble overwrites every entry of a gonum value or a Go slice.
func scribble(x interface{}) {
	switch s := x.(type) {
	case *mat.VecDense:
		for i := 0; i < s.Len(); i++ {
			s.SetVec(i, -77)
		}
	case mat.VecDense:
		scribble(&s)
	case *mat.Dense:
		r, c := s.Dims()
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				s.Set(i, j, -77)
			}
		}
	case mat.Dense:
		scribble(&s)
	case []float64:
		for i := range s {
			s[i] = -77
		}
	case []int:
		for i := range s {
			s[i] = -77
		}
	case [][]float64:
		for i := range s {
			scribble(s[i])
		}
	}
}

func isGonum(k Kind) bool { return k == KVecDense || k == KVecDenseP || k == KDense || k == KDenseP }

// converted judges the result of a conversion.
func (c *C) converted(sig string, v interface{}, want *Mat) bool {
	if l, ok := v.([]sm.ScalarExpression); ok {
		if len(l) != want.R*want.C {
			c.Sig(sig)
			c.Failf("%s yields %d entries instead of %d", sig, len(l), want.R*want.C)
			return false
		}
		for i, x := range l {
			d, err := Den(x)
			if err != nil || !d.isScalar() || !pEq(d.E[0], want.E[i]) {
				c.Sig(sig)
				c.Failf("%s entry %d is %s (%v), not %s", sig, i, Show(x), err, pStr(want.E[i]))
				return false
			}
		}
		return true
	}
	d, err := Den(v)
	if err != nil || !mEq(d, want) {
		c.Sig(sig)
		c.Failf("%s yields %s (%v) instead of %s", sig, Show(v), err, want)
		return false
	}
	if e, ok := v.(interface{ Dims() []int }); ok {
		dims := e.Dims()
		if len(dims) != 2 || dims[0] != want.R || dims[1] != want.C {
			c.Sig(sig)
			c.Failf("%s has Dims %v instead of %dx%d", sig, dims, want.R, want.C)
			return false
		}
	}
	return true
}

func propConvert(r *R) {
	cs := convs()
	isTo := func(cv conv, x func() interface{}, d *Mat, k Kind, known bool, text string) {
		if r.skip() {
			return
		}
		r.Case(func() string { return "Is/To" + cv.name + " of " + text }, func(c *C) {
			sig := "To" + cv.name + "|" + text
			if known {
				sig = "To" + cv.name + "|" + k.String()
			}
			c.Sig(sig)
			a := x()
			ri := c.Do("Is"+cv.name, func() interface{} { return cv.is(a) })
			if ri.Panicked {
				c.Failf("Is%s panicked: %s", cv.name, ri.why())
				return
			}
			is := ri.Val.(bool)
			rt := c.Do("To"+cv.name, func() interface{} {
				v, err := cv.to(a)
				return []interface{}{v, err}
			})
			if rt.Runtime {
				c.Failf("run-time error: %s", rt.why())
				return
			}
			ok := !rt.Panicked
			var v interface{}
			if ok {
				res := rt.Val.([]interface{})
				v = res[0]
				ok = res[1] == nil
			}
			if ok != is {
				c.Failf("Is%s reports %v, but To%s: %v %v", cv.name, is, cv.name, rt.Val, rt.PV)
				return
			}
			if known && cv.kinds[k] && !is {
				c.Failf("%s is not accepted", k)
				return
			}
			if !ok {
				return
			}
			if d == nil {
				c.Failf("%s is accepted as %s", text, Show(v))
				return
			}
			if !c.converted(sig, v, d) {
				return
			}
			if known && isGonum(k) {
				scribble(a)
				if !c.converted(sig+" after its source was overwritten", v, d) {
					return
				}
			}
		})
	}
	var all []*T
	for k := Kind(0); k < nKinds; k++ {
		all = append(all, templates(k, r.pick(3, 4), r.pick(1, 2))...)
	}
	for _, cv := range cs {
		for _, t := range all {
			isTo(cv, t.New, t.D, t.Kind, true, t.String())
		}
		for i := range rawViews() {
			i := i
			x := rawViews()[i]
			d, err := Den(x)
			check(err)
			k, _ := kindOf(x)
			isTo(cv, func() interface{} { return rawViews()[i] }, d, k, true, fmt.Sprintf("view %d: %s", i, Show(x)))
		}
		for i, x := range strangers() {
			i := i
			var d *Mat
			if k, ok := kindOf(x); ok && k == KInt {
				d = one(pConst(float64(x.(int))))
			}
			isTo(cv, func() interface{} { return strangers()[i] }, d, 0, false, fmt.Sprintf("stranger %d (%T)", i, x))
		}
	}
	r.convMethods()
	r.convFrom()
	r.convRawOperands()
	r.convSpecial()
}

// convMethods runs every method whose name starts with To on every kind.
func (r *R) convMethods() {
	run := func(t *T, m reflect.Method) {
		if r.skip() {
			return
		}
		r.Case(func() string { return fmt.Sprintf("(%s).%s()", t, m.Name) }, func(c *C) {
			sig := m.Name + "|" + t.Sig()
			c.Sig(sig)
			c.State(t.Proto)
			recv := t.New()
			res := c.Do(m.Name, func() interface{} { return m.Func.Call([]reflect.Value{reflect.ValueOf(recv)})[0].Interface() })
			if m.Name == "ToVariable" {
				mo, isMono := t.Proto.(sm.Monomial)
				is := isMono && mo.Coefficient == 1 && simplestKind(t.D.E[0])[0] == KVar
				if is == res.Panicked {
					c.Failf("%s is a variable: %v, refused: %v (%v)", t, is, res.Panicked, res.why())
					return
				}
				if !is {
					return
				}
			}
			if !c.mustAccept(sig, res) {
				return
			}
			if !c.converted(sig, res.Val, t.D) {
				return
			}
			// the name of the conversion states the kind of its result
			want := strings.TrimPrefix(m.Name, "To")
			if got := reflect.TypeOf(res.Val).Name(); want != "ScalarExpressions" && !strings.Contains("Mat"+got, want) && got != want && want != "Dense" && want != "VecDense" {
				c.Failf("%s yields a %T", m.Name, res.Val)
				return
			}
			if want == "Dense" || want == "VecDense" {
				// the receiver does not change with the gonum value
				scribble(res.Val)
				if !c.converted(sig+": receiver after the gonum value was overwritten", recv, t.D) {
					return
				}
			}
			if e, ok := res.Val.(interface{ Check() error }); ok {
				if err := e.Check(); err != nil {
					c.Failf("the result fails its Check: %v", err)
				}
			}
		})
	}
	seen := map[string]bool{}
	visit := func(t *T) {
		typ := reflect.TypeOf(t.Proto)
		for i := 0; i < typ.NumMethod(); i++ {
			m := typ.Method(i)
			if strings.HasPrefix(m.Name, "To") && m.Type.NumIn() == 1 && m.Type.NumOut() == 1 {
				seen[typ.Name()+"."+m.Name] = true
				run(t, m)
			}
		}
	}
	r.operands(operandBounds{fillLevel: r.pick(2, 3), maxCells: 16, positions: true, poly2: r.pick(7, 12), poly3: r.pick(4, 7), depth: r.pick(1, 2), level: r.pick(1, 0)}, visit)
	if r.Shard == 0 {
		r.rep.Notes = append(r.rep.Notes, "conversion methods: "+strings.Join(sortedStrings(seen), " "))
	}
}

// convFrom runs the From helpers and the gonum conversions.
func (r *R) convFrom() {
	run := func(name, text string, arg func() interface{}, want *Mat, f func(x interface{}) interface{}) {
		if r.skip() {
			return
		}
		r.Case(func() string { return name + "(" + text + ")" }, func(c *C) {
			a := arg()
			sig := fmt.Sprintf("%s|%T", name, a)
			c.Sig(sig)
			res := c.Do(name, func() interface{} { return f(a) })
			if want == nil {
				if !res.Panicked {
					c.Failf("%s(%s) accepted: %s", name, text, Show(res.Val))
				}
				return
			}
			if !c.mustAccept(sig, res) || !c.converted(sig, res.Val, want) {
				return
			}
			scribble(a)
			c.converted(sig+" after its source was overwritten", res.Val, want)
		})
	}
	kv := func(x interface{}) interface{} { return getKVector.From(x) }
	km := func(x interface{}) interface{} { return getKMatrix.From(x) }
	vals := []float64{0, 1, -1, 2.5, -3, tiny, 1e6}
	at := func(i int) float64 { return vals[i%len(vals)] }
	maxN := r.pick(5, 7)
	var lens []int
	for n := 1; n <= maxN; n++ {
		lens = append(lens, n)
	}
	for _, n := range bigVecLens {
		if n > maxN {
			lens = append(lens, n)
		}
	}
	for _, n := range lens {
		for off := 0; off < len(vals); off++ {
			n, off := n, off
			fl := func() []float64 {
				out := make([]float64, n)
				for i := range out {
					out[i] = at(off + i*i)
				}
				return out
			}
			ints := func() []int {
				out := make([]int, n)
				for i := range out {
					out[i] = (i*i+off)*3 - 7
				}
				return out
			}
			w := newMat(n, 1)
			for i, x := range fl() {
				w.set(i, 0, pConst(x))
			}
			wi := newMat(n, 1)
			for i, x := range ints() {
				wi.set(i, 0, pConst(float64(x)))
			}
			text := fmt.Sprint(fl())
			run("getKVector.From", text, func() interface{} { return fl() }, w, kv)
			run("getKVector.From", fmt.Sprint(ints()), func() interface{} { return ints() }, wi, kv)
			run("getKVector.From", text, func() interface{} { return mat.NewVecDense(n, fl()) }, w, kv)
			run("getKVector.From", text, func() interface{} { return *mat.NewVecDense(n, fl()) }, w, kv)
			run("VecDenseToKVector", text, func() interface{} { return *mat.NewVecDense(n, fl()) }, w, func(x interface{}) interface{} { return sm.VecDenseToKVector(x.(mat.VecDense)) })
			run("getKVector.From", text, func() interface{} {
				out := sm.KVector{}
				for _, x := range fl() {
					out = append(out, sm.K(x))
				}
				return out
			}, w, kv)
		}
	}
	maxD := r.pick(4, 5)
	var dims []shape
	for nr := 1; nr <= maxD; nr++ {
		for nc := 1; nc <= maxD; nc++ {
			dims = append(dims, shape{nr, nc})
		}
	}
	for _, s := range bigMatShapes {
		if s.r > maxD || s.c > maxD {
			dims = append(dims, s)
		}
	}
	for _, s := range dims {
		{
			for off := 0; off < len(vals); off++ {
				nr, nc, off := s.r, s.c, off
				rows := func() [][]float64 {
					out := make([][]float64, nr)
					for i := range out {
						out[i] = make([]float64, nc)
						for j := range out[i] {
							out[i][j] = at(off + i*nc + j*j)
						}
					}
					return out
				}
				dense := func() *mat.Dense {
					d := mat.NewDense(nr, nc, nil)
					for i, row := range rows() {
						d.SetRow(i, row)
					}
					return d
				}
				w := newMat(nr, nc)
				for i, row := range rows() {
					for j, x := range row {
						w.set(i, j, pConst(x))
					}
				}
				text := fmt.Sprint(rows())
				run("getKMatrix.From", text, func() interface{} { return rows() }, w, km)
				run("getKMatrix.From", text, func() interface{} { return dense() }, w, km)
				run("getKMatrix.From", text, func() interface{} { return *dense() }, w, km)
				run("DenseToKMatrix", text, func() interface{} { return *dense() }, w, func(x interface{}) interface{} { return sm.DenseToKMatrix(x.(mat.Dense)) })
				run("getKMatrix.From", text, func() interface{} {
					out := sm.KMatrix{}
					for _, row := range rows() {
						var kr []sm.K
						for _, x := range row {
							kr = append(kr, sm.K(x))
						}
						out = append(out, kr)
					}
					return out
				}, w, km)
				// a row of another length at any position is refused
				if off == 0 {
					for i := 0; i < nr; i++ {
						for _, l := range []int{nc - 1, nc + 1} {
							if nr == 1 || l < 0 {
								continue
							}
							i, l := i, l
							rag := func() interface{} {
								out := rows()
								out[i] = make([]float64, l)
								return out
							}
							run("getKMatrix.From", fmt.Sprint(rag()), rag, nil, km)
						}
					}
				}
			}
		}
	}
	for i := range rawViews() {
		i := i
		x := rawViews()[i]
		d, err := Den(x)
		check(err)
		arg := func() interface{} { return rawViews()[i] }
		if k, _ := kindOf(x); k.isVector() {
			run("getKVector.From", Show(x), arg, d, kv)
		} else {
			run("getKMatrix.From", Show(x), arg, d, km)
		}
	}
	for i, x := range strangers() {
		i := i
		switch x.(type) {
		case []float64, []int, [][]float64:
			continue
		}
		arg := func() interface{} { return strangers()[i] }
		text := fmt.Sprintf("stranger %d (%T)", i, x)
		run("getKVector.From", text, arg, nil, kv)
		run("getKMatrix.From", text, arg, nil, km)
	}
}

// convRawOperands: the result of an operation with a gonum operand does not
// change when the operand is overwritten afterwards.
func (r *R) convRawOperands() {
	type op struct {
		name string
		f    func(e sm.Expression, x interface{}) interface{}
	}
	ops := []op{
		{"Plus", func(e sm.Expression, x interface{}) interface{} { return e.Plus(x) }},
		{"Minus", func(e sm.Expression, x interface{}) interface{} { return e.Minus(x) }},
		{"Multiply", func(e sm.Expression, x interface{}) interface{} { return e.Multiply(x) }},
		{"LessEq", func(e sm.Expression, x interface{}) interface{} { return e.LessEq(x) }},
		{"GreaterEq", func(e sm.Expression, x interface{}) interface{} { return e.GreaterEq(x) }},
		{"Eq", func(e sm.Expression, x interface{}) interface{} { return e.Eq(x) }},
	}
	var raw, es []*T
	for _, k := range []Kind{KVecDense, KVecDenseP, KDense, KDenseP} {
		raw = append(raw, templates(k, 3, 1)...)
	}
	for _, k := range exprKinds {
		if k.isScalar() {
			es = append(es, scalarTs(k, r.pick(4, 12))...)
		} else {
			es = append(es, templates(k, 3, r.pick(1, 2))...)
		}
	}
	for _, e := range es {
		for _, x := range raw {
			for _, o := range ops {
				if r.skip() {
					continue
				}
				r.Case(func() string { return fmt.Sprintf("%s(%s, %s), then the operand is overwritten", o.name, e, x) }, func(c *C) {
					a := x.New()
					res := c.Do(o.name, func() interface{} { return o.f(e.Expr(), a) })
					if res.Panicked {
						return
					}
					before := Key(res.Val, false)
					scribble(a)
					if after := Key(res.Val, false); after != before {
						c.Sig(o.name + "|" + e.Sig() + "|" + x.Sig())
						c.Failf("the result changed with the operand: %s, was %s", after, before)
					}
				})
			}
		}
	}
}

// convSpecial: the constructors of special gonum values.
func (r *R) convSpecial() {
	n := r.pick(5, 8)
	is := func(name string, f func() interface{}, nr, nc int, at func(i, j int) float64) {
		if r.skip() {
			return
		}
		r.Case(func() string { return fmt.Sprintf("%s %dx%d", name, nr, nc) }, func(c *C) {
			c.Sig(name)
			res := c.Do(name, f)
			if !c.mustAccept(name, res) {
				return
			}
			w := newMat(nr, nc)
			for i := 0; i < nr; i++ {
				for j := 0; j < nc; j++ {
					w.set(i, j, pConst(at(i, j)))
				}
			}
			c.converted(name, res.Val, w)
		})
	}
	cst := func(x float64) func(i, j int) float64 { return func(int, int) float64 { return x } }
	for i := 1; i <= n; i++ {
		i := i
		is("OnesVector", func() interface{} { return sm.OnesVector(i) }, i, 1, cst(1))
		is("ZerosVector", func() interface{} { return sm.ZerosVector(i) }, i, 1, cst(0))
		is("Identity", func() interface{} { return sm.Identity(i) }, i, i, func(a, b int) float64 {
			if a == b {
				return 1
			}
			return 0
		})
		for j := 1; j <= n; j++ {
			j := j
			is("OnesMatrix", func() interface{} { return sm.OnesMatrix(i, j) }, i, j, cst(1))
			is("ZerosMatrix", func() interface{} { return sm.ZerosMatrix(i, j) }, i, j, cst(0))
		}
	}
}
