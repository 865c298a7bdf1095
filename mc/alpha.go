package main

// The alphabet: variables, scalars, vectors and matrices from which every
// explored execution starts.

import (
	"fmt"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

const nVars = 60

// redeclared is the index of a variable that is x_0 again with other bounds.
const redeclared = nVars

var (
	alphaEnv           sm.BasicEnvironment
	foreignEnv         sm.BasicEnvironment // has variables with the identifiers of alphaEnv's
	vs                 []sm.Variable       // vs[i] has identifier i
	vX, vY, vZ, vB, vW sm.Variable         // vB is binary, vW has a two-digit identifier
	vN                 sm.Variable         // never occurs in the alphabet
)

const tiny = 1.0 / (1 << 40)

func initAlpha() {
	alphaEnv = sm.MakeBasicEnvironment("alphabet")
	foreignEnv = sm.MakeBasicEnvironment("foreign")
	// Built by hand (not by the constructors), so that a defect in variable
	// creation does not disturb the other properties.
	for i := 0; i < nVars; i++ {
		v := sm.Variable{ID: uint64(i), Lower: float64(-sm.Infinity), Upper: float64(sm.Infinity), Type: sm.Continuous, Name: fmt.Sprintf("x_%d", i), Environment: &alphaEnv}
		if i == 3 {
			v.Type, v.Lower, v.Upper = sm.Binary, 0, 1
		}
		if i == 5 {
			v.Lower, v.Upper = -2, 7
		}
		// identifiers need not be consecutive or small
		switch i {
		case 13:
			v.ID = 1<<40 + 3
		case 14:
			v.ID = 1 << 32
		case 15:
			v.ID = 256 + 1
		}
		// nor unique across environments
		switch i {
		case 16, 17:
			v.ID, v.Environment = uint64(i-16), &foreignEnv
			foreignEnv.Variables = append(foreignEnv.Variables, v)
		case 18:
			v.ID, v.Environment = 2, nil
		}
		alphaEnv.Variables = append(alphaEnv.Variables, v)
		RegVar(v)
		vs = append(vs, v)
	}
	again := vs[0]
	again.Lower, again.Upper, again.Type = -1, 9, sm.Integer
	RegVar(again)
	vs = append(vs, again)
	vX, vY, vZ, vB, vW = vs[0], vs[1], vs[2], vs[3], vs[11]
	vN = vs[nVars-2]
	canaryVar = vs[nVars-1]
}

// mono builds a monomial from coefficient and (variable index, exponent) pairs.
func mono(c float64, fs ...int) sm.Monomial {
	m := sm.Monomial{Coefficient: c}
	for i := 0; i+1 < len(fs); i += 2 {
		m.VariableFactors = append(m.VariableFactors, vs[fs[i]])
		m.Exponents = append(m.Exponents, fs[i+1])
	}
	return m
}

func poly(ms ...sm.Monomial) sm.Polynomial {
	out := sm.Polynomial{}
	for _, m := range ms {
		out.Monomials = append(out.Monomials, cloneMono(m, Exact))
	}
	return out
}

func ks() []sm.K { return []sm.K{0, 1, -1, 2, -3, 0.5, 1048576, tiny} }

func vars5() []sm.Variable { return []sm.Variable{vX, vY, vB, vW, vZ} }

// monos is the curated monomial alphabet: factor order, exponent order,
// coefficients of every sign and size, repeated shapes.
func monos() []sm.Monomial {
	return []sm.Monomial{
		mono(2, 0, 1), mono(1, 0, 1), mono(-1, 1, 1), mono(0, 0, 1), mono(3), mono(0), mono(1), mono(-2.5),
		mono(1, 0, 2), mono(2, 0, 1, 1, 1), mono(3, 1, 1, 0, 1), mono(1, 0, 2, 1, 1), mono(4, 1, 1, 0, 2), mono(5, 0, 1, 1, 2), mono(-4, 1, 2, 0, 1),
		mono(1, 0, 1, 1, 1, 2, 1), mono(2, 2, 1, 1, 1, 0, 1), mono(-1, 1, 1, 2, 1, 0, 1), mono(tiny, 0, 1), mono(-0.5, 3, 2), mono(1, 0, 3), mono(2, 0, 2, 1, 3, 2, 1), mono(1, 2, 1, 0, 2, 1, 3),
		mono(1, 11, 1), mono(-2, 11, 2, 1, 1), mono(1, 1, 1, 11, 1), mono(1, 0, 1, 1, 1, 2, 1, 3, 1, 11, 2), mono(1048576, 0, 1), mono(1, 0, 5), mono(-3, 2, 2, 0, 2),
		mono(0, 0, 2, 1, 1), mono(1, 0, 2, 1, 2), mono(2, 3, 1, 0, 1),
		// factors with exponent zero, repeated factors
		mono(3, 0, 0), mono(2, 0, 0, 1, 1), mono(1, 1, 1, 0, 0), mono(2, 0, 1, 0, 1), mono(-1, 0, 1, 1, 1, 0, 2),
	}
}

// polys is the curated polynomial alphabet: simplified and raw ones, constants
// in every position, like terms in different factor order, cancelling terms,
// zero coefficients, single-term and long polynomials.
func polys() []sm.Polynomial {
	return []sm.Polynomial{
		poly(mono(1, 0, 1), mono(1)),
		poly(mono(1), mono(1, 0, 1)),
		poly(mono(1, 0, 1), mono(1, 1, 1)),
		poly(mono(1, 0, 1), mono(-1, 1, 1)),
		poly(mono(-1, 1, 1), mono(1, 0, 1)),
		poly(mono(2, 0, 1, 1, 1), mono(-2, 1, 1, 0, 1)),
		poly(mono(2, 0, 1, 1, 1), mono(3, 1, 1, 0, 1), mono(1, 0, 1)),
		poly(mono(1, 0, 2, 1, 1), mono(1, 0, 1, 1, 2)),
		poly(mono(1, 0, 2, 1, 1), mono(1, 1, 2, 0, 1)),
		poly(mono(1, 0, 2, 1, 1), mono(2, 1, 1, 0, 2), mono(-1, 1, 2, 0, 1), mono(5)),
		poly(mono(0)),
		poly(mono(3)),
		poly(mono(1, 0, 1)),
		poly(mono(2, 0, 1, 1, 1)),
		poly(mono(1, 0, 1), mono(1, 0, 1)),
		poly(mono(1, 0, 1), mono(-1, 0, 1)),
		poly(mono(1), mono(2), mono(1, 1, 1)),
		poly(mono(1, 1, 1), mono(2), mono(1, 1, 1), mono(-2)),
		poly(mono(0, 0, 1), mono(1, 1, 1)),
		poly(mono(0, 0, 2), mono(0, 1, 1)),
		poly(mono(1, 0, 2), mono(-2, 0, 1), mono(1)),
		poly(mono(1, 0, 1), mono(tiny, 1, 1)),
		poly(mono(tiny), mono(1, 0, 1)),
		poly(mono(-3), mono(0.5, 0, 1), mono(2, 1, 1), mono(-1, 2, 1)),
		poly(mono(2, 2, 1), mono(-1, 1, 1), mono(0.5, 0, 1), mono(-3)),
		poly(mono(1, 0, 3), mono(1, 0, 2), mono(1, 0, 1), mono(1)),
		poly(mono(1, 11, 1), mono(1, 1, 1), mono(1, 3, 1)),
		poly(mono(1, 0, 1), mono(2, 1, 1), mono(3, 2, 1), mono(4, 3, 1), mono(5, 11, 1), mono(6, 4, 1), mono(7, 5, 1)),
		poly(mono(1, 0, 1, 1, 1), mono(1, 0, 1, 2, 1), mono(1, 1, 1, 2, 1)),
		poly(mono(1, 0, 1, 1, 1, 2, 1), mono(1, 2, 1, 1, 1, 0, 1), mono(1, 1, 1, 0, 1, 2, 1), mono(-3, 0, 1, 1, 1, 2, 1), mono(1, 0, 1)),
		poly(mono(1048576, 0, 1), mono(-1048576, 1, 1), mono(1)),
		poly(mono(1, 0, 5), mono(-1, 1, 4)),
		poly(mono(-1), mono(-1, 0, 1)),
		poly(mono(1, 1, 2), mono(1, 0, 1), mono(0), mono(1, 0, 2)),
		// factors with exponent zero, repeated factors
		poly(mono(2, 0, 0), mono(1, 1, 1)),
		poly(mono(2, 0, 0), mono(1), mono(3, 1, 0)),
		poly(mono(1, 0, 1, 1, 0), mono(2, 0, 1)),
		poly(mono(2, 0, 1, 0, 1), mono(1, 0, 2), mono(1, 1, 0, 0, 2)),
		poly(mono(3, 0, 1, 1, 1, 0, 1), mono(1, 1, 1)),
	}
}

// forms lists monomial shapes (as factor lists) for systematic enumeration.
func forms(n int) [][]int {
	all := [][]int{
		{}, {0, 1}, {1, 1}, {0, 2}, {0, 1, 1, 1}, {1, 1, 0, 1}, {0, 2, 1, 1}, {1, 1, 0, 2}, {0, 1, 1, 2}, {1, 2, 0, 1}, {2, 1}, {0, 1, 1, 1, 2, 1}, {2, 1, 0, 1, 1, 1}, {0, 3},
	}
	if n > len(all) {
		n = len(all)
	}
	return all[:n]
}

// sysMonos enumerates all monomials with the first nf forms and the given
// coefficients.
func sysMonos(nf int, cs ...float64) []sm.Monomial {
	var out []sm.Monomial
	for _, f := range forms(nf) {
		for _, c := range cs {
			out = append(out, mono(c, f...))
		}
	}
	return out
}

// oddMonos are terms with zero exponents and repeated factors among terms like them.
func oddMonos() []sm.Monomial {
	return []sm.Monomial{
		mono(2, 0, 0), mono(-2), mono(1, 0, 1, 1, 0), mono(1, 0, 1, 0, 1), mono(-1, 0, 2), mono(3, 0, 1),
		mono(3, 1, 0, 0, 0), mono(0, 0, 0), mono(1, 1, 1, 0, 0), mono(1, 0, 1, 1, 1, 0, 1), mono(-1, 1, 1, 0, 2), mono(2, 0, 2, 1, 0),
	}
}

// sysPolys enumerates all sequences of exactly n of the given monomials.
func sysPolys(ms []sm.Monomial, n int, f func(sm.Polynomial)) {
	idx := make([]int, n)
	for {
		sel := make([]sm.Monomial, n)
		for i := range idx {
			sel[i] = ms[idx[i]]
		}
		f(poly(sel...))
		i := n - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(ms) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// ------------------------------------------------------------------- kinds

type Kind int

const (
	KK Kind = iota
	KVar
	KMono
	KPoly
	KKV
	KVV
	KMV
	KPV
	KKM
	KVM
	KMM
	KPM
	KFloat
	KInt
	KVecDense
	KVecDenseP
	KDense
	KDenseP
	nKinds
)

var kindName = []string{"K", "Variable", "Monomial", "Polynomial", "KVector", "VariableVector", "MonomialVector", "PolynomialVector", "KMatrix", "VariableMatrix", "MonomialMatrix", "PolynomialMatrix", "float64", "int", "mat.VecDense", "*mat.VecDense", "mat.Dense", "*mat.Dense"}

func (k Kind) String() string { return kindName[k] }

func kindOf(e interface{}) (Kind, bool) {
	switch e.(type) {
	case sm.K:
		return KK, true
	case sm.Variable:
		return KVar, true
	case sm.Monomial:
		return KMono, true
	case sm.Polynomial:
		return KPoly, true
	case sm.KVector:
		return KKV, true
	case sm.VariableVector:
		return KVV, true
	case sm.MonomialVector:
		return KMV, true
	case sm.PolynomialVector:
		return KPV, true
	case sm.KMatrix:
		return KKM, true
	case sm.VariableMatrix:
		return KVM, true
	case sm.MonomialMatrix:
		return KMM, true
	case sm.PolynomialMatrix:
		return KPM, true
	case float64:
		return KFloat, true
	case int:
		return KInt, true
	case mat.VecDense:
		return KVecDense, true
	case *mat.VecDense:
		return KVecDenseP, true
	case mat.Dense:
		return KDense, true
	case *mat.Dense:
		return KDenseP, true
	}
	return 0, false
}

func (k Kind) isScalar() bool { return k <= KPoly || k == KFloat || k == KInt }
func (k Kind) isVector() bool {
	return (k >= KKV && k <= KPV) || k == KVecDense || k == KVecDenseP
}
func (k Kind) isMatrix() bool { return (k >= KKM && k <= KPM) || k == KDense || k == KDenseP }
func (k Kind) isRaw() bool    { return k >= KFloat }

// T is a template: an immutable prototype that is never handed to the library
// (every use gets a fresh clone), with its denotation.
type T struct {
	Proto interface{}
	D     *Mat
	Kind  Kind
	R, C  int
}

func mkT(e interface{}) *T {
	d, err := Den(e)
	if err != nil {
		panic(fmt.Sprintf("template %T: %v", e, err))
	}
	k, ok := kindOf(e)
	if !ok {
		panic(fmt.Sprintf("template of type %T", e))
	}
	return &T{Proto: e, D: d, Kind: k, R: d.R, C: d.C}
}

func (t *T) New() interface{}            { return Clone(t.Proto, Exact) }
func (t *T) NewL(l Layout) interface{}   { return Clone(t.Proto, l) }
func (t *T) Expr() sm.Expression         { return t.New().(sm.Expression) }
func (t *T) Scalar() sm.ScalarExpression { return t.New().(sm.ScalarExpression) }
func (t *T) String() string              { return Show(t.Proto) }

// shape classes, used in support signatures
func shapeClass(r, c int) string {
	switch {
	case r == 1 && c == 1:
		return "1x1"
	case c == 1:
		return "nx1"
	case r == 1:
		return "1xn"
	case r == c:
		return "nxn"
	}
	return "mxn"
}

func (t *T) Sig() string {
	if t.Kind.isScalar() {
		return t.Kind.String()
	}
	return t.Kind.String() + ":" + shapeClass(t.R, t.C)
}

// scalarTs lists the scalar templates of one kind; level limits how many.
func scalarTs(k Kind, level int) []*T {
	var out []*T
	switch k {
	case KK:
		for _, x := range ks() {
			out = append(out, mkT(x))
		}
	case KFloat:
		for _, x := range []float64{0, 1, -1, 2, -3, 0.5} {
			out = append(out, mkT(x))
		}
	case KInt:
		for _, x := range []int{0, 1, -1, 2, -3} {
			out = append(out, mkT(x))
		}
	case KVar:
		for _, x := range vars5() {
			out = append(out, mkT(x))
		}
	case KMono:
		for _, x := range monos() {
			out = append(out, mkT(x))
		}
	case KPoly:
		for _, x := range polys() {
			out = append(out, mkT(x))
		}
	}
	if level > 0 && len(out) > level {
		// keep a spread, not a prefix
		var sel []*T
		for i := 0; i < level; i++ {
			sel = append(sel, out[i*len(out)/level])
		}
		return sel
	}
	return out
}

// fill builds a template of a vector or matrix kind from an entry function.
func fill(k Kind, r, c int, f func(i, j int) interface{}) *T {
	toK := func(x interface{}) sm.K {
		switch y := x.(type) {
		case sm.K:
			return y
		}
		panic(fmt.Sprintf("fill %v with %T", k, x))
	}
	switch k {
	case KKV:
		out := make(sm.KVector, r)
		for i := range out {
			out[i] = toK(f(i, 0))
		}
		return mkT(out)
	case KVecDense, KVecDenseP:
		d := make([]float64, r)
		for i := range d {
			d[i] = float64(toK(f(i, 0)))
		}
		v := mat.NewVecDense(r, d)
		if k == KVecDense {
			return mkT(*v)
		}
		return mkT(v)
	case KVV:
		out := make(sm.VariableVector, r)
		for i := range out {
			out[i] = f(i, 0).(sm.Variable)
		}
		return mkT(out)
	case KMV:
		out := make(sm.MonomialVector, r)
		for i := range out {
			out[i] = f(i, 0).(sm.Monomial)
		}
		return mkT(Clone(out, Exact))
	case KPV:
		out := make(sm.PolynomialVector, r)
		for i := range out {
			out[i] = f(i, 0).(sm.Polynomial)
		}
		return mkT(Clone(out, Exact))
	case KKM:
		out := make(sm.KMatrix, r)
		for i := range out {
			out[i] = make([]sm.K, c)
			for j := range out[i] {
				out[i][j] = toK(f(i, j))
			}
		}
		return mkT(out)
	case KDense, KDenseP:
		v := mat.NewDense(r, c, nil)
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				v.Set(i, j, float64(toK(f(i, j))))
			}
		}
		if k == KDense {
			return mkT(*v)
		}
		return mkT(v)
	case KVM:
		out := make(sm.VariableMatrix, r)
		for i := range out {
			out[i] = make([]sm.Variable, c)
			for j := range out[i] {
				out[i][j] = f(i, j).(sm.Variable)
			}
		}
		return mkT(out)
	case KMM:
		out := make(sm.MonomialMatrix, r)
		for i := range out {
			out[i] = make([]sm.Monomial, c)
			for j := range out[i] {
				out[i][j] = f(i, j).(sm.Monomial)
			}
		}
		return mkT(Clone(out, Exact))
	case KPM:
		out := make(sm.PolynomialMatrix, r)
		for i := range out {
			out[i] = make([]sm.Polynomial, c)
			for j := range out[i] {
				out[i][j] = f(i, j).(sm.Polynomial)
			}
		}
		return mkT(Clone(out, Exact))
	}
	panic("fill")
}

func entryKind(k Kind) Kind {
	switch k {
	case KKV, KKM, KVecDense, KVecDenseP, KDense, KDenseP:
		return KK
	case KVV, KVM:
		return KVar
	case KMV, KMM:
		return KMono
	case KPV, KPM:
		return KPoly
	}
	return k
}

// entriesOf is the entry alphabet of a kind.
func entriesOf(k Kind) []interface{} {
	var out []interface{}
	switch entryKind(k) {
	case KK:
		for _, x := range ks() {
			out = append(out, x)
		}
	case KVar:
		for _, x := range vars5() {
			out = append(out, x)
		}
	case KMono:
		for _, x := range monos() {
			out = append(out, x)
		}
	case KPoly:
		for _, x := range polys() {
			out = append(out, x)
		}
	}
	return out
}

// distinctEntry gives every position its own value.
func distinctEntry(k Kind, n int) interface{} {
	n = n % (nVars - 4)
	switch entryKind(k) {
	case KK:
		return sm.K(float64(n) + 2)
	case KVar:
		return vs[n]
	case KMono:
		return mono(float64(n+2), n, 1+n%2, (n+7)%(nVars-4), 1)
	case KPoly:
		return poly(mono(float64(n+1), n, 1), mono(float64(-n-2)), mono(1, (n+5)%(nVars-4), 2))
	}
	panic("distinctEntry")
}

// zeroEntry and plainEntry are backgrounds for position-by-position patterns.
func plainEntry(k Kind, n int) interface{} {
	switch entryKind(k) {
	case KK:
		return sm.K(2)
	case KVar:
		return vY
	case KMono:
		return mono(2, 1, 1)
	case KPoly:
		return poly(mono(1, 1, 1), mono(1))
	}
	panic("plainEntry")
}

// fills lists templates of one kind and shape. level 1: a few patterns;
// level 2: many more; level 3: additionally every alphabet entry at every
// position over a plain background.
func fills(k Kind, r, c, level int) []*T {
	es := entriesOf(k)
	n := len(es)
	var out []*T
	add := func(f func(i, j int) interface{}) { out = append(out, fill(k, r, c, f)) }
	add(func(i, j int) interface{} { return distinctEntry(k, i*c+j) })
	add(func(i, j int) interface{} { return es[0] })
	add(func(i, j int) interface{} { return distinctEntry(k, j*r+i+3) })
	np := 4
	if level >= 2 {
		np = n
	}
	for p := 0; p < np; p++ {
		off := p * n / np
		add(func(i, j int) interface{} { return es[(i*c+j+off)%n] })
		if level >= 2 {
			add(func(i, j int) interface{} { return es[(3*i+5*j+off)%n] })
			add(func(i, j int) interface{} { return es[off%n] })
		}
	}
	if level >= 3 {
		for i0 := 0; i0 < r; i0++ {
			for j0 := 0; j0 < c; j0++ {
				for _, e := range es {
					e := e
					add(func(i, j int) interface{} {
						if i == i0 && j == j0 {
							return e
						}
						return plainEntry(k, i*c+j)
					})
				}
			}
		}
	}
	return dedupe(out)
}

func dedupe(ts []*T) []*T {
	seen := map[string]bool{}
	var out []*T
	for _, t := range ts {
		k := Key(t.Proto, false)
		if !seen[k] {
			seen[k] = true
			out = append(out, t)
		}
	}
	return out
}

type shape struct{ r, c int }

var vecLens = []int{1, 2, 3, 4, 7}
var matShapes = []shape{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}, {4, 2}, {2, 4}, {4, 4}, {1, 5}, {5, 1}}

// bigShapes are explored with few fill patterns: behaviour that changes with the
// size of a vector or matrix shows here.
var bigVecLens = []int{5, 6, 8, 9, 12, 17, 33}
var bigMatShapes = []shape{{2, 5}, {5, 2}, {3, 4}, {4, 3}, {1, 8}, {8, 1}, {5, 5}, {2, 9}, {9, 2}, {6, 6}}

// wideScalars are scalars with many factors, terms and distinct variables:
// behaviour that changes with the number of variables or terms shows here.
func wideScalars(k Kind) []*T {
	var out []*T
	seq := func(from, n, step int) (fs []int) {
		for i := 0; i < n; i++ {
			fs = append(fs, (from+i*step)%(nVars-4), 1+i%3)
		}
		return fs
	}
	terms := func(from, n, step int, rep int) (ms []sm.Monomial) {
		for i := 0; i < n; i++ {
			j := i
			if rep > 0 {
				j = i % rep
			}
			ms = append(ms, mono(float64(1+i%5)-2.5, (from+j*step)%(nVars-4), 1))
		}
		return ms
	}
	switch k {
	case KVar:
		out = append(out, mkT(vs[44]))
	case KMono:
		for _, n := range []int{5, 6, 9, 14} {
			out = append(out, mkT(mono(2, seq(3, n, 5)...)), mkT(mono(-1.5, seq(50, n, 55)...)))
		}
		// the variables that the calculations use first, in the middle and last
		out = append(out, mkT(mono(3, append([]int{0, 2}, seq(5, 11, 1)...)...)), mkT(mono(3, append(append(seq(5, 6, 1), 0, 1, 1, 2), seq(20, 6, 1)...)...)), mkT(mono(-1, append(seq(20, 17, 1), 1, 3, 0, 1)...)))
	case KPoly:
		for _, n := range []int{5, 6, 9, 14, 33} {
			out = append(out,
				mkT(poly(append(terms(0, n, 1, 0), mono(4))...)),
				mkT(poly(append([]sm.Monomial{mono(-3)}, terms(50, n, 55, 0)...)...)),
				mkT(poly(append(terms(7, n, 3, n-2), mono(1), mono(0.5, 7, 1, 10, 1))...)))
		}
		// one term of a higher degree, first and last of many
		many := terms(5, 19, 1, 0)
		out = append(out, mkT(poly(append([]sm.Monomial{mono(2, 0, 3, 1, 1)}, many...)...)), mkT(poly(append(append([]sm.Monomial{}, many...), mono(2, 1, 2, 0, 1))...)))
		var q []sm.Monomial
		for i := 0; i < 5; i++ {
			for j := 0; j < 5; j++ {
				q = append(q, mono(float64(i-2*j)+0.5, 2*i, 1, 2*j+1, 1), mono(float64(j), 2*j+1, 1))
			}
		}
		out = append(out, mkT(poly(q...)))
	}
	return append(out, lookalikes(k)...)
}

// lookalikes are scalars whose different parts a careless key, hash or
// comparison would confuse: variables whose numbers and exponents run together
// when written one after the other, variables whose identifiers agree in their
// low bits, terms with the same sums or products of exponents.
func lookalikes(k Kind) []*T {
	var out []*T
	switch k {
	case KVar:
		out = append(out, mkT(vs[13]), mkT(vs[14]), mkT(vs[15]), mkT(vs[16]), mkT(vs[18]), mkT(vs[redeclared]))
	case KMono:
		for _, m := range []sm.Monomial{
			mono(1, 1, 12), mono(1, 11, 2), mono(-2, 2, 11, 1, 2), mono(3, 2, 1, 1, 12), mono(1, 1, 1, 12, 1), mono(1, 11, 1, 2, 1), mono(2, 14, 1, 0, 1), mono(2, 0, 2, 14, 1), mono(1, 1, 1, 15, 2, 13, 1), mono(1, 3, 3, 13, 2), mono(1, 0, 1, 3, 1),
			mono(1, 16, 1), mono(2, 0, 1, 16, 1), mono(3, 16, 2, 0, 1), mono(1, 17, 1, 1, 2), mono(-1, 2, 1, 18, 1),
			mono(2, 1, 1, redeclared, 1),
			mono(1, 0, 1, 1, 1, 2, 1, 3, 1, 4, 2), mono(1, 0, 1, 1, 1, 2, 1, 3, 2, 4, 1), mono(0.1, 0, 1), mono(1e6+0.5, 1, 2),
		} {
			out = append(out, mkT(m))
		}
	case KPoly:
		for _, p := range []sm.Polynomial{
			poly(mono(1, 0, 1, 3, 1), mono(1, 1, 1, 2, 1)),
			poly(mono(1, 1, 12), mono(2, 11, 2), mono(-1, 11, 1, 2, 1), mono(3, 1, 1, 12, 1)),
			poly(mono(1, 1, 1, 12, 1), mono(1, 11, 1, 2, 1)),
			poly(mono(1, 0, 3, 1, 1), mono(1, 0, 2, 1, 2), mono(1, 0, 1, 1, 3)),
			poly(mono(1, 2, 1), mono(1, 1, 2), mono(1, 0, 1, 1, 1)),
			poly(mono(1, 0, 1, 1, 2, 2, 3), mono(1, 0, 3, 1, 2, 2, 1), mono(-2, 0, 2, 1, 1, 2, 3), mono(1, 2, 3, 0, 1, 1, 2)),
			poly(mono(1, 0, 1), mono(1, 14, 1), mono(1, 1, 1), mono(-1, 15, 1), mono(2, 3, 1), mono(-2, 13, 1)),
			poly(mono(1, 0, 1, 14, 1), mono(1, 0, 2), mono(-1, 14, 2), mono(3, 14, 1, 0, 1)),
			poly(mono(1, 0, 1, 1, 1, 2, 1, 3, 1, 4, 2), mono(1, 0, 1, 1, 1, 2, 1, 3, 1, 4, 1), mono(2, 4, 2, 3, 1, 2, 1, 1, 1, 0, 1), mono(1, 0, 1, 1, 1, 2, 1, 3, 1, 5, 2)),
			poly(mono(1, 1, 1), mono(1, 1, 2), mono(1, 1, 3), mono(1, 1, 4), mono(1, 1, 5), mono(1, 1, 6)),
			poly(mono(-1, 4, 4, 5, 4), mono(1, 4, 2, 5, 8), mono(1, 4, 8, 5, 2), mono(1, 4, 1, 5, 16)),
			poly(mono(1), mono(1, 0, 1), mono(-1), mono(1, 1, 1), mono(-1, 0, 1)),
			poly(mono(1, 0, 1), mono(1, 16, 1)),
			poly(mono(1, 0, 1), mono(1, redeclared, 1), mono(1, 1, 1)),
			poly(mono(1, redeclared, 2, 1, 1), mono(-1, 1, 1, 0, 2), mono(3, 0, 1)),
			poly(mono(2, 16, 1, 0, 1), mono(1, 0, 2), mono(-2, 16, 2), mono(1)),
			poly(mono(1, 16, 1), mono(-1, 0, 1), mono(3, 17, 1), mono(1, 1, 1), mono(1, 2, 1), mono(-1, 18, 1)),
		} {
			out = append(out, mkT(p))
		}
	}
	return out
}

// bigTs lists a few templates of the big shapes of a kind.
func bigTs(k Kind) []*T {
	var out []*T
	if k.isScalar() {
		return nil
	}
	sh := bigMatShapes
	if k.isVector() {
		sh = nil
		for _, n := range bigVecLens {
			sh = append(sh, shape{n, 1})
		}
	}
	for _, s := range sh {
		f := fills(k, s.r, s.c, 1)
		out = append(out, f[0], f[min(4, len(f)-1)])
		n := s.r*s.c - 1
		if n > 8 {
			n -= 3
		}
		// many distinct variables, some of which come back
		out = append(out, fill(k, s.r, s.c, func(i, j int) interface{} { return distinctEntry(k, (i*s.c+j)%n+20) }))
	}
	return dedupe(out)
}

// needleTs are vectors and matrices of equal entries with one entry that
// differs, at every position: behaviour that depends on the place of an entry in
// a larger value shows here.
func needleTs(k Kind) []*T {
	if k.isScalar() || k.isRaw() {
		return nil
	}
	sh := []shape{{5, 2}, {2, 5}, {3, 4}, {5, 5}}
	if k.isVector() {
		sh = []shape{{4, 1}, {5, 1}, {6, 1}, {9, 1}}
	}
	var pairs [][2]interface{}
	switch entryKind(k) {
	case KK:
		pairs = [][2]interface{}{{sm.K(0), sm.K(3)}, {sm.K(1), sm.K(0)}}
	case KVar:
		pairs = [][2]interface{}{{vX, vY}, {vW, vX}}
	case KMono:
		pairs = [][2]interface{}{{mono(2), mono(3, 1, 2, 0, 1)}, {mono(0), mono(-1, 0, 1)}, {mono(1, 0, 1), mono(4)}, {mono(1, 0, 1, 1, 1), mono(0, 1, 1)}}
	case KPoly:
		pairs = [][2]interface{}{{poly(mono(1)), poly(mono(3, 1, 1, 0, 1), mono(-2))}, {poly(mono(0)), poly(mono(-1, 0, 1), mono(1))},
			{poly(mono(1, 0, 1), mono(1)), poly(mono(4))}, {poly(mono(1, 0, 1, 1, 1), mono(-1, 0, 1)), poly(mono(1, 0, 1), mono(-1, 0, 1))}}
	}
	var out []*T
	for _, s := range sh {
		for _, p := range pairs {
			for at := 0; at < s.r*s.c; at++ {
				out = append(out, fill(k, s.r, s.c, func(i, j int) interface{} {
					if i*s.c+j == at {
						return p[1]
					}
					return p[0]
				}))
			}
		}
	}
	return out
}

// templates lists the templates of a kind over all shapes within maxDim.
func templates(k Kind, maxDim, level int) []*T {
	if k.isScalar() {
		return scalarTs(k, 0)
	}
	var out []*T
	if k.isVector() {
		for _, n := range vecLens {
			if n <= maxDim {
				out = append(out, fills(k, n, 1, level)...)
			}
		}
		return out
	}
	for _, s := range matShapes {
		if s.r <= maxDim && s.c <= maxDim {
			out = append(out, fills(k, s.r, s.c, level)...)
		}
	}
	return out
}

var exprKinds = []Kind{KK, KVar, KMono, KPoly, KKV, KVV, KMV, KPV, KKM, KVM, KMM, KPM}
var allKinds = append(append([]Kind{}, exprKinds...), KFloat, KInt, KVecDense, KVecDenseP, KDense, KDenseP)
