package main

// The registry of exported operations: every exported method of the library's
// expression and constraint types (found by reflection in the compiled
// library) and its exported functions, with a pool of argument values for
// every parameter type.

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	getkm "github.com/MatProGo-dev/SymbolicMath.go/get/KMatrix"
	getkv "github.com/MatProGo-dev/SymbolicMath.go/get/KVector"
	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// V is an argument value: a prototype that is cloned for every use.
type V struct {
	Proto interface{}
	T     *T     // expression template, nil for other values
	Sig   string // kind and shape
	Text  string
}

func (v *V) New() interface{}          { return Clone(v.Proto, Exact) }
func (v *V) NewL(l Layout) interface{} { return Clone(v.Proto, l) }

func vOfT(t *T) *V {
	s := t.Kind.String()
	if !t.Kind.isScalar() {
		s = fmt.Sprintf("%s[%dx%d]", s, t.R, t.C)
	}
	return &V{Proto: t.Proto, T: t, Sig: s, Text: t.String()}
}

func vOf(x interface{}, sig string) *V { return &V{Proto: x, Sig: sig, Text: Show(x)} }

// Op is one exported operation.
type Op struct {
	Name     string // "Polynomial.Plus", "symbolic.HStack"
	Class    string // "Plus", "HStack"
	In       []reflect.Type
	Variadic bool
	Method   bool
	fn       reflect.Value
}

// Call runs the operation; several results come back as a slice.
func (o *Op) Call(args []interface{}) interface{} {
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(o.In[i])
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	var out []reflect.Value
	if o.Variadic && len(args) == len(o.In) {
		out = o.fn.CallSlice(in)
	} else {
		out = o.fn.Call(in)
	}
	if len(out) == 1 {
		return out[0].Interface()
	}
	res := make([]interface{}, len(out))
	for i := range out {
		res[i] = out[i].Interface()
	}
	return res
}

var (
	tIface   = reflect.TypeOf((*interface{})(nil)).Elem()
	tExpr    = reflect.TypeOf((*sm.Expression)(nil)).Elem()
	tScalar  = reflect.TypeOf((*sm.ScalarExpression)(nil)).Elem()
	tVector  = reflect.TypeOf((*sm.VectorExpression)(nil)).Elem()
	tMatrix  = reflect.TypeOf((*sm.MatrixExpression)(nil)).Elem()
	tPLV     = reflect.TypeOf((*sm.PolynomialLikeVector)(nil)).Elem()
	tConstr  = reflect.TypeOf((*sm.Constraint)(nil)).Elem()
	tVar     = reflect.TypeOf(sm.Variable{})
	tMono    = reflect.TypeOf(sm.Monomial{})
	tInt     = reflect.TypeOf(int(0))
	tFloat   = reflect.TypeOf(float64(0))
	tSense   = reflect.TypeOf(sm.SenseEqual)
	tMap     = reflect.TypeOf(map[sm.Variable]sm.Expression{})
	tVars    = reflect.TypeOf([]sm.Variable{})
	tVarss   = reflect.TypeOf([][]sm.Variable{})
	tExprs   = reflect.TypeOf([]sm.Expression{})
	tSEs     = reflect.TypeOf([]sm.ScalarExpression{})
	tSEss    = reflect.TypeOf([][]sm.ScalarExpression{})
	tConstrs = reflect.TypeOf([]sm.Constraint{})
	tU64s    = reflect.TypeOf([]uint64{})
	tDense   = reflect.TypeOf(mat.Dense{})
	tVecD    = reflect.TypeOf(mat.VecDense{})
)

var exprTypes = []interface{}{sm.K(0), sm.Variable{}, sm.Monomial{}, sm.Polynomial{}, sm.KVector{}, sm.VariableVector{}, sm.MonomialVector{}, sm.PolynomialVector{}, sm.KMatrix{}, sm.VariableMatrix{}, sm.MonomialMatrix{}, sm.PolynomialMatrix{}}
var constrTypes = []interface{}{sm.ScalarConstraint{}, sm.VectorConstraint{}, sm.MatrixConstraint{}}

// ops lists all operations in a fixed order.
func allOps() []*Op {
	var out []*Op
	known := map[reflect.Type]bool{}
	for _, t := range []reflect.Type{tIface, tExpr, tScalar, tVector, tMatrix, tPLV, tConstr, tVar, tMono, tInt, tFloat, tSense, tMap, tVars, tVarss, tExprs, tSEs, tSEss, tConstrs, tU64s, tDense, tVecD} {
		known[t] = true
	}
	add := func(name, class string, fn reflect.Value, method bool) {
		o := &Op{Name: name, Class: class, fn: fn, Method: method, Variadic: fn.Type().IsVariadic()}
		for i := 0; i < fn.Type().NumIn(); i++ {
			t := fn.Type().In(i)
			if !known[t] && !(method && i == 0) {
				return // a parameter type without an argument pool
			}
			o.In = append(o.In, t)
		}
		if fn.Type().NumOut() == 0 {
			return
		}
		out = append(out, o)
	}
	for _, x := range append(append([]interface{}{}, exprTypes...), constrTypes...) {
		t := reflect.TypeOf(x)
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			add(t.Name()+"."+m.Name, m.Name, m.Func, true)
		}
	}
	for _, f := range []struct {
		n string
		f interface{}
	}{
		{"Minus", sm.Minus}, {"HStack", sm.HStack}, {"VStack", sm.VStack},
		{"VectorPlusTemplate", sm.VectorPlusTemplate}, {"MatrixPlusTemplate", sm.MatrixPlusTemplate},
		{"VectorMultiplyTemplate", sm.VectorMultiplyTemplate}, {"MatrixMultiplyTemplate", sm.MatrixMultiplyTemplate},
		{"ScalarPowerTemplate", sm.ScalarPowerTemplate}, {"VectorPowerTemplate", sm.VectorPowerTemplate}, {"MatrixPowerTemplate", sm.MatrixPowerTemplate},
		{"VectorSubstituteTemplate", sm.VectorSubstituteTemplate}, {"MatrixSubstituteTemplate", sm.MatrixSubstituteTemplate},
		{"VectorSubstituteAccordingToTemplate", sm.VectorSubstituteAccordingToTemplate}, {"MatrixSubstituteAccordingToTemplate", sm.MatrixSubstituteAccordingToTemplate},
		{"CheckDimensionsInComparison", sm.CheckDimensionsInComparison}, {"CheckSubstitutionMap", sm.CheckSubstitutionMap},
		{"IsConstraint", sm.IsConstraint}, {"IsExpression", sm.IsExpression}, {"IsLinear", sm.IsLinear}, {"IsQuadratic", sm.IsQuadratic},
		{"IsScalarExpression", sm.IsScalarExpression}, {"IsVectorExpression", sm.IsVectorExpression}, {"IsMatrixExpression", sm.IsMatrixExpression},
		{"IsPolynomialLike", sm.IsPolynomialLike}, {"IsPolynomialLikeScalar", sm.IsPolynomialLikeScalar}, {"IsPolynomialLikeVector", sm.IsPolynomialLikeVector}, {"IsPolynomialLikeMatrix", sm.IsPolynomialLikeMatrix},
		{"IsSquare", sm.IsSquare}, {"NumVariables", sm.NumVariables}, {"VariableIDs", sm.VariableIDs},
		{"UniqueVars", sm.UniqueVars}, {"UnionOfVariables", sm.UnionOfVariables}, {"Unique", sm.Unique},
		{"PolynomialLikeVector_SharedLinearCoeffCalc", sm.PolynomialLikeVector_SharedLinearCoeffCalc},
		{"ToExpression", sm.ToExpression}, {"ToScalarExpression", sm.ToScalarExpression}, {"ToVectorExpression", sm.ToVectorExpression}, {"ToMatrixExpression", sm.ToMatrixExpression},
		{"ToPolynomialLike", sm.ToPolynomialLike}, {"ToPolynomialLikeScalar", sm.ToPolynomialLikeScalar}, {"ToPolynomialLikeVector", sm.ToPolynomialLikeVector}, {"ToPolynomialLikeMatrix", sm.ToPolynomialLikeMatrix},
		{"ConcretizeExpression", sm.ConcretizeExpression}, {"ConcretizeVectorExpression", sm.ConcretizeVectorExpression}, {"ConcretizeMatrixExpression", sm.ConcretizeMatrixExpression},
		{"DenseToKMatrix", sm.DenseToKMatrix}, {"VecDenseToKVector", sm.VecDenseToKVector},
		{"CompileConstraintsIntoScalarConstraints", sm.CompileConstraintsIntoScalarConstraints}, {"VariablesInThisConstraint", sm.VariablesInThisConstraint},
		{"getKMatrix.From", getkm.From}, {"getKVector.From", getkv.From},
	} {
		add("symbolic."+f.n, f.n, reflect.ValueOf(f.f), false)
	}
	return out
}

// Pools are the argument values of every parameter type.
type Pools struct {
	byType  map[reflect.Type][]*V // concrete receiver and argument types
	exprs   []*V                  // all expression kinds
	raws    []*V                  // numbers and gonum values
	junk    []*V                  // values that are no expressions
	constrs []*V
	vars    []*V
	subs    []*V // scalar replacements
	maps    []*V
	lists   []*V // variable lists
	monos   []*V
	floats  []*V
	stacks  []*V // []Expression
	ses     []*V // []ScalarExpression
	sess    []*V // [][]ScalarExpression
	clists  []*V // []Constraint
	u64s    []*V
	densev  []*V
	vecdv   []*V
	maxPow  int
	scalN   int
}

type poolBounds struct {
	scalars   int // per scalar kind
	vecLens   []int
	matShapes []shape
	fillLevel int
	maxPerCls int  // templates per kind and shape, 0 for all
	wide      bool // also operands with many variables and entries
	constrs   int  // thinning of the constraint pool, 1 for all
}

func quickPools() poolBounds {
	return poolBounds{scalars: 7, vecLens: []int{1, 2, 3}, matShapes: []shape{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}}, fillLevel: 1, maxPerCls: 4, constrs: 1, wide: true}
}

func deepPools() poolBounds {
	return poolBounds{scalars: 14, vecLens: []int{1, 2, 3, 4}, matShapes: []shape{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {1, 3}, {3, 1}}, fillLevel: 2, maxPerCls: 9, constrs: 1, wide: true}
}

func thin(ts []*T, n int) []*T {
	if n <= 0 || len(ts) <= n {
		return ts
	}
	var out []*T
	for i := 0; i < n; i++ {
		out = append(out, ts[i*len(ts)/n])
	}
	return out
}

func newPools(b poolBounds) *Pools {
	p := &Pools{byType: map[reflect.Type][]*V{}, maxPow: 3}
	add := func(k Kind, ts []*T) {
		for _, t := range ts {
			v := vOfT(t)
			ty := reflect.TypeOf(t.Proto)
			p.byType[ty] = append(p.byType[ty], v)
			if k.isRaw() {
				p.raws = append(p.raws, v)
			} else {
				p.exprs = append(p.exprs, v)
			}
		}
	}
	for _, k := range allKinds {
		switch {
		case k.isScalar():
			ts := thin(scalarTs(k, 0), b.scalars)
			if k == KPoly { // an unreduced and a cancelling one are always there
				ts = append(ts, mkT(poly(mono(1, 0, 1), mono(-1, 0, 1))), mkT(poly(mono(1, 0, 1), mono(2), mono(1, 0, 1), mono(-1))))
			}
			if k == KMono {
				ts = append(ts, mkT(mono(0, 0, 1)), mkT(mono(3)), mkT(mono(1, 0, 2, 1, 1)), mkT(mono(1, 1, 1, 0, 2)))
			}
			if b.wide {
				ts = append(ts, thin(wideScalars(k), 4)...)
			}
			add(k, dedupe(ts))
		case k.isVector():
			for _, n := range b.vecLens {
				add(k, thin(fills(k, n, 1, b.fillLevel), b.maxPerCls))
			}
			if b.wide {
				add(k, []*T{fill(k, 12, 1, func(i, j int) interface{} { return distinctEntry(k, i%10+20) }), fill(k, 33, 1, func(i, j int) interface{} { return distinctEntry(k, (2*i)%29+3) })})
			}
		default:
			for _, s := range b.matShapes {
				add(k, thin(fills(k, s.r, s.c, b.fillLevel), b.maxPerCls))
			}
			if b.wide {
				for _, s := range []shape{{5, 5}, {2, 9}} {
					s := s
					add(k, []*T{fill(k, s.r, s.c, func(i, j int) interface{} { return distinctEntry(k, (i*s.c+j)%(s.r*s.c-2)+20) })})
				}
			}
		}
	}
	for _, v := range []sm.Variable{vX, vY, vW, vN} {
		p.vars = append(p.vars, vOf(v, "var"))
	}
	for _, e := range []interface{}{sm.K(0), sm.K(2), vY, vX, mono(2, 1, 1), poly(mono(1, 0, 1), mono(1)), poly(mono(1, 1, 1), mono(-1, 1, 1))} {
		t := mkT(Clone(e, Exact))
		p.subs = append(p.subs, &V{Proto: t.Proto, T: t, Sig: t.Kind.String(), Text: t.String()})
	}
	for _, m := range []map[sm.Variable]sm.Expression{
		{}, {vX: vY}, {vX: vY, vY: vX}, {vX: poly(mono(1, 0, 1), mono(1)), vY: sm.K(0), vZ: mono(2, 0, 1, 1, 1)}, {vX: sm.K(0), vY: sm.K(0), vB: vX, vW: poly(mono(1, 1, 2), mono(-1))},
	} {
		p.maps = append(p.maps, vOf(m, fmt.Sprintf("map%d", len(m))))
	}
	for _, l := range [][]sm.Variable{{vX}, {vY, vX}, {vW, vN, vX, vB, vY, vZ}} {
		p.lists = append(p.lists, vOf(l, fmt.Sprintf("vars%d", len(l))))
	}
	for _, m := range []sm.Monomial{mono(1, 0, 1), mono(2), mono(1, 1, 1, 0, 2), mono(3, 1, 1, 0, 1), mono(0, 0, 1)} {
		p.monos = append(p.monos, vOfT(mkT(m)))
	}
	for _, f := range []float64{2, -1, 0.5, -3} {
		p.floats = append(p.floats, vOf(f, "float64"))
	}
	for _, u := range [][]uint64{{}, {3}, {1, 2, 1}, {5, 5, 5, 1}, {2, 1, 2, 3, 1}} {
		p.u64s = append(p.u64s, vOf(u, "ids"))
	}
	p.makeConstrs(b.constrs)
	p.junk = []*V{vOf(nil, "nil"), vOf("x", "string"), vOf(true, "bool"), vOf(uint64(3), "uint64"), vOf([]float64{1, 2}, "[]float64"), vOf([][]float64{{1, 2}}, "[][]float64"), vOf([]sm.Variable{vX, vY}, "[]Variable"), vOf([]sm.Expression{vX, sm.K(1)}, "[]Expression"), vOf([]int{1}, "[]int")}
	for _, c := range p.constrs[:3] {
		p.junk = append(p.junk, c)
	}
	// lists of scalars for the Concretize helpers
	sc := []sm.ScalarExpression{sm.K(2), vX, mono(2, 1, 1), poly(mono(1, 0, 1), mono(1)), sm.K(0), vW, mono(0, 0, 1)}
	for i, a := range sc {
		p.addSes(a)
		for j, b := range sc {
			p.addSes(a, b)
			if (i+j)%2 == 0 {
				p.addSes(b, sc[(i+2*j+1)%len(sc)], a)
			}
			p.addSess([]sm.ScalarExpression{a, b})
			p.addSess([]sm.ScalarExpression{a}, []sm.ScalarExpression{b})
			p.addSess([]sm.ScalarExpression{a, sc[(i+3)%len(sc)]}, []sm.ScalarExpression{b, sc[(j+1)%len(sc)]})
		}
	}
	// stacked operands
	perCls := map[string]int{}
	var few []*V
	for _, v := range p.exprs {
		if perCls[v.Sig] < 2 {
			perCls[v.Sig]++
			few = append(few, v)
		}
	}
	for _, a := range few {
		p.stack(a)
		for _, b := range few {
			if a.T.R == b.T.R || a.T.C == b.T.C {
				p.stack(a, b)
			}
		}
	}
	for _, a := range few {
		for i := 0; i < 6; i++ {
			b := few[(i*37+11)%len(few)]
			if a.T.R == b.T.R || a.T.C == b.T.C {
				p.stack(a, b, a)
				p.stack(b, a, a)
			}
		}
	}
	// lists of constraints
	n := len(p.constrs)
	p.clists = append(p.clists, vOf([]sm.Constraint{}, "constrs"))
	for i := 0; i < n; i += 3 {
		a := p.constrs[i].Proto.(sm.Constraint)
		p.clists = append(p.clists, vOf([]sm.Constraint{a}, "constrs:"+p.constrs[i].Sig))
		b := p.constrs[(i*7+5)%n]
		p.clists = append(p.clists, vOf([]sm.Constraint{a, b.Proto.(sm.Constraint)}, "constrs:"+p.constrs[i].Sig+","+b.Sig))
	}
	return p
}

func (p *Pools) addSes(es ...sm.ScalarExpression) {
	var sig []string
	for _, e := range es {
		k, _ := kindOf(e)
		sig = append(sig, k.String())
	}
	v := vOf(append([]sm.ScalarExpression{}, es...), "["+strings.Join(sig, " ")+"]")
	p.ses = append(p.ses, v)
}

func (p *Pools) addSess(rows ...[]sm.ScalarExpression) {
	var sig []string
	for _, es := range rows {
		for _, e := range es {
			k, _ := kindOf(e)
			sig = append(sig, k.String())
		}
		sig = append(sig, ";")
	}
	p.sess = append(p.sess, vOf(append([][]sm.ScalarExpression{}, rows...), "["+strings.Join(sig, " ")+"]"))
}

func (p *Pools) stack(vsIn ...*V) {
	var es []sm.Expression
	var sig []string
	for _, v := range vsIn {
		es = append(es, v.Proto.(sm.Expression))
		sig = append(sig, v.Sig)
	}
	var txt []string
	for _, v := range vsIn {
		txt = append(txt, v.Text)
	}
	p.stacks = append(p.stacks, &V{Proto: es, Sig: "[" + strings.Join(sig, " ") + "]", Text: "[" + strings.Join(txt, ", ") + "]"})
}

func (p *Pools) makeConstrs(step int) {
	senses := []sm.ConstrSense{sm.SenseEqual, sm.SenseLessThanEqual, sm.SenseGreaterThanEqual}
	n := 0
	add := func(a, b interface{}) {
		ta, tb := mkT(Clone(a, Exact)), mkT(Clone(b, Exact))
		va, vb := vOfT(ta), vOfT(tb)
		for _, s := range senses {
			n++
			if n%step != 0 {
				continue
			}
			c := mkConstr(ta, tb, s)
			lin := mDegree(ta.D) <= 1 && mDegree(tb.D) <= 1
			ty := reflect.TypeOf(c)
			v := &V{Proto: c, Sig: fmt.Sprintf("%s{%s %s %s}lin=%v", ty.Name(), va.Sig, senseStr(s), vb.Sig, lin), Text: constrStr(ta, tb, s)}
			p.constrs = append(p.constrs, v)
			p.byType[ty] = append(p.byType[ty], v)
		}
	}
	add(poly(mono(2, 0, 1), mono(-1)), sm.K(1))
	add(sm.KVector{1, 2}, sm.VariableVector{vX, vY})
	add(sm.KMatrix{{1, 2}}, sm.VariableMatrix{{vX, vY}})
	ls := []interface{}{sm.K(2), vX, vW, mono(2, 0, 1), mono(-1, 1, 1), mono(0, 0, 1), mono(3), mono(1, 0, 2), poly(mono(1, 0, 1), mono(1)), poly(mono(1, 0, 1), mono(2, 1, 1), mono(-3)), poly(mono(1, 0, 1), mono(-1, 0, 1)), poly(mono(1, 0, 1, 1, 1), mono(1, 0, 1))}
	rs := []interface{}{sm.K(0), sm.K(-1.5), vX, mono(2, 1, 1), poly(mono(1, 1, 1), mono(2)), poly(mono(-1), mono(1, 0, 1))}
	for _, l := range ls {
		for _, r := range rs {
			add(l, r)
		}
	}
	for _, nn := range []int{1, 2, 3} {
		for i, ka := range []Kind{KKV, KVV, KMV, KPV} {
			for j, kb := range []Kind{KKV, KVV, KMV, KPV} {
				fa, fb := fills(ka, nn, 1, 1), fills(kb, nn, 1, 1)
				add(fa[(i+j)%len(fa)].Proto, fb[(i+2*j+1)%len(fb)].Proto)
				add(fa[(i+j+2)%len(fa)].Proto, fb[(j)%len(fb)].Proto)
			}
		}
	}
	for _, s := range []shape{{1, 1}, {1, 2}, {2, 1}, {2, 2}} {
		for i, ka := range []Kind{KKM, KVM, KMM, KPM} {
			for j, kb := range []Kind{KKM, KVM, KMM, KPM} {
				fa, fb := fills(ka, s.r, s.c, 1), fills(kb, s.r, s.c, 1)
				add(fa[(i+j)%len(fa)].Proto, fb[(i+2*j+1)%len(fb)].Proto)
			}
		}
	}
}

// pool lists the values of one parameter of an operation.
func (p *Pools) pool(o *Op, i int, args []*V) []*V {
	t := o.In[i]
	if i == 0 && o.Method {
		return p.byType[t]
	}
	ints := func(xs ...int) []*V {
		var out []*V
		for _, x := range xs {
			s := "nonneg"
			if x < 0 {
				s = "neg"
			}
			out = append(out, vOf(x, s))
		}
		return out
	}
	switch t {
	case tIface:
		switch o.Class {
		case "Plus", "Minus", "Multiply", "LessEq", "GreaterEq", "Eq", "Comparison":
			return append(append([]*V{}, p.exprs...), p.raws...)
		}
		return append(append(append([]*V{}, p.exprs...), p.raws...), p.junk...)
	case tExpr, tMatrix, tVector, tPLV:
		var out []*V
		for _, e := range p.exprs {
			if reflect.TypeOf(e.Proto).Implements(t) {
				out = append(out, e)
			}
		}
		return out
	case tScalar:
		if i > 0 {
			return p.subs
		}
		var out []*V
		for _, e := range p.exprs {
			if reflect.TypeOf(e.Proto).Implements(t) {
				out = append(out, e)
			}
		}
		return out
	case tConstr:
		return p.constrs
	case tVar:
		return p.vars
	case tMono:
		return p.monos
	case tFloat:
		return p.floats
	case tInt:
		if o.Class == "At" || o.Class == "AtVec" {
			r, c := 1, 1
			switch d := args[0].Proto.(type) {
			case sm.VectorConstraint:
				r = d.LeftHandSide.Len()
			case sm.MatrixConstraint:
				dd := d.LeftHandSide.Dims()
				r, c = dd[0], dd[1]
			default:
				if args[0].T != nil {
					r, c = args[0].T.R, args[0].T.C
				}
			}
			n := r
			if i == 2 {
				n = c
			}
			var xs []int
			for k := 0; k < n; k++ {
				xs = append(xs, k)
			}
			return ints(xs...)
		}
		var xs []int
		top := p.maxPow
		if args[0].T != nil { // powers of values with many terms grow fast
			if n := nTerms(args[0].Proto); n > 20 {
				top = 1
			} else if n > 10 {
				top = 2
			}
		}
		for k := -1; k <= top; k++ {
			xs = append(xs, k)
		}
		return ints(xs...)
	case tSense:
		return []*V{vOf(sm.SenseEqual, "sense"), vOf(sm.SenseLessThanEqual, "sense"), vOf(sm.SenseGreaterThanEqual, "sense")}
	case tMap:
		return p.maps
	case tVars:
		return append(append([]*V{}, p.lists...), vOf([]sm.Variable{}, "vars0"), vOf([]sm.Variable{vX, vY, vX, vX, vB, vY}, "vars6"))
	case tVarss:
		if o.Class == "UnionOfVariables" {
			return []*V{vOf2([][]sm.Variable{}), vOf2([][]sm.Variable{{vX, vY}, {vY, vW}}), vOf2([][]sm.Variable{{vX}, {}, {vB, vX, vB}})}
		}
		out := []*V{vOf2([][]sm.Variable{})}
		for _, l := range p.lists {
			out = append(out, vOf2([][]sm.Variable{l.Proto.([]sm.Variable)}))
		}
		return out
	case tExprs:
		return p.stacks
	case tSEs:
		return p.ses
	case tSEss:
		return p.sess
	case tConstrs:
		return p.clists
	case tU64s:
		return p.u64s
	case tDense, tVecD:
		return p.byType[t]
	}
	return nil
}

func vOf2(x [][]sm.Variable) *V {
	s := "wrt:none"
	if len(x) > 0 {
		s = fmt.Sprintf("wrt:%d", len(x))
	}
	var t []string
	for _, l := range x {
		t = append(t, Show(l))
	}
	return &V{Proto: x, Sig: s, Text: strings.Join(t, ",")}
}

// Calls enumerates every operation with every combination of pool values.
func (p *Pools) Calls(ops []*Op, f func(o *Op, args []*V)) {
	for _, o := range ops {
		var rec func(i int, args []*V)
		rec = func(i int, args []*V) {
			if i == len(o.In) {
				f(o, args)
				return
			}
			for _, v := range p.pool(o, i, args) {
				if i == 1 && args[0].T != nil && v.T != nil && strings.Contains(o.Class, "Multiply") && nTerms(args[0].Proto)*nTerms(v.Proto) > 150 {
					continue // hundreds of terms; C02 explores such products
				}
				rec(i+1, append(args[:i:i], v))
			}
		}
		rec(0, nil)
	}
}

func callText(o *Op, args []*V) string {
	var t []string
	for _, a := range args {
		t = append(t, a.Text)
	}
	return o.Name + "(" + strings.Join(t, "; ") + ")"
}

func callSig(o *Op, args []*V) string {
	var t []string
	for _, a := range args {
		t = append(t, a.Sig)
	}
	return o.Name + "(" + strings.Join(t, "; ") + ")"
}

func newArgs(args []*V, l Layout) []interface{} {
	out := make([]interface{}, len(args))
	for i, a := range args {
		out[i] = a.NewL(l)
	}
	return out
}

// fitsCall says whether the operands' dimensions fit the operation.
func fitsCall(o *Op, args []*V) bool {
	t := func(i int) *T { return args[i].T }
	switch o.Class {
	case "Plus", "Minus", "LessEq", "GreaterEq", "Eq", "Comparison", "VectorPlusTemplate", "MatrixPlusTemplate", "CheckDimensionsInComparison":
		return t(0) == nil || t(1) == nil || fitsAdd(t(0), t(1))
	case "Multiply", "VectorMultiplyTemplate", "MatrixMultiplyTemplate":
		return fitsMul(t(0), t(1))
	case "Power", "VectorPowerTemplate", "MatrixPowerTemplate", "ScalarPowerTemplate":
		return t(0).R == t(0).C
	case "HStack", "VStack":
		es := args[0].Proto.([]sm.Expression)
		if len(es) == 0 {
			return false
		}
		d0 := es[0].Dims()
		for _, e := range es {
			d := e.Dims()
			if o.Class == "HStack" && d[0] != d0[0] || o.Class == "VStack" && d[1] != d0[1] {
				return false
			}
		}
	}
	return true
}

// shownResult is everything a caller can observe of a result.
func shownResult(v interface{}) string {
	k := Key(v, false)
	if s, ok := v.(fmt.Stringer); ok {
		func() {
			defer func() {
				if recover() != nil {
					k += "|no string"
				}
			}()
			k += "|" + s.String()
		}()
	}
	return k
}

func sortedStrings(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
