package main

// Deep copies and structural keys of library values.

import (
	"fmt"
	"hash/fnv"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// Layout says how the slices of a cloned value are laid out in memory.
type Layout int

const (
	Exact Layout = iota // capacity equals length
	Spare               // spare capacity after every slice, filled with canaries
)

const spareN = 3

func cpInts(s []int, l Layout) []int {
	if s == nil && l == Exact {
		return nil
	}
	if l == Exact {
		out := make([]int, len(s))
		copy(out, s)
		return out
	}
	out := make([]int, len(s)+spareN)
	copy(out, s)
	for i := len(s); i < len(out); i++ {
		out[i] = 71 + i
	}
	return out[:len(s)]
}

func cpSlice[T any](s []T, l Layout, canary T, f func(T) T) []T {
	if s == nil && l == Exact {
		return nil
	}
	n := len(s)
	if l == Spare {
		n += spareN
	}
	out := make([]T, n)
	for i := range s {
		out[i] = f(s[i])
	}
	for i := len(s); i < n; i++ {
		out[i] = canary
	}
	return out[:len(s)]
}

func idf[T any](x T) T { return x }

var canaryVar sm.Variable

func canaryMono() sm.Monomial {
	return sm.Monomial{Coefficient: 977, Exponents: []int{1}, VariableFactors: []sm.Variable{canaryVar}}
}

func cloneMono(m sm.Monomial, l Layout) sm.Monomial {
	return sm.Monomial{
		Coefficient:     m.Coefficient,
		Exponents:       cpInts(m.Exponents, l),
		VariableFactors: cpSlice(m.VariableFactors, l, canaryVar, idf[sm.Variable]),
	}
}

func clonePoly(p sm.Polynomial, l Layout) sm.Polynomial {
	return sm.Polynomial{Monomials: cpSlice(p.Monomials, l, canaryMono(), func(m sm.Monomial) sm.Monomial { return cloneMono(m, l) })}
}

// Clone makes a deep copy that shares no memory with e.
func Clone(e interface{}, l Layout) interface{} {
	cm := func(m sm.Monomial) sm.Monomial { return cloneMono(m, l) }
	cp := func(p sm.Polynomial) sm.Polynomial { return clonePoly(p, l) }
	switch s := e.(type) {
	case nil, float64, int, bool, string, uint64, sm.K, sm.Variable, sm.ConstrSense, error:
		return s
	case sm.Monomial:
		return cloneMono(s, l)
	case sm.Polynomial:
		return clonePoly(s, l)
	case sm.KVector:
		return sm.KVector(cpSlice(s, l, sm.K(977), idf[sm.K]))
	case sm.VariableVector:
		return sm.VariableVector(cpSlice(s, l, canaryVar, idf[sm.Variable]))
	case sm.MonomialVector:
		return sm.MonomialVector(cpSlice(s, l, canaryMono(), cm))
	case sm.PolynomialVector:
		return sm.PolynomialVector(cpSlice(s, l, sm.Polynomial{Monomials: []sm.Monomial{canaryMono()}}, cp))
	case sm.KMatrix:
		return sm.KMatrix(cpSlice(s, l, nil, func(r []sm.K) []sm.K { return cpSlice(r, l, sm.K(977), idf[sm.K]) }))
	case sm.VariableMatrix:
		return sm.VariableMatrix(cpSlice(s, l, nil, func(r []sm.Variable) []sm.Variable {
			return cpSlice(r, l, canaryVar, idf[sm.Variable])
		}))
	case sm.MonomialMatrix:
		return sm.MonomialMatrix(cpSlice(s, l, nil, func(r []sm.Monomial) []sm.Monomial {
			return cpSlice(r, l, canaryMono(), cm)
		}))
	case sm.PolynomialMatrix:
		return sm.PolynomialMatrix(cpSlice(s, l, nil, func(r []sm.Polynomial) []sm.Polynomial {
			return cpSlice(r, l, sm.Polynomial{Monomials: []sm.Monomial{canaryMono()}}, cp)
		}))
	case mat.VecDense:
		return *cloneVec(&s)
	case *mat.VecDense:
		return cloneVec(s)
	case mat.Dense:
		return *mat.DenseCopyOf(&s)
	case *mat.Dense:
		return mat.DenseCopyOf(s)
	case []sm.Variable:
		return cpSlice(s, l, canaryVar, idf[sm.Variable])
	case []uint64:
		return cpSlice(s, l, uint64(977), idf[uint64])
	case []float64:
		return cpSlice(s, l, 977, idf[float64])
	case []int:
		return cpInts(s, l)
	case map[sm.Variable]sm.Expression:
		out := map[sm.Variable]sm.Expression{}
		for k, v := range s {
			out[k] = Clone(v, l).(sm.Expression)
		}
		return out
	case sm.ScalarConstraint:
		return sm.ScalarConstraint{LeftHandSide: Clone(s.LeftHandSide, l).(sm.ScalarExpression), RightHandSide: Clone(s.RightHandSide, l).(sm.ScalarExpression), Sense: s.Sense}
	case sm.VectorConstraint:
		return sm.VectorConstraint{LeftHandSide: Clone(s.LeftHandSide, l).(sm.VectorExpression), RightHandSide: Clone(s.RightHandSide, l).(sm.VectorExpression), Sense: s.Sense}
	case sm.MatrixConstraint:
		return sm.MatrixConstraint{LeftHandSide: Clone(s.LeftHandSide, l).(sm.MatrixExpression), RightHandSide: Clone(s.RightHandSide, l).(sm.MatrixExpression), Sense: s.Sense}
	case []sm.Constraint:
		out := make([]sm.Constraint, len(s))
		for i := range s {
			out[i] = Clone(s[i], l).(sm.Constraint)
		}
		return out
	case []sm.Expression:
		return cpSlice(s, l, sm.Expression(canaryVar), func(x sm.Expression) sm.Expression { return Clone(x, l).(sm.Expression) })
	case [][]sm.Variable:
		return cpSlice(s, l, nil, func(x []sm.Variable) []sm.Variable { return Clone(x, l).([]sm.Variable) })
	case []sm.ScalarExpression:
		return cpSlice(s, l, sm.ScalarExpression(canaryVar), func(x sm.ScalarExpression) sm.ScalarExpression { return Clone(x, l).(sm.ScalarExpression) })
	case [][]sm.ScalarExpression:
		out := make([][]sm.ScalarExpression, len(s))
		for i := range s {
			out[i] = Clone(s[i], l).([]sm.ScalarExpression)
		}
		return out
	case [][]float64:
		return cpSlice(s, l, nil, func(r []float64) []float64 { return cpSlice(r, l, 977, idf[float64]) })
	}
	panic(fmt.Sprintf("Clone: unsupported type %T", e))
}

func cloneVec(v *mat.VecDense) *mat.VecDense {
	var out mat.VecDense
	out.CloneFromVec(v)
	return &out
}

// Key writes a structural description of any value the library takes or
// returns: concrete types, slices in order, every field of every variable.
// With spare set it also covers the memory between length and capacity.
func Key(e interface{}, spare bool) string {
	var b strings.Builder
	writeKey(&b, e, spare)
	return b.String()
}

func wf(b *strings.Builder, f float64) {
	b.WriteString(strconv.FormatUint(math.Float64bits(f), 16))
}

func wv(b *strings.Builder, v sm.Variable) {
	i, ok := vIndex[vkey{v.Environment, v.ID}]
	if ok && vList[i] == v {
		b.WriteString("v")
		b.WriteString(strconv.Itoa(i))
		return
	}
	if v == (sm.Variable{}) {
		b.WriteString("v0zero")
		return
	}
	env := "nil"
	if v.Environment != nil {
		env = v.Environment.GetName()
	}
	fmt.Fprintf(b, "v?%d/%v/%v/%v/%v/%v", v.ID, v.Lower, v.Upper, v.Type, v.Name, env)
}

func wm(b *strings.Builder, m sm.Monomial, spare bool) {
	b.WriteString("M(")
	wf(b, m.Coefficient)
	b.WriteByte(';')
	for _, x := range m.Exponents {
		b.WriteString(strconv.Itoa(x))
		b.WriteByte(',')
	}
	b.WriteByte(';')
	for _, v := range m.VariableFactors {
		wv(b, v)
		b.WriteByte(',')
	}
	if spare {
		b.WriteByte('|')
		for _, x := range m.Exponents[len(m.Exponents):cap(m.Exponents)] {
			b.WriteString(strconv.Itoa(x))
			b.WriteByte(',')
		}
		for _, v := range m.VariableFactors[len(m.VariableFactors):cap(m.VariableFactors)] {
			wv(b, v)
			b.WriteByte(',')
		}
	}
	b.WriteByte(')')
}

func wSlice[T any](b *strings.Builder, name string, s []T, spare bool, f func(T)) {
	b.WriteString(name)
	b.WriteByte('[')
	for _, x := range s {
		f(x)
		b.WriteByte(',')
	}
	if spare {
		b.WriteByte('|')
		for _, x := range s[len(s):cap(s)] {
			f(x)
			b.WriteByte(',')
		}
	}
	b.WriteByte(']')
}

func writeKey(b *strings.Builder, e interface{}, spare bool) {
	fk := func(k sm.K) { wf(b, float64(k)) }
	fv := func(v sm.Variable) { wv(b, v) }
	fm := func(m sm.Monomial) { wm(b, m, spare) }
	fp := func(p sm.Polynomial) { wSlice(b, "P", p.Monomials, spare, fm) }
	switch s := e.(type) {
	case nil:
		b.WriteString("nil")
	case bool:
		b.WriteString(strconv.FormatBool(s))
	case string:
		b.WriteString(strconv.Quote(s))
	case int:
		b.WriteString("int" + strconv.Itoa(s))
	case uint64:
		b.WriteString("u" + strconv.FormatUint(s, 10))
	case float64:
		b.WriteString("f")
		wf(b, s)
	case error:
		b.WriteString("error:" + s.Error())
	case sm.ConstrSense:
		b.WriteString("sense" + strconv.Itoa(int(s)))
	case sm.K:
		b.WriteString("K")
		wf(b, float64(s))
	case sm.Variable:
		wv(b, s)
	case sm.Monomial:
		fm(s)
	case sm.Polynomial:
		fp(s)
	case sm.KVector:
		wSlice(b, "KV", s, spare, fk)
	case sm.VariableVector:
		wSlice(b, "VV", s, spare, fv)
	case sm.MonomialVector:
		wSlice(b, "MV", s, spare, fm)
	case sm.PolynomialVector:
		wSlice(b, "PV", s, spare, fp)
	case sm.KMatrix:
		wSlice(b, "KM", s, spare, func(r []sm.K) { wSlice(b, "", r, spare, fk) })
	case sm.VariableMatrix:
		wSlice(b, "VM", s, spare, func(r []sm.Variable) { wSlice(b, "", r, spare, fv) })
	case sm.MonomialMatrix:
		wSlice(b, "MM", s, spare, func(r []sm.Monomial) { wSlice(b, "", r, spare, fm) })
	case sm.PolynomialMatrix:
		wSlice(b, "PM", s, spare, func(r []sm.Polynomial) { wSlice(b, "", r, spare, fp) })
	case mat.VecDense:
		b.WriteString("VecDense[")
		for i := 0; i < s.Len(); i++ {
			wf(b, s.AtVec(i))
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case *mat.VecDense:
		writeKey(b, *s, spare)
	case mat.Dense:
		r, c := s.Dims()
		fmt.Fprintf(b, "Dense%dx%d[", r, c)
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				wf(b, s.At(i, j))
				b.WriteByte(',')
			}
		}
		b.WriteByte(']')
	case *mat.Dense:
		writeKey(b, *s, spare)
	case []sm.Variable:
		wSlice(b, "vars", s, spare, fv)
	case [][]sm.Variable:
		wSlice(b, "varss", s, spare, func(x []sm.Variable) { writeKey(b, x, spare) })
	case []sm.Monomial:
		wSlice(b, "monos", s, spare, fm)
	case []interface{}:
		b.WriteString("results(")
		for _, x := range s {
			writeKey(b, x, spare)
			b.WriteByte(',')
		}
		b.WriteByte(')')
	case []uint64:
		wSlice(b, "ids", s, spare, func(x uint64) { b.WriteString(strconv.FormatUint(x, 10)) })
	case []int:
		wSlice(b, "ints", s, spare, func(x int) { b.WriteString(strconv.Itoa(x)) })
	case []float64:
		wSlice(b, "floats", s, spare, func(x float64) { wf(b, x) })
	case []sm.Expression:
		wSlice(b, "exprs", s, spare, func(x sm.Expression) { writeKey(b, x, spare) })
	case []sm.ScalarExpression:
		wSlice(b, "ses", s, spare, func(x sm.ScalarExpression) { writeKey(b, x, spare) })
	case [][]sm.ScalarExpression:
		wSlice(b, "sess", s, false, func(x []sm.ScalarExpression) { writeKey(b, x, spare) })
	case [][]float64:
		wSlice(b, "ff", s, false, func(x []float64) { writeKey(b, x, spare) })
	case []sm.Constraint:
		wSlice(b, "constrs", s, false, func(x sm.Constraint) { writeKey(b, x, spare) })
	case []sm.ScalarConstraint:
		wSlice(b, "sconstrs", s, false, func(x sm.ScalarConstraint) { writeKey(b, x, spare) })
	case map[sm.Variable]sm.Expression:
		var ks []string
		for k, v := range s {
			var bb strings.Builder
			wv(&bb, k)
			bb.WriteString("->")
			writeKey(&bb, v, spare)
			ks = append(ks, bb.String())
		}
		sort.Strings(ks)
		b.WriteString("map{" + strings.Join(ks, ",") + "}")
	case sm.ScalarConstraint:
		b.WriteString("SC{")
		writeKey(b, s.LeftHandSide, spare)
		fmt.Fprintf(b, " %d ", s.Sense)
		writeKey(b, s.RightHandSide, spare)
		b.WriteString("}")
	case sm.VectorConstraint:
		b.WriteString("VC{")
		writeKey(b, s.LeftHandSide, spare)
		fmt.Fprintf(b, " %d ", s.Sense)
		writeKey(b, s.RightHandSide, spare)
		b.WriteString("}")
	case sm.MatrixConstraint:
		b.WriteString("MC{")
		writeKey(b, s.LeftHandSide, spare)
		fmt.Fprintf(b, " %d ", s.Sense)
		writeKey(b, s.RightHandSide, spare)
		b.WriteString("}")
	case sm.BasicEnvironment:
		b.WriteString("env:" + s.GetName())
	case *sm.BasicEnvironment:
		b.WriteString("env:" + s.GetName())
	default:
		rv := reflect.ValueOf(e)
		if rv.Kind() == reflect.Ptr && !rv.IsNil() {
			writeKey(b, rv.Elem().Interface(), spare)
			return
		}
		fmt.Fprintf(b, "%T(%v)", e, e)
	}
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Show prints a value for people: its type and denotation.
func Show(e interface{}) string {
	switch s := e.(type) {
	case nil:
		return "nil"
	case sm.ScalarConstraint:
		return fmt.Sprintf("ScalarConstraint{%s %s %s}", Show(s.LeftHandSide), senseStr(s.Sense), Show(s.RightHandSide))
	case sm.VectorConstraint:
		return fmt.Sprintf("VectorConstraint{%s %s %s}", Show(s.LeftHandSide), senseStr(s.Sense), Show(s.RightHandSide))
	case sm.MatrixConstraint:
		return fmt.Sprintf("MatrixConstraint{%s %s %s}", Show(s.LeftHandSide), senseStr(s.Sense), Show(s.RightHandSide))
	case map[sm.Variable]sm.Expression:
		var ks []string
		for k, v := range s {
			ks = append(ks, k.Name+"->"+Show(v))
		}
		sort.Strings(ks)
		return "{" + strings.Join(ks, ", ") + "}"
	case []sm.Variable:
		var ks []string
		for _, v := range s {
			ks = append(ks, v.Name)
		}
		return "[" + strings.Join(ks, " ") + "]"
	case sm.Monomial:
		return "Monomial(" + rawMono(s) + ")"
	case sm.Polynomial:
		return "Polynomial(" + rawPoly(s) + ")"
	case sm.MonomialVector, sm.PolynomialVector, sm.MonomialMatrix, sm.PolynomialMatrix, sm.KVector, sm.KMatrix, sm.VariableVector, sm.VariableMatrix, sm.K, sm.Variable, mat.VecDense, mat.Dense, *mat.VecDense, *mat.Dense:
		r, c, es, err := entries(s)
		if err != nil {
			return fmt.Sprintf("%T(%v)", e, err)
		}
		var parts []string
		for _, x := range es {
			switch y := x.(type) {
			case sm.Variable:
				parts = append(parts, y.Name)
			case sm.Monomial:
				parts = append(parts, rawMono(y))
			case sm.Polynomial:
				parts = append(parts, rawPoly(y))
			default:
				parts = append(parts, fmt.Sprintf("%v", y))
			}
		}
		return fmt.Sprintf("%s %dx%d(%s)", strings.TrimPrefix(fmt.Sprintf("%T", e), "symbolic."), r, c, strings.Join(parts, ", "))
	}
	return fmt.Sprintf("%T(%v)", e, e)
}

func senseStr(s sm.ConstrSense) string {
	switch s {
	case sm.SenseEqual:
		return "=="
	case sm.SenseLessThanEqual:
		return "<="
	case sm.SenseGreaterThanEqual:
		return ">="
	}
	return fmt.Sprintf("sense(%d)", s)
}

func rawMono(m sm.Monomial) string {
	s := fmt.Sprintf("%v", m.Coefficient)
	for i, v := range m.VariableFactors {
		e := "?"
		if i < len(m.Exponents) {
			e = strconv.Itoa(m.Exponents[i])
		}
		s += "*" + v.Name + "^" + e
	}
	return s
}

func rawPoly(p sm.Polynomial) string {
	var parts []string
	for _, m := range p.Monomials {
		parts = append(parts, rawMono(m))
	}
	return strings.Join(parts, " + ")
}
