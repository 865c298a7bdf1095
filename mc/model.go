package main

// The reference model: a symbolic expression denotes a matrix of canonical
// polynomials (a map from a sorted list of variable/exponent pairs to a
// coefficient). It shares no code with the library.

import (
	"fmt"
	"math"
	"sort"
	"strings"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// ---------------------------------------------------------------- variables

type vkey struct {
	env sm.Environment
	id  uint64
}

var (
	vIndex = map[vkey]int{}
	vList  []sm.Variable
)

// RegVar makes v known to the model and returns its index.
func RegVar(v sm.Variable) int {
	k := vkey{v.Environment, v.ID}
	if i, ok := vIndex[k]; ok {
		if vList[i] != v {
			vAlt[v] = true
		}
		return i
	}
	i := len(vList)
	vIndex[k] = i
	vList = append(vList, v)
	return i
}

// vAlt has the registered redeclarations: variables that agree with another one in
// identifier and environment, hence are the same variable, and differ in bounds.
var vAlt = map[sm.Variable]bool{}

// varIdx returns the model index of a variable found in a library value. A
// variable that differs from the registered one in any field is an error.
func varIdx(v sm.Variable) (int, error) {
	i, ok := vIndex[vkey{v.Environment, v.ID}]
	if !ok {
		return 0, fmt.Errorf("unknown variable %v (id %v)", v.Name, v.ID)
	}
	if vList[i] != v && !vAlt[v] {
		return 0, fmt.Errorf("variable %v was altered: %+v instead of %+v", v.Name, v, vList[i])
	}
	return i, nil
}

// --------------------------------------------------------------- polynomials

// Poly maps a monomial key to its coefficient. A key is the concatenation of
// 3-byte groups (variable index high, low, exponent), sorted by variable.
type Poly map[string]float64

type fac struct{ v, e int }

func mkKey(fs []fac) string {
	m := make([]fac, 0, len(fs))
	for _, f := range fs {
		if f.e == 0 {
			continue
		}
		found := false
		for i := range m {
			if m[i].v == f.v {
				m[i].e += f.e
				found = true
				break
			}
		}
		if !found {
			m = append(m, f)
		}
	}
	for i := 1; i < len(m); i++ {
		for j := i; j > 0 && m[j].v < m[j-1].v; j-- {
			m[j], m[j-1] = m[j-1], m[j]
		}
	}
	b := make([]byte, 0, 3*len(m))
	for _, f := range m {
		if f.e < 0 || f.e > 255 {
			panic(fmt.Sprintf("model: exponent %d", f.e))
		}
		b = append(b, byte(f.v>>8), byte(f.v), byte(f.e))
	}
	return string(b)
}

func unKey(k string) []fac {
	out := make([]fac, 0, len(k)/3)
	for i := 0; i+2 < len(k); i += 3 {
		out = append(out, fac{int(k[i])<<8 | int(k[i+1]), int(k[i+2])})
	}
	return out
}

func mulKey(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return mkKey(append(unKey(a), unKey(b)...))
}

func keyDeg(k string) int {
	d := 0
	for i := 2; i < len(k); i += 3 {
		d += int(k[i])
	}
	return d
}

func (p Poly) addTerm(k string, c float64) {
	n := p[k] + c
	if n == 0 {
		delete(p, k)
	} else {
		p[k] = n
	}
}

func pConst(c float64) Poly {
	p := Poly{}
	p.addTerm("", c)
	return p
}

func pVar(i int) Poly { return Poly{mkKey([]fac{{i, 1}}): 1} }

func pAdd(a, b Poly) Poly {
	out := make(Poly, len(a)+len(b))
	for k, c := range a {
		out[k] = c
	}
	for k, c := range b {
		out.addTerm(k, c)
	}
	return out
}

func pScale(a Poly, s float64) Poly {
	out := make(Poly, len(a))
	for k, c := range a {
		out.addTerm(k, c*s)
	}
	return out
}

func pSub(a, b Poly) Poly { return pAdd(a, pScale(b, -1)) }

func pMul(a, b Poly) Poly {
	out := Poly{}
	// Deterministic accumulation order, so that rounding is reproducible.
	for _, ka := range sortedKeys(a) {
		for _, kb := range sortedKeys(b) {
			out.addTerm(mulKey(ka, kb), a[ka]*b[kb])
		}
	}
	return out
}

func pPow(a Poly, n int) Poly {
	out := pConst(1)
	for i := 0; i < n; i++ {
		out = pMul(out, a)
	}
	return out
}

func pDeriv(a Poly, v int) Poly {
	out := Poly{}
	for k, c := range a {
		fs := unKey(k)
		for i := range fs {
			if fs[i].v == v {
				e := fs[i].e
				fs[i].e--
				out.addTerm(mkKey(fs), c*float64(e))
				break
			}
		}
	}
	return out
}

// pSubst replaces all mapped variables simultaneously.
func pSubst(a Poly, m map[int]Poly) Poly {
	out := Poly{}
	for _, k := range sortedKeys(a) {
		t := pConst(a[k])
		for _, f := range unKey(k) {
			if r, ok := m[f.v]; ok {
				t = pMul(t, pPow(r, f.e))
			} else {
				t = pMul(t, Poly{mkKey([]fac{f}): 1})
			}
		}
		out = pAdd(out, t)
	}
	return out
}

func sortedKeys(p Poly) []string {
	ks := make([]string, 0, len(p))
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

const relTol = 1e-9

func feq(a, b float64) bool {
	if a == b {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= relTol*math.Max(math.Abs(a), math.Abs(b))
}

// pEq compares up to rounding: relative to each coefficient and, where terms cancel,
// relative to the largest coefficient.
func pEq(a, b Poly) bool {
	scale := 0.0
	for k, c := range a {
		if !feq(c, b[k]) {
			scale = math.Max(maxCoeff(a), maxCoeff(b))
			break
		}
	}
	slack := scale / (1 << 47)
	if math.IsInf(slack, 0) {
		slack = 0
	}
	for k, c := range a {
		if !feq(c, b[k]) && !(math.Abs(c-b[k]) <= slack) {
			return false
		}
	}
	for k, c := range b {
		if _, ok := a[k]; !ok && c != 0 {
			if !(math.Abs(c) <= math.Max(maxCoeff(a), maxCoeff(b))/(1<<47)) || math.IsInf(c, 0) {
				return false
			}
		}
	}
	return true
}

func maxCoeff(a Poly) float64 {
	m := 0.0
	for _, c := range a {
		m = math.Max(m, math.Abs(c))
	}
	return m
}

func pEval(p Poly, x map[int]float64) float64 {
	s := 0.0
	for _, k := range sortedKeys(p) {
		t := p[k]
		for _, f := range unKey(k) {
			for i := 0; i < f.e; i++ {
				t *= x[f.v]
			}
		}
		s += t
	}
	return s
}

func pDegree(p Poly) int {
	d := 0
	for k := range p {
		if keyDeg(k) > d {
			d = keyDeg(k)
		}
	}
	return d
}

func pVars(p Poly) map[int]bool {
	out := map[int]bool{}
	for k := range p {
		for _, f := range unKey(k) {
			out[f.v] = true
		}
	}
	return out
}

func pStr(p Poly) string {
	if len(p) == 0 {
		return "0"
	}
	var parts []string
	for _, k := range sortedKeys(p) {
		s := fmt.Sprintf("%v", p[k])
		for _, f := range unKey(k) {
			s += fmt.Sprintf("*%s^%d", vList[f.v].Name, f.e)
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, " + ")
}

// ------------------------------------------------------------------ matrices

// Mat is a matrix of polynomials.
type Mat struct {
	R, C int
	E    []Poly
}

func newMat(r, c int) *Mat { return &Mat{r, c, make([]Poly, r*c)} }

func (m *Mat) at(i, j int) Poly     { return m.E[i*m.C+j] }
func (m *Mat) set(i, j int, p Poly) { m.E[i*m.C+j] = p }
func (m *Mat) isScalar() bool       { return m.R == 1 && m.C == 1 }

func (m *Mat) String() string {
	var rows []string
	for i := 0; i < m.R; i++ {
		var cs []string
		for j := 0; j < m.C; j++ {
			cs = append(cs, pStr(m.at(i, j)))
		}
		rows = append(rows, "["+strings.Join(cs, ", ")+"]")
	}
	return fmt.Sprintf("%dx%d%s", m.R, m.C, strings.Join(rows, ";"))
}

func mEq(a, b *Mat) bool {
	if a.R != b.R || a.C != b.C {
		return false
	}
	for i := range a.E {
		if !pEq(a.E[i], b.E[i]) {
			return false
		}
	}
	return true
}

func mMap(a *Mat, f func(Poly) Poly) *Mat {
	out := newMat(a.R, a.C)
	for i := range a.E {
		out.E[i] = f(a.E[i])
	}
	return out
}

// mZip applies f entrywise, broadcasting a 1x1 operand. ok is false when the
// dimensions do not fit.
func mZip(a, b *Mat, f func(x, y Poly) Poly) (*Mat, bool) {
	r, c := a.R, a.C
	switch {
	case a.R == b.R && a.C == b.C:
	case a.isScalar():
		r, c = b.R, b.C
	case b.isScalar():
	default:
		return nil, false
	}
	out := newMat(r, c)
	for i := range out.E {
		x, y := a.E[0], b.E[0]
		if !a.isScalar() {
			x = a.E[i]
		}
		if !b.isScalar() {
			y = b.E[i]
		}
		out.E[i] = f(x, y)
	}
	return out, true
}

func mAdd(a, b *Mat) (*Mat, bool) { return mZip(a, b, pAdd) }
func mSub(a, b *Mat) (*Mat, bool) { return mZip(a, b, pSub) }

func mMul(a, b *Mat) (*Mat, bool) {
	if a.C != b.R {
		if a.isScalar() || b.isScalar() {
			return mZip(a, b, pMul)
		}
		return nil, false
	}
	out := newMat(a.R, b.C)
	for i := 0; i < a.R; i++ {
		for j := 0; j < b.C; j++ {
			s := Poly{}
			for k := 0; k < a.C; k++ {
				s = pAdd(s, pMul(a.at(i, k), b.at(k, j)))
			}
			out.set(i, j, s)
		}
	}
	return out, true
}

func mT(a *Mat) *Mat {
	out := newMat(a.C, a.R)
	for i := 0; i < a.R; i++ {
		for j := 0; j < a.C; j++ {
			out.set(j, i, a.at(i, j))
		}
	}
	return out
}

func mIdent(n int) *Mat {
	out := newMat(n, n)
	for i := range out.E {
		out.E[i] = Poly{}
	}
	for i := 0; i < n; i++ {
		out.set(i, i, pConst(1))
	}
	return out
}

func mPow(a *Mat, n int) *Mat {
	out := mIdent(a.R)
	for i := 0; i < n; i++ {
		out, _ = mMul(out, a)
	}
	return out
}

func mVars(m *Mat) map[int]bool {
	out := map[int]bool{}
	for _, p := range m.E {
		for v := range pVars(p) {
			out[v] = true
		}
	}
	return out
}

func mDegree(m *Mat) int {
	d := 0
	for _, p := range m.E {
		if x := pDegree(p); x > d {
			d = x
		}
	}
	return d
}

// ---------------------------------------------------------------- denotation

func denMono(m sm.Monomial) (string, float64, error) {
	if len(m.Exponents) != len(m.VariableFactors) {
		return "", 0, fmt.Errorf("malformed monomial: %d exponents, %d factors", len(m.Exponents), len(m.VariableFactors))
	}
	fs := make([]fac, 0, len(m.Exponents))
	for i, v := range m.VariableFactors {
		idx, err := varIdx(v)
		if err != nil {
			return "", 0, err
		}
		if m.Exponents[i] < 0 || m.Exponents[i] > 250 {
			return "", 0, fmt.Errorf("exponent %d", m.Exponents[i])
		}
		fs = append(fs, fac{idx, m.Exponents[i]})
	}
	if math.IsNaN(m.Coefficient) || math.IsInf(m.Coefficient, 0) {
		return "", 0, fmt.Errorf("coefficient %v", m.Coefficient)
	}
	return mkKey(fs), m.Coefficient, nil
}

func denScalar(e interface{}) (Poly, error) {
	switch s := e.(type) {
	case float64:
		if math.IsNaN(s) || math.IsInf(s, 0) {
			return nil, fmt.Errorf("constant %v", s)
		}
		return pConst(s), nil
	case int:
		return pConst(float64(s)), nil
	case sm.K:
		return denScalar(float64(s))
	case sm.Variable:
		i, err := varIdx(s)
		if err != nil {
			return nil, err
		}
		return pVar(i), nil
	case sm.Monomial:
		k, c, err := denMono(s)
		if err != nil {
			return nil, err
		}
		p := Poly{}
		p.addTerm(k, c)
		return p, nil
	case sm.Polynomial:
		if len(s.Monomials) == 0 {
			return nil, fmt.Errorf("polynomial without terms")
		}
		p := Poly{}
		for _, m := range s.Monomials {
			k, c, err := denMono(m)
			if err != nil {
				return nil, err
			}
			p.addTerm(k, c)
		}
		return p, nil
	}
	return nil, fmt.Errorf("not a scalar expression: %T", e)
}

// entries lists the entries of any accepted value, row by row.
func entries(e interface{}) (r, c int, out []interface{}, err error) {
	rag := func(n, m int) error {
		if n != m {
			return fmt.Errorf("ragged rows: %d and %d", n, m)
		}
		return nil
	}
	switch s := e.(type) {
	case nil:
		return 0, 0, nil, fmt.Errorf("nil expression")
	case float64, int, sm.K, sm.Variable, sm.Monomial, sm.Polynomial:
		return 1, 1, []interface{}{s}, nil
	case sm.KVector:
		for _, x := range s {
			out = append(out, x)
		}
		return len(s), 1, out, nil
	case sm.VariableVector:
		for _, x := range s {
			out = append(out, x)
		}
		return len(s), 1, out, nil
	case sm.MonomialVector:
		for _, x := range s {
			out = append(out, x)
		}
		return len(s), 1, out, nil
	case sm.PolynomialVector:
		for _, x := range s {
			out = append(out, x)
		}
		return len(s), 1, out, nil
	case mat.VecDense:
		for i := 0; i < s.Len(); i++ {
			out = append(out, s.AtVec(i))
		}
		return s.Len(), 1, out, nil
	case *mat.VecDense:
		return entries(*s)
	case mat.Dense:
		r, c := s.Dims()
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				out = append(out, s.At(i, j))
			}
		}
		return r, c, out, nil
	case *mat.Dense:
		return entries(*s)
	case sm.KMatrix:
		for i, row := range s {
			if i == 0 {
				c = len(row)
			}
			if err := rag(c, len(row)); err != nil {
				return 0, 0, nil, err
			}
			for _, x := range row {
				out = append(out, x)
			}
		}
		return len(s), c, out, nil
	case sm.VariableMatrix:
		for i, row := range s {
			if i == 0 {
				c = len(row)
			}
			if err := rag(c, len(row)); err != nil {
				return 0, 0, nil, err
			}
			for _, x := range row {
				out = append(out, x)
			}
		}
		return len(s), c, out, nil
	case sm.MonomialMatrix:
		for i, row := range s {
			if i == 0 {
				c = len(row)
			}
			if err := rag(c, len(row)); err != nil {
				return 0, 0, nil, err
			}
			for _, x := range row {
				out = append(out, x)
			}
		}
		return len(s), c, out, nil
	case sm.PolynomialMatrix:
		for i, row := range s {
			if i == 0 {
				c = len(row)
			}
			if err := rag(c, len(row)); err != nil {
				return 0, 0, nil, err
			}
			for _, x := range row {
				out = append(out, x)
			}
		}
		return len(s), c, out, nil
	}
	return 0, 0, nil, fmt.Errorf("unknown expression type %T", e)
}

// Den is the denotation of any expression value.
func Den(e interface{}) (*Mat, error) {
	r, c, es, err := entries(e)
	if err != nil {
		return nil, err
	}
	if r == 0 || c == 0 {
		return nil, fmt.Errorf("empty %T", e)
	}
	m := newMat(r, c)
	for i, x := range es {
		p, err := denScalar(x)
		if err != nil {
			return nil, fmt.Errorf("entry %d of %T: %v", i, e, err)
		}
		m.E[i] = p
	}
	return m, nil
}
