package main

// Malformed values: one fault, at every position.

import (
	"fmt"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// Bad is a value with exactly one fault.
type Bad struct {
	*V
	Fault string // kind of fault
	Base  *V     // the well-formed value it was made from, nil when it has none
}

func badVars() []sm.Variable {
	a, b := vX, vY
	a.Lower, a.Upper = 1, 1
	b.Lower, b.Upper = 2, -2
	return []sm.Variable{a, b}
}

func badMonos() []sm.Monomial {
	return []sm.Monomial{
		{Coefficient: 2, VariableFactors: []sm.Variable{vX}, Exponents: []int{1, 1}},
		{Coefficient: 1, VariableFactors: []sm.Variable{vX, vY}, Exponents: []int{1}},
		{Coefficient: 1, VariableFactors: []sm.Variable{vX}},
		{Coefficient: 0, Exponents: []int{1}},
		{Coefficient: -1, VariableFactors: []sm.Variable{vX, vY, vZ}, Exponents: []int{1, 2}},
	}
}

func badPolys() []sm.Polynomial {
	out := []sm.Polynomial{{}, {Monomials: []sm.Monomial{}}}
	good := []sm.Monomial{mono(1, 0, 1), mono(2), mono(-1, 1, 2)}
	for n := 1; n <= 3; n++ {
		for i := 0; i < n; i++ {
			for _, b := range badMonos() {
				ms := append([]sm.Monomial{}, good[:n]...)
				ms[i] = b
				out = append(out, sm.Polynomial{Monomials: ms})
			}
		}
	}
	return out
}

// malformed lists single-fault values of one kind. level 0 keeps a few faults
// per position.
func malformed(k Kind, level int) []Bad {
	var out []Bad
	add := func(e interface{}, fault string, base *T) {
		b := Bad{V: &V{Proto: e, Sig: k.String() + " " + fault, Text: fmt.Sprintf("malformed %s %s: %s", k, fault, showRaw(e))}, Fault: fault}
		if base != nil {
			b.Base = vOfT(base)
		}
		out = append(out, b)
	}
	bv, bm, bp := badVars(), badMonos(), badPolys()
	if level == 0 {
		bm = bm[:2]
		bp = []sm.Polynomial{bp[0], bp[2], bp[len(bp)-1]}
	}
	// one fault per position of larger values
	if k == KVV || k == KMV || k == KPV {
		for _, n := range []int{5, 6, 9} {
			t := fills(k, n, 1, 1)[0]
			for i := 0; i < n; i++ {
				f := fmt.Sprintf("entry %d/%d", i, n)
				switch e := t.New().(type) {
				case sm.VariableVector:
					e[i] = bv[i%2]
					add(e, f, t)
				case sm.MonomialVector:
					e[i] = bm[i%2]
					add(e, f, t)
				case sm.PolynomialVector:
					e[i] = bp[i%2*2]
					add(e, f, t)
				}
			}
		}
	}
	if k == KVM || k == KMM || k == KPM {
		for _, s := range []shape{{5, 2}, {2, 5}, {5, 5}, {1, 9}, {9, 1}} {
			t := fills(k, s.r, s.c, 1)[0]
			for i := 0; i < s.r; i++ {
				for j := 0; j < s.c; j++ {
					f := fmt.Sprintf("entry (%d,%d)/%dx%d", i, j, s.r, s.c)
					switch e := t.New().(type) {
					case sm.VariableMatrix:
						e[i][j] = bv[(i+j)%2]
						add(e, f, t)
					case sm.MonomialMatrix:
						e[i][j] = bm[(i+j)%2]
						add(e, f, t)
					case sm.PolynomialMatrix:
						e[i][j] = bp[(i+j)%2*2]
						add(e, f, t)
					}
				}
				if s.r < 2 {
					continue
				}
				for _, d := range []int{-1, 1} {
					f := fmt.Sprintf("row %d by %d/%dx%d", i, d, s.r, s.c)
					switch e := t.New().(type) {
					case sm.VariableMatrix:
						e[i] = append(e[i], vX)[:s.c+d]
						add(e, f, t)
					case sm.MonomialMatrix:
						e[i] = append(e[i], mono(1, 0, 1))[:s.c+d]
						add(e, f, t)
					case sm.PolynomialMatrix:
						e[i] = append(e[i], poly(mono(1, 0, 1)))[:s.c+d]
						add(e, f, t)
					}
				}
			}
		}
	}
	switch k {
	case KVar:
		for _, v := range bv {
			add(v, "bounds", mkT(vX))
		}
	case KMono:
		for _, m := range bm {
			add(m, "factor count", mkT(mono(1, 0, 1)))
		}
		for _, n := range []int{4, 5, 8} {
			long := sm.Monomial{Coefficient: 1}
			for i := 0; i < n; i++ {
				long.VariableFactors = append(long.VariableFactors, vs[i])
				long.Exponents = append(long.Exponents, 1)
			}
			a, b := cloneMono(long, Exact), cloneMono(long, Exact)
			a.Exponents = a.Exponents[:n-1]
			b.VariableFactors = b.VariableFactors[:n-1]
			add(a, "factor count", mkT(mono(1, 0, 1)))
			add(b, "factor count", mkT(mono(1, 0, 1)))
		}
	case KPoly:
		for _, p := range bp {
			f := "term"
			if len(p.Monomials) == 0 {
				f = "no terms"
			}
			add(p, f, mkT(poly(mono(1, 0, 1), mono(1))))
		}
		for _, n := range []int{5, 9} {
			for i := 0; i < n; i++ {
				var ms []sm.Monomial
				for j := 0; j < n; j++ {
					ms = append(ms, mono(1, j, 1))
				}
				ms[i] = bm[i%2]
				add(sm.Polynomial{Monomials: ms}, "late term", mkT(poly(mono(1, 0, 1), mono(1))))
			}
		}
	case KVV:
		for n := 1; n <= 3; n++ {
			for i := 0; i < n; i++ {
				for _, b := range bv {
					t := fills(k, n, 1, 1)[0]
					e := t.New().(sm.VariableVector)
					e[i] = b
					add(e, fmt.Sprintf("entry %d/%d", i, n), t)
				}
			}
		}
	case KMV:
		add(sm.MonomialVector{}, "empty", nil)
		add(sm.MonomialVector(nil), "nil", nil)
		for n := 1; n <= 3; n++ {
			for i := 0; i < n; i++ {
				for _, b := range bm {
					t := fills(k, n, 1, 1)[0]
					e := t.New().(sm.MonomialVector)
					e[i] = b
					add(e, fmt.Sprintf("entry %d/%d", i, n), t)
				}
			}
		}
	case KPV:
		add(sm.PolynomialVector{}, "empty", nil)
		add(sm.PolynomialVector(nil), "nil", nil)
		for n := 1; n <= 3; n++ {
			for i := 0; i < n; i++ {
				for _, b := range bp {
					t := fills(k, n, 1, 1)[0]
					e := t.New().(sm.PolynomialVector)
					e[i] = b
					add(e, fmt.Sprintf("entry %d/%d", i, n), t)
				}
			}
		}
	case KVM:
		add(sm.VariableMatrix{}, "empty", nil)
		add(sm.VariableMatrix(nil), "nil", nil)
	case KMM:
		add(sm.MonomialMatrix{}, "empty", nil)
		add(sm.MonomialMatrix(nil), "nil", nil)
	case KPM:
		add(sm.PolynomialMatrix{}, "empty", nil)
		add(sm.PolynomialMatrix(nil), "nil", nil)
	}
	if k == KVM || k == KMM || k == KPM {
		for _, s := range []shape{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}} {
			t := fills(k, s.r, s.c, 1)[0]
			for i := 0; i < s.r; i++ {
				for j := 0; j < s.c; j++ {
					switch k {
					case KVM:
						for _, b := range bv {
							e := t.New().(sm.VariableMatrix)
							e[i][j] = b
							add(e, fmt.Sprintf("entry (%d,%d)/%dx%d", i, j, s.r, s.c), t)
						}
					case KMM:
						for _, b := range bm {
							e := t.New().(sm.MonomialMatrix)
							e[i][j] = b
							add(e, fmt.Sprintf("entry (%d,%d)/%dx%d", i, j, s.r, s.c), t)
						}
					case KPM:
						for _, b := range bp {
							e := t.New().(sm.PolynomialMatrix)
							e[i][j] = b
							add(e, fmt.Sprintf("entry (%d,%d)/%dx%d", i, j, s.r, s.c), t)
						}
					}
				}
				if s.r < 2 {
					continue
				}
				// unequal rows: row i longer, shorter
				switch k {
				case KVM:
					e := t.New().(sm.VariableMatrix)
					e[i] = append(e[i], vX)
					add(e, fmt.Sprintf("row %d longer/%dx%d", i, s.r, s.c), t)
					e = t.New().(sm.VariableMatrix)
					e[i] = e[i][:s.c-1]
					add(e, fmt.Sprintf("row %d shorter/%dx%d", i, s.r, s.c), t)
				case KMM:
					e := t.New().(sm.MonomialMatrix)
					e[i] = append(e[i], mono(1, 0, 1))
					add(e, fmt.Sprintf("row %d longer/%dx%d", i, s.r, s.c), t)
					e = t.New().(sm.MonomialMatrix)
					e[i] = e[i][:s.c-1]
					add(e, fmt.Sprintf("row %d shorter/%dx%d", i, s.r, s.c), t)
				case KPM:
					e := t.New().(sm.PolynomialMatrix)
					e[i] = append(e[i], poly(mono(1, 0, 1)))
					add(e, fmt.Sprintf("row %d longer/%dx%d", i, s.r, s.c), t)
					e = t.New().(sm.PolynomialMatrix)
					e[i] = e[i][:s.c-1]
					add(e, fmt.Sprintf("row %d shorter/%dx%d", i, s.r, s.c), t)
				}
			}
		}
	}
	return out
}

func showRaw(e interface{}) string {
	switch s := e.(type) {
	case sm.Variable:
		return fmt.Sprintf("%s[%v,%v]", s.Name, s.Lower, s.Upper)
	}
	return Key(e, false)
}
