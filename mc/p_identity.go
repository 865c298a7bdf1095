package main

// The second half of C17: what the operations take for one and the same
// variable. Every pair of variables of small histories over several
// environments, with redeclared copies, goes through the operations that have to
// recognise variables.

import (
	"fmt"
	"math"
	"strings"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

func sameIdentity(a, b sm.Variable) bool { return a.ID == b.ID && a.Environment == b.Environment }

// evalAt evaluates a scalar by walking its parts.
func evalAt(e interface{}, at func(v sm.Variable) float64) float64 {
	mono := func(m sm.Monomial) float64 {
		x := m.Coefficient
		for i, v := range m.VariableFactors {
			x *= math.Pow(at(v), float64(m.Exponents[i]))
		}
		return x
	}
	switch x := e.(type) {
	case sm.K:
		return float64(x)
	case sm.Variable:
		return at(x)
	case sm.Monomial:
		return mono(x)
	case sm.Polynomial:
		s := 0.0
		for _, m := range x.Monomials {
			s += mono(m)
		}
		return s
	}
	return math.NaN()
}

func (r *R) identity(kinds string, depth int) {
	type maker struct {
		name string
		run  func(w *envWorld) []sm.Variable
	}
	var makers []maker
	for e := range kinds {
		e := e
		nm := fmt.Sprintf("env%d", e)
		makers = append(makers,
			maker{"NewVariable(" + nm + ")", func(w *envWorld) []sm.Variable { return []sm.Variable{sm.NewVariable(w.real[e])} }},
			maker{"NewBinaryVariable(" + nm + ")", func(w *envWorld) []sm.Variable { return []sm.Variable{sm.NewBinaryVariable(w.real[e])} }},
			maker{"NewVariableVector(2, " + nm + ")", func(w *envWorld) []sm.Variable { return sm.NewVariableVector(2, w.real[e]) }},
		)
	}
	idx := make([]int, depth)
	for {
		if !r.skip() {
			seq := append([]int(nil), idx...)
			r.Case(func() string {
				var p []string
				for _, i := range seq {
					p = append(p, makers[i].name)
				}
				return "which variables are the same, environments " + kinds + ": " + strings.Join(p, "; ")
			}, func(c *C) {
				w := newEnvWorld(kinds)
				var all []sm.Variable
				for _, i := range seq {
					all = append(all, makers[i].run(w)...)
				}
				// the same variables, declared again with other attributes
				for i, v := range all {
					if i < 3 {
						v.Lower, v.Upper, v.Type = -3, 12, sm.Integer
						all = append(all, v)
					}
				}
				for i, a := range all {
					for j, b := range all {
						c.identityPair(a, b, all, fmt.Sprintf("%s#%d of %s (%d) and %s#%d of %s (%d)", a.Name, a.ID, a.Environment.GetName(), i, b.Name, b.ID, b.Environment.GetName(), j))
						if len(c.fail) > 0 {
							return
						}
					}
				}
				sm.DefaultEnvironment = sm.MakeBasicEnvironment("DefaultEnvironment")
			})
		}
		i := depth - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(makers) {
				break
			}
			idx[i] = 0
		}
		if i < 0 || r.stopped {
			return
		}
	}
}

func (c *C) identityPair(a, b sm.Variable, all []sm.Variable, who string) {
	same := sameIdentity(a, b)
	at := func(v sm.Variable) float64 {
		for i, w := range all {
			if sameIdentity(v, w) {
				return float64(i) + 2
			}
		}
		return math.NaN()
	}
	va, vb := at(a), at(b)
	num := func(op string, want float64, f func() interface{}) {
		res := c.Do(op, f)
		if res.Panicked {
			c.Sig("refused " + op)
			c.Failf("%s of %s: %s", op, who, res.why())
			return
		}
		if got := evalAt(res.Val, at); got != want {
			c.Sig("identity " + op)
			c.Failf("%s of %s gives %s, which is %v instead of %v (same variable: %v)", op, who, Show(res.Val), got, want, same)
		}
	}
	count := func(op string, want int, f func() interface{}) {
		res := c.Do(op, f)
		if res.Panicked {
			c.Sig("refused " + op)
			c.Failf("%s of %s: %s", op, who, res.why())
			return
		}
		got, ok := res.Val.(int)
		if !ok || got != want {
			c.Sig("identity " + op)
			c.Failf("%s of %s gives %v instead of %v (same variable: %v)", op, who, res.Val, want, same)
		}
	}
	pick := func(x, y float64) float64 {
		if same {
			return x
		}
		return y
	}
	n := 2
	if same {
		n = 1
	}
	three := func() sm.ScalarExpression { return a.Plus(b.Multiply(3.0)).(sm.ScalarExpression) } // a + 3 b
	num("Plus", va+vb, func() interface{} { return a.Plus(b) })
	num("Minus", va-vb, func() interface{} { return a.Minus(b) })
	num("Multiply", va*vb, func() interface{} { return a.Multiply(b) })
	num("Plus", va+3*vb, func() interface{} { return three() })
	num("Multiply", va*vb*vb, func() interface{} { return a.Multiply(b).Multiply(b) })
	num("Multiply", va*va*va*vb, func() interface{} { return a.Multiply(b).Multiply(a.Multiply(a)) })
	num("Simplify", va+vb-2*va*vb, func() interface{} {
		return sm.Polynomial{Monomials: []sm.Monomial{a.ToMonomial(), a.Multiply(b).(sm.Monomial).Multiply(-2.0).(sm.Monomial), b.ToMonomial()}}.Simplify()
	})
	num("DerivativeWrt", pick(1, 0), func() interface{} { return a.DerivativeWrt(b) })
	num("DerivativeWrt", pick(4, 3), func() interface{} { return three().DerivativeWrt(b) })
	num("DerivativeWrt", pick(2*va, vb), func() interface{} { return a.Multiply(b).DerivativeWrt(a) })
	num("Substitute", pick(28, 7+3*vb), func() interface{} { return three().Substitute(a, sm.K(7)) })
	num("Substitute", pick(49, 7*vb), func() interface{} { return a.Multiply(b).(sm.ScalarExpression).Substitute(a, sm.K(7)) })
	num("SubstituteAccordingTo", pick(28, 7+3*vb), func() interface{} {
		return three().SubstituteAccordingTo(map[sm.Variable]sm.Expression{a: sm.K(7)})
	})
	if !same {
		num("SubstituteAccordingTo", vb+3*va, func() interface{} {
			return three().SubstituteAccordingTo(map[sm.Variable]sm.Expression{a: b, b: a})
		})
	}
	count("Variables", n, func() interface{} { return len(three().Variables()) })
	count("Variables", n, func() interface{} { return len(sm.VariableVector{a, b, a}.Variables()) })
	count("Variables", n, func() interface{} { return len(sm.VariableMatrix{{a, b}, {b, a}}.Variables()) })
	count("UniqueVars", n, func() interface{} { return len(sm.UniqueVars([]sm.Variable{a, b, a})) })
	count("UnionOfVariables", n, func() interface{} { return len(sm.UnionOfVariables([]sm.Variable{a}, []sm.Variable{b})) })
	count("FindInSlice", n-1, func() interface{} {
		// the list ends with a, before which comes b when it is another variable
		i, _ := sm.FindInSlice(a, []sm.Variable{b, a}[2-n:])
		return i
	})
	num("LinearCoeff", pick(4, 3), func() interface{} { x := three().LinearCoeff([]sm.Variable{b}); return sm.K(x.AtVec(0)) })
	num("LinearCoeff", pick(4, 1), func() interface{} { x := three().LinearCoeff([]sm.Variable{a}); return sm.K(x.AtVec(0)) })
	num("LinearCoeff", pick(1, 0), func() interface{} { x := a.LinearCoeff([]sm.Variable{b}); return sm.K(x.AtVec(0)) })
	num("VariableVector.DerivativeWrt", pick(1, 0), func() interface{} { return sm.VariableVector{b, a}.DerivativeWrt(a).At(0, 0) })
	num("VariableMatrix.DerivativeWrt", pick(1, 0), func() interface{} { return sm.VariableMatrix{{a, b}}.DerivativeWrt(a).At(0, 1) })
	c.no("ImpliesThisIsAlsoSatisfied", who, !same, func() interface{} {
		return a.GreaterEq(1.0).ImpliesThisIsAlsoSatisfied(b.GreaterEq(0.0))
	})
	count("Variables of a constraint", n, func() interface{} { return len(a.LessEq(b).Variables()) })
}

// no judges an answer that has to be no when mustNot is set.
func (c *C) no(op, who string, mustNot bool, f func() interface{}) {
	res := c.Do(op, f)
	if res.Panicked {
		c.Sig("refused " + op)
		c.Failf("%s of %s: %s", op, who, res.why())
		return
	}
	if mustNot && res.Val.(bool) {
		c.Sig("identity " + op)
		c.Failf("%s of %s is true", op, who)
	}
}
