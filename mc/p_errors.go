package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/MatProGo-dev/SymbolicMath.go/smErrors"
	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// C25: a refusal says what is wrong. The misfits of C16 are executed again and
// the error a refusal carries is compared with the operands.

func init() { props["C25"] = propErrors }

func propErrors(r *R) {
	propRefuse(r)
	r.checkComplaints()
	r.negativeExponents()
	r.dimensionErrors()
	r.noVariables()
	r.noConversions()
	propLinearForm(r) // the refused ones, see formRefused
}

// ints lists the numbers of a text in order.
func ints(s string) (out []int) {
	for i := 0; i < len(s); {
		if s[i] < '0' || s[i] > '9' {
			i++
			continue
		}
		n, neg := 0, i > 0 && s[i-1] == '-'
		for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			n = n*10 + int(s[i]-'0')
		}
		if neg {
			n = -n
		}
		out = append(out, n)
	}
	return out
}

// inOrder tells whether want appears in order (not necessarily adjacent) in have.
func inOrder(have, want []int) bool {
	for _, h := range have {
		if len(want) > 0 && h == want[0] {
			want = want[1:]
		}
	}
	return len(want) == 0
}

func trueDims(x interface{}) (shape, bool) {
	switch s := x.(type) {
	case sm.VectorConstraint:
		return trueDims(s.LeftHandSide)
	case sm.MatrixConstraint:
		return trueDims(s.LeftHandSide)
	}
	m, err := Den(x)
	if err != nil {
		return shape{}, false
	}
	return shape{m.R, m.C}, true
}

// dimensionError compares an error about dimensions with what was passed.
func (c *C) dimensionError(sig, text string, err error, ops []string, pairs [][2]shape) {
	var me smErrors.MatrixDimensionError
	var ve smErrors.VectorDimensionError
	fail := func(format string, a ...interface{}) {
		c.Sig(sig)
		c.Failf("%s: "+format, append([]interface{}{text}, a...)...)
	}
	var got [2]shape
	var op string
	var want func(p [2]shape) []int
	dims := func(x smErrors.MatrixLike) (s shape, ok bool) {
		if x == nil {
			return s, false
		}
		if d, isD := x.(interface{ shape() shape }); isD {
			return d.shape(), true
		}
		return trueDims(x)
	}
	var ok1, ok2 bool
	switch {
	case errors.As(err, &me):
		op = me.Operation
		got[0], ok1 = dims(me.Arg1)
		got[1], ok2 = dims(me.Arg2)
		want = func(p [2]shape) []int { return []int{p[0].r, p[0].c, p[1].r, p[1].c} }
	case errors.As(err, &ve):
		op = ve.Operation
		got[0], ok1 = dims(ve.Arg1)
		got[1], ok2 = dims(ve.Arg2)
		want = func(p [2]shape) []int { return []int{p[0].r, p[1].r} }
	default:
		fail("the refusal is no dimension error but %T: %s", err, err.Error())
		return
	}
	named := len(ops) == 0
	for _, o := range ops {
		named = named || strings.Contains(op, o)
	}
	if !named {
		fail("the dimension error names the operation %q", op)
		return
	}
	known := false
	for _, p := range pairs {
		known = known || (ok1 && ok2 && p == got)
	}
	if !known {
		fail("the dimension error is about operands of dimensions %v and %v", got[0], got[1])
		return
	}
	msg := err.Error()
	if !strings.Contains(msg, op) || !inOrder(ints(strings.Replace(msg, op, "", 1)), want(got)) {
		fail("the message does not tell operation and dimensions (%v, %v): %s", got[0], got[1], msg)
	}
}

// saysWhy judges the error a refused call of C16's misfits carries.
func (c *C) saysWhy(what, text string, o *Op, args []interface{}, res Res) {
	if !res.Panicked {
		return // C16
	}
	sig := "error of " + o.Name + " " + what
	fail := func(format string, a ...interface{}) {
		c.Sig(sig)
		c.Failf("%s: "+format, append([]interface{}{text}, a...)...)
	}
	err, isErr := res.PV.(error)
	if !isErr {
		fail("the refusal carries no error but %T", res.PV)
		return
	}
	printed := c.Do("Error", func() interface{} { return err.Error() })
	if printed.Panicked {
		fail("the error of the refusal cannot be printed: %s", printed.why())
		return
	}
	msg := printed.Val.(string)
	if strings.TrimSpace(msg) == "" {
		fail("the error of the refusal has no text")
		return
	}
	if res.Runtime && what != "index outside" {
		fail("refused by a run-time error: %s", msg)
		return
	}
	switch what {
	case "operands that do not fit":
		var pairs [][2]shape
		var names []string
		if es, ok := args[0].([]sm.Expression); ok {
			if len(es) == 0 {
				return
			}
			names = []string{o.Class}
			var ds []shape
			for _, e := range es {
				d, _ := trueDims(e)
				ds = append(ds, d)
			}
			for i := range ds {
				for j := range ds[:i] {
					if (o.Class == "HStack" && ds[i].r != ds[j].r) || (o.Class == "VStack" && ds[i].c != ds[j].c) {
						pairs = append(pairs, [2]shape{ds[j], ds[i]})
					}
				}
			}
		} else {
			a, ok1 := trueDims(args[0])
			b, ok2 := trueDims(args[1])
			if !ok1 || !ok2 {
				panic("no dimensions: " + text)
			}
			pairs = append(pairs, [2]shape{a, b})
			names = []string{o.Class}
			if o.Class == "Minus" {
				names = append(names, "Plus") // subtraction adds the negative
			}
			for i, s := range []sm.ConstrSense{sm.SenseLessThanEqual, sm.SenseGreaterThanEqual, sm.SenseEqual} {
				if o.Class == []string{"LessEq", "GreaterEq", "Eq"}[i] {
					names = []string{s.String()}
				}
			}
			if o.Class == "Comparison" {
				names = nil
				for _, a := range args {
					if s, ok := a.(sm.ConstrSense); ok {
						names = append(names, s.String())
					}
				}
			}
		}
		c.dimensionError(sig, text, err, names, pairs)
	case "index outside":
		var vi smErrors.InvalidVectorIndexError
		var mi smErrors.InvalidMatrixIndexError
		i, j := args[1].(int), 0
		if len(args) == 3 {
			j = args[2].(int)
		}
		var about smErrors.MatrixLike
		want := []int{i}
		switch {
		case errors.As(err, &vi):
			if vi.Index != i {
				fail("the error is about the index %d", vi.Index)
				return
			}
			about = vi.Expression
		case errors.As(err, &mi):
			if mi.RowIndex != i || mi.ColIndex != j {
				fail("the error is about the index (%d, %d)", mi.RowIndex, mi.ColIndex)
				return
			}
			about = mi.Expression
			want = append(want, j)
		default:
			return // Go's own or gonum's
		}
		d, ok := trueDims(about)
		t, _ := trueDims(args[0])
		if !ok || d != t {
			fail("the error is about something of dimensions %v", d)
			return
		}
		if !inOrder(ints(msg), append(want, t.r, t.c)) {
			fail("the message does not tell index and dimensions: %s", msg)
		}
	case "an argument that is no expression":
		var ue smErrors.UnsupportedInputError
		if errors.As(err, &ue) && reflect.TypeOf(ue.Input) != reflect.TypeOf(args[1]) {
			fail("the error is about an input of type %T", ue.Input)
			return
		}
		if !strings.Contains(msg, fmt.Sprintf("%T", args[1])) {
			fail("the message does not tell the type %T of the argument: %s", args[1], msg)
		}
	case "power of a non-square expression":
		c.exponentError(sig, text, err, args[1].(int), false)
	case "malformed operand":
		var told []string
		for _, a := range args {
			told = append(told, complaints(a)...)
		}
		for _, t := range told {
			if strings.Contains(msg, t) {
				return
			}
		}
		fail("the message does not tell what Check finds wrong (%q): %s", told, msg)
	}
}

// complaints lists what Check says about an argument and the parts of it.
func complaints(a interface{}) (out []string) {
	switch x := a.(type) {
	case []sm.Expression:
		for _, e := range x {
			out = append(out, complaints(e)...)
		}
		return out
	case map[sm.Variable]sm.Expression:
		for v, e := range x {
			out = append(append(out, complaints(v)...), complaints(e)...)
		}
		return out
	}
	if ch, ok := a.(interface{ Check() error }); ok {
		if err := ch.Check(); err != nil {
			out = append(out, err.Error())
		}
	}
	return out
}

func (c *C) exponentError(sig, text string, err error, n int, must bool) {
	var ne smErrors.NegativeExponentError
	if !errors.As(err, &ne) {
		if must {
			c.Sig(sig)
			c.Failf("%s: the refusal is no error about the exponent but %T: %s", text, err, err.Error())
		}
		return
	}
	if n >= 0 || ne.Exponent != n || !inOrder(ints(err.Error()), []int{n}) {
		c.Sig(sig)
		c.Failf("%s: the error tells the exponent %d: %s", text, ne.Exponent, err.Error())
	}
}

func (r *R) negativeExponents() {
	for _, k := range exprKinds {
		for _, t := range templates(k, 3, 0) {
			if t.R != t.C {
				continue
			}
			for n := -3; n < 0; n++ {
				t, n := t, n
				text := fmt.Sprintf("Power(%s, %d)", t, n)
				r.Case(func() string { return text }, func(c *C) {
					p, ok := t.New().(interface{ Power(int) sm.Expression })
					if !ok {
						return
					}
					res := c.Do("Power", func() interface{} { return p.Power(n) })
					if !res.Panicked {
						return
					}
					err, ok := res.PV.(error)
					if !ok || res.Runtime {
						c.Sig("error of Power")
						c.Failf("%s: refused with %v", text, res.PV)
						return
					}
					c.exponentError("error of Power", text, err, n, false)
				})
			}
		}
	}
}

func (d dimsOnly) shape() shape { return shape{d.r, d.c} }

// dimensionErrors judges the errors of the errors package on all dimension pairs.
func (r *R) dimensionErrors() {
	n := r.pick(5, 8)
	for i := 0; i < n*n; i++ {
		for j := 0; j < n*n; j++ {
			a, b := dimsOnly{1 + i/n, 1 + i%n}, dimsOnly{1 + j/n, 1 + j%n}
			r.Case(func() string { return fmt.Sprintf("errors about dimensions %v %v", a, b) }, func(c *C) {
				for m := 0; m < 4; m++ {
					var x, y smErrors.MatrixLike = a, b
					if m&1 != 0 {
						x = dimsVec{a}
					}
					if m&2 != 0 {
						y = dimsVec{b}
					}
					for _, f := range []struct {
						op  string
						err func() error
					}{
						{"Plus", func() error { return smErrors.CheckDimensionsInAddition(x, y) }},
						{"Minus", func() error { return smErrors.CheckDimensionsInSubtraction(x, y) }},
						{"Multiply", func() error { return smErrors.CheckDimensionsInMultiplication(x, y) }},
						{"<=", func() error { return smErrors.CheckDimensionsInComparison(x, y, "<=") }},
						{">=", func() error { return smErrors.CheckDimensionsInComparison(x, y, ">=") }},
						{"HStack", func() error { return smErrors.CheckDimensionsInHStack(x, y) }},
						{"VStack", func() error { return smErrors.CheckDimensionsInVStack(x, y) }},
					} {
						c.r.rep.Transitions++
						if err := f.err(); err != nil {
							c.dimensionError("errors package "+f.op, fmt.Sprintf("%s of %v and %v", f.op, a, b), err, []string{f.op}, [][2]shape{{shape(a), shape(b)}})
						}
					}
				}
				for i := -2; i <= a.r+2; i++ {
					var vi smErrors.InvalidVectorIndexError
					err := smErrors.CheckIndexOnVector(i, a)
					if err != nil && (!errors.As(err, &vi) || vi.Index != i || vi.Expression != smErrors.MatrixLike(a) || !inOrder(ints(err.Error()), []int{i, a.r, a.c})) {
						c.Sig("errors package index")
						c.Failf("CheckIndexOnVector(%d, %v) says %v", i, a, err)
					}
					for j := -2; j <= a.c+2; j++ {
						var mi smErrors.InvalidMatrixIndexError
						err := smErrors.CheckIndexOnMatrix(i, j, a)
						if err != nil && (!errors.As(err, &mi) || mi.RowIndex != i || mi.ColIndex != j || mi.Expression != smErrors.MatrixLike(a) || !inOrder(ints(err.Error()), []int{i, j, a.r, a.c})) {
							c.Sig("errors package index")
							c.Failf("CheckIndexOnMatrix(%d, %d, %v) says %v", i, j, a, err)
						}
					}
				}
			})
		}
	}
}

// checkComplaints compares what Check says about malformed values with them.
func (r *R) checkComplaints() {
	for _, k := range exprKinds {
		for _, b := range malformed(k, r.pick(0, 1)) {
			b := b
			r.Case(func() string { return "complaint about " + b.Text }, func(c *C) {
				v := b.New()
				res := c.Do("Check", func() interface{} { return v.(interface{ Check() error }).Check() })
				fail := func(format string, a ...interface{}) {
					c.Sig("complaint about " + k.String())
					c.Failf("%s: "+format, append([]interface{}{b.Text}, a...)...)
				}
				err, _ := res.Val.(error)
				if res.Panicked || err == nil {
					return // C22
				}
				res = c.Do("Error", func() interface{} { return err.Error() })
				if res.Panicked || strings.TrimSpace(res.Val.(string)) == "" {
					fail("the error of Check cannot be printed")
					return
				}
				msg := res.Val.(string)
				var cm smErrors.MatrixColumnMismatchError
				if errors.As(err, &cm) {
					rows := reflect.ValueOf(v)
					if rows.Kind() != reflect.Slice || cm.Row < 0 || cm.Row >= rows.Len() || rows.Index(cm.Row).Len() != cm.ActualNColumns || cm.ActualNColumns == cm.ExpectedNColumns ||
						!inOrder(ints(msg), []int{cm.ExpectedNColumns, cm.ActualNColumns, cm.Row}) {
						fail("Check says %s", msg)
						return
					}
					agree := false // some row has the expected number
					for i := 0; i < rows.Len(); i++ {
						agree = agree || rows.Index(i).Len() == cm.ExpectedNColumns
					}
					if !agree {
						fail("Check says %s", msg)
					}
				}
				if !tellsWhere(v, msg) {
					fail("Check does not tell where the fault is: %s", msg)
				}
				switch x := v.(type) {
				case sm.Monomial:
					if len(x.Exponents) != len(x.VariableFactors) && !inOrder(ints(msg), []int{len(x.Exponents), len(x.VariableFactors)}) {
						fail("Check does not tell the numbers of exponents and factors: %s", msg)
					}
				case sm.Variable:
					if !strings.Contains(msg, fmt.Sprint(x.Lower)) || !strings.Contains(msg, fmt.Sprint(x.Upper)) {
						fail("Check does not tell the bounds: %s", msg)
					}
				}
			})
		}
	}
}

// tellsWhere checks that the message tells the position of a malformed entry
// (of a vector, of a matrix with rows of equal length, of a polynomial),
// followed by what the entry's own Check says.
func tellsWhere(v interface{}, msg string) bool {
	type entry struct {
		at []int
		v  interface{}
	}
	var all []entry
	switch x := v.(type) {
	case sm.Polynomial:
		for i, m := range x.Monomials {
			all = append(all, entry{[]int{i}, m})
		}
	default:
		rows := reflect.ValueOf(v)
		if rows.Kind() != reflect.Slice {
			return true
		}
		for i := 0; i < rows.Len(); i++ {
			if rows.Type().Elem().Kind() != reflect.Slice {
				all = append(all, entry{[]int{i}, rows.Index(i).Interface()})
				continue
			}
			if rows.Index(i).Len() != rows.Index(0).Len() {
				return true
			}
			for j := 0; j < rows.Index(i).Len(); j++ {
				all = append(all, entry{[]int{i, j}, rows.Index(i).Index(j).Interface()})
			}
		}
	}
	some := false
	for _, e := range all {
		ch, ok := e.v.(interface{ Check() error })
		if !ok {
			continue
		}
		err := ch.Check()
		if err == nil {
			continue
		}
		some = true
		at := strings.LastIndex(msg, err.Error())
		if at >= 0 && inOrder(ints(msg[:at]), e.at) && tellsWhere(e.v, err.Error()) {
			return true
		}
	}
	return !some
}

// formRefused judges the error with which a constraint refuses a linear form.
func (c *C) formRefused(sig string, a, b *T, s sm.ConstrSense, rp linearRep, wrongSense, mustNot bool, res Res) {
	if !res.Panicked || !(wrongSense || mustNot) {
		return // C14
	}
	fail := func(format string, x ...interface{}) {
		c.Sig("error of " + sig)
		c.Failf("%s of %s: "+format, append([]interface{}{rp.name, constrStr(a, b, s)}, x...)...)
	}
	err, isErr := res.PV.(error)
	if !isErr || res.Runtime {
		fail("the refusal carries no error: %v", res.PV)
		return
	}
	printed := c.Do("Error", func() interface{} { return err.Error() })
	if printed.Panicked {
		fail("the error of the refusal cannot be printed: %s", printed.why())
		return
	}
	msg := printed.Val.(string)
	if !strings.Contains(msg, rp.name) {
		fail("the error does not name the operation: %s", msg)
		return
	}
	var notLinear smErrors.LinearExpressionRequiredError
	var notEq smErrors.EqualityConstraintRequiredError
	var notIneq smErrors.InequalityConstraintRequiredError
	switch {
	case errors.As(err, &notLinear):
		ok := notLinear.Operation == rp.name
		side := false
		for _, t := range []*T{a, b} {
			named := reflect.TypeOf(notLinear.Expression) == reflect.TypeOf(t.Proto) && strings.Contains(msg, fmt.Sprintf("%T", t.Proto))
			side = side || named && max(rawDegree(t.Proto, true), mDegree(t.D)) > 1 && reflect.DeepEqual(notLinear.Expression, t.Proto)
		}
		if !ok || !side {
			fail("the error is not about the side that is not linear: %s", msg)
		}
	case errors.As(err, &notEq):
		if !rp.eq || !wrongSense || notEq.Operation != rp.name {
			fail("the error asks for an equality: %s", msg)
		}
	case errors.As(err, &notIneq):
		if rp.eq || !wrongSense || notIneq.Operation != rp.name {
			fail("the error asks for an inequality: %s", msg)
		}
	}
}

// noVariables judges the refusals of linear coefficients with respect to no variables.
func (r *R) noVariables() {
	r.operands(operandBounds{fillLevel: 1, maxCells: r.pick(6, 12), positions: true, poly2: r.pick(7, 11), poly3: r.pick(5, 7), depth: 1, level: 0}, func(t *T) {
		if !hasLinearCoeff(t.Kind) {
			return
		}
		for _, args := range [][][]sm.Variable{{}, {{}}, {nil}} {
			args := args
			r.Case(func() string { return fmt.Sprintf("LinearCoeff(%s, %s)", t, Show(args)) }, func(c *C) {
				c.State(t.Proto)
				e := t.Expr()
				res := c.Do("LinearCoeff", func() interface{} { return linearCoeffOf(e, args...) })
				if !res.Panicked {
					return // C09
				}
				fail := func(format string, x ...interface{}) {
					c.Sig("error of LinearCoeff|" + t.Sig())
					c.Failf("LinearCoeff(%s, %s): "+format, append([]interface{}{t, Show(args)}, x...)...)
				}
				err, isErr := res.PV.(error)
				if !isErr || res.Runtime {
					fail("the refusal carries no error: %v", res.PV)
					return
				}
				printed := c.Do("Error", func() interface{} { return err.Error() })
				if printed.Panicked {
					fail("the error of the refusal cannot be printed: %s", printed.why())
				} else if !strings.Contains(printed.Val.(string), fmt.Sprintf("%T", e)) {
					fail("the error does not name the type of the expression: %s", printed.Val)
				}
			})
		}
	})
}

// noConversions judges the errors of conversions that are refused: they name the type.
func (r *R) noConversions() {
	var all []func() interface{}
	for k := Kind(0); k < nKinds; k++ {
		for _, t := range templates(k, r.pick(3, 4), 1) {
			all = append(all, t.New)
		}
	}
	for i := range strangers() {
		i := i
		all = append(all, func() interface{} { return strangers()[i] })
	}
	for _, cv := range convs() {
		for _, x := range all {
			cv, x := cv, x
			if r.skip() {
				continue
			}
			r.Case(func() string { return "To" + cv.name + " of " + Show(x()) }, func(c *C) {
				a := x()
				res := c.Do("To"+cv.name, func() interface{} {
					_, err := cv.to(a)
					return err
				})
				fail := func(format string, y ...interface{}) {
					c.Sig(fmt.Sprintf("error of To%s|%T", cv.name, a))
					c.Failf("To%s of %s: "+format, append([]interface{}{cv.name, Show(a)}, y...)...)
				}
				err, isErr := res.Val.(error)
				if res.Panicked {
					err, isErr = res.PV.(error)
					if !isErr || res.Runtime {
						fail("the refusal carries no error: %v", res.PV)
						return
					}
				} else if !isErr {
					return // C20
				}
				printed := c.Do("Error", func() interface{} { return err.Error() })
				if printed.Panicked {
					fail("the error of the refusal cannot be printed: %s", printed.why())
				} else if !strings.Contains(printed.Val.(string), fmt.Sprintf("%T", a)) {
					fail("the error does not name the type: %s", printed.Val)
				}
			})
		}
	}
}
