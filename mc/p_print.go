package main

// The printed form (C19): an independent reader of the printed text, written
// from the ordinary meaning of the notation, and the comparison of what it
// reads with what was printed.

import (
	"fmt"
	"strconv"
	"strings"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

func init() { props["C19"] = propPrinted }

// reader reads one printed text. names lists the names that may occur.
type reader struct {
	s     string
	pos   int
	names map[string]int
}

func (p *reader) ws() {
	for p.pos < len(p.s) && strings.ContainsRune(" \t\n\r", rune(p.s[p.pos])) {
		p.pos++
	}
}

func (p *reader) peek() byte {
	p.ws()
	if p.pos < len(p.s) {
		return p.s[p.pos]
	}
	return 0
}

func (p *reader) errorf(format string, a ...interface{}) error {
	at := p.s[min(p.pos, len(p.s)):]
	return fmt.Errorf("at %q: %s", at, fmt.Sprintf(format, a...))
}

func digit(b byte) bool { return b >= '0' && b <= '9' }

// number reads a decimal number with optional fraction and exponent.
func (p *reader) number() (float64, bool, error) {
	p.ws()
	i := p.pos
	for i < len(p.s) && (digit(p.s[i]) || p.s[i] == '.') {
		i++
	}
	if i == p.pos {
		return 0, false, nil
	}
	if i < len(p.s) && (p.s[i] == 'e' || p.s[i] == 'E') {
		j := i + 1
		if j < len(p.s) && (p.s[j] == '+' || p.s[j] == '-') {
			j++
		}
		if j < len(p.s) && digit(p.s[j]) {
			for j < len(p.s) && digit(p.s[j]) {
				j++
			}
			i = j
		}
	}
	f, err := strconv.ParseFloat(p.s[p.pos:i], 64)
	if err != nil {
		return 0, false, p.errorf("%v", err)
	}
	p.pos = i
	return f, true, nil
}

// name reads the longest name that continues as a name.
func (p *reader) name() (int, bool) {
	p.ws()
	i := p.pos
	if i >= len(p.s) || !(p.s[i] >= 'a' && p.s[i] <= 'z' || p.s[i] >= 'A' && p.s[i] <= 'Z') {
		return 0, false
	}
	best, idx := 0, 0
	for j := i + 1; j <= len(p.s) && j-i < 24; j++ {
		if k, ok := p.names[p.s[i:j]]; ok {
			best, idx = j, k
		}
	}
	if best == 0 || (best < len(p.s) && digit(p.s[best])) {
		return 0, false
	}
	p.pos = best
	return idx, true
}

// factor reads a number, a name or a bracketed sum, with an optional exponent.
func (p *reader) factor() (Poly, bool, error) {
	var out Poly
	if p.peek() == '(' {
		p.pos++
		e, err := p.sum()
		if err != nil {
			return nil, false, err
		}
		if p.peek() != ')' {
			return nil, false, p.errorf("no closing bracket")
		}
		p.pos++
		out = e
	} else if f, ok, err := p.number(); err != nil {
		return nil, false, err
	} else if ok {
		out = pConst(f)
	} else if i, ok := p.name(); ok {
		out = pVar(i)
	} else {
		return nil, false, nil
	}
	if p.peek() == '^' {
		p.pos++
		f, ok, err := p.number()
		if err != nil || !ok || f != float64(int(f)) || f > 250 {
			return nil, false, p.errorf("no natural number as exponent")
		}
		out = pPow(out, int(f))
	}
	return out, true, nil
}

// product reads factors written one after the other.
func (p *reader) product() (Poly, error) {
	out, ok, err := p.factor()
	if err != nil {
		return nil, err
	}
	if !ok {
		return nil, p.errorf("no term")
	}
	for {
		if p.peek() == '*' {
			p.pos++
			f, ok, err := p.factor()
			if err != nil || !ok {
				return nil, p.errorf("nothing after the product sign (%v)", err)
			}
			out = pMul(out, f)
			continue
		}
		f, ok, err := p.factor()
		if err != nil {
			return nil, err
		}
		if !ok {
			return out, nil
		}
		out = pMul(out, f)
	}
}

// sum reads signed terms.
func (p *reader) sum() (Poly, error) {
	out := Poly{}
	for n := 0; ; n++ {
		sign := 1.0
		switch p.peek() {
		case '+':
			p.pos++
		case '-':
			p.pos++
			sign = -1
		default:
			if n > 0 {
				return out, nil
			}
		}
		// one sign of its own in front of the term
		if n > 0 && p.peek() == '-' {
			p.pos++
			sign = -sign
		}
		t, err := p.product()
		if err != nil {
			return nil, err
		}
		out = pAdd(out, pScale(t, sign))
	}
}

// value reads a sum or a bracketed list of values; lists have at least one
// entry, separated by single commas.
type reading struct {
	list []reading
	p    Poly
}

func (p *reader) value() (reading, error) {
	if p.peek() != '[' {
		e, err := p.sum()
		return reading{p: e}, err
	}
	p.pos++
	out := reading{list: []reading{}}
	for {
		v, err := p.value()
		if err != nil {
			return out, err
		}
		out.list = append(out.list, v)
		switch p.peek() {
		case ',', ';':
			p.pos++
		case ']':
			p.pos++
			return out, nil
		default:
			return out, p.errorf("a list continues without a comma")
		}
	}
}

// readValue reads a whole printed expression; a label such as
// "PolynomialVector =" may precede a list.
func (p *reader) readValue() (*Mat, error) {
	if i := strings.IndexByte(p.s, '['); i > 0 {
		label := strings.TrimSpace(p.s[:i])
		label = strings.TrimSpace(strings.TrimRight(label, "=:"))
		for _, ch := range label {
			if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch == '*' || ch == '.') {
				return nil, p.errorf("the label %q", label)
			}
		}
		p.pos = i
	}
	v, err := p.value()
	if err != nil {
		return nil, err
	}
	if p.peek() != 0 {
		return nil, p.errorf("text left over")
	}
	if v.list == nil {
		return one(v.p), nil
	}
	if v.list[0].list == nil {
		m := newMat(len(v.list), 1)
		for i, x := range v.list {
			if x.list != nil {
				return nil, fmt.Errorf("a list among entries")
			}
			m.set(i, 0, x.p)
		}
		return m, nil
	}
	m := newMat(len(v.list), len(v.list[0].list))
	for i, row := range v.list {
		if len(row.list) != m.C {
			return nil, fmt.Errorf("row %d has %d entries, row 0 has %d", i, len(row.list), m.C)
		}
		for j, x := range row.list {
			if x.list != nil {
				return nil, fmt.Errorf("a list in row %d", i)
			}
			m.set(i, j, x.p)
		}
	}
	return m, nil
}

func readExpr(s string, names map[string]int) (*Mat, error) {
	return (&reader{s: s, names: names}).readValue()
}

// readRelation reads "left <= right", "left >= right" or "left = right".
func readRelation(s string, names map[string]int) (l, r *Mat, sense string, err error) {
	for _, rel := range []string{"<=", ">=", "==", "="} {
		i := strings.Index(s, rel)
		if i < 0 {
			continue
		}
		if l, err = readExpr(s[:i], names); err != nil {
			return nil, nil, "", err
		}
		if r, err = readExpr(s[i+len(rel):], names); err != nil {
			return nil, nil, "", err
		}
		if rel == "=" {
			rel = "=="
		}
		return l, r, rel, nil
	}
	return nil, nil, "", fmt.Errorf("no relation symbol in %q", s)
}

// exactEq is equality of every coefficient: printing does not round.
func exactEq(a, b *Mat) bool {
	if a.R != b.R || a.C != b.C {
		return false
	}
	for i := range a.E {
		for k, v := range a.E[i] {
			if b.E[i][k] != v {
				return false
			}
		}
		for k, v := range b.E[i] {
			if a.E[i][k] != v {
				return false
			}
		}
	}
	return true
}

// printing judges one printed expression.
func (r *R) printing(t *T, names map[string]int) {
	if r.skip() {
		return
	}
	sig := "String|" + t.Sig()
	r.Case(func() string { return fmt.Sprintf("String(%s)", t) }, func(c *C) {
		c.State(t.Proto)
		res := c.Do("String", func() interface{} { return t.New().(sm.Expression).String() })
		if !c.mustAccept(sig, res) {
			return
		}
		s := res.Val.(string)
		c.Sig(sig)
		got, err := readExpr(s, names)
		if err != nil {
			c.Failf("%q cannot be read back: %v", s, err)
			return
		}
		want := t.D
		if !exactEq(got, want) {
			c.Failf("%q reads as %s, not as %s", s, got, want)
		}
	})
}

// printedMonos yields monomials over every coefficient and list of factors.
func printedMonos(maxF int, coeffs []float64, vars, exps []int, f func(m sm.Monomial)) {
	var rec func(fs []int, used map[int]bool)
	rec = func(fs []int, used map[int]bool) {
		for _, c := range coeffs {
			f(mono(c, fs...))
		}
		if len(fs)/2 == maxF {
			return
		}
		for _, v := range vars {
			if used[v] {
				continue
			}
			used[v] = true
			for _, e := range exps {
				rec(append(append([]int{}, fs...), v, e), used)
			}
			used[v] = false
		}
	}
	rec(nil, map[int]bool{})
}

func propPrinted(r *R) {
	names := map[string]int{}
	for _, v := range vs {
		names[v.Name] = idxOf(v)
	}
	// every monomial over the coefficients, factors and exponents
	cs := []float64{0, 1, -1, 2, -2.5, 0.1, -0.1, 10, 1e6, -1e21, tiny, 1.0 / 3, 123456789.125, -1e-7}
	n := 0
	printedMonos(r.pick(2, 3), cs, []int{0, 1, 2, 10, 11, 12, 21}, []int{1, 2, 3, 10, 12}, func(m sm.Monomial) { n++; r.printing(mkT(m), names) })
	// every polynomial of one to three (four) such terms
	var ms []sm.Monomial
	for _, m := range []sm.Monomial{mono(0), mono(1), mono(-1), mono(2.5), mono(-3), mono(0, 0, 1), mono(1, 0, 1), mono(-1, 0, 1), mono(2, 1, 1), mono(-2, 1, 1), mono(1, 1, 2), mono(-1, 11, 2, 1, 1), mono(-0.5, 1, 1, 12, 3), mono(1e6, 10, 1), mono(-1e-7, 10, 12), mono(1.0/3, 2, 1)} {
		ms = append(ms, m)
	}
	var rec func(pre []sm.Monomial)
	rec = func(pre []sm.Monomial) {
		if len(pre) > 0 {
			if r.mine() {
				r.printing(mkT(poly(pre...)), names)
			} else {
				r.idx++
			}
		}
		if len(pre) == r.pick(4, 5) {
			return
		}
		for _, m := range ms {
			rec(append(append([]sm.Monomial{}, pre...), m))
		}
	}
	rec(nil)
	for _, v := range vs {
		r.printing(mkT(v), names)
	}
	for _, c := range cs {
		r.printing(mkT(sm.K(c)), names)
	}
	// every kind and shape, and everything the operations reach
	r.operands(operandBounds{fillLevel: r.pick(2, 3), maxCells: 16, positions: true, poly2: r.pick(11, 14), poly3: r.pick(7, 9), depth: r.pick(1, 2), level: r.pick(1, 0)}, func(t *T) { r.printing(t, names) })
	r.printingOfResults(names)
	// names chosen by the caller, which do not contain the identifier
	custom := map[int]string{0: "alpha_5", 1: "q_9", 2: "x_7", 11: "force_x", 12: "x_1"}
	named := map[string]int{}
	order := []int{0, 1, 2, 11, 12}
	cv := map[int]sm.Variable{}
	for _, i := range order {
		v := vs[i]
		v.ID, v.Name = uint64(200+i), custom[i]
		RegVar(v)
		cv[i] = v
		named[v.Name] = idxOf(v)
	}
	rename := func(m sm.Monomial) sm.Monomial {
		m = cloneMono(m, Exact)
		for i, v := range m.VariableFactors {
			m.VariableFactors[i] = cv[int(v.ID)]
		}
		return m
	}
	var cm []sm.Monomial
	printedMonos(2, []float64{0, 1, -1, 2.5}, []int{0, 1, 2, 11, 12}, []int{1, 2, 11}, func(m sm.Monomial) {
		m = rename(m)
		r.printing(mkT(m), named)
		if len(cm) < r.pick(40, 120) {
			cm = append(cm, m)
		}
	})
	for _, a := range cm {
		for _, b := range cm {
			r.printing(mkT(sm.Polynomial{Monomials: []sm.Monomial{a, b}}), named)
			r.printing(mkT(sm.MonomialVector{a, b}), named)
			r.printing(mkT(sm.MonomialMatrix{{a, b}}), named)
			r.printing(mkT(sm.PolynomialVector{poly(a), poly(b, a)}), named)
			r.printing(mkT(sm.PolynomialMatrix{{poly(a), poly(b, a)}, {poly(b), poly(a)}}), named)
		}
	}
	for _, i := range order {
		vi := cv[i]
		r.printing(mkT(vi), named)
		for _, j := range order {
			vj := cv[j]
			r.printing(mkT(sm.VariableVector{vi, vj}), named)
			r.printing(mkT(sm.VariableMatrix{{vi, vj}, {vj, vi}}), named)
		}
	}
	// scalar constraints
	r.scalarPairs(func(a, b *T) {
		for _, s := range senses {
			if r.skip() {
				continue
			}
			r.Case(func() string { return "String(" + constrStr(a, b, s) + ")" }, func(c *C) {
				sig := "String|ScalarConstraint " + a.Kind.String() + "," + b.Kind.String()
				res := c.Do("String", func() interface{} { return mkConstr(a, b, s).(sm.ScalarConstraint).String() })
				if !c.mustAccept(sig, res) {
					return
				}
				c.Sig(sig)
				txt := res.Val.(string)
				l, rr, rel, err := readRelation(txt, names)
				if err != nil {
					c.Failf("%q cannot be read back: %v", txt, err)
					return
				}
				if !exactEq(l, a.D) || !exactEq(rr, b.D) || rel != senseStr(s) {
					c.Failf("%q reads as %s %s %s, not as %s %s %s", txt, l, rel, rr, a.D, senseStr(s), b.D)
				}
			})
		}
	})
}
