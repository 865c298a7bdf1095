package main

// Properties over every exported operation: operands and earlier results stay
// unchanged (C03), acceptance depends on kinds and shapes only (C18), calls are
// repeatable (C21), results are well formed (C22).

import (
	"fmt"
	"reflect"
	"strings"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

func init() {
	props["C03"] = propUnchanged
	props["C18"] = propUniform
	props["C21"] = propRepeatable
}

func (r *R) pools() *Pools {
	if r.thorough() {
		return newPools(deepPools())
	}
	return newPools(quickPools())
}

// ------------------------------------------------------------------- C18

// uniformSig is the group within which an operation must be accepted always
// or never. Groups marked "ambiguous" hold operands about which mathematics
// and the terms as written disagree (0*x*y "is" linear); only crashes count
// there.
func uniformSig(o *Op, args []*V) string {
	s := callSig(o, args)
	rep := strings.Contains(o.Class, "Representation")
	if !rep {
		s = strings.ReplaceAll(s, "lin=true", "")
		s = strings.ReplaceAll(s, "lin=false", "")
	}
	tag := func(name string, a, b bool) {
		if a == b {
			s += fmt.Sprintf(" %s=%v", name, a)
		} else {
			s += fmt.Sprintf(" %s=ambiguous", name)
		}
	}
	switch {
	case rep:
		con := args[0].Proto.(sm.Constraint)
		l, r := con.Left(), con.Right()
		cd, err := denConstr(con)
		if err != nil {
			return s + " ambiguous"
		}
		d := cd.diff()
		tag("linear", mDegree(d) <= 1, rawDegree(l, true) <= 1 && rawDegree(r, true) <= 1)
		tag("hasvars", len(mVars(d)) > 0, len(appearing(l))+len(appearing(r)) > 0)
	case o.Class == "LinearCoeff" || o.Class == "PolynomialLikeVector_SharedLinearCoeffCalc":
		tag("hasvars", len(mVars(args[0].T.D)) > 0, len(appearing(args[0].Proto)) > 0)
	case o.Class == "ToVariable":
		m := args[0].Proto.(sm.Monomial)
		tag("isvariable", m.Coefficient == 1 && len(m.VariableFactors) == 1 && m.Exponents[0] == 1, m.Coefficient == 1 && mDegree(args[0].T.D) == 1)
	}
	return s
}

func propUniform(r *R) {
	rich := deepPools()
	rich.scalars, rich.fillLevel, rich.maxPerCls = 0, 3, r.pick(120, 0)
	binary := deepPools()
	if r.thorough() {
		binary.scalars, binary.maxPerCls = 0, 24
	}
	type group struct {
		keep  bool // this worker's case
		o     *Op
		sig   string
		calls [][]*V
	}
	byKey := map[string]*group{}
	var order []*group
	var unaryOps, binaryOps []*Op
	for _, o := range allOps() {
		n := 0
		for i, t := range o.In {
			if t == tIface || t == tExpr || t == tMatrix || t == tVector || t == tConstr || (i == 0 && o.Method) {
				n++
			}
		}
		if n > 1 {
			binaryOps = append(binaryOps, o)
		} else {
			unaryOps = append(unaryOps, o)
		}
	}
	collect := func(o *Op, args []*V) {
		if !fitsCall(o, args) {
			return
		}
		k := uniformSig(o, args)
		g := byKey[k]
		if g == nil {
			i := int64(len(order))
			g = &group{o: o, sig: k, keep: i == r.Only || (r.Only < 0 && int(i%int64(r.NShards)) == r.Shard)}
			byKey[k] = g
			order = append(order, g)
		}
		if g.keep {
			g.calls = append(g.calls, args)
		}
	}
	newPools(rich).Calls(unaryOps, collect)
	newPools(binary).Calls(binaryOps, collect)
	for _, g := range order {
		g := g
		r.Case(func() string { return fmt.Sprintf("%s: %d calls", g.sig, len(g.calls)) }, func(c *C) {
			var acc, ref []*V
			var why string
			try := func(args []*V, again string) {
				res := c.Do(g.o.Name, func() interface{} { return g.o.Call(newArgs(args, Exact)) })
				if res.Runtime {
					c.Sig("run-time error " + g.o.Name)
					c.Failf("%s%s: %s", callText(g.o, args), again, res.why())
					return
				}
				if res.Panicked {
					if ref == nil {
						ref, why = args, res.why()
					}
				} else if acc == nil {
					acc = args
				}
				if acc != nil && ref != nil && !strings.Contains(g.sig, "ambiguous") && len(c.fail) == 0 {
					c.Sig("not uniform " + g.o.Name)
					c.Failf("%s is accepted but %s%s is refused: %s", callText(g.o, acc), callText(g.o, ref), again, why)
				}
			}
			for _, args := range g.calls {
				for _, a := range args {
					if a.T != nil {
						c.r.addState(hash64(Key(a.Proto, false)))
					}
				}
				try(args, "")
				if len(c.fail) > 0 {
					return
				}
			}
			// again, now that other operations were executed
			n := len(g.calls)
			for _, i := range []int{0, n / 2, n - 1} {
				try(g.calls[i], " (again, after other calls)")
			}
		})
	}
}

// ------------------------------------------------------------------- C21

func (c *C) observe(o *Op, args []interface{}) (out string, res Res) {
	res = c.Do(o.Name, func() interface{} { return o.Call(args) })
	if res.Panicked {
		return "refused", res
	}
	return shownResult(res.Val), res
}

func propRepeatable(r *R) {
	p := r.pools()
	type call struct {
		o    *Op
		args []*V
	}
	var prev []call
	p.Calls(allOps(), func(o *Op, args []*V) {
		cur := call{o, args}
		if !r.mine() || r.stopped {
			r.idx++
			return
		}
		noise := prev
		r.Case(func() string { return callText(o, args) }, func(c *C) {
			setMapSeed(0)
			first, _ := c.observe(o, newArgs(args, Exact))
			c.r.addState(hash64(first))
			c.r.caseHash(hash64(first))
			if r.Replica > 0 {
				return // only the comparison with the other process
			}
			check := func(when, got string) bool {
				if got != first {
					c.Sig("not repeatable " + o.Name)
					c.Failf("%s gives %s %s, at first it gave %s", o.Name, got, when, first)
					return false
				}
				return true
			}
			step := 1
			if wideArgs(args) && !r.thorough() {
				step = 4
			}
			for seed := 1; seed < 8; seed += step {
				setMapSeed(uint64(seed))
				got, _ := c.observe(o, newArgs(args, Exact))
				if !check(fmt.Sprintf("with map iteration start %d", seed), got) {
					return
				}
			}
			setMapSeed(0)
			// the same operand objects again
			same := newArgs(args, Spare)
			got, _ := c.observe(o, same)
			if !check("for operands with spare capacity", got) {
				return
			}
			got, _ = c.observe(o, same)
			if !check("when called again on the same objects", got) {
				return
			}
			for i, n := range noise {
				if step > 1 && i > 0 {
					break
				}
				c.Do(n.o.Name, func() interface{} { return n.o.Call(newArgs(n.args, Exact)) })
				got, _ = c.observe(o, newArgs(args, Exact))
				if !check("after "+callText(n.o, n.args), got) {
					return
				}
			}
		})
		prev = append(prev, cur)
		if len(prev) > 3 {
			prev = append([]call{}, prev[1:]...)
		}
	})
	if r.Replica > 0 {
		return
	}
	// every operation after every other one, on few operands
	all := fewCalls(p, 2)
	r.rep.Notes = append(r.rep.Notes, fmt.Sprintf("pairs of operations: %d x %d", len(all), len(all)))
	for i := range all {
		for j := range all {
			if !r.mine() || r.stopped {
				r.idx++
				continue
			}
			x, y := all[i], all[j]
			r.Case(func() string { return callText(x.o, x.args) + " after " + callText(y.o, y.args) }, func(c *C) {
				a, _ := c.observe(x.o, newArgs(x.args, Exact))
				c.observe(y.o, newArgs(y.args, Exact))
				b, _ := c.observe(x.o, newArgs(x.args, Exact))
				if a != b {
					c.Sig("not repeatable " + x.o.Name)
					c.Failf("%s gives %s, before %s it gave %s", x.o.Name, b, callText(y.o, y.args), a)
				}
			})
		}
	}
}

// wideArgs tells calls with two or more operands and many terms.
func wideArgs(args []*V) bool {
	n, k := 0, 0
	for _, a := range args {
		if a.T != nil {
			k++
			n += nTerms(a.Proto)
		}
	}
	return k >= 2 && n > 20
}

type opCall struct {
	o    *Op
	args []*V
}

// fewCalls picks n calls per operation, spread over its calls.
func fewCalls(p *Pools, n int) []opCall {
	var out []opCall
	for _, o := range allOps() {
		var cs []opCall
		p.Calls([]*Op{o}, func(o *Op, args []*V) {
			if fitsCall(o, args) {
				cs = append(cs, opCall{o, args})
			}
		})
		for i := 0; i < n && len(cs) > 0; i++ {
			out = append(out, cs[(2*i+1)*len(cs)/(2*n)])
		}
	}
	return out
}

// ------------------------------------------------------------------- C03

func argKeys(args []interface{}) []string {
	out := make([]string, len(args))
	for i, a := range args {
		out[i] = Key(a, true)
	}
	return out
}

// scribbler knows how to overwrite the parts of a value.
func overwriteParts(e interface{}) {
	switch s := e.(type) {
	case sm.Monomial:
		for i := range s.Exponents {
			s.Exponents[i] += 5
		}
		for i := range s.VariableFactors {
			s.VariableFactors[i] = canaryVar
		}
	case sm.Polynomial:
		for i := range s.Monomials {
			overwriteParts(s.Monomials[i])
			s.Monomials[i] = canaryMono()
		}
	case sm.VariableVector:
		for i := range s {
			s[i] = canaryVar
		}
	}
}

func propUnchanged(r *R) {
	p := r.pools()
	ops := allOps()
	// every single call, exact and spare layout
	p.Calls(ops, func(o *Op, args []*V) {
		if !r.mine() || r.stopped {
			r.idx++
			return
		}
		r.Case(func() string { return callText(o, args) }, func(c *C) {
			for _, l := range []Layout{Exact, Spare} {
				objs := newArgs(args, l)
				before := argKeys(objs)
				c.r.addState(hash64(strings.Join(before, "|")))
				res := c.Do(o.Name, func() interface{} { return o.Call(objs) })
				var rk string
				if !res.Panicked {
					rk = Key(res.Val, false)
				}
				after := argKeys(objs)
				for i := range before {
					if before[i] != after[i] {
						c.Sig("operand changed " + o.Name)
						c.Failf("%s changes its operand %d: %s becomes %s (layout %d)", o.Name, i, before[i], after[i], l)
						return
					}
				}
				// one object in several operand positions
				if len(objs) >= 2 && l == Spare && args[0].T != nil && args[1].T != nil && reflect.TypeOf(args[0].Proto).AssignableTo(o.In[1]) && args[0].Sig == args[1].Sig {
					c.Do(o.Name, func() interface{} { return o.Call(append([]interface{}{objs[0], objs[0]}, objs[2:]...)) })
					if k := Key(objs[0], true); k != before[0] {
						c.Sig("operand changed " + o.Name)
						c.Failf("%s of a value with itself changes it: %s becomes %s", o.Name, before[0], k)
						return
					}
					if !res.Panicked && Key(res.Val, false) != rk {
						c.Sig("earlier result changed " + o.Name)
						c.Failf("a second %s changes the result of the first", o.Name)
					}
				}
			}
		})
	})
	// deep copies
	for _, v := range p.exprs {
		m := reflect.ValueOf(v.Proto).MethodByName("Copy")
		if !m.IsValid() {
			continue
		}
		v := v
		for _, l := range []Layout{Exact, Spare} {
			l := l
			r.Case(func() string { return "Copy of " + v.Text }, func(c *C) {
				orig := v.NewL(l)
				want := Key(orig, false)
				cp := reflect.ValueOf(orig).MethodByName("Copy").Call(nil)[0].Interface()
				if k := Key(cp, false); k != want {
					c.Sig("copy differs")
					c.Failf("the copy is %s", k)
				}
				overwriteParts(orig)
				if k := Key(cp, false); k != want {
					c.Sig("copy shares memory")
					c.Failf("after overwriting the original the copy reads %s, it was %s", k, want)
				}
				orig2 := v.NewL(l)
				cp2 := reflect.ValueOf(orig2).MethodByName("Copy").Call(nil)[0].Interface()
				k0 := Key(orig2, true)
				overwriteParts(cp2)
				if k := Key(orig2, true); k != k0 {
					c.Sig("copy shares memory")
					c.Failf("after overwriting the copy the original reads %s, it was %s", k, k0)
				}
			})
		}
	}
	r.sequences(p, ops)
	r.triples(p, ops)
}

// triples explores every sequence of three operations of the algebra in which
// each one works on the base value or on an earlier result (as receiver, and
// where it fits as second operand).
func (r *R) triples(p *Pools, ops []*Op) {
	var alg []*Op
	for _, o := range ops {
		switch o.Class {
		case "Plus", "Minus", "Multiply", "DerivativeWrt", "Substitute", "SubstituteAccordingTo", "Power", "AsSimplifiedExpression", "Simplify", "Transpose", "Copy", "ToMonomial", "ToPolynomial", "ToMonomialVector", "ToPolynomialVector", "ToMonomialMatrix", "ToPolynomialMatrix", "At", "AtVec", "Variables", "Eq", "ScaleBy", "AsSimplifiedConstraint":
			if o.Method {
				alg = append(alg, o)
			}
		}
	}
	value := func(res interface{}) *V {
		switch x := res.(type) {
		case sm.Expression:
			if _, err := Den(x); err != nil {
				return nil
			}
			t := mkT(Clone(x, Exact))
			if nTerms(t.Proto) > 24 || mDegree(t.D) > 6 {
				return nil
			}
			v := vOfT(t)
			v.Text = "r"
			return v
		case sm.Constraint:
			return &V{Proto: Clone(x, Exact), Text: "r"}
		}
		return nil
	}
	run := func(o *Op, a []interface{}) (v interface{}) {
		defer func() { recover() }()
		return o.Call(a)
	}
	bases := r.seqBases(p)
	perSig := map[string]int{}
	for _, base := range bases {
		base := base
		if base.T == nil || base.T.R*base.T.C > 2 || perSig[base.Sig] >= r.pick(2, 5) || nTerms(base.Proto) > 6 {
			continue
		}
		perSig[base.Sig]++
		for _, u1 := range unaryCalls(alg, p, base, 1) {
			u1 := u1
			v1 := value(run(u1.o, newArgs(u1.args, Exact)))
			if v1 == nil {
				continue
			}
			for _, u2 := range unaryCalls(alg, p, v1, 1) {
				u2 := u2
				self := len(u2.args) > 1 && u2.o.In[1] == tIface && u2.args[1].Sig == base.Sig
				v2 := value(run(u2.o, newArgs(u2.args, Exact)))
				if v2 == nil {
					continue
				}
				for who, v := range []*V{base, v1, v2} {
					who := who
					for _, u3 := range unaryCalls(alg, p, v, 1) {
						u3 := u3
						if !r.mine() || r.stopped {
							r.idx++
							continue
						}
						r.Case(func() string {
							return "r1 = " + callText(u1.o, u1.args) + "; r2 = " + callText(u2.o, u2.args) + fmt.Sprintf("; on %d: ", who) + callText(u3.o, u3.args)
						}, func(c *C) {
							for _, l := range []Layout{Exact, Spare} {
								a1 := newArgs(u1.args, l)
								r1 := c.Do(u1.o.Name, func() interface{} { return u1.o.Call(a1) })
								if r1.Panicked || reflect.TypeOf(r1.Val) != reflect.TypeOf(v1.Proto) {
									return
								}
								a2 := newArgs(u2.args, l)
								a2[0] = r1.Val
								if self {
									a2[1] = a1[0]
								}
								r2 := c.Do(u2.o.Name, func() interface{} { return u2.o.Call(a2) })
								if r2.Panicked || reflect.TypeOf(r2.Val) != reflect.TypeOf(v2.Proto) {
									return
								}
								a3 := newArgs(u3.args, l)
								a3[0] = []interface{}{a1[0], r1.Val, r2.Val}[who]
								all := append(append(append([]interface{}{r1.Val, r2.Val}, a1...), a2...), a3...)
								before := argKeys(all)
								r3 := c.Do(u3.o.Name, func() interface{} { return u3.o.Call(a3) })
								if !r3.Panicked {
									c.r.addState(hash64(Key(r3.Val, false)))
								}
								for i, k := range argKeys(all) {
									if k != before[i] {
										c.Sig("earlier value changed " + u3.o.Name)
										c.Failf("after r1 = %s and r2 = %s, %s changes value %d (0, 1: the results; then the operands): %s becomes %s", u1.o.Name, u2.o.Name, u3.o.Name, i, before[i], k)
										return
									}
								}
							}
						})
					}
				}
			}
		}
	}
}

// unaryCalls lists the calls that take the given value first, the remaining
// operands from small pools whose dimensions fit where possible.
func unaryCalls(ops []*Op, p *Pools, v *V, few int) []opCall {
	var out []opCall
	ty := reflect.TypeOf(v.Proto)
	for _, o := range ops {
		if len(o.In) == 0 {
			continue
		}
		if o.Method {
			if o.In[0] != ty {
				continue
			}
		} else if !(o.In[0].Kind() == reflect.Interface && ty.Implements(o.In[0])) {
			continue
		}
		if !o.Method && (strings.HasPrefix(o.Class, "Is") || strings.HasPrefix(o.Class, "To") || strings.HasPrefix(o.Class, "Check")) {
			continue
		}
		var rec func(i int, args []*V)
		rec = func(i int, args []*V) {
			if i == len(o.In) {
				if v.T == nil || fitsCall(o, args) {
					out = append(out, opCall{o, args})
				}
				return
			}
			pool := p.pool(o, i, args)
			n := 0
			kinds := map[string]int{}
			for _, x := range pool {
				if i == 1 && o.In[1] == tIface {
					// one operand per kind and fitting shape
					if x.T == nil || kinds[x.Sig] > 0 || x.T.Kind.isRaw() {
						continue
					}
					if !fitsCall(o, append(args[:1:1], x)) {
						continue
					}
					kinds[x.Sig]++
					if len(kinds) > 4*few {
						break
					}
				} else if n >= few {
					break
				}
				n++
				rec(i+1, append(args[:i:i], x))
			}
		}
		rec(1, []*V{v})
	}
	return out
}

// sequences explores every sequence of two operations in which the second
// works on the first one's operand or result, or on both.
func (r *R) sequences(p *Pools, ops []*Op) {
	var seqOps []*Op
	for _, o := range ops {
		switch o.Class {
		case "Dims", "Len", "Length", "Check", "Degree", "IsConstant", "IsZero", "IsVariable", "IsConstantVector", "ConstrSense", "LessEq", "GreaterEq", "Eq", "FindInSlice":
			continue
		}
		seqOps = append(seqOps, o)
	}
	bases := r.seqBases(p)
	few := r.pick(1, 2)
	for _, base := range bases {
		base := base
		first := unaryCalls(seqOps, p, base, r.pick(2, 3))
		for _, u1 := range first {
			u1 := u1
			// what does the first operation return?
			var proto interface{}
			func() {
				defer func() { recover() }()
				v := u1.o.Call(newArgs(u1.args, Exact))
				switch v.(type) {
				case sm.Expression, sm.Constraint:
					proto = Clone(v, Exact)
				}
			}()
			if proto == nil {
				continue
			}
			rv := &V{Proto: proto, Text: "r1"}
			if e, ok := proto.(sm.Expression); ok {
				if _, err := Den(e); err != nil {
					continue
				}
				rv.T = mkT(e)
				rv.Sig = vOfT(rv.T).Sig
			}
			type second struct {
				opCall
				src []int // -1: fresh, 0: base, 1: first result, 2: the first call's second operand
			}
			var seconds []second
			for _, u := range unaryCalls(seqOps, p, rv, few) {
				src := make([]int, len(u.args))
				for i := range src {
					src[i] = -1
				}
				src[0] = 1
				seconds = append(seconds, second{u, src})
				if len(u.args) >= 2 && u.o.In[1] == tIface && u.args[1].Sig == base.Sig {
					s2 := append([]int{}, src...)
					s2[1] = 0
					seconds = append(seconds, second{u, s2})
					s3 := append([]int{}, src...)
					s3[1] = 1
					if rv.Sig == base.Sig {
						seconds = append(seconds, second{u, s3})
					}
				}
			}
			for _, u := range unaryCalls(seqOps, p, base, few) {
				src := make([]int, len(u.args))
				for i := range src {
					src[i] = -1
				}
				src[0] = 0
				seconds = append(seconds, second{u, src})
				if len(u.args) >= 2 && u.o.In[1] == tIface && u.args[1].Sig == rv.Sig {
					s2 := append([]int{}, src...)
					s2[1] = 1
					seconds = append(seconds, second{u, s2})
				}
			}
			for _, u2 := range seconds {
				u2 := u2
				if !r.mine() || r.stopped {
					r.idx++
					continue
				}
				r.Case(func() string {
					return "r1 = " + callText(u1.o, u1.args) + "; " + u2.o.Name + fmt.Sprint(u2.src) + " " + callText(u2.o, u2.args)
				}, func(c *C) {
					for _, l := range []Layout{Exact, Spare} {
						a := newArgs(u1.args, l)
						res1 := c.Do(u1.o.Name, func() interface{} { return u1.o.Call(a) })
						if res1.Panicked {
							return
						}
						b := newArgs(u2.args, l)
						for i, s := range u2.src {
							switch s {
							case 0:
								b[i] = a[0]
							case 1:
								if reflect.TypeOf(res1.Val) == nil || !reflect.TypeOf(res1.Val).AssignableTo(u2.o.In[i]) {
									return
								}
								b[i] = res1.Val
							}
						}
						ka, kb, kr := argKeys(a), argKeys(b), Key(res1.Val, true)
						c.r.addState(hash64(kr))
						res2 := c.Do(u2.o.Name, func() interface{} { return u2.o.Call(b) })
						k2 := ""
						if !res2.Panicked {
							k2 = Key(res2.Val, false)
						}
						c.r.addState(hash64(k2))
						na, nb, nr := argKeys(a), argKeys(b), Key(res1.Val, true)
						for i := range ka {
							if ka[i] != na[i] {
								c.Sig("operand changed " + u2.o.Name)
								c.Failf("after r1 = %s, %s changes operand %d of the first call: %s becomes %s", u1.o.Name, u2.o.Name, i, ka[i], na[i])
							}
						}
						for i := range kb {
							if kb[i] != nb[i] {
								c.Sig("operand changed " + u2.o.Name)
								c.Failf("after r1 = %s, %s changes its operand %d: %s becomes %s", u1.o.Name, u2.o.Name, i, kb[i], nb[i])
							}
						}
						if kr != nr {
							c.Sig("earlier result changed " + u2.o.Name)
							c.Failf("%s changes the result of the earlier %s: %s becomes %s", u2.o.Name, u1.o.Name, kr, nr)
						}
						if len(c.fail) > 0 {
							return
						}
					}
				})
			}
		}
	}
}

// seqBases picks the values the sequences start from.
func (r *R) seqBases(p *Pools) []*V {
	perSig := map[string]int{}
	var out []*V
	for _, v := range p.exprs {
		n := r.pick(1, 2)
		if v.T.Kind.isScalar() {
			n = r.pick(5, 12)
		} else if v.T.R*v.T.C > r.pick(4, 6) {
			continue
		}
		if perSig[v.Sig] < n {
			perSig[v.Sig]++
			out = append(out, v)
		}
	}
	step := r.pick(17, 5)
	for i := 0; i < len(p.constrs); i += step {
		out = append(out, p.constrs[i])
	}
	return out
}
