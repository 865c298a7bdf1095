package main

import (
	"fmt"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

func init() {
	props["C01"] = propPlusMinus
	props["C02"] = propMultiply
	props["C08"] = propPower
}

// value compares a result with the reference.
func (c *C) value(sig string, v interface{}, want *Mat) {
	if c.valueNoDims(sig, v, want) {
		if d, ok := v.(interface{ Dims() []int }); ok {
			dims := d.Dims()
			if len(dims) != 2 || dims[0] != want.R || dims[1] != want.C {
				c.Sig("dims " + sig)
				c.Failf("%s: reported dimensions %v, expected %dx%d", sig, dims, want.R, want.C)
			}
		}
	}
}

func (c *C) valueNoDims(sig string, v interface{}, want *Mat) bool {
	c.State(v)
	got, err := Den(v)
	if err != nil {
		c.Sig("malformed " + sig)
		c.Failf("%s: result %s: %v", sig, Show(v), err)
		return false
	}
	if got.R != want.R || got.C != want.C {
		c.Sig("dims " + sig)
		c.Failf("%s: result %s has dimensions %dx%d, expected %dx%d", sig, Show(v), got.R, got.C, want.R, want.C)
		return false
	}
	if !mEq(got, want) {
		c.Sig("wrong " + sig)
		c.Failf("%s: result %s denotes %v, expected %v", sig, Show(v), got, want)
		return false
	}
	return true
}

func arg(t *T) interface{} { return t.New() }

// binSig is the support signature of a binary operation.
func binSig(op string, a, b *T) string {
	s := op + "|" + a.Sig() + "|" + b.Sig()
	return s
}

// binCase runs one binary operation and judges it.
func fitsAdd(a, b *T) bool {
	return (a.R == b.R && a.C == b.C) || a.D.isScalar() || b.D.isScalar()
}

func fitsMul(a, b *T) bool { return a.C == b.R || a.D.isScalar() || b.D.isScalar() }

func (r *R) binCase(op string, a, b *T, ref func(x, y *Mat) (*Mat, bool), call func(x sm.Expression, y interface{}) interface{}) {
	if !r.mine() || r.stopped {
		r.idx++
		return
	}
	want, _ := ref(a.D, b.D)
	sig := binSig(op, a, b)
	r.Case(func() string { return fmt.Sprintf("%s(%s, %s)", op, a, b) }, func(c *C) {
		c.r.addState(hash64(Key(a.Proto, false)))
		c.r.addState(hash64(Key(b.Proto, false)))
		res := c.Do(op, func() interface{} { return call(a.Expr(), b.New()) })
		if c.Accept(sig, res) {
			c.value(sig, res.Val, want)
		}
	})
}

func (r *R) plusMinus(a, b *T) {
	if !fitsAdd(a, b) {
		return
	}
	r.binCase("Plus", a, b, mAdd, func(x sm.Expression, y interface{}) interface{} { return x.Plus(y) })
	r.binCase("Minus", a, b, mSub, func(x sm.Expression, y interface{}) interface{} { return x.Minus(y) })
	if !b.Kind.isRaw() {
		r.binCase("symbolic.Minus", a, b, mSub, func(x sm.Expression, y interface{}) interface{} { return sm.Minus(x, y.(sm.Expression)) })
	}
}

func (r *R) multiply(a, b *T) {
	if !fitsMul(a, b) {
		return
	}
	r.binCase("Multiply", a, b, mMul, func(x sm.Expression, y interface{}) interface{} { return x.Multiply(y) })
}

// pairsOf enumerates the operand pairs of a binary operation: all scalar
// pairs, all vector and matrix pairs over the fill patterns, broadcasts,
// systematically enumerated polynomials, and reachable states of the universe.
func (r *R) pairsOf(op func(a, b *T), fits func(a, b *T) bool) {
	maxDim := r.pick(4, 7)
	// scalars x scalars (every curated value)
	var sc []*T
	for _, k := range []Kind{KK, KVar, KMono, KPoly} {
		sc = append(sc, scalarTs(k, 0)...)
	}
	raw := append(scalarTs(KFloat, 0), scalarTs(KInt, 0)...)
	for _, a := range sc {
		for _, b := range append(append([]*T{}, sc...), raw...) {
			op(a, b)
		}
	}
	// vectors and matrices: same kinds of patterns on both sides
	type ks struct {
		k    Kind
		r, c int
	}
	rich := map[ks][]*T{}
	poor := map[ks][]*T{}
	get := func(k Kind, rr, cc int) (a, b []*T) {
		key := ks{k, rr, cc}
		if _, ok := rich[key]; !ok {
			lv := 2
			if rr*cc > 6 && !r.thorough() {
				lv = 1
			}
			rich[key] = fills(k, rr, cc, lv)
			poor[key] = fills(k, rr, cc, 1)
		}
		return rich[key], poor[key]
	}
	shapesOf := func(k Kind) []shape {
		var out []shape
		if k.isScalar() {
			return nil
		}
		if k.isVector() {
			for _, n := range vecLens {
				if n <= maxDim || n == 7 {
					out = append(out, shape{n, 1})
				}
			}
			return out
		}
		for _, s := range matShapes {
			if s.r <= maxDim+1 && s.c <= maxDim+1 {
				out = append(out, s)
			}
		}
		return out
	}
	for _, ka := range exprKinds {
		for _, kb := range allKinds {
			for _, sa := range shapesOf(ka) {
				for _, sb := range shapesOf(kb) {
					ra, pa := get(ka, sa.r, sa.c)
					rb, pb := get(kb, sb.r, sb.c)
					if !fits(ra[0], rb[0]) {
						continue
					}
					for _, a := range ra {
						for _, b := range pb {
							op(a, b)
						}
					}
					for _, a := range pa {
						for _, b := range rb[:] {
							op(a, b)
						}
					}
				}
			}
		}
	}
	// scalars with vectors and matrices, both ways
	for _, kv := range allKinds {
		for _, sv := range shapesOf(kv) {
			rv, pv := get(kv, sv.r, sv.c)
			for _, ksc := range []Kind{KK, KVar, KMono, KPoly, KFloat, KInt} {
				few := scalarTs(ksc, r.pick(9, 20))
				all := scalarTs(ksc, 0)
				for _, x := range []struct{ s, v []*T }{{few, rv}, {all, pv[:min(3, len(pv))]}} {
					for _, s := range x.s {
						for _, v := range x.v {
							if !s.Kind.isRaw() {
								op(s, v)
							}
							if !v.Kind.isRaw() {
								op(v, s)
							}
						}
					}
				}
			}
		}
	}
	// many factors, terms and variables
	var wide []*T
	for _, k := range []Kind{KVar, KMono, KPoly} {
		wide = append(wide, wideScalars(k)...)
	}
	for _, a := range wide {
		for _, b := range wide {
			op(a, b)
		}
		for _, b := range sc {
			op(a, b)
			op(b, a)
		}
		for _, b := range raw {
			op(a, b)
		}
		for _, k := range allKinds {
			if k.isScalar() {
				continue
			}
			b := fills(k, 3, 1, 1)[0]
			if k.isMatrix() {
				b = fills(k, 2, 3, 1)[0]
			}
			op(a, b)
			if !k.isRaw() {
				op(b, a)
			}
		}
	}
	// one entry that differs, at every position
	for _, ka := range exprKinds {
		for n, a := range needleTs(ka) {
			for _, kb := range allKinds {
				if kb.isScalar() {
					ss := scalarTs(kb, 2)
					b := ss[n%len(ss)]
					op(a, b)
					if !kb.isRaw() {
						op(b, a)
					}
					continue
				}
				seen := map[shape]bool{}
				for _, s := range []shape{{a.R, a.C}, {a.C, 1}, {1, a.R}} {
					if seen[s] || kb.isVector() && s.c != 1 {
						continue
					}
					seen[s] = true
					b := fills(kb, s.r, s.c, 1)[0]
					if fits(a, b) {
						op(a, b)
					}
					if !kb.isRaw() && fits(b, a) {
						op(b, a)
					}
				}
			}
		}
	}
	// big shapes
	for _, ka := range allKinds {
		for _, a := range bigTs(ka) {
			for _, kb := range allKinds {
				if ka.isRaw() && kb.isRaw() {
					continue
				}
				if kb.isScalar() {
					for _, b := range scalarTs(kb, 2) {
						if !ka.isRaw() {
							op(a, b)
						}
						if !kb.isRaw() {
							op(b, a)
						}
					}
					continue
				}
				sh := []shape{{a.R, a.C}, {a.C, a.R}, {a.C, 1}, {1, a.R}, {a.C, 2}}
				seen := map[shape]bool{}
				for _, s := range sh {
					if seen[s] || kb.isVector() && s.c != 1 || s.r*s.c > 36 {
						continue
					}
					seen[s] = true
					b := fills(kb, s.r, s.c, 1)[0]
					if !ka.isRaw() && fits(a, b) {
						op(a, b)
					}
					if !kb.isRaw() && fits(b, a) {
						op(b, a)
					}
				}
			}
		}
	}
	// every alphabet entry at every position (fills level 3) against one partner
	for _, ka := range []Kind{KKV, KVV, KMV, KPV, KKM, KVM, KMM, KPM} {
		sh := []shape{{3, 1}}
		if ka.isMatrix() {
			sh = []shape{{2, 3}, {3, 2}, {2, 2}}
		}
		for _, s := range sh {
			l3 := fills(ka, s.r, s.c, 3)
			for _, kb := range []Kind{KKV, KVV, KMV, KPV, KKM, KVM, KMM, KPM} {
				for _, sb := range []shape{{3, 1}, {2, 3}, {3, 2}, {2, 2}, {1, 3}} {
					if kb.isVector() != (sb.c == 1) {
						continue
					}
					b := fills(kb, sb.r, sb.c, 1)[0]
					if fits(l3[0], b) {
						for _, a := range l3 {
							op(a, b)
						}
					}
					if fits(b, l3[0]) {
						for _, a := range l3 {
							op(b, a)
						}
					}
				}
			}
		}
	}
	// systematically enumerated polynomials
	ms := sysMonos(r.pick(7, 11), 1, -1)
	var p2 []*T
	sysPolys(ms, 2, func(p sm.Polynomial) { p2 = append(p2, mkT(p)) })
	for _, a := range p2 {
		for _, b := range p2 {
			op(a, b)
		}
	}
	ms3 := sysMonos(r.pick(6, 9), 1, -1, 2)
	var rhs []*T
	for _, m := range ms3 {
		rhs = append(rhs, mkT(m))
	}
	rhs = append(rhs, mkT(vX), mkT(vY), mkT(sm.K(1)), mkT(sm.K(-1)), mkT(sm.K(0)))
	n3 := sysMonos(r.pick(6, 7), 1, -1)
	sysPolys(n3, 3, func(p sm.Polynomial) {
		a := mkT(p)
		for _, b := range rhs {
			op(a, b)
			op(b, a)
		}
	})
	// reachable states with the start set
	lvl, depth := 0, 1
	if r.thorough() {
		lvl, depth = 0, 2
	}
	st := startSet(1)
	for _, s := range r.Universe(lvl, depth, 200000) {
		for _, b := range st {
			op(s.T, b)
			op(b, s.T)
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func propPlusMinus(r *R) {
	r.pairsOf(r.plusMinus, fitsAdd)
	r.arithOfResults(false)
}

func propMultiply(r *R) {
	r.pairsOf(r.multiply, fitsMul)
	r.arithOfResults(true)
}

// ---------------------------------------------------------------- powers

func propPower(r *R) {
	defer r.powersOfResults()
	maxN := r.pick(7, 9)
	one := func(t *T, n int) {
		if t.R != t.C {
			return
		}
		if !r.mine() || r.stopped {
			r.idx++
			return
		}
		// Powers with very many terms take long and add nothing
		var want *Mat
		if n >= 0 {
			want = mPow(t.D, n)
			for _, p := range want.E {
				if len(p) > 200 {
					r.rep.Excluded++
					r.idx++
					return
				}
			}
		}
		sign := "nonneg"
		if n < 0 {
			sign = "neg"
		}
		sig := "Power|" + t.Sig() + "|" + sign
		r.Case(func() string { return fmt.Sprintf("Power(%s, %d)", t, n) }, func(c *C) {
			c.State(t.Proto)
			res := c.Do("Power", func() interface{} { return t.Expr().Power(n) })
			if n < 0 {
				if t.Kind == KK {
					// constants may be inverted
					k := float64(t.Proto.(sm.K))
					if k == 0 {
						return
					}
					if !res.Panicked {
						w := 1.0
						for i := 0; i < -n; i++ {
							w /= k
						}
						c.value(sig, res.Val, &Mat{1, 1, []Poly{pConst(w)}})
					}
					return
				}
				if !res.Panicked {
					c.Sig("accepted " + sig)
					c.Failf("%s with exponent %d returned %s", sig, n, Show(res.Val))
				}
				return
			}
			if c.Accept(sig, res) {
				c.value(sig, res.Val, want)
			}
		})
	}
	var ts []*T
	for _, k := range exprKinds {
		lv := 2
		if k.isMatrix() || k.isVector() {
			for _, n := range []int{1, 2, 3} {
				if k.isVector() {
					if n == 1 {
						ts = append(ts, fills(k, 1, 1, lv)...)
					}
					continue
				}
				l := lv
				if n == 3 {
					l = 1
				}
				ts = append(ts, fills(k, n, n, l)...)
			}
			continue
		}
		ts = append(ts, scalarTs(k, 0)...)
	}
	for _, t := range ts {
		mx := maxN
		if t.R == 2 && (t.Kind == KPM || t.Kind == KMM) {
			mx = 4
		}
		if t.R >= 3 {
			mx = 3
		}
		for n := -2; n <= mx; n++ {
			one(t, n)
		}
	}
	// Large exponents, for bases whose powers stay small
	deep := func(top int, es ...interface{}) {
		for _, e := range es {
			t := mkT(Clone(e, Exact))
			for n := 4; n <= top; n++ {
				one(t, n)
			}
		}
	}
	deep(r.pick(40, 130), sm.K(2), sm.K(-1), sm.K(0), sm.K(0.5), vX, vB, mono(2, 0, 1), mono(-1, 1, 1, 0, 1), mono(1, 0, 3), mono(0, 0, 1))
	deep(r.pick(24, 40), poly(mono(1, 0, 1), mono(1)), poly(mono(-1, 1, 1)), poly(mono(1)), poly(mono(1, 0, 2), mono(-1, 0, 1)))
	deep(r.pick(18, 26), poly(mono(1, 0, 1), mono(1, 1, 1)), poly(mono(1, 0, 1), mono(-1, 1, 1)), poly(mono(1, 0, 1), mono(1, 0, 1)))
	deep(r.pick(9, 13), poly(mono(1, 0, 1), mono(1, 1, 1), mono(-1)), poly(mono(1, 0, 1, 1, 1), mono(1, 1, 1, 0, 1), mono(-2)))
	deep(r.pick(20, 33), sm.KVector{2}, sm.VariableVector{vX}, sm.MonomialVector{mono(-1, 1, 1, 0, 1)},
		sm.PolynomialVector{poly(mono(1, 0, 1), mono(1))},
		sm.KMatrix{{3}}, sm.VariableMatrix{{vY}}, sm.MonomialMatrix{{mono(2, 0, 1)}}, sm.PolynomialMatrix{{poly(mono(1, 0, 1), mono(1))}},
		sm.KMatrix{{0, 1}, {1, 1}}, sm.KMatrix{{1, 1, 0}, {0, 1, 1}, {0, 0, 1}}, sm.KMatrix{{0, 1, 0}, {0, 0, 1}, {1, 0, 0}},
		sm.VariableMatrix{{vX, vX}, {vX, vX}},
		sm.MonomialMatrix{{mono(1), mono(1, 0, 1)}, {mono(0), mono(1)}},
		sm.MonomialMatrix{{mono(0), mono(1, 0, 1)}, {mono(1, 1, 1), mono(0)}})
	deep(r.pick(13, 20), sm.PolynomialMatrix{{poly(mono(1, 0, 1), mono(1)), poly(mono(0))}, {poly(mono(1)), poly(mono(1, 1, 1))}},
		sm.PolynomialMatrix{{poly(mono(0)), poly(mono(1, 0, 1), mono(-1))}, {poly(mono(1, 1, 1)), poly(mono(1, 1, 1))}})
	deep(r.pick(8, 11), sm.VariableMatrix{{vX, vY}, {vY, vX}})
	deep(r.pick(7, 9), sm.VariableMatrix{{vX, vY}, {vB, vW}})
	sysPolys(sysMonos(r.pick(9, 14), 1, -1, 2), 2, func(p sm.Polynomial) {
		t := mkT(p)
		for n := 0; n <= r.pick(6, 8); n++ {
			one(t, n)
		}
	})
	sysPolys(sysMonos(r.pick(5, 7), 1, -1), 3, func(p sm.Polynomial) {
		t := mkT(p)
		for n := 0; n <= r.pick(3, 4); n++ {
			one(t, n)
		}
	})
	for _, s := range r.Universe(1, 1, 100000) {
		for n := 0; n <= 3; n++ {
			one(s.T, n)
		}
	}
	// larger matrices: one entry that differs at every place, shifts, triangles, dense ones
	for _, k := range exprKinds {
		if !k.isMatrix() {
			continue
		}
		for _, t := range needleTs(k) {
			for n := 0; n <= r.pick(3, 4); n++ {
				one(t, n)
			}
		}
		for d := 3; d <= r.pick(6, 8); d++ {
			e := [3]interface{}{sm.K(0), sm.K(2), sm.K(1)}
			switch entryKind(k) {
			case KVar:
				e = [3]interface{}{vX, vY, vX}
			case KMono:
				e = [3]interface{}{mono(0), mono(2, 0, 1), mono(1, 1, 2)}
			case KPoly:
				e = [3]interface{}{poly(mono(0)), poly(mono(1, 0, 1), mono(-1)), poly(mono(1, 1, 2), mono(1, 0, 1))}
			}
			for _, f := range []func(i, j int) int{
				func(i, j int) int { return b2i(j == (i+1)%d) },
				func(i, j int) int { return b2i(j == (i+1)%d) + b2i(i == 0 && j == 1) },
				func(i, j int) int { return b2i(j >= i) },
				func(i, j int) int { return b2i(j == i) * (1 + b2i(i%2 == 1)) },
				func(i, j int) int { return (i*d + j) % 3 },
			} {
				t := fill(k, d, d, func(i, j int) interface{} { return e[f(i, j)] })
				for n := 0; n <= r.pick(d, d+2); n++ {
					one(t, n)
				}
			}
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
