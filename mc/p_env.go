package main

// C17: all call sequences up to a bound over several environments, executed on
// the real environments and compared step by step with a model of them.

import (
	"fmt"
	"strings"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

func init() { props["C17"] = propEnv }

// listEnv is an environment a user of the library wrote: it hands out copies.
type listEnv struct {
	name string
	vars []sm.Variable
}

func (l *listEnv) GetName() string { return l.name }
func (l *listEnv) TrackVariable(v sm.Variable) bool {
	for _, w := range l.vars {
		if w.ID == v.ID {
			return false
		}
	}
	l.vars = append(l.vars, v)
	return true
}
func (l *listEnv) AllTrackedVariables() []sm.Variable { return append([]sm.Variable(nil), l.vars...) }

// envWorld is the real environments with the model beside them.
type envWorld struct {
	real    []sm.Environment
	model   [][]sm.Variable // tracked variables in order
	created [][]sm.Variable // variables the library created, per environment
	snaps   []envSnap
	steps   []string
	names   []string
}

type envSnap struct {
	got  []sm.Variable // slice handed out by the library
	want []sm.Variable // what it held then
}

func newEnvWorld(kinds string) *envWorld {
	w := &envWorld{}
	sm.DefaultEnvironment = sm.MakeBasicEnvironment("DefaultEnvironment")
	for i, k := range kinds {
		switch k {
		case 'd':
			w.real = append(w.real, &sm.DefaultEnvironment)
		case 'b':
			e := sm.MakeBasicEnvironment(fmt.Sprintf("env%d", i))
			w.real = append(w.real, &e)
		case 'l':
			w.real = append(w.real, &listEnv{name: fmt.Sprintf("env%d", i)})
		}
		w.names = append(w.names, w.real[i].GetName())
	}
	w.model = make([][]sm.Variable, len(w.real))
	w.created = make([][]sm.Variable, len(w.real))
	return w
}

type envOp struct {
	name string
	env  int
	run  func(c *C, w *envWorld)
}

func sameVar(a, b sm.Variable) bool {
	return a.ID == b.ID && a.Lower == b.Lower && a.Upper == b.Upper && a.Type == b.Type && a.Name == b.Name && a.Environment == b.Environment
}

func sameVars(a, b []sm.Variable) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameVar(a[i], b[i]) {
			return false
		}
	}
	return true
}

// judgeNew judges one created variable and adds it to the model.
func (w *envWorld) judgeNew(c *C, op string, e int, v sm.Variable, binary bool) {
	for _, t := range w.model[e] {
		if t.ID == v.ID {
			c.Sig("identifier reused " + op)
			c.Failf("%s gave identifier %d, which %s of the same environment already has", op, v.ID, t.Name)
		}
	}
	for _, t := range w.created[e] {
		if t.Name == v.Name {
			c.Sig("name reused " + op)
			c.Failf("%s gave the name %q a second time", op, v.Name)
		}
	}
	if v.Name == "" || v.String() != v.Name {
		c.Sig("name " + op)
		c.Failf("%s: variable with identifier %d is named %q and printed as %q", op, v.ID, v.Name, v.String())
	}
	if v.Environment != w.real[e] {
		c.Sig("environment " + op)
		c.Failf("%s: the variable carries another environment", op)
	}
	if err := v.Check(); err != nil {
		c.Sig("malformed " + op)
		c.Failf("%s: %v", op, err)
	}
	lo, hi, ty := float64(-sm.Infinity), float64(sm.Infinity), sm.Continuous
	if binary {
		lo, hi, ty = 0, 1, sm.Binary
	}
	if v.Lower != lo || v.Upper != hi || v.Type != ty {
		c.Sig("attributes " + op)
		c.Failf("%s: type %v bounds [%v, %v], expected %v [%v, %v]", op, v.Type, v.Lower, v.Upper, ty, lo, hi)
	}
	w.model[e] = append(w.model[e], v)
	w.created[e] = append(w.created[e], v)
}

// judge compares every environment with the model.
func (w *envWorld) judge(c *C, op string) {
	var key strings.Builder
	for i, e := range w.real {
		got := e.AllTrackedVariables()
		if e.GetName() != w.names[i] {
			c.Sig("name of environment " + op)
			c.Failf("after %s the environment %d is called %q", op, i, e.GetName())
		}
		if !sameVars(got, w.model[i]) {
			c.Sig("tracked " + op)
			c.Failf("after %s environment %s tracks %s, expected %s", op, w.names[i], envList(got), envList(w.model[i]))
		}
		fmt.Fprintf(&key, "%d:", i)
		for _, v := range got {
			fmt.Fprintf(&key, "%d%v%p,", v.ID, v.Type == sm.Binary, nil)
		}
	}
	for _, s := range w.snaps {
		if !sameVars(s.got, s.want) {
			c.Sig("earlier variables changed " + op)
			c.Failf("after %s variables obtained earlier read %s, they were %s", op, envList(s.got), envList(s.want))
		}
	}
	c.r.addState(hash64(key.String()))
}

func envList(vs []sm.Variable) string {
	var p []string
	for _, v := range vs {
		en := "nil"
		if v.Environment != nil {
			en = v.Environment.GetName()
		}
		p = append(p, fmt.Sprintf("%s#%d@%s", v.Name, v.ID, en))
	}
	if len(p) > 12 {
		p = append(p[:12], "...")
	}
	return "[" + strings.Join(p, " ") + "]"
}

func (w *envWorld) hold(vs []sm.Variable) {
	w.snaps = append(w.snaps, envSnap{vs, append([]sm.Variable(nil), vs...)})
}

// envOps lists the calls explored; level 0 is the smallest alphabet.
func envOps(kinds string, level int) []envOp {
	var out []envOp
	for e := range kinds {
		e := e
		nm := fmt.Sprintf("env%d", e)
		args := func(w *envWorld) []sm.Environment {
			return []sm.Environment{w.real[e]}
		}
		one := func(label string, binary bool, f func(w *envWorld) sm.Variable) {
			op := label + "(" + nm + ")"
			out = append(out, envOp{op, e, func(c *C, w *envWorld) {
				res := c.Do(label, func() interface{} { return f(w) })
				if res.Panicked {
					c.Sig("refused " + label)
					c.Failf("%s: %s", op, res.why())
					return
				}
				w.judgeNew(c, label, e, res.Val.(sm.Variable), binary)
			}})
		}
		one("NewVariable", false, func(w *envWorld) sm.Variable { return sm.NewVariable(args(w)...) })
		one("NewBinaryVariable", true, func(w *envWorld) sm.Variable { return sm.NewBinaryVariable(args(w)...) })
		if level >= 1 {
			one("NewContinuousVariable", false, func(w *envWorld) sm.Variable { return sm.NewContinuousVariable(args(w)...) })
		}
		if kinds[e] == 'd' {
			one("NewVariable()", false, func(w *envWorld) sm.Variable { return sm.NewVariable() })
			one("NewBinaryVariable()", true, func(w *envWorld) sm.Variable { return sm.NewBinaryVariable() })
			if level >= 1 {
				one("NewContinuousVariable()", false, func(w *envWorld) sm.Variable { return sm.NewContinuousVariable() })
			}
		}
		vec := func(n int, dflt bool) {
			label := fmt.Sprintf("NewVariableVector(%d)", n)
			if dflt {
				label += "default"
			}
			op := label + "@" + nm
			out = append(out, envOp{op, e, func(c *C, w *envWorld) {
				res := c.Do("NewVariableVector", func() interface{} {
					if dflt {
						return sm.NewVariableVector(n)
					}
					return sm.NewVariableVector(n, args(w)...)
				})
				if res.Panicked {
					c.Sig("refused NewVariableVector")
					c.Failf("%s: %s", op, res.why())
					return
				}
				v := res.Val.(sm.VariableVector)
				if len(v) != n {
					c.Sig("length NewVariableVector")
					c.Failf("%s returned %d variables", op, len(v))
				}
				for _, x := range v {
					w.judgeNew(c, "NewVariableVector", e, x, false)
				}
				w.hold(v)
			}})
		}
		matr := func(rr, cc int, classic, dflt bool) {
			f := sm.NewVariableMatrix
			fn := "NewVariableMatrix"
			if classic {
				f = sm.NewVariableMatrixClassic
				fn = "NewVariableMatrixClassic"
			}
			op := fmt.Sprintf("%s(%d,%d)@%s", fn, rr, cc, nm)
			out = append(out, envOp{op, e, func(c *C, w *envWorld) {
				res := c.Do(fn, func() interface{} {
					if dflt {
						return f(rr, cc)
					}
					return f(rr, cc, args(w)...)
				})
				if res.Panicked {
					c.Sig("refused " + fn)
					c.Failf("%s: %s", op, res.why())
					return
				}
				m := res.Val.(sm.VariableMatrix)
				ok := len(m) == rr
				for _, row := range m {
					ok = ok && len(row) == cc
				}
				if !ok {
					c.Sig("shape " + fn)
					c.Failf("%s returned %d rows %v", op, len(m), m)
				}
				for _, row := range m {
					for _, x := range row {
						w.judgeNew(c, fn, e, x, false)
					}
					w.hold(row)
				}
			}})
		}
		vec(2, false)
		matr(1, 2, false, false)
		if level >= 1 {
			vec(0, false)
			vec(1, false)
			vec(3, false)
			matr(2, 2, false, false)
			matr(2, 1, false, false)
			matr(2, 3, true, false)
		}
		if kinds[e] == 'd' {
			vec(2, true)
			matr(2, 1, false, true)
			matr(1, 2, true, true)
		}
		if level >= 2 {
			vec(9, false)
			vec(70, false)
			vec(300, false)
			matr(5, 7, false, false)
		}
		// tracking
		track := func(label string, pick func(w *envWorld) (sm.Variable, bool)) {
			op := "TrackVariable(" + nm + ", " + label + ")"
			out = append(out, envOp{op, e, func(c *C, w *envWorld) {
				v, ok := pick(w)
				if !ok {
					return
				}
				want := true
				for _, t := range w.model[e] {
					if t.ID == v.ID {
						want = false
					}
				}
				res := c.Do("TrackVariable", func() interface{} { return w.real[e].TrackVariable(v) })
				if res.Panicked {
					c.Sig("refused TrackVariable")
					c.Failf("%s: %s", op, res.why())
					return
				}
				if res.Val.(bool) != want {
					c.Sig("TrackVariable reports")
					c.Failf("%s of %s#%d reports %v, expected %v", op, v.Name, v.ID, res.Val, want)
				}
				if want {
					w.model[e] = append(w.model[e], v)
				}
			}})
		}
		if kinds[e] == 'l' {
			continue // the tracking of a user's own environment is not the library's
		}
		track("its first", func(w *envWorld) (sm.Variable, bool) {
			if len(w.model[e]) == 0 {
				return sm.Variable{}, false
			}
			return w.model[e][0], true
		})
		track("its last", func(w *envWorld) (sm.Variable, bool) {
			if len(w.model[e]) == 0 {
				return sm.Variable{}, false
			}
			return w.model[e][len(w.model[e])-1], true
		})
		other := (e + 1) % len(kinds)
		track("last of the next environment", func(w *envWorld) (sm.Variable, bool) {
			if len(w.model[other]) == 0 {
				return sm.Variable{}, false
			}
			return w.model[other][len(w.model[other])-1], true
		})
		track("one ahead", func(w *envWorld) (sm.Variable, bool) {
			n := len(w.model[e])
			return sm.Variable{ID: uint64(n + 1), Lower: -2, Upper: 3, Type: sm.Integer, Name: fmt.Sprintf("h_%d", n+1), Environment: w.real[e]}, true
		})
		track("a namesake of its last", func(w *envWorld) (sm.Variable, bool) {
			n := len(w.model[e])
			if n == 0 {
				return sm.Variable{}, false
			}
			return sm.Variable{ID: uint64(500 + n), Lower: -2, Upper: 3, Type: sm.Integer, Name: w.model[e][n-1].Name, Environment: w.real[e]}, true
		})
		if level >= 1 {
			track("nameless", func(w *envWorld) (sm.Variable, bool) {
				return sm.Variable{ID: uint64(900 + len(w.model[e])), Lower: 0, Upper: 1, Type: sm.Continuous}, true
			})
			track("the values of its first under another identifier", func(w *envWorld) (sm.Variable, bool) {
				if len(w.model[e]) == 0 {
					return sm.Variable{}, false
				}
				v := w.model[e][0]
				v.ID += 60
				return v, true
			})
			track("its first, changed", func(w *envWorld) (sm.Variable, bool) {
				if len(w.model[e]) == 0 {
					return sm.Variable{}, false
				}
				v := w.model[e][0]
				v.Name, v.Lower, v.Type, v.Environment = "renamed", -7, sm.Integer, w.real[other]
				return v, true
			})
			track("far ahead, foreign", func(w *envWorld) (sm.Variable, bool) {
				return sm.Variable{ID: 7, Lower: -2, Upper: 3, Type: sm.Integer, Name: "h_7", Environment: w.real[other]}, true
			})
			track("huge", func(w *envWorld) (sm.Variable, bool) {
				return sm.Variable{ID: 1 << 40, Lower: 0, Upper: 1, Type: sm.Binary, Name: "huge"}, true
			})
		}
		out = append(out, envOp{"AllTrackedVariables(" + nm + ")", e, func(c *C, w *envWorld) {
			res := c.Do("AllTrackedVariables", func() interface{} { return w.real[e].AllTrackedVariables() })
			if res.Panicked {
				c.Failf("AllTrackedVariables: %s", res.why())
				return
			}
			w.hold(res.Val.([]sm.Variable))
		}})
	}
	// calls that have nothing to do with creating variables
	out = append(out, envOp{"arithmetic", 0, func(c *C, w *envWorld) {
		c.Do("Plus", func() interface{} {
			var all []sm.Variable
			for _, m := range w.model {
				all = append(all, m...)
			}
			if len(all) == 0 {
				return nil
			}
			a, b := all[0], all[len(all)-1]
			s := a.Plus(b).Multiply(3.0)
			_ = s.Variables()
			_ = sm.UnionOfVariables(all, []sm.Variable{a})
			return s.(sm.ScalarExpression).LessEq(1.0)
		})
	}})
	return out
}

func propEnv(r *R) {
	for d := 1; d <= r.pick(3, 4); d++ {
		r.identity("bb", d)
		r.identity("bd", d)
		r.identity("bl", d)
		r.identity("bbd", d)
	}
	seq := func(kinds string, ops []envOp, idx []int) {
		r.Case(func() string {
			var p []string
			for _, i := range idx {
				p = append(p, ops[i].name)
			}
			return "environments " + kinds + ": " + strings.Join(p, "; ")
		}, func(c *C) {
			w := newEnvWorld(kinds)
			for _, i := range idx {
				ops[i].run(c, w)
				w.judge(c, ops[i].name)
				if len(c.fail) > 0 {
					return
				}
			}
			sm.DefaultEnvironment = sm.MakeBasicEnvironment("DefaultEnvironment")
		})
	}
	all := func(kinds string, level, depth int) {
		ops := envOps(kinds, level)
		idx := make([]int, depth)
		for {
			if r.mine() {
				seq(kinds, ops, append([]int(nil), idx...))
			} else {
				r.idx++
			}
			i := depth - 1
			for ; i >= 0; i-- {
				idx[i]++
				if idx[i] < len(ops) {
					break
				}
				idx[i] = 0
			}
			if i < 0 || r.stopped {
				return
			}
		}
	}
	all("bd", 0, r.pick(4, 5))
	all("bbd", 1, 3)
	all("bl", 0, r.pick(4, 5))
	all("bd", 1, r.pick(3, 4))
	all("bbd", 2, r.pick(2, 3))
	all("b", 0, r.pick(6, 7))
	// long histories: one call repeated, then every pair of calls
	ops := envOps("bd", 1)
	for i := range ops {
		for j := range ops {
			for _, n := range []int{5, 17, r.pick(33, 130)} {
				idx := []int{}
				for k := 0; k < n; k++ {
					idx = append(idx, i)
				}
				idx = append(idx, j, i, j)
				seq("bd", ops, idx)
			}
		}
	}
}
