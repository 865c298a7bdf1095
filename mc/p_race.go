package main

// C24: threads that work on shared expressions. Every case starts goroutines
// that share their operands and are ordered by nothing but their creation and
// their end. The race detector (happens-before, by vector clocks) tells whether
// two of their memory accesses conflict. When none do, every two steps of different
// threads commute, so the execution represents all interleavings of the case: the
// partial order has this one trace. sync.Pool, through which fmt and gonum
// would order the threads by accident, is made to keep nothing (tools/overlay.py).

import (
	"fmt"
	"os"
	"strings"
	"sync"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

func init() { props["C24"] = propThreads }

// threads runs the functions in goroutines of their own and returns what each did.
func (c *C) threads(names []string, fs ...func() interface{}) []Res {
	out := make([]Res, len(fs))
	before := raceErrors()
	var wg sync.WaitGroup
	wg.Add(len(fs))
	for i := range fs {
		c.r.rep.Transitions++
		c.r.opsSeen[names[i]]++
		go func(i int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					out[i] = Res{Panicked: true, PV: p}
				}
			}()
			out[i].Val = fs[i]()
		}(i)
	}
	wg.Wait()
	if n := raceErrors() - before; n > 0 {
		c.Sig("data race " + strings.Join(names, " | "))
		c.Failf("%d data races between concurrent calls: %s", n, raceText())
	}
	return out
}

// raceText is the end of the race detector's log.
func raceText() string {
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("VERIF_RACE_LOG"), os.Getpid()))
	if err != nil {
		return ""
	}
	var out []string
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "SymbolicMath.go") || strings.HasPrefix(l, "Read") || strings.HasPrefix(l, "Write") || strings.HasPrefix(l, "Previous") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) == 12 {
			break
		}
	}
	return strings.Join(out, " / ")
}

func seenAs(res Res) string {
	if res.Panicked {
		return "refused"
	}
	return Key(res.Val, false)
}

// alone is what the call does by itself. It is asked for after the concurrent calls, so that
// these are the first to meet their operands (and whatever is computed once only).
func (c *C) alone(o *Op, args []*V) string {
	return seenAs(c.Do(o.Name, func() interface{} { return o.Call(newArgs(args, Exact)) }))
}

// sameAsAlone compares what a concurrent call did with what it does alone.
func (c *C) sameAsAlone(name, text string, alone string, got Res) {
	if s := seenAs(got); s != alone {
		c.Sig("differs when concurrent " + name)
		c.Failf("%s gives %s concurrently, alone it gives %s", text, s, alone)
	}
}

// readAll reads everything that is visible of the operands.
func readAll(args []interface{}) func() interface{} {
	return func() interface{} {
		for _, a := range args {
			Key(a, false)
		}
		return nil
	}
}

func propThreads(r *R) {
	if !raceDetector {
		r.rep.Notes = append(r.rep.Notes, "built without the race detector: only results are compared")
	}
	b := quickPools()
	if !r.thorough() {
		b.scalars, b.maxPerCls = 4, 2
	}
	p := newPools(b)
	ops := allOps()
	// every call twice at the same time on the same objects, beside a thread that reads them
	p.Calls(ops, func(o *Op, args []*V) {
		if !r.mine() || r.stopped {
			r.idx++
			return
		}
		r.Case(func() string { return callText(o, args) + " twice and a reader of its operands" }, func(c *C) {
			shared := newArgs(args, Spare)
			call := func() interface{} { return o.Call(shared) }
			out := c.threads([]string{o.Name, o.Name, "reader"}, call, call, readAll(shared))
			alone := c.alone(o, args)
			c.sameAsAlone(o.Name, callText(o, args), alone, out[0])
			c.sameAsAlone(o.Name, callText(o, args), alone, out[1])
			c.r.addState(hash64(alone))
		})
	})
	// every two operations at the same time, sharing what they have in common
	all := fewCalls(p, r.pick(1, 2))
	r.rep.Notes = append(r.rep.Notes, fmt.Sprintf("pairs of operations: %d x %d", len(all), len(all)))
	for i := range all {
		for j := 0; j <= i; j++ {
			if !r.mine() || r.stopped {
				r.idx++
				continue
			}
			x, y := all[i], all[j]
			r.Case(func() string { return callText(x.o, x.args) + " and " + callText(y.o, y.args) }, func(c *C) {
				ax, ay := shareArgs(x.args, y.args)
				out := c.threads([]string{x.o.Name, y.o.Name}, func() interface{} { return x.o.Call(ax) }, func() interface{} { return y.o.Call(ay) })
				c.sameAsAlone(x.o.Name, callText(x.o, x.args), c.alone(x.o, x.args), out[0])
				c.sameAsAlone(y.o.Name, callText(y.o, y.args), c.alone(y.o, y.args), out[1])
			})
		}
	}
	r.sharedResults(p, ops)
	r.threadsAndEnvironments(p)
}

// shareArgs builds the arguments of two calls; equal ones are one object.
func shareArgs(x, y []*V) (ax, ay []interface{}) {
	have := map[string]interface{}{}
	get := func(v *V) interface{} {
		k := fmt.Sprintf("%T|%s", v.Proto, v.Text)
		if a, ok := have[k]; ok {
			return a
		}
		a := v.NewL(Spare)
		have[k] = a
		return a
	}
	for _, v := range x {
		ax = append(ax, get(v))
	}
	for _, v := range y {
		ay = append(ay, get(v))
	}
	return ax, ay
}

// sharedResults has two threads continue with the same result of an operation, while
// a third one reads the operands it was computed from.
func (r *R) sharedResults(p *Pools, ops []*Op) {
	first := fewCalls(p, r.pick(2, 6))
	for _, x := range first {
		x := x
		res := func() (interface{}, []interface{}) {
			args := newArgs(x.args, Exact)
			var v interface{}
			func() {
				defer func() { recover() }()
				v = x.o.Call(args)
			}()
			return v, args
		}
		v, _ := res()
		if v == nil {
			continue
		}
		var rv *V
		if k, ok := v.(sm.Expression); ok && k.Check() == nil {
			if _, known := kindOf(v); known {
				rv = vOfT(mkT(Clone(v, Exact)))
			}
		} else if _, ok := v.(sm.Constraint); ok {
			rv = vOf(Clone(v, Exact), "constraint")
		}
		if rv == nil {
			continue
		}
		second := unaryCalls(ops, p, rv, 1)
		for i := range second {
			s, t := second[i], second[(i+1)%len(second)]
			if !r.mine() || r.stopped {
				r.idx++
				continue
			}
			r.Case(func() string {
				return fmt.Sprintf("%s and %s on the result of %s", s.o.Name, t.o.Name, callText(x.o, x.args))
			}, func(c *C) {
				v, args := res()
				on := func(k opCall) []interface{} {
					a := newArgs(k.args, Exact)
					for j, w := range k.args {
						if w == rv {
							a[j] = v
						}
					}
					return a
				}
				as, at := on(s), on(t)
				c.threads([]string{s.o.Name, t.o.Name, "reader"}, func() interface{} { return s.o.Call(as) }, func() interface{} { return t.o.Call(at) }, readAll(args))
			})
		}
	}
}

// threadsAndEnvironments has one thread create variables in an environment of its
// own while others create variables elsewhere or work on expressions.
func (r *R) threadsAndEnvironments(p *Pools) {
	type act struct {
		name string
		f    func(e sm.Environment) interface{}
	}
	foreign := sm.Variable{ID: 7777, Name: "foreign", Lower: -1, Upper: 1}
	acts := []act{
		{"NewVariable", func(e sm.Environment) interface{} { return sm.NewVariable(e) }},
		{"NewContinuousVariable", func(e sm.Environment) interface{} { return sm.NewContinuousVariable(e) }},
		{"NewBinaryVariable", func(e sm.Environment) interface{} { return sm.NewBinaryVariable(e) }},
		{"NewVariableVector", func(e sm.Environment) interface{} { return sm.NewVariableVector(3, e) }},
		{"NewVariableMatrix", func(e sm.Environment) interface{} { return sm.NewVariableMatrix(2, 2, e) }},
		{"TrackVariable", func(e sm.Environment) interface{} { return e.TrackVariable(foreign) }},
		{"AllTrackedVariables", func(e sm.Environment) interface{} { return e.AllTrackedVariables() }},
		{"GetName", func(e sm.Environment) interface{} { return e.GetName() }},
		{"MakeBasicEnvironment", func(e sm.Environment) interface{} {
			n := sm.MakeBasicEnvironment("new")
			return sm.NewVariable(&n)
		}},
	}
	envs := func(kind int) sm.Environment {
		switch kind {
		case 0:
			sm.DefaultEnvironment = sm.MakeBasicEnvironment("DefaultEnvironment")
			return &sm.DefaultEnvironment
		case 1:
			e := sm.MakeBasicEnvironment("own")
			return &e
		}
		return &listEnv{name: "own"}
	}
	text := func(e sm.Environment, got interface{}) string {
		vs := func(v sm.Variable) string {
			return fmt.Sprintf("%d %s %v %v %v %v;", v.ID, v.Name, v.Lower, v.Upper, v.Type, v.Environment == e)
		}
		s := ""
		switch g := got.(type) {
		case sm.Variable:
			s = vs(g)
		case sm.VariableVector:
			for _, v := range g {
				s += vs(v)
			}
		case sm.VariableMatrix:
			for _, row := range g {
				for _, v := range row {
					s += vs(v)
				}
			}
		case []sm.Variable:
			for _, v := range g {
				s += vs(v)
			}
		default:
			s = fmt.Sprint(g)
		}
		s += " tracked "
		for _, v := range e.AllTrackedVariables() {
			s += vs(v)
		}
		return s
	}
	prepare := func(e sm.Environment, n int) {
		for i := 0; i < n; i++ {
			sm.NewVariable(e)
		}
	}
	few := fewCalls(p, 1)
	for ka := 0; ka < 3; ka++ {
		for n := 0; n < r.pick(5, 20); n++ {
			for _, a := range acts {
				for kb := 1; kb < 3; kb++ {
					for m := 0; m < 3; m++ {
						for _, b := range acts {
							ka, n, a, kb, m, b := ka, n, a, kb, m, b
							if !r.mine() || r.stopped {
								r.idx++
								continue
							}
							r.Case(func() string {
								return fmt.Sprintf("%s in an environment (kind %d) with %d variables and %s in another (kind %d) with %d", a.name, ka, n, b.name, kb, m)
							}, func(c *C) {
								mk := func() (sm.Environment, sm.Environment) {
									ea, eb := envs(ka), envs(kb)
									prepare(ea, n)
									prepare(eb, m)
									return ea, eb
								}
								ea, eb := mk()
								out := c.threads([]string{a.name, b.name}, func() interface{} { return a.f(ea) }, func() interface{} { return b.f(eb) })
								var got [2]string
								for i, e := range []sm.Environment{ea, eb} {
									got[i] = text(e, out[i].Val)
								}
								ea, eb = mk()
								wantA := text(ea, a.f(ea))
								wantB := text(eb, b.f(eb))
								for i, w := range []string{wantA, wantB} {
									op := a.name
									if i == 1 {
										op = b.name
									}
									if out[i].Panicked {
										c.Sig("refused " + op)
										c.Failf("%s refused concurrently: %v", op, out[i].PV)
									} else if op != "MakeBasicEnvironment" && got[i] != w {
										c.Sig("differs when concurrent " + op)
										c.Failf("%s gives %s concurrently, alone %s", op, got[i], w)
									}
									c.r.addState(hash64(w))
								}
							})
						}
					}
				}
			}
		}
	}
	// creating variables while expressions of other variables of the environment are in use
	for _, a := range acts {
		for _, x := range few {
			a, x := a, x
			if !r.mine() || r.stopped {
				r.idx++
				continue
			}
			r.Case(func() string { return a.name + " and " + callText(x.o, x.args) }, func(c *C) {
				args := newArgs(x.args, Exact)
				e := vX.Environment
				out := c.threads([]string{x.o.Name, a.name}, func() interface{} { return x.o.Call(args) }, func() interface{} { return a.f(e) })
				c.sameAsAlone(x.o.Name, callText(x.o, x.args), c.alone(x.o, x.args), out[0])
			})
		}
	}
}
