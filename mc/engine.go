package main

// The explorer: a property enumerates its cases in a fixed order; every case
// runs library operations on fresh operands and compares what it observes with
// the reference model. Several single-threaded worker processes take every
// N-th case each; the supervisor merges what they report, re-runs every
// violation in a fresh process and writes the evidence.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Violation struct {
	Idx   int64  `json:"idx"`
	Shard int    `json:"shard"`
	Sig   string `json:"sig"`
	Msg   string `json:"msg"`
	Case  string `json:"case"`
	How   string `json:"how,omitempty"`
}

type Report struct {
	Cases       int64             `json:"cases"`
	Ran         int64             `json:"ran"`
	Transitions int64             `json:"transitions"`
	Refused     int64             `json:"refused"`
	Ops         map[string]int64  `json:"ops"`
	Support     map[string]int    `json:"support,omitempty"`
	SupportEx   map[string]string `json:"supportEx,omitempty"`
	Violations  []Violation       `json:"violations"`
	Samples     []string          `json:"samples"`
	Digest      string            `json:"digest"`
	Exhaustive  bool              `json:"exhaustive"`
	Excluded    int64             `json:"excluded"` // cases beyond a stated bound
	Notes       []string          `json:"notes"`
	Known       map[string]int64  `json:"known"`
}

// R is one worker's run.
type R struct {
	Prop, Tier     string
	Seed           int
	Shard, NShards int
	Only, Upto     int64
	Gen            bool
	Replica        int
	Verbose        bool
	deadline       time.Time
	idx            int64
	rep            Report
	states         map[uint64]struct{}
	digest         uint64
	support        map[string]string
	prog           []byte // mmap'ed progress: current case index, start time
	caseStart      atomic.Int64
	stopped        bool
	opsSeen        map[string]int64
	sampleEvery    int64
	C              C
	findings       Findings
	hashes         []byte // per case: index and hash of what was observed
	lastHash       string
}

// caseHash records what the current case observed, for the comparison with
// another process that executes the same case after a different history.
func (r *R) caseHash(h uint64) {
	r.hashes = binary.LittleEndian.AppendUint64(r.hashes, uint64(r.idx))
	r.hashes = binary.LittleEndian.AppendUint64(r.hashes, h)
}

// C is the current case.
type C struct {
	r    *R
	sig  string
	fail []string
}

func (r *R) thorough() bool { return r.Tier == "thorough" }

// pick returns q in the quick tier and t in the thorough tier.
func (r *R) pick(q, t int) int {
	if r.thorough() {
		return t
	}
	return q
}

const maxViolations = 12

// skip reports whether the next case belongs to somebody else (and counts it).
// It lets enumeration loops avoid building operands they will not use.
func (r *R) mine() bool {
	i := r.idx
	if r.Only >= 0 {
		return i == r.Only
	}
	if r.Upto >= 0 && i > r.Upto {
		return false
	}
	return int(i%int64(r.NShards)) == r.Shard
}

// Case runs one case if it belongs to this worker.
func (r *R) Case(desc func() string, f func(c *C)) {
	defer func() { r.idx++ }()
	if r.stopped {
		return
	}
	if !r.mine() {
		return
	}
	if r.rep.Ran&15 == 0 && time.Now().After(r.deadline) {
		r.stopped = true
		r.rep.Exhaustive = false
		r.rep.Notes = append(r.rep.Notes, fmt.Sprintf("stopped at the deadline before case %d", r.idx))
		return
	}
	binary.LittleEndian.PutUint64(r.prog, uint64(r.idx)+1)
	r.caseStart.Store(time.Now().UnixNano())
	r.rep.Ran++
	setMapSeed(uint64(r.idx%8) + uint64(r.Replica))
	r.C = C{r: r}
	c := &r.C
	func() {
		defer func() {
			if p := recover(); p != nil {
				c.fail = append(c.fail, fmt.Sprintf("panic outside a guarded call: %v\n%s", p, trimStack()))
			}
		}()
		f(c)
	}()
	r.caseStart.Store(0)
	if len(c.fail) > 0 {
		d := desc()
		if f := r.findings.match(r.Prop, Violation{Sig: c.sig, Case: d}); f != nil && !r.Verbose {
			r.rep.Known[f.ID]++
			return
		}
		if r.Gen {
			for _, v := range r.rep.Violations {
				if v.Sig == c.sig {
					return
				}
			}
		}
		r.rep.Violations = append(r.rep.Violations, Violation{Idx: r.idx, Shard: r.Shard, Sig: c.sig, Msg: strings.Join(c.fail, "; "), Case: d})
		if r.Verbose {
			fmt.Printf("case %d [%s] %s\n   => %s\n", r.idx, c.sig, d, strings.Join(c.fail, "; "))
		}
		if len(r.rep.Violations) >= maxViolations && !r.Verbose && !r.Gen {
			r.stopped = true
			r.rep.Exhaustive = false
		}
	} else if r.Verbose && r.Only >= 0 {
		fmt.Printf("case %d %s: holds\n", r.idx, desc())
	}
	if len(r.rep.Samples) < 4 && r.rep.Ran%r.sampleEvery == 1 {
		r.rep.Samples = append(r.rep.Samples, desc())
	}
}

func trimStack() string {
	s := strings.Split(string(debug.Stack()), "\n")
	if len(s) > 24 {
		s = s[:24]
	}
	return strings.Join(s, "\n")
}

// Sig sets the signature under which a violation of this case is reported.
func (c *C) Sig(s string) { c.sig = s }

func (c *C) Failf(format string, a ...interface{}) {
	if len(c.fail) < 3 {
		m := fmt.Sprintf(format, a...)
		if len(m) > 600 {
			m = m[:600] + "..."
		}
		c.fail = append(c.fail, m)
	}
}

// State records a state (any value the library takes or returned).
func (c *C) State(e interface{}) string {
	k := Key(e, false)
	c.r.addState(hash64(k))
	return k
}

func (r *R) addState(h uint64) {
	if len(r.states) < 6000000 {
		r.states[h] = struct{}{}
	}
	r.digest = r.digest*1099511628211 ^ h
}

// Res is what one library call did.
type Res struct {
	Val      interface{}
	Panicked bool
	PV       interface{}
	Runtime  bool // run-time error, not a deliberate refusal
}

func (x Res) why() string {
	if x.Runtime {
		return fmt.Sprintf("run-time error: %v", x.PV)
	}
	s := fmt.Sprintf("%T: %v", x.PV, x.PV)
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// Do executes one library operation (one transition).
func (c *C) Do(op string, f func() interface{}) (res Res) {
	c.r.rep.Transitions++
	c.r.opsSeen[op]++
	defer func() {
		if p := recover(); p != nil {
			res = Res{Panicked: true, PV: p}
			if _, ok := p.(runtime.Error); ok {
				res.Runtime = true
			}
			c.r.rep.Refused++
		}
	}()
	res.Val = f()
	return res
}

// Accept records whether an operation with signature sig was accepted. In a
// check, a refusal of a signature the committed table lists as accepted is a
// violation; it returns true when the caller should go on and judge a value.
func (c *C) Accept(sig string, res Res) bool {
	r := c.r
	if r.Gen {
		if res.Panicked {
			r.rep.Support[sig] |= 2
			if _, ok := r.rep.SupportEx[sig+"|R"]; !ok {
				r.rep.SupportEx[sig+"|R"] = fmt.Sprintf("case %d: %s", r.idx, res.why())
			}
		} else {
			r.rep.Support[sig] |= 1
		}
	}
	if !res.Panicked {
		return true
	}
	if r.support[sig] == "A" {
		c.Sig("refused " + sig)
		c.Failf("supported operation %s refused: %s", sig, res.why())
	}
	return false
}

func (r *R) finish() {
	r.rep.Cases = r.idx
	r.rep.Ops = r.opsSeen
	r.rep.Digest = fmt.Sprintf("%016x", r.digest)
}

// ------------------------------------------------------------------ worker

var props = map[string]func(r *R){}

func newR() *R {
	r := &R{states: map[uint64]struct{}{}, opsSeen: map[string]int64{}, sampleEvery: 997}
	r.rep.Support = map[string]int{}
	r.rep.SupportEx = map[string]string{}
	r.rep.Known = map[string]int64{}
	r.rep.Exhaustive = true
	r.support = map[string]string{}
	return r
}

func loadSupport(prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(supportFile(prop))
	if err == nil {
		json.Unmarshal(b, &out)
	}
	return out
}

func supportFile(prop string) string { return filepath.Join(verifDir, "support", prop+".json") }

// cpuTime is the processor time this process has used.
func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func runWorker(r *R, outDir, name string) {
	debug.SetMaxStack(256 << 20)
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	if !raceDetector { // the race detector reserves far more address space than it uses
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	initAlpha()
	if !r.Gen {
		r.support = loadSupport(r.Prop)
		r.findings = loadFindings()
	}
	pf, err := os.OpenFile(filepath.Join(outDir, name+".prog"), os.O_CREATE|os.O_RDWR, 0o644)
	check(err)
	check(pf.Truncate(4096))
	r.prog, err = syscall.Mmap(int(pf.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	check(err)
	// A case hangs when it has used 90 s of processor time (or has been waiting for 400 s):
	// a machine that is busy with something else is not a violation.
	hang := 90 * time.Second
	go func() {
		var seen int64
		var used time.Duration
		for {
			time.Sleep(500 * time.Millisecond)
			st := r.caseStart.Load()
			if st != seen {
				seen, used = st, cpuTime()
				continue
			}
			if st != 0 && (cpuTime()-used > hang || time.Since(time.Unix(0, st)) > 400*time.Second) {
				binary.LittleEndian.PutUint64(r.prog[8:], 1)
				os.Exit(7)
			}
		}
	}()
	f, ok := props[r.Prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property", r.Prop)
		os.Exit(2)
	}
	f(r)
	r.finish()
	b, err := json.Marshal(r.rep)
	check(err)
	check(os.WriteFile(filepath.Join(outDir, name+".json"), b, 0o644))
	sb := make([]byte, 0, 8*len(r.states))
	for h := range r.states {
		sb = binary.LittleEndian.AppendUint64(sb, h)
	}
	check(os.WriteFile(filepath.Join(outDir, name+".states"), sb, 0o644))
	if len(r.hashes) > 0 {
		check(os.WriteFile(filepath.Join(outDir, name+".hashes"), r.hashes, 0o644))
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc:", err)
		os.Exit(2)
	}
}

// -------------------------------------------------------------- supervisor

type wres struct {
	rep   *Report
	crash string
	idx   int64
	hang  bool
}

func spawn(args []string, dir, name string) wres {
	os.Remove(filepath.Join(dir, name+".json"))
	os.Remove(filepath.Join(dir, name+".prog"))
	full := append([]string{"-worker", "-out", dir, "-name", name}, args...)
	cmd := exec.Command(os.Args[0], full...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200", "GOTRACEBACK=single")
	if raceDetector {
		log := filepath.Join(dir, name+".race")
		cmd.Env = append(cmd.Env, "VERIF_RACE_LOG="+log, "GORACE=log_path="+log+" halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0")
	}
	var errb strings.Builder
	cmd.Stderr = &limitW{b: &errb, n: 4000}
	err := cmd.Run()
	b, rerr := os.ReadFile(filepath.Join(dir, name+".json"))
	if err == nil && rerr == nil {
		var rep Report
		if json.Unmarshal(b, &rep) == nil {
			return wres{rep: &rep}
		}
	}
	w := wres{crash: fmt.Sprintf("%v: %s", err, errb.String())}
	if p, e := os.ReadFile(filepath.Join(dir, name+".prog")); e == nil && len(p) >= 16 {
		w.idx = int64(binary.LittleEndian.Uint64(p)) - 1
		w.hang = binary.LittleEndian.Uint64(p[8:]) == 1
	}
	if w.hang {
		w.crash = "the operation did not terminate within 90 s"
	}
	return w
}

type limitW struct {
	b *strings.Builder
	n int
}

func (l *limitW) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.b.Write(q)
	}
	return len(p), nil
}

type Opts struct {
	Prop, Tier string
	Seed       int
	Workers    int
	Budget     time.Duration
	Gen        bool
	Verbose    bool
}

func supervise(o Opts) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "mc-")
	check(err)
	defer os.RemoveAll(dir)
	n := o.Workers
	common := func(extra ...string) []string {
		a := []string{"-prop", o.Prop, "-tier", o.Tier, "-seed", strconv.Itoa(o.Seed), "-budget", o.Budget.String(), "-verif", verifDir}
		if o.Gen {
			a = append(a, "-gen")
		}
		return append(a, extra...)
	}
	res := make([]wres, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res[i] = spawn(common("-shard", strconv.Itoa(i), "-nshards", strconv.Itoa(n)), dir, fmt.Sprintf("w%d", i))
		}(i)
	}
	wg.Wait()

	total := Report{Ops: map[string]int64{}, Support: map[string]int{}, SupportEx: map[string]string{}, Known: map[string]int64{}, Exhaustive: true}
	states := map[uint64]struct{}{}
	var viols []Violation
	for i, w := range res {
		if w.rep == nil {
			total.Exhaustive = false
			viols = append(viols, Violation{Idx: w.idx, Shard: i, Sig: "crash", Msg: "the process died: " + firstLines(w.crash, 6)})
			continue
		}
		rep := w.rep
		if total.Cases > 0 && rep.Cases != total.Cases {
			// the shares of the workers would not add up to the whole
			total.Exhaustive = false
			total.Notes = append(total.Notes, fmt.Sprintf("workers disagree on the number of cases: %d and %d", total.Cases, rep.Cases))
		}
		if rep.Cases > total.Cases {
			total.Cases = rep.Cases
		}
		total.Ran += rep.Ran
		total.Excluded += rep.Excluded
		total.Transitions += rep.Transitions
		total.Refused += rep.Refused
		for k, v := range rep.Ops {
			total.Ops[k] += v
		}
		for k, v := range rep.Support {
			total.Support[k] |= v
		}
		for k, v := range rep.SupportEx {
			if _, ok := total.SupportEx[k]; !ok {
				total.SupportEx[k] = v
			}
		}
		for k, v := range rep.Known {
			total.Known[k] += v
		}
		total.Exhaustive = total.Exhaustive && rep.Exhaustive
		total.Samples = append(total.Samples, rep.Samples...)
		for _, x := range rep.Notes {
			if i == 0 || !strings.Contains(strings.Join(total.Notes, "\n"), x) {
				total.Notes = append(total.Notes, x)
			}
		}
		viols = append(viols, rep.Violations...)
		if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.states", i))); err == nil {
			for j := 0; j+8 <= len(b); j += 8 {
				states[binary.LittleEndian.Uint64(b[j:])] = struct{}{}
			}
		}
	}
	if !o.Gen && len(viols) == 0 {
		viols = append(viols, crossCheck(o, dir, common, n, &total)...)
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Idx < viols[j].Idx })

	if o.Gen {
		genSupport(o, &total)
	}

	// confirm violations in fresh processes
	findings := loadFindings()
	var confirmed []Violation
	seen := map[string]int{}
	budgetLeft := func() bool { return time.Since(start) < o.Budget+200*time.Second }
	for _, v := range viols {
		if o.Gen {
			if seen[v.Sig] == 0 {
				confirmed = append(confirmed, v)
			}
			seen[v.Sig]++
			continue
		}
		if seen[v.Sig] >= 2 || len(confirmed) >= 10 {
			continue
		}
		seen[v.Sig]++
		if !budgetLeft() && len(confirmed) > 0 {
			break
		}
		how := v.How
		for try := 0; try < 3 && how == ""; try++ {
			w := spawn(common("-shard", strconv.Itoa(v.Shard), "-nshards", strconv.Itoa(n), "-only", strconv.FormatInt(v.Idx, 10)), dir, "confirm")
			if w.rep == nil {
				how = "single"
			} else if len(w.rep.Violations) > 0 {
				how = "single"
				v.Msg, v.Case, v.Sig = w.rep.Violations[0].Msg, w.rep.Violations[0].Case, w.rep.Violations[0].Sig
			}
			if v.Sig == "crash" && how == "" {
				break
			}
			if try == 0 && how == "" {
				break
			}
		}
		for try := 0; try < 3 && how == ""; try++ {
			w := spawn(common("-shard", strconv.Itoa(v.Shard), "-nshards", strconv.Itoa(n), "-upto", strconv.FormatInt(v.Idx, 10)), dir, "confirm")
			if w.rep == nil {
				how = "history"
				break
			}
			for _, x := range w.rep.Violations {
				if x.Idx == v.Idx {
					how = "history"
				}
			}
			if how == "" && len(w.rep.Violations) > 0 {
				how = "history"
				v = w.rep.Violations[0]
			}
		}
		if how == "" {
			total.Notes = append(total.Notes, fmt.Sprintf("not reproduced on re-run (case %d): %s", v.Idx, v.Msg))
			continue
		}
		v.How = how
		confirmed = append(confirmed, v)
	}

	// report
	for _, f := range findings {
		if f.Property != o.Prop {
			continue
		}
		if total.Known[f.ID] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases)\n", o.Prop, f.What, total.Known[f.ID])
		} else {
			total.Notes = append(total.Notes, "known finding not reached in this run: "+f.ID)
		}
	}
	wall := time.Since(start).Seconds()
	if !o.Gen {
		writeEvidence(o, &total, len(states), n, wall, len(confirmed))
	}
	fmt.Printf("%s %s: %d cases (%d run), %d transitions, %d states, %d refusals, exhaustive=%v, %.1fs\n",
		o.Prop, o.Tier, total.Cases, total.Ran, total.Transitions, len(states), total.Refused, total.Exhaustive, wall)
	for _, s := range total.Notes {
		fmt.Println("note:", s)
	}
	for _, v := range confirmed {
		p := writeReplay(o, v, n)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.Prop, p)
		fmt.Printf("  case %d (%s) %s\n  %s: %s\n", v.Idx, v.How, v.Case, v.Sig, firstLines(v.Msg, 12))
	}
	if len(confirmed) > 0 {
		return 1
	}
	return 0
}

func readHashes(file string, into map[uint64]uint64) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for j := 0; j+16 <= len(b); j += 16 {
		into[binary.LittleEndian.Uint64(b[j:])] = binary.LittleEndian.Uint64(b[j+8:])
	}
}

// crossCheck executes the cases once more in other processes that divide them
// differently (so that every case has another history) and compares what was
// observed. It applies to properties that record hashes of their observations.
func crossCheck(o Opts, dir string, common func(...string) []string, n int, total *Report) []Violation {
	if m, _ := filepath.Glob(filepath.Join(dir, "w*.hashes")); len(m) == 0 {
		return nil
	}
	k := n + 1
	res := make([]wres, k)
	var wg sync.WaitGroup
	for i := 0; i < k; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res[i] = spawn(common("-shard", strconv.Itoa(i), "-nshards", strconv.Itoa(k), "-replica", "1"), dir, fmt.Sprintf("r%d", i))
		}(i)
	}
	wg.Wait()
	a, b := map[uint64]uint64{}, map[uint64]uint64{}
	for i := 0; i < n; i++ {
		readHashes(filepath.Join(dir, fmt.Sprintf("w%d.hashes", i)), a)
	}
	var out []Violation
	for i := 0; i < k; i++ {
		if res[i].rep == nil {
			out = append(out, Violation{Idx: res[i].idx, Shard: i, Sig: "crash", How: "replica", Msg: "a second process died: " + firstLines(res[i].crash, 6)})
			continue
		}
		total.Transitions += res[i].rep.Transitions
		out = append(out, res[i].rep.Violations...)
		readHashes(filepath.Join(dir, fmt.Sprintf("r%d.hashes", i)), b)
	}
	var diff []uint64
	for idx, h := range a {
		if g, ok := b[idx]; ok && g != h {
			diff = append(diff, idx)
		}
	}
	sort.Slice(diff, func(i, j int) bool { return diff[i] < diff[j] })
	total.Notes = append(total.Notes, fmt.Sprintf("%d observations compared between processes with different histories", len(b)))
	for i, idx := range diff {
		if i == 3 {
			break
		}
		out = append(out, Violation{Idx: int64(idx), Shard: int(idx) % n, Sig: "differs between processes", How: "replica", Msg: "the same call on equal operands is observed differently in two processes with different histories"})
	}
	return out
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n  ")
}

func genSupport(o Opts, t *Report) {
	out := map[string]string{}
	a, rj, mixed := 0, 0, 0
	for k, v := range t.Support {
		switch v {
		case 1:
			out[k] = "A"
			a++
		case 2:
			out[k] = "R"
			rj++
		case 3:
			out[k] = "AR"
			mixed++
			fmt.Println("MIXED", k, "--", t.SupportEx[k+"|R"])
		}
	}
	if o.Verbose {
		var ks []string
		for k := range out {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if out[k] == "R" {
				fmt.Println("REFUSED", k, "--", t.SupportEx[k+"|R"])
			}
		}
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "support"), 0o755)
	check(os.WriteFile(supportFile(o.Prop), append(b, '\n'), 0o644))
	fmt.Printf("support table %s: %d accepted, %d refused, %d mixed\n", o.Prop, a, rj, mixed)
}

type Finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Sig      string `json:"sig"`  // the violation's signature
	Case     string `json:"case"` // substring of the case, empty for any
	What     string `json:"what"`
}

type Findings []Finding

func (fs Findings) match(prop string, v Violation) *Finding {
	for i := range fs {
		f := &fs[i]
		if f.Property == prop && f.Sig == v.Sig && (f.Case == "" || strings.Contains(v.Case, f.Case)) {
			return f
		}
	}
	return nil
}

func loadFindings() Findings {
	var file struct {
		Known Findings `json:"known"`
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err == nil {
		json.Unmarshal(b, &file)
	}
	return file.Known
}

func writeReplay(o Opts, v Violation, n int) string {
	d := filepath.Join(verifDir, "replays")
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, fmt.Sprintf("%s-%s-%d.json", o.Prop, o.Tier, v.Idx))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": o.Prop, "tier": o.Tier, "seed": o.Seed, "case_index": v.Idx, "shard": v.Shard, "nshards": n,
		"needs":  map[string]string{"single": "the single case in a fresh process", "history": "the shard's cases up to this one, in one process"}[v.How],
		"mode":   v.How,
		"case":   v.Case,
		"sig":    v.Sig,
		"what":   v.Msg,
		"replay": "bash /verif/run.sh replay " + p,
	}, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

func writeEvidence(o Opts, t *Report, nstates, workers int, wall float64, nviol int) {
	samples := t.Samples
	if len(samples) > 12 {
		samples = samples[:12]
	}
	for i := range samples {
		if len(samples[i]) > 400 {
			samples[i] = samples[i][:400] + "..."
		}
	}
	cov := map[string]interface{}{
		"states":                         nstates,
		"transitions":                    t.Transitions,
		"traces_validated_against_impl":  t.Ran,
		"refusals_observed":              t.Refused,
		"operations":                     t.Ops,
		"known_finding_cases":            t.Known,
		"samples":                        samples,
		"exhaustive":                     t.Exhaustive && t.Ran+t.Excluded == t.Cases && nviol == 0,
		"notes":                          t.Notes,
		"map_iteration_order_controlled": mapOrderControlled,
		"rule":                           "states: distinct structural keys of expressions and constraints given to or returned by the library; transitions: library calls executed; every trace is executed on the real code and compared with the reference model",
	}
	if t.Excluded > 0 {
		cov["cases_excluded_by_bounds"] = t.Excluded // powers of more than 200 terms in an entry
	}
	if t.Ran != t.Cases {
		cov["cases_enumerated"] = t.Cases
	}
	ev := map[string]interface{}{
		"property": o.Prop, "tier": o.Tier, "seed": o.Seed, "level": "model_checking",
		"coverage":    cov,
		"assumptions": assumptions[o.Prop],
		"wall_s":      wall,
		"violations":  nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	check(os.WriteFile(filepath.Join(verifDir, "evidence", o.Prop+".json"), append(b, '\n'), 0o644))
}

// domain is what every property takes for granted about operands.
var domain = []string{
	"operands are well formed (accepted by Check) with non-negative exponents and at least one entry, constant matrices with rows of equal length; two variables are the same when identifier and environment agree (C16 and C22 explore malformed operands)",
	"coefficients are finite; values are compared up to a relative difference of 1e-9 (floating-point rounding is not judged)",
	"the reference model (matrices of canonical polynomials, mc/model.go) is right; it shares no code with the library",
}

var assumptions = func() map[string][]string {
	m := map[string][]string{}
	for i := 1; i <= 25; i++ {
		m[fmt.Sprintf("C%02d", i)] = append([]string{}, domain...)
	}
	add := func(p string, s ...string) { m[p] = append(m[p], s...) }
	for _, p := range []string{"C01", "C02", "C08", "C12"} {
		add(p, "which pairs of kinds and dimension classes are supported at all is pinned in support/"+p+".json, taken from the repaired tree: a pair outside it may be refused")
	}
	add("C06", "map iteration order is controlled through an overlay of the Go run time (all start positions of maps with up to eight entries); without the overlay the run time draws it")
	add("C21", "map iteration order is controlled through an overlay of the Go run time; a second process executes every enumerated call after a different history")
	add("C03", "memory is observed through the operands' and results' slices including their spare capacity, and through gonum's raw storage")
	add("C10", "about operands in which the terms as written and the mathematics disagree (0*x, x-x) an answer according to either is accepted")
	add("C13", "nonlinear relations are compared as polynomials up to a non-zero factor, and on a grid of assignments when that fails")
	add("C15", "implications between constraints that are not about one variable are refuted only on a grid of assignments")
	add("C17", "environments are identified by pointer, variables by identifier within one environment")
	add("C18", "an operation that does not return within 90 s counts as not terminating")
	add("C24", "an execution without conflicting accesses stands for all interleavings of its threads (they are ordered by nothing else); the race detector remembers the last four accesses to each eight bytes")
	add("C19", "operands of one environment, whose names are distinct and follow the library's scheme")
	return m
}()
