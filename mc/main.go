package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"time"
)

var verifDir = "/verif"

func main() {
	var (
		prop     = flag.String("prop", "", "property id")
		tier     = flag.String("tier", "quick", "quick or thorough")
		seed     = flag.Int("seed", 1, "recorded; the enumeration has no random choice")
		worker   = flag.Bool("worker", false, "run as a worker")
		out      = flag.String("out", "", "worker output directory")
		name     = flag.String("name", "", "worker name")
		shard    = flag.Int("shard", 0, "")
		nshards  = flag.Int("nshards", 1, "")
		only     = flag.Int64("only", -1, "run only this case")
		upto     = flag.Int64("upto", -1, "run the shard's cases up to this one")
		budget   = flag.Duration("budget", 0, "time budget")
		gen      = flag.Bool("gen", false, "regenerate the support table")
		verbose  = flag.Bool("v", false, "verbose")
		replay   = flag.String("replay", "", "replay file")
		selftest = flag.Bool("selftest", false, "build check")
		workers  = flag.Int("workers", 0, "")
		replica  = flag.Int("replica", 0, "")
	)
	flag.StringVar(&verifDir, "verif", verifDir, "directory of the framework")
	flag.Parse()
	if *budget == 0 {
		*budget = 240 * time.Second
		if *tier == "thorough" {
			*budget = 780 * time.Second
		}
	}
	if *selftest {
		initAlpha()
		fmt.Println("explorer built; map order controlled:", mapOrderControlled, "; properties:", len(props))
		return
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	if *worker {
		r := newR()
		r.Prop, r.Tier, r.Seed = *prop, *tier, *seed
		r.Shard, r.NShards, r.Only, r.Upto, r.Gen, r.Replica = *shard, *nshards, *only, *upto, *gen, *replica
		r.Verbose = *verbose
		r.deadline = time.Now().Add(*budget)
		runWorker(r, *out, *name)
		return
	}
	n := *workers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	os.Exit(supervise(Opts{Prop: *prop, Tier: *tier, Seed: *seed, Workers: n, Budget: *budget, Gen: *gen, Verbose: *verbose}))
}

func doReplay(file string) int {
	b, err := os.ReadFile(file)
	check(err)
	var rp struct {
		Property, Tier, Mode string
		Seed, Shard, Nshards int
		Case_index           int64
	}
	check(json.Unmarshal(b, &rp))
	dir, err := os.MkdirTemp("", "mc-")
	check(err)
	defer os.RemoveAll(dir)
	args := []string{"-prop", rp.Property, "-tier", rp.Tier, "-seed", strconv.Itoa(rp.Seed), "-verif", verifDir, "-shard", strconv.Itoa(rp.Shard), "-nshards", strconv.Itoa(rp.Nshards), "-budget", "800s"}
	if rp.Mode == "single" {
		args = append(args, "-only", strconv.FormatInt(rp.Case_index, 10))
	} else {
		args = append(args, "-upto", strconv.FormatInt(rp.Case_index, 10))
	}
	w := spawn(args, dir, "replay")
	if rp.Mode == "replica" && w.rep != nil {
		k := rp.Nshards + 1
		idx := uint64(rp.Case_index)
		other := append(append([]string{}, args[:8]...), "-shard", strconv.Itoa(int(idx)%k), "-nshards", strconv.Itoa(k), "-replica", "1", "-budget", "800s", "-upto", strconv.FormatInt(rp.Case_index, 10))
		spawn(other, dir, "replay2")
		a, b := map[uint64]uint64{}, map[uint64]uint64{}
		readHashes(filepath.Join(dir, "replay.hashes"), a)
		readHashes(filepath.Join(dir, "replay2.hashes"), b)
		if a[idx] != b[idx] {
			fmt.Printf("reproduced: case %d is observed differently in two processes (%x, %x)\n", idx, a[idx], b[idx])
			return 1
		}
	}
	if w.rep == nil {
		fmt.Printf("reproduced: case %d: %s\n", w.idx, w.crash)
		return 1
	}
	for _, v := range w.rep.Violations {
		fmt.Printf("reproduced: case %d %s\n  %s: %s\n", v.Idx, v.Case, v.Sig, v.Msg)
	}
	if len(w.rep.Violations) > 0 {
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
