#!/usr/bin/env python3
"""overlay.py GOROOT OUTDIR: writes OUTDIR/overlay.json, which replaces the Go
run time's map.go and alg.go by copies whose map iteration start, map hash seed
and hash keys are fixed by the harness instead of drawn at random."""
import json, os, sys
root, out = sys.argv[1], sys.argv[2]
def rd(n): return open(os.path.join(root, "src/runtime", n)).read()
m = rd("map.go")
assert m.count("\tr := uintptr(rand())\n") == 1, "mapiterinit"
m = m.replace("\tr := uintptr(rand())\n", "\tr := uintptr(rand())\n\tif VerifMapSeedOn {\n\t\tr = VerifMapSeed\n\t}\n")
assert m.count("h.hash0 = uint32(rand())") >= 2
m = m.replace("h.hash0 = uint32(rand())", "h.hash0 = 0x5eed1234")
m += "\nvar VerifMapSeedOn bool\n\nvar VerifMapSeed uintptr\n"
a = rd("alg.go")
assert "func alginit() {" in a
a = a.replace("func alginit() {", "func alginit() {\n\tdefer verifFixKeys()\n", 1)
a += """
func verifFixKeys() {
	for i := range hashkey {
		hashkey[i] = uintptr(2*i + 1)
	}
	for i := range aeskeysched {
		aeskeysched[i] = byte(i*7 + 3)
	}
}
"""
os.makedirs(os.path.join(out, "rt"), exist_ok=True)
rep = {}
for n, s in (("map.go", m), ("alg.go", a)):
    p = os.path.join(out, "rt", n + ".txt")
    open(p, "w").write(s)
    rep[os.path.join(root, "src/runtime", n)] = p
# In builds with the race detector sync.Pool keeps nothing, so that threads that
# only share a pool (of fmt or gonum, say) are not ordered by it.
s = open(os.path.join(root, "src/sync/pool.go")).read()
if s.count("if runtime_randn(4) == 0 {") == 1:
    p = os.path.join(out, "rt", "pool.go.txt")
    open(p, "w").write(s.replace("if runtime_randn(4) == 0 {", "if runtime_randn(4) < 4 {"))
    rep[os.path.join(root, "src/sync/pool.go")] = p
json.dump({"Replace": rep}, open(os.path.join(out, "overlay.json"), "w"))
