#!/usr/bin/env python3
"""Development tool: are the judges awake?  Every suite is recorded once, single numbers in single blocks are
changed, and the table shows, per member of a block, how many of the changed blocks were rejected.

  selftest.py [SUITE...]      (uses /tmp/st)
"""
import json, os, random, re, subprocess, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/st"
SUITES = {"regs": "RegsCheck", "i2c": "RegsCheck", "hamming": "HammingCheck", "conv": "ConvCheck", "e640": "Eeprom640Check",
          "sweep640": "Eeprom640Check", "e641": "Eeprom641Check", "sweep641": "Eeprom641Check", "flips": "EepromFaults",
          "bytes": "EepromFaults", "calcfn": "CalcCheck", "calcsweep": "CalcCheck", "calcimg": "CalcCheck", "low": "LowCheck",
          "errors": "ErrorCheck", "scn": "CamTrace"}
TLC = ["java", "-XX:+UseParallelGC", "-Xmx8g", "-Xss64m", "-cp",
       V + "/build/java:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
       "-workers", "8", "-metadir", W + "/meta", "-noGenerateSpecTE"]

def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    elif isinstance(x, int) and not isinstance(x, bool):
        yield path

def change(x, path, rnd):
    for k in path[:-1]:
        x = x[k]
    v = x[path[-1]]
    # a float pattern loses about one part in 4000; other numbers change by one
    x[path[-1]] = v ^ (1 << 11) if abs(v) > (1 << 23) else v + 1 if rnd.random() < .5 or v == 0 else v - 1

def name(kind, path, block):
    return kind + "." + ".".join(str(k) if isinstance(k, str) else "*" for k in path)

def main():
    os.makedirs(W, exist_ok=True)
    rnd = random.Random(5)
    for suite in sys.argv[1:] or SUITES:
        mod = SUITES[suite]
        raw, cals = f"{W}/{suite}.nd", f"{W}/{suite}.cals"
        subprocess.run([V + "/build/target/debug/vharness", suite, "--seed", "1", "--tier", "quick", "--out", raw]
                       + (["--cals", cals] if suite == "scn" else []), check=True)
        lines = [l for l in open(raw).read().split("\n") if l]
        bykind = collections.defaultdict(list)
        for l in lines:
            bykind[l[6:l.index('"', 6)]].append(l)
        want = {}
        with open(f"{W}/{suite}.bad", "w") as f:
            n = 0
            for kind, ls in sorted(bykind.items()):
                for _ in range(400):
                    l = rnd.choice(ls)
                    if len(l) > 400000 and rnd.random() < .7:
                        continue
                    b = json.loads(l)
                    keys = collections.defaultdict(list)
                    for p in leaves(b):
                        keys[name(kind, p, b)].append(p)
                    for dead in [k for k in keys if k.split(".")[-1] in ("ok", "n", "len", "_", "panic")]:
                        del keys[dead]      # changed numbers of this kind would not be well-formed recordings
                    if not keys:
                        continue
                    k = rnd.choice(sorted(keys))
                    p = rnd.choice(keys[k])
                    change(b, p, rnd)
                    n += 1
                    want[n] = k
                    f.write(json.dumps(b, separators=(",", ":")) + "\n")
        cfg = "CamTrace.cfg" if suite == "scn" else "Conform.cfg"
        o = subprocess.run(TLC + ["-config", cfg, mod + ".tla"], cwd=V + "/spec", capture_output=True, text=True,
                           env=dict(os.environ, TRACE=f"{W}/{suite}.bad", CALS=cals)).stdout
        if "No error has been found" not in o:
            print(suite, "TLC stopped:", "\n".join(l for l in o.splitlines() if "rror" in l)[:1500])
        hit = set(int(m) for m in re.findall(r'VIOL <<(\d+),', o))
        tot, got = collections.Counter(), collections.Counter()
        for i, k in want.items():
            tot[k] += 1
            got[k] += i in hit
        print(f"== {suite}: {sum(got.values())} of {sum(tot.values())} changed blocks rejected")
        for k in sorted(tot):
            print(f"   {k:40} {got[k]:4} / {tot[k]}")
main()
