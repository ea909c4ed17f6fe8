#!/usr/bin/env python3
"""Development tool: small mechanical changes to the crate; which of those that pass its tests does no check notice?

  mutants.py list SEED COUNT             candidates, one JSON per line
  mutants.py run FILE                    judge them in scratch copies ($MXW/N)
  mutants.py one SUITES...               (inside a scratch copy) run the suites, print what is found
"""
import importlib.machinery, importlib.util, json, os, queue, random, re, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "mlx9064x/src/"
FILES = ["calculations.rs", "common.rs", "driver.rs", "error.rs", "register.rs", "util.rs", "mlx90640/address.rs",
         "mlx90640/eeprom.rs", "mlx90640/mod.rs", "mlx90641/address.rs", "mlx90641/eeprom.rs", "mlx90641/hamming.rs", "mlx90641/mod.rs"]
SUITES = {"calculations.rs": ["calcfn", "calcsweep", "calcimg", "low", "scn"], "common.rs": ["e640", "e641", "low", "addr", "calcfn", "scn"],
          "driver.rs": ["scn", "poll", "twins"], "error.rs": ["errors", "scn", "bytes"], "register.rs": ["regs", "conv", "i2c", "scn"],
          "util.rs": ["e640", "e641", "addr", "regs"], "mlx90640/address.rs": ["addr", "low", "scn"],
          "mlx90640/eeprom.rs": ["e640", "sweep640", "bytes", "calcfn", "seq", "scn"], "mlx90640/mod.rs": ["low", "calcfn", "seq", "scn"],
          "mlx90641/address.rs": ["addr", "low", "scn"], "mlx90641/eeprom.rs": ["e641", "sweep641", "flips", "bytes", "seq", "scn"],
          "mlx90641/hamming.rs": ["hamming", "flips"], "mlx90641/mod.rs": ["low", "calcfn", "seq", "scn"]}
MODULE = {"calcfn": "CalcCheck", "calcsweep": "CalcCheck", "calcimg": "CalcCheck", "low": "LowCheck", "e640": "Eeprom640Check",
          "e641": "Eeprom641Check", "sweep640": "Eeprom640Check", "sweep641": "Eeprom641Check", "bytes": "EepromFaults",
          "flips": "EepromFaults", "addr": "AddrCheck", "errors": "ErrorCheck", "regs": "RegsCheck", "i2c": "RegsCheck",
          "conv": "ConvCheck", "hamming": "HammingCheck", "twins": "TwinCheck", "scn": "CamTrace", "poll": "PollTrace", "seq": "SeqTrace"}

def body(path):
    """(line number, text) of the code: no tests, no comments"""
    ls = open(path).read().split("\n")
    for i, l in enumerate(ls):
        if l.startswith("#[cfg(test)]"):
            return
        t = l.strip()
        if t and not t.startswith(("//", "#[", "#![", "use ", "pub use", "assert", "\"")):
            yield i, l

SWAPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" < ", " > "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" & ", " | "), (r" \| ", " & "), (r" % ", " / "),
         (r" << ", " >> "), (r" >> ", " << "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" && ", " || "), (r" \|\| ", " && "),
         (r"\+= ", "-= "), (r"-= ", "+= "), (r"Subpage::Zero", "Subpage::One"), (r"Subpage::One", "Subpage::Zero"),
         (r"\bChess\b", "Interleave"), (r"\bInterleave\b", "Chess"), (r"\bi16\b", "i8"), (r"\bi16\b", "u16"), (r"\bu16\b", "u8"),
         (r"\bi8\b", "u8"), (r"\bif ", "if !"), (r"powi\(4\)", "powi(3)"), (r"\.sqrt\(\)", ""), (r"subpage\b", "Subpage::Zero"),
         (r"self\.access_pattern\b", "AccessPattern::Chess"), (r"self\.emissivity\b", "1f32"), (r"self\.resolution_correction\b", "1f32"),
         (r"from_be_bytes", "from_le_bytes"), (r"to_be_bytes", "to_le_bytes"), (r"unwrap_or_default\(\)", "unwrap_or(1 as _)"),
         (r"\bWIDTH\b", "HEIGHT"), (r"\bHEIGHT\b", "WIDTH"), (r"get_i8\(\)", "get_u8() as i8"), (r"\?;$", ".ok();")]

def candidates():
    for f in FILES:
        p = "/repo/" + SRC + f
        for i, l in body(p):
            code = l.split("//")[0]
            new = set()
            for a, b in SWAPS:
                for m in re.finditer(a, code):
                    new.add(code[:m.start()] + b + code[m.end():])
            for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f_]+|0b[01_]+|\d+)(?=[^\w.]|$|u8|u16|usize|i16|i8|f32|\.\d)", code):
                n = int(m.group(1).replace("_", ""), 0)
                for k in {n + 1, n - 1, n ^ 2 if n > 7 else n + 2} - {n}:
                    if k >= 0:
                        new.add(code[:m.start()] + ("0x%04X" % k if m.group(1)[:2] == "0x" else "0b" + bin(k)[2:] if m.group(1)[:2] == "0b" else str(k)) + code[m.end():])
            if re.match(r"\s+(self\.|status_|current|\*|[a-z_]+\.)[^=]*(=|\().*;$", code) and "let" not in code:
                new.add("")
            for n in new:
                if n != l:
                    yield {"file": f, "line": i, "old": l, "new": n}

def one(suites):
    ld = importlib.machinery.SourceFileLoader("chk", V + "/check")
    chk = importlib.util.module_from_spec(importlib.util.spec_from_loader("chk", ld))
    ld.exec_module(chk)
    chk.build()
    wd = V + "/out/mut"
    os.makedirs(wd, exist_ok=True)
    for s in suites:
        extra, kw, cfg = [], {}, "Conform.cfg"
        if s in ("scn", "poll"):
            extra = ["--cals", wd + "/cals"] + (["--scripts", "/tmp/mut/gen.txt"] if s == "scn" else [])
            kw["env"] = {"CALS": wd + "/cals"}
            cfg = MODULE[s] + ".cfg"
        if s == "seq":
            extra, cfg = ["--scripts", "/tmp/mut/seq.txt", "--random", "/tmp/mut/seq.txt"], "SeqTrace.cfg"
        try:
            path = chk.record(s, "quick", 1, wd, extra=extra)
        except chk.Crashed as e:
            print("FOUND %s: %s" % (s, e.what)); return
        if s == "twins":
            kw["timeout"] = 400
        stats, viol = chk.judge(MODULE[s], path, wd, cfg=cfg, workers=4, **kw)
        bad = [v for v in viol if v[1] != "SIM"]
        if bad:
            print("FOUND %s: %s %s" % (s, sorted({v[1] for v in bad}), bad[0][2][:80])); return
    print("SURVIVED")

def sh(cmd, cwd, t=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def run(path):
    W, nw = os.environ.get("MXW", "/tmp/mut/w"), int(os.environ.get("NW", "3"))
    q = queue.Queue()
    for l in open(path): q.put(json.loads(l))
    def work(n):
        d = "%s/%d" % (W, n)
        if not os.path.isdir(d + "/repo"):
            os.makedirs(d)
            sh("git clone -q /repo %s/repo && cp /opt/vp/Cargo.lock %s/repo/" % (d, d), "/")
        sh("mkdir -p %s/verif && cd %s && tar c --exclude=.git --exclude=./build --exclude=./seeded --exclude=./out --exclude=./evidence . | tar x -C %s/verif" % (d, V, d), "/")
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            sh("git checkout -q -- .", d + "/repo")
            p = d + "/repo/" + SRC + m["file"]
            ls = open(p).read().split("\n")
            assert ls[m["line"]] == m["old"]
            ls[m["line"]] = m["new"]
            open(p, "w").write("\n".join(ls))
            rc, o = sh("timeout 120 cargo test --workspace --lib --tests --no-fail-fast --offline -- --test-threads 2", d + "/repo")
            if rc: res = "tests"
            elif os.environ.get("ONLY_TESTS"): res = "passes"
            else:
                rc, o = sh("python3 tools/mutants.py one " + " ".join(SUITES[m["file"]]), d + "/verif", 1500)
                res = (o.strip().split("\n") or ["?"])[-1][:300] if rc == 0 else "ERROR " + o[-600:]
            print(json.dumps(dict(m, res=res)), flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]

if sys.argv[1] == "list":
    c = list(candidates())
    sys.stderr.write("%d candidates\n" % len(c))
    random.Random(int(sys.argv[2])).shuffle(c)
    for x in c[:int(sys.argv[3])]: print(json.dumps(x))
elif sys.argv[1] == "one": one(sys.argv[2:])
else: run(sys.argv[2])
