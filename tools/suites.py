"""What each property's check runs, and the evidence it leaves."""
import hashlib, json, os, random, re
import models


class Ctx:
    def __init__(self, check, prop, tier, seed, wd):
        self.c, self.prop, self.tier, self.seed, self.wd = check, prop, tier, seed, wd
        self.findings, self.runs, self.samples, self.notes = [], [], [], []
        self.level = "exploration"
        self.evals = 0
        self.distinct = 0
        self.rules = []
        self.states = self.transitions = self.traces = 0
        self.exhaustive = False
        self.assumptions = []
        self.extra = {}
        self.stats = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def conform(self, suite, module, rule, count=None, kinds=None, cfg="Conform.cfg", harness=None, extra=(), seed=None):
        """Record a suite and have TLC judge every block.  kinds: the block kinds counted for this property."""
        kw = {} if harness is None else {"harness": harness}
        path = self.c.record(suite, self.tier, self.seed if seed is None else seed, self.wd, extra=extra, **kw)
        stats, viol = self.c.judge(module, path, self.wd, cfg=cfg)
        self.stats += stats.pop("stat")
        lines = open(path).read().split("\n")
        mine = [v for v in viol if v[1] == self.prop]
        seen = set()
        for b, prop, what in mine:
            sig = "%s:%s" % (suite, what.replace(" ", "_"))
            blk = lines[b - 1]
            self.findings.append({"suite": suite, "module": module, "block": b, "what": what, "signature": sig,
                                  "recorded": blk if len(blk) < 200000 else blk[:200000]})
        n = d = 0
        for l in lines:
            if not l:
                continue
            k = l[6:l.index('"', 6)]
            if kinds and k not in kinds:
                continue
            c = count(l) if count else 1
            n += c
            h = hashlib.md5(l.encode()).digest()
            if h not in seen:
                seen.add(h)
                d += c
                if len(self.samples) < 4 and (len(seen) in (1, 40)):
                    self.samples.append(l[:600])
        self.evals += n
        self.distinct += d
        self.states += stats["distinct"]
        self.transitions += stats["generated"]
        self.traces += len(seen)
        self.rules.append(rule)
        self.runs.append({"suite": suite, "module": module, "blocks": len([l for l in lines if l]),
                          "tlc_states": stats["distinct"], "tlc_generated": stats["generated"],
                          "tlc_wall_s": round(stats["wall"], 2)})
        return path

    def evidence(self):
        cov = {"runs": self.runs, "samples": self.samples[:6] or ["none"]}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
            cov["explanation"] = "; ".join(self.rules)
            cov["observations"] = self.evals
        else:
            cov.update(evaluations=self.evals, distinct_nontrivial=self.distinct, rule="; ".join(self.rules))
        cov["exhaustive"] = self.exhaustive
        cov.update(self.extra)
        return {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
                "coverage": cov, "assumptions": self.assumptions}


def rows(line):
    return len(json.loads(line).get("rows", [0]))


def c01(x):
    x.exhaustive = True
    x.conform("regs", "RegsCheck",
              "every word of both registers: all getters, all setters with all values, equality with all 16 one-bit "
              "neighbours and one random word; plus random setter sequences on a register read from and written to a "
              "bus. Every row is a distinct word of a distinct register.", count=rows)


def c10(x):
    x.exhaustive = True
    x.conform("hamming", "HammingCheck", "every 16-bit word through add_checksum and validate_checksum, judged by "
              "minimum-distance decoding; the code's minimum distance 4 is an ASSUME of the specification", count=rows)


def c19(x):
    x.exhaustive = True
    x.conform("conv", "ConvCheck", "all 256 integers, all values, and all 2^32 floats (in 256 blocks by top byte, "
              "each reporting the accepted bit patterns)",
              count=lambda l: json.loads(l).get("count", 0) + len(json.loads(l).get("rate_u8", [])) * 2)


def c21(x):
    x.exhaustive = True
    x.conform("i2c", "RegsCheck", "every 16-bit word: flags, setters, equality and order; plus random setter "
              "sequences on the register read from and written to a bus", count=rows)


E640 = ("EEPROM images through Mlx90640Calibration::from_data: the two real dumps, random images whose header and pixel "
        "words are drawn from extremes and uniform values, images at and beyond the offset range, and real dumps with "
        "words changed; every accessor of the result is compared with the decoding given in Eeprom640.tla")
E641 = E640.replace("640", "641").replace("the two real dumps", "the datasheet image")


SWEEP = ("every header word swept alone through %s on real and random images: the constants it defines are judged, and "
         "all others have to stay what they were")


def c11(x):
    x.conform("e640", "Eeprom640Check", E640)
    x.conform("sweep640", "Eeprom640Check", SWEEP % ("all its values" if x.thorough else "all values of every field"), count=rows)


def c12(x):
    x.conform("e640", "Eeprom640Check", E640 + "; each full image is 768 pixels (counted one by one)",
              count=lambda l: 768, kinds=("e640",))


def c13(x):
    x.conform("e641", "Eeprom641Check", E641)
    x.conform("sweep641", "Eeprom641Check", SWEEP % "all 2048 data values", count=rows)


def faults_count(l):
    b = json.loads(l)
    return sum(len(r) for r in b["rows"]) if b["k"] in ("flip1", "flip2") else len(b.get("rows", [0]))


def c14(x):
    x.extra["exhaustive_part"] = "all 832 x 16 single and all 832 x 120 double flips of every image used"
    x.conform("flips", "EepromFaults", "damaged images of the MLX90641 EEPROM: every single flip, every double flip "
              "and random combinations over several words, on the datasheet image and random valid images",
              count=faults_count)


def c15(x):
    x.conform("bytes", "EepromFaults", "loads of byte strings: every length 0..1800 and longer ones (with a valid "
              "prefix and with other content), arbitrary images with and without extra bytes, loads over the bus",
              count=faults_count)
    x.conform("e640", "Eeprom640Check", "panics in the images of the C11/C12 recording")
    x.conform("e641", "Eeprom641Check", "panics in the images of the C13 recording")
    x.conform("sweep640", "Eeprom640Check", "panics in the sweeps of C11", count=rows)
    x.conform("sweep641", "Eeprom641Check", "panics in the sweeps of C13", count=rows)


CALC = ("calculation functions called with recorded arguments and judged by interval arithmetic over the formulas of "
        "Calc.tla; constants come from decoded EEPROMs and from a calibration of our own in which every constant is free")


def calc_fn(x, kinds=None):
    x.conform("calcfn", "CalcCheck", CALC, kinds=kinds)


def calc_sweep(x, kinds):
    x.conform("calcsweep", "CalcCheck", "one argument swept while the others stay: all 65536 values of each frame word and "
              "of a pixel's word and offset, and lines of temperatures, emissivities and signals", kinds=kinds, count=rows)


def calc_img(x, count):
    n = len(x.stats)
    x.conform("calcimg", "CalcCheck", "whole images through the one-pass and the two-step functions, every written "
              "pixel judged", count=count, kinds=("img",))
    st = x.stats[n:]
    x.extra["image_pixels"] = {"judged": sum(s[0] for s in st), "ir_sharp": sum(s[1] for s in st),
                               "temperature_within_an_eighth_degree": sum(s[2] for s in st)}


def libm(x, suites):
    """The same recordings from a build without std, where libm provides the floating-point functions."""
    if x.thorough:
        h = x.c.build("libm")
        for s in suites:
            x.conform(s, "CalcCheck", "the same with the libm feature instead of std", harness=h, seed=x.seed + 1000)
        x.extra["libm_build"] = list(suites)


def px_count(l):
    b = json.loads(l)
    return sum(b["valid"][:b["len"]])


def c16(x):
    calc_fn(x, ("dv", "vdd", "art", "ta", "common"))
    calc_sweep(x, ("fsw",))
    calc_img(x, lambda l: 2)
    x.conform("low", "LowCheck", "frame words read from random memory, with extreme words", kinds=("frame",))
    libm(x, ("calcfn", "calcsweep"))


def c17(x):
    calc_fn(x, ("vir", "common"))
    calc_sweep(x, ("vsw",))
    calc_img(x, px_count)
    libm(x, ("calcfn", "calcimg"))


def c18(x):
    calc_fn(x, ("tar", "sens", "temp"))
    calc_sweep(x, ("tsw", "ssw", "psw"))
    calc_img(x, lambda l: 2 * px_count(l))
    libm(x, ("calcfn", "calcsweep", "calcimg"))


def c23(x):
    x.conform("low", "LowCheck", "constants, membership sequences, ranges (complete for both cameras, subpages and "
              "patterns) and frame reads from random memory")
    x.conform("calcfn", "CalcCheck", "the 16 resolution corrections of both cameras", kinds=("rc",))


def c24(x):
    x.conform("twins", "TwinCheck", "histories of driver calls recorded twice: alone, and with clones of the driver that are "
              "used as well, with another driver of the same camera that only reads, or with the calls of a driver of another "
              "camera between its transfers; the recordings have to be the same",
              count=lambda l: l.count('"e":"ret"') // 2)


def c25(x):
    x.exhaustive = True
    x.conform("errors", "ErrorCheck", "checksum errors of all 65536 words; library errors against each other; bus errors with "
              "values of their own: pattern, source, Display and Debug", count=rows)


def c26(x):
    x.exhaustive = True
    x.conform("addr", "AddrCheck", "all 65536 addresses as numbers and as names of both cameras; all pairs of names",
              count=rows)


# ---- histories of driver calls (C02 to C09, C20, C22) ----
GEN = """INIT GInit
NEXT GNext
CONSTANTS
  Models <- AllModels
  Statuses <- %(st)s
  Controls <- %(ct)s
  ExtStatus <- ExtS
  ExtControl <- ExtC
  OpArgs <- %(ops)s
  MaxCalls = %(calls)d
  MaxTicks = %(ticks)d
  MaxFaults = %(faults)d
  MaxExt = %(exts)d
  MaxEnv = %(env)d
  MaxPolls = 20
  Endless = FALSE
  CacheEarly = FALSE
INVARIANT GPrint
CHECK_DEADLOCK FALSE
"""


MODEL_OF = {"MC": "Camera.tla", "PollMC": "PollMC.tla", "AccessMC": "Camera.tla => Access.tla", "ReadyMC": "Camera.tla => Ready.tla"}


def design(x):
    """Check the bounded instances of Camera.tla that concern this property."""
    if os.environ.get("MATRIX_NO_DESIGN"):     # tools/matrix.py: the design does not depend on the code
        return
    for name, inst in (models.THOROUGH if x.thorough else models.QUICK)[x.prop]:
        st = x.c.model(inst["module"], models.cfg(inst), x.wd, "%s-%s" % (x.prop, name))
        x.states += st["distinct"]
        x.transitions += st["generated"]
        x.runs.append({"model": MODEL_OF[inst["module"]], "instance": name, "bounds": dict({k: inst[k] for k in ("ops", "calls", "ticks", "faults", "exts")},
                                                              **({"calls": "unlimited, the other budgets for each call"} if "Next_left <- Full" in inst["more"] else {})),
                       "checked": list(inst["inv"]) + list(inst["props"]), "tlc_states": st["distinct"],
                       "tlc_generated": st["generated"], "tlc_wall_s": round(st["wall"], 2)})
    for name, inst, want in models.REACH.get(x.prop, []):
        x.c.model(inst["module"], models.cfg(inst), x.wd, "%s-%s" % (x.prop, name), violated=want)
        x.runs.append({"model": MODEL_OF[inst["module"]], "instance": name, "reached": "a violation of a temporal property" if want == "temporal" else "not " + want})
    if x.prop in models.PROOFS:
        x.runs += x.c.prove(models.PROOFS[x.prop][0], x.wd, models.PROOFS[x.prop][1])


def scripts(x):
    """Behaviours of the model as scripts: all with one call, random ones with more."""
    one = dict(st="GenStatuses", ct="TwoControls", ops="AllOps", calls=1, ticks=1, faults=1, exts=1, env=1)
    res = []
    for i, l in enumerate(sorted(x.c.generate(GEN % one, x.wd, "gen1"))):
        res.append("%s ; raw_sp %d -1 ; img_ready 0 -1" % (l, i % 2))
    n1 = len(res)
    num = 4000 if x.thorough else 350
    for ops, sd in (("AllOps", 1), ("MixOps", 2)):
        many = dict(st="AllStatuses", ct="AllControls", ops=ops, calls=5, ticks=3, faults=2, exts=2, env=5)
        res += sorted(x.c.generate(GEN % many, x.wd, "gen-" + ops, simulate=(num, x.seed * 10 + sd)))
    n2 = len(res) - n1
    if x.thorough:
        two = dict(st="GenStatuses", ct="TwoControls", ops="FewOps", calls=1, ticks=2, faults=1, exts=1, env=2)
        l2 = sorted(x.c.generate(GEN % two, x.wd, "gen2"))
        x.extra["behaviours_with_two_environment_actions"] = len(l2)
        if len(l2) > 40000:
            l2 = random.Random(x.seed).sample(l2, 40000)
        res += ["%s ; raw_sp %d -1 ; img_ready 0 -1" % (l, i % 2) for i, l in enumerate(l2)]
        seq = dict(st="GenStatuses", ct="TwoControls", ops="PairOps", calls=3, ticks=0, faults=1, exts=0, env=1)
        l3 = sorted(x.c.generate(GEN % seq, x.wd, "gen3"))
        x.extra["behaviours_with_three_calls"] = len(l3)
        if len(l3) > 30000:
            l3 = random.Random(x.seed).sample(l3, 30000)
        res += l3
    x.extra["generated_behaviours"] = {"one call, one environment action at every point": n1, "random, up to five calls": n2}
    return res


def calls_of(line):
    return line.count('"e":"ret"')


def validate(x, name, extra, suite="scn", module="CamTrace"):
    """Record histories and follow them with CamTrace.tla (or PollTrace.tla)."""
    cals = os.path.join(x.wd, "cals.ndjson")
    path = x.c.record(suite, x.tier, x.seed, x.wd, extra=["--cals", cals] + extra)
    new = os.path.join(x.wd, name + ".ndjson")
    os.rename(path, new)
    stats, viol = x.c.judge(module, new, x.wd, cfg=module + ".cfg", env={"CALS": cals})
    lines = open(new).read().split("\n")
    want = sum(l.count('"e":') + 1 for l in lines if l)
    if stats["distinct"] != want:
        raise x.c.Broken("%s followed %d of %d steps" % (module, stats["distinct"], want))
    sim = [v for v in viol if v[1] == "SIM"]
    if sim:
        raise x.c.Broken("the simulated camera disagrees with Device.tla: %s" % (sim[:3],))
    for b, prop, what in viol:
        if prop == x.prop:
            blk = lines[b - 1]
            what2 = re.sub(r"-?\d+", "#", what)
            x.findings.append({"suite": suite, "module": module, "block": b, "what": what,
                               "signature": suite + ":" + what2.replace(" ", "_"), "recorded": blk[:200000]})
    blocks = [l for l in lines if l]
    x.traces += len(blocks)
    x.states += stats["distinct"]
    x.transitions += stats["generated"]
    n = sum(calls_of(l) for l in blocks)
    x.evals += n
    x.distinct += len(set(hashlib.md5(l.encode()).digest() for l in blocks))
    x.samples += [blocks[i][:500] for i in (0, len(blocks) // 2)]
    x.runs.append({"traces": name, "module": module, "histories": len(blocks), "calls": n,
                   "steps": stats["distinct"] - len(blocks), "tlc_wall_s": round(stats["wall"], 2)})


def scenario(x):
    x.level = "model_checking"
    design(x)
    sc = scripts(x)
    size = 12000
    for i in range(0, len(sc), size):
        p = os.path.join(x.wd, "scripts-%d.txt" % (i // size))
        with open(p, "w") as f:
            f.write("\n".join(sc[i:i + size]) + "\n")
        validate(x, "generated-%d" % (i // size), ["--scripts", p])
    validate(x, "random", [])
    x.rules.append("bounded instances of the design (Camera.tla) checked completely; behaviours of the design replayed into "
                   "the real driver on a simulated camera, and random longer histories; every recorded history followed "
                   "step by step by CamTrace.tla, every call judged by Contract.tla and Calc.tla")


PROPS = {"C01": c01, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17,
         "C18": c18, "C19": c19, "C21": c21, "C23": c23, "C24": c24, "C25": c25, "C26": c26}
for _p in ("C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C20"):
    PROPS[_p] = scenario


def c27(x):
    x.level = "model_checking"
    design(x)
    validate(x, "polling", [], suite="poll", module="PollTrace")
    x.rules.append("PollMC.tla (Camera.tla with a caller who keeps up) refines the mailbox of Poll.tla, safety and liveness; recorded "
                   "sessions of the real driver with one buffer followed step by step by PollTrace.tla")


PROPS["C27"] = c27


SEQ = """INIT Init
NEXT %s
CONSTANTS
  N = %d
  Depth = %d
INVARIANT InRange
INVARIANT Printed
%sCHECK_DEADLOCK FALSE
"""


def c28(x):
    x.level = "model_checking"
    for n in ((0, 1, 2, 5, 9) if x.thorough else (0, 1, 5)):
        cfg = SEQ % ("Next", n, 3 if x.thorough else 2, "PROPERTY Apart\n")
        st = x.c.model("Seq", cfg.replace("INVARIANT Printed\n", ""), x.wd, "seq-%d" % n)
        x.states += st["distinct"]
        x.transitions += st["generated"]
        x.runs.append({"model": "Seq.tla", "entries": n, "checked": ["InRange", "Apart", "closed forms = repeated next"],
                       "tlc_states": st["distinct"], "tlc_generated": st["generated"]})
    one = sorted(x.c.generate(SEQ % ("Directed", 5, 4, ""), x.wd, "directed", module="Seq"))
    many = sorted(x.c.generate(SEQ % ("Next", 5, 6, ""), x.wd, "random", simulate=(3000 if x.thorough else 600, x.seed),
                               module="Seq"))
    paths = []
    for name, l in (("directed", one), ("random", many)):
        paths.append(os.path.join(x.wd, name + ".txt"))
        with open(paths[-1], "w") as f:
            f.write("\n".join(l) + "\n")
    x.extra["generated_behaviours"] = {"every operation everywhere": len(one), "random": len(many)}
    path = x.c.record("seq", x.tier, x.seed, x.wd, extra=["--scripts", paths[0], "--random", paths[1]])
    stats, viol = x.c.judge("SeqTrace", path, x.wd, cfg="SeqTrace.cfg")
    lines = [l for l in open(path).read().split("\n") if l]
    if stats["distinct"] != sum(l.count('"op":') + 1 for l in lines):
        raise x.c.Broken("SeqTrace followed %d steps" % stats["distinct"])
    for b, prop, what in viol:
        what = what.replace('"', "")
        x.findings.append({"suite": "seq", "module": "SeqTrace", "block": b, "what": what,
                           "signature": "seq:" + what.replace(" ", "_"), "recorded": lines[b - 1][:200000]})
    x.traces += len(lines)
    x.states += stats["distinct"]
    x.transitions += stats["generated"]
    x.evals += stats["distinct"] - len(lines)
    x.distinct += len(set(hashlib.md5(l.encode()).digest() for l in lines))
    x.samples += [l[:500] for l in lines[:2]]
    x.runs.append({"traces": "sequences", "module": "SeqTrace", "histories": len(lines), "steps": stats["distinct"] - len(lines),
                   "tlc_wall_s": round(stats["wall"], 2)})
    x.rules.append("Seq.tla checked completely for small sequences; its behaviours replayed on every iterator of the crate over "
                   "both cameras, subpages, patterns and several calibrations; every step followed by SeqTrace.tla")


PROPS["C28"] = c28


def c22(x):
    scenario(x)
    calc_fn(x)
    calc_sweep(x, None)
    calc_img(x, px_count)


PROPS["C22"] = c22


def c04(x):
    scenario(x)
    calc_img(x, px_count)


PROPS["C04"] = c04
PROPS = dict(sorted(PROPS.items()))
