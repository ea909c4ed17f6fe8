#!/usr/bin/env python3
"""Development tool: the interval arithmetic behind spec/Fx.tla against exact rational arithmetic (python3-vt)."""
import json, os, random, struct, subprocess, sys
from fractions import Fraction as Q
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)

def sbits(u): return u - (1 << 32) if u >> 31 else u
def bits(x): return sbits(struct.unpack("<I", struct.pack("<f", x))[0])
def val(b): return struct.unpack("<f", struct.pack("<i", b))[0]
def f32(q):
    """the f32 nearest to a rational (through double: good to a fraction of a unit in the last place)"""
    return struct.unpack("<f", struct.pack("<f", float(q)))[0]
def operand():
    k = rnd.randrange(6)
    if k == 0: return rnd.choice([0.0, -0.0, 1.0, -1.0, 0.5, 3.3, 25.0, 273.15, 1e-20, 1e9])
    if k == 1: return float(rnd.randrange(-40000, 40000))
    return rnd.choice([-1, 1]) * rnd.random() * 2.0 ** rnd.randrange(-20, 20)

cases = []
def case(op, a, b, exact, scale=None, n=0, e=0, rel=Q(1, 1 << 22), off=Q(1, 1 << 16)):
    """inside: the exact value and values a few units off; outside: relatively 2^-16 (of scale) away"""
    sc = abs(exact) if scale is None else scale
    ins, outs = [], []
    for d in (Q(0), rel * abs(exact), -rel * abs(exact)):
        ins.append(bits(f32(exact + d)))
    if Q(1, 1 << 90) < sc < 1 << 88:      # beyond, an f32 may under- or overflow on the way
        for d in (off * sc, -off * sc, sc):
            outs.append(bits(f32(exact + d)))
    cases.append(dict(op=op, a=bits(a), b=bits(b), n=n, e=e, inside=ins, outside=outs))

for _ in range(6000):
    a, b = f32(operand()), f32(operand())
    qa, qb = Q(a), Q(b)
    case("add", a, b, qa + qb)
    case("sub", a, b, qa - qb)
    case("mul", a, b, qa * qb)
    if b != 0: case("div", a, b, qa / qb)
    else: cases.append(dict(op="div", a=bits(a), b=bits(b), n=0, e=0, inside=[bits(float("inf")), bits(float("-inf")), bits(float("nan"))], outside=[bits(0.0), bits(1.0), bits(a)]))
    case("pow3", a, b, qa ** 3)
    case("pow4", a, b, qa ** 4)
    if a > 0:
        r = Q(float(qa) ** 0.25)
        case("root4", a, b, r)
    z, inf, nan = bits(0.0), bits(float("inf")), bits(float("nan"))
    cases.append(dict(op="ddz", a=bits(a), b=bits(b), n=0, e=0, inside=[inf, nan], outside=[z, bits(b)]))      # a / (0 * b) - b
    cases.append(dict(op="under", a=bits(a), b=bits(b), n=0, e=0, inside=[z, bits(a), inf, nan], outside=[]))  # b / (a / 0)
    cases.append(dict(op="zmul", a=bits(a), b=bits(b), n=0, e=0, inside=[z, bits(-0.0)], outside=[bits(1e-30)]))
    case("neg", a, b, -qa, rel=Q(0))
    n = rnd.randrange(-2**31 + 1, 2**31)
    case("int", a, b, Q(n), n=n)
    e = rnd.randrange(-40, 30)
    case("dyadic", a, b, Q(n) * Q(2) ** e, n=n, e=e)
    x = qa * qb + (qb - qa)
    case("dot", a, b, x, scale=abs(qa * qb) + abs(qb) + abs(qa))
    k = rnd.randrange(10, 22)
    case("slack", a, b, qa, scale=abs(qb) / 2 ** k * 64 + abs(qa) / 2 ** 18, n=k, rel=Q(0), off=Q(1))
out = "/tmp/fxtest.ndjson"
with open(out, "w") as f:
    for c in cases:
        f.write(json.dumps(c) + "\n")
jars = V + "/build/java:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
t = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx4g", "-Xss64m", "-cp", jars, "tlc2.TLC", "-workers", "4", "-metadir",
                    "/tmp/fxtest.meta", "-noGenerateSpecTE", "-config", "Conform.cfg", "FxTest.tla"], cwd=V + "/spec",
                   capture_output=True, text=True, env=dict(os.environ, TRACE=out)).stdout
bad = [l for l in t.splitlines() if "VIOL" in l]
print(len(cases), "cases,", len(bad), "wrong;", "finished" if "No error has been found" in t else "TLC FAILED\n" + t[-1500:])
for l in bad[:10]:
    print(l, json.dumps(cases[int(l.split("<<")[1].split(",")[0]) - 1]))
