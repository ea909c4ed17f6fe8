#!/usr/bin/env python3
"""Development tool: judges the planted bugs in /verif/seeded in scratch copies under /tmp/mx.

  matrix.py valid [ID...]          does each change build, pass the tests, and is its demo right?
  matrix.py quiet DIFF...          do all checks stay quiet on a change that keeps the behaviour?
  matrix.py check [-a] [ID...]     does the check of its property catch it? (-a: every check)
"""
import json, os, re, shutil, subprocess, sys, threading, queue
V = "/verif"
W = os.environ.get("MXW", "/tmp/mx")
ENV = dict(os.environ, MATRIX_NO_DESIGN="1", CARGO_NET_OFFLINE="true", VERIF_SEED="1", VERIF_TIER="quick")

def sh(cmd, cwd, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env or ENV)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def worker_dir(n, with_verif):
    d = f"{W}/{n}"
    if not os.path.isdir(d + "/repo"):
        os.makedirs(d, exist_ok=True)
        subprocess.run(f"git clone -q /repo {d}/repo && cp /opt/vp/Cargo.lock {d}/repo/", shell=True, check=True)
    subprocess.run("git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq -e Cargo.lock -e target", shell=True, cwd=d + "/repo", check=True)
    if with_verif:
        subprocess.run(f"mkdir -p {d}/verif && rsync -a --delete --exclude .git --exclude build --exclude seeded --exclude out --exclude evidence {V}/ {d}/verif/ 2>/dev/null || (rm -rf {d}/verif && mkdir -p {d}/verif && cd {V} && tar c --exclude=.git --exclude=./build --exclude=./seeded --exclude=./out --exclude=./evidence . | tar x -C {d}/verif)", shell=True, check=True)
    return d

def passed(out):
    return sum(int(x) for x in re.findall(r"test result: \w+\. (\d+) passed", out)), sum(int(x) for x in re.findall(r"(\d+) failed", out))

def valid(n, bug):
    d = worker_dir(n, False)
    s = f"{V}/seeded/{bug}"
    rc0, o0 = sh(f"bash {s}/demo.sh", d + "/repo")
    rc, o = sh(f"git apply {s}/patch.diff", d + "/repo")
    if rc:
        return f"DOES NOT APPLY {o}"
    rc, o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 4", d + "/repo")
    p, f = passed(o)
    rc1, o1 = sh(f"bash {s}/demo.sh", d + "/repo")
    ok = rc0 == 0 and rc1 not in (0, 3, 4) and rc == 0 and f == 0 and p >= 135
    msg = f"{'ok ' if ok else 'BAD'} demo clean {rc0} patched {rc1}; tests rc {rc} {p} passed {f} failed"
    if rc0 != 0: msg += "\n" + o0[-1500:]
    elif rc1 in (0, 3, 4): msg += "\n" + o1[-1500:]
    elif rc: msg += "\n" + "\n".join(l for l in o.splitlines() if "FAILED" in l or l.startswith("error") or "panicked" in l)[:1500]
    return msg

def check(n, bug, every):
    d = worker_dir(n, True)
    s = f"{V}/seeded/{bug}"
    rc, o = sh(f"git apply {s}/patch.diff", d + "/repo")
    if rc:
        return f"DOES NOT APPLY {o}"
    prop = json.load(open(s + "/meta.json"))["property"]
    props = [prop] + ([c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"] if c["property"] != prop] if every else [])
    res = []
    for p in props:
        rc, o = sh(f"./check {p} quick", d + "/verif")
        hit = [l for l in o.splitlines() if l.startswith("VIOLATION property=" + p + " ")]
        res.append(f"{p}:" + ("caught" if rc == 1 and hit else "quiet" if rc == 0 else f"rc{rc}?? " + o[-300:]))
    return ("CAUGHT " if res[0].endswith("caught") else "MISSED ") + " ".join(r for r in res if "quiet" not in r or r.startswith(prop))

def quiet(n, job):
    diff, p = job
    d = worker_dir(n, True)
    rc, o = sh(f"git apply {diff}", d + "/repo")
    if rc:
        return f"DOES NOT APPLY {o}"
    rc, o = sh(f"./check {p} quick", d + "/verif")
    return "quiet" if rc == 0 else f"ALARM rc {rc} " + o[-1500:]

def main():
    mode = sys.argv[1]
    args = [a for a in sys.argv[2:] if not a.startswith("-")]
    every = "-a" in sys.argv
    bugs = args or sorted(os.listdir(V + "/seeded"))
    nw = int(os.environ.get("NW", "4" if mode == "valid" else "2"))
    if mode == "quiet":
        props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        props = [x for x in props if x in os.environ.get("ONLY", " ".join(props)).split()]
        bugs = [(os.path.abspath(d), p) for d in args for p in props]
    q = queue.Queue()
    for b in bugs: q.put(b)
    def run(n):
        while True:
            try: b = q.get_nowait()
            except queue.Empty: return
            try: r = valid(n, b) if mode == "valid" else quiet(n, b) if mode == "quiet" else check(n, b, every)
            except Exception as e: r = "EXC " + repr(e)
            print(f"{b}: {r}", flush=True)
    ts = [threading.Thread(target=run, args=(i,)) for i in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
