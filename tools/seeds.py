#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/seedlib/bugs.py.

usage: seeds.py [ID...]     (patches are made against /repo's HEAD in a scratch copy)
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(HERE, "seedlib"))
from bugs import BUGS

def main():
    only = sys.argv[1:]
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(f"git -C /repo archive HEAD | tar -x -C {t} && cd {t} && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, check=True)
        for b in BUGS:
            if only and b["id"] not in only:
                continue
            for f, old, new in b["edits"]:
                p = os.path.join(t, "mlx9064x/src", f)
                s = open(p).read()
                n = b.get("nth", {}).get(f)
                if n is None and s.count(old) != 1:
                    sys.exit(f"{b['id']}: {s.count(old)} matches in {f}: {old!r}")
                if n is None:
                    s = s.replace(old, new)
                else:
                    parts = s.split(old)
                    s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
                open(p, "w").write(s)
            diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout
            subprocess.run(["git", "-C", t, "checkout", "-q", "--", "."], check=True)
            d = os.path.join(VERIF, "seeded", b["id"])
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/meta.json", "w").write(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, indent=1) + "\n")
            for f in ("demo.sh", "sim.rs", "Cargo.lock.demo"):
                if os.path.exists(os.path.join(HERE, "seedlib", f)):
                    shutil.copy(os.path.join(HERE, "seedlib", f), d)
            open(d + "/main.rs", "w").write("mod sim;\nuse sim::*;\n\nfn main() {\n" + "".join("    " + l + "\n" if l else "\n" for l in b["demo"].strip("\n").split("\n")) + "}\n" + b.get("extra", ""))
            print(b["id"])
main()
