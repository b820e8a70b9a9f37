#!/usr/bin/env python3
"""Plants a bug in a scratch copy of /repo and says what happens to the tests, its demonstration and the checks.

plant.py new ID PROPERTY      (stdin: a python literal {"edits": [(file, old, new)], "demo": str, "files": {name: text},
                               "needs": str, "breaks": str}) writes /verif/seeded/ID, then runs it
plant.py run ID [PROPERTY...] runs a planted bug: build, tests, demo on both trees, and the checks of the properties
plant.py check ID [PROPERTY...] only the checks
Everything runs on a copy of /repo under /tmp that is bound over /repo in a mount namespace of its own.
"""
import ast
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, timeout=1200, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)


def inner(work, cmd, timeout=1200):
    for d in ("evidence", "replays"):
        os.makedirs(f"{work}/{d}", exist_ok=True)
    pre = (f"mount --bind {work}/repo /repo; mount --bind {work}/evidence {VERIF}/evidence; "
           f"mount --bind {work}/replays {VERIF}/replays; cd /repo; ")
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", pre + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def make(bid, prop, spec):
    d = f"{VERIF}/seeded/{bid}"
    os.makedirs(d, exist_ok=True)
    work = f"/tmp/plant-{bid}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    sh(f"git -C /repo worktree prune; git clone -q /repo {work}/c")
    for f, old, new in spec["edits"]:
        p = f"{work}/c/{f}"
        txt = open(p, encoding="latin1").read()
        if txt.count(old) != 1:
            sys.exit(f"{f}: {txt.count(old)} matches of {old!r}")
        open(p, "w", encoding="latin1").write(txt.replace(old, new))
    diff = sh(f"git -C {work}/c diff").stdout
    open(f"{d}/patch.diff", "wb").write(diff)
    shutil.rmtree(work)
    with open(f"{d}/demo.sh", "w") as o:
        o.write(spec["demo"].lstrip("\n"))
    os.chmod(f"{d}/demo.sh", 0o755)
    for n, t in spec.get("files", {}).items():
        with open(f"{d}/{n}", "w") as o:
            o.write(t.lstrip("\n"))
    with open(f"{d}/meta.json", "w") as o:
        json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, o, indent=1)
        o.write("\n")


def run(bid, props, full=True):
    d = f"{VERIF}/seeded/{bid}"
    meta = json.load(open(f"{d}/meta.json"))
    props = props or [meta["property"]]
    work = f"/tmp/plant-{bid}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    ok = True
    try:
        sh(f"cp -a /repo {work}/repo")
        sh(f"cp -a {d} {work}/demo; rm -f {work}/demo/*.diff {work}/demo/meta.json")
        if full:
            rc, out = inner(work, f"bash {work}/demo/demo.sh", 300)
            print(f"{bid}: demo on the unchanged tree: exit {rc}")
            if rc:
                print(out[-3000:])
                ok = False
        rc, out = inner(work, f"git apply {d}/patch.diff && bash /opt/vp/build.sh" if full else f"git apply {d}/patch.diff", 3000)
        if rc:
            print(f"{bid}: does not build\n{out[-3000:]}")
            return False
        if full:
            rc, out = inner(work, f"bash /opt/vp/test.sh {work}/res.json", 3000)
            base = json.load(open("/opt/vp/BASELINE.json"))
            base = set(base["stable"])
            got = set(json.load(open(f"{work}/res.json"))["passed"])
            if base - got:
                print(f"{bid}: tests fail: {sorted(base - got)[:10]}")
                ok = False
            rc, out = inner(work, f"bash {work}/demo/demo.sh", 300)
            print(f"{bid}: demo on the changed tree: exit {rc}")
            if rc == 0:
                ok = False
        for p in props:
            rc, out = inner(work, f"cd {VERIF}; VERIF_SEED={os.environ.get('VERIF_SEED', '1')} VERIF_TIER=quick python3 checks/{p}.py quick", 1000)
            v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            print(f"{bid}: {p}: exit {rc} {'CAUGHT' if rc == 1 and v else 'MISSED'}")
            lines = out.strip().splitlines()
            print("   " + "\n   ".join(lines[-6:])[:1500])
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    print(f"{bid}: {'valid' if ok else 'NOT VALID'}")
    return ok


if __name__ == "__main__":
    mode, bid = sys.argv[1:3]
    if mode == "new":
        make(bid, sys.argv[3], ast.literal_eval(sys.stdin.read()))
        run(bid, sys.argv[3:])
    elif mode == "run":
        run(bid, sys.argv[3:])
    else:
        run(bid, sys.argv[3:], full=False)
