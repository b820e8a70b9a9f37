#!/usr/bin/env python3
"""Mutation testing of the checks (a development tool; no check uses it).

mutate.py PROP[,PROP...] FILE[:lo-hi] [FILE...] [--n N] [--secs S] [--seed K] [--jobs J] [--workers W]
Makes N random one-line changes to the files in private copies of /repo, and runs the checks on each.
Survivors are printed with their change.
"""
import argparse
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [
    (r"(?<![<>\-=])<(?![<=])(?= ?[\w(\-*])", "<="), (r"<=", "<"), (r"(?<![<>\-=])>(?![>=])(?= [\w(\-*])", ">="), (r"(?<!>)>=", ">"),
    (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+1\b", ""), (r"(?<=\w)-1\b", ""),
    (r" \+ ", " - "), (r" - ", " + "), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "2"), (r"\b2\b(?!\.)", "3"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\+=", "="), (r"\+=", "-="), (r"\bmax\(", "min("), (r"\bmin\(", "max("), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
    (r"if \(", "if (!("), (r"if \(", "if (1 || "), (r" \* ", " + "), (r" / ", " * "), (r"\+\+(\w+)", r"\1"), ("DEL", ""), ("DEL", ""), ("DEL", ""),
]


def candidates(path, lo, hi):
    out = []
    lines = open(path, encoding="latin1").read().split("\n")
    inc = False
    for i, l in enumerate(lines):
        if not lo <= i + 1 <= hi:
            continue
        s = l.strip()
        if "/*" in s:
            inc = True
        if inc:
            if "*/" in s:
                inc = False
            continue
        if not s or s.startswith(("//", "#", "*", "using", "template", "assert", "UTIL_THROW", "typedef", "namespace", "BOOST", "std::cerr", "cerr")) or "cerr" in s:
            continue
        code = l.split("//")[0]
        for a, b in OPS:
            if a == "DEL":
                if re.match(r"^\s*[\w\->.\[\]()*]+( ?[-+*/|]?= ?| ?\(|\+\+|\.\w+\().*;\s*$", code) and not re.match(r"^\s*(return|delete|const|static|int|double|float|bool|unsigned|string|auto|size_t|vector|WordID|char|map|typename|case|else|for|if|while|using)\b", code):
                    out.append((i, code, re.match(r"\s*", l).group() + ";"))
                continue
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2:
                    continue
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if b == "if (!(":
                    # negate the whole condition
                    d, k = 1, m.end()
                    while k < len(code) and d:
                        d += {"(": 1, ")": -1}.get(code[k], 0)
                        k += 1
                    if d:
                        continue
                    new = code[:m.start()] + "if (!(" + code[m.end():k] + ")" + code[k:]
                out.append((i, code, new))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props")
    ap.add_argument("files", nargs="+")
    ap.add_argument("--n", type=int, default=20)
    ap.add_argument("--secs", type=int, default=10)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--workers", type=int, default=2)
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    cand = []
    for f in a.files:
        f, _, r = f.partition(":")
        if not os.path.exists("/repo/" + f):
            print("no file", f)
            continue
        lo, hi = map(int, r.split("-")) if r else (1, 10 ** 9)
        c = candidates("/repo/" + f, lo, hi)
        rnd.shuffle(c)
        cand.append([(f,) + x for x in c])
    pick = []
    k = 0
    while len(pick) < a.n and any(cand):
        if cand[k % len(cand)]:
            pick.append(cand[k % len(cand)].pop())
        k += 1
    tag = "%s-%d" % (a.props.replace(",", ""), os.getpid())
    top = f"/tmp/mut-{tag}"
    shutil.rmtree(top, ignore_errors=True)
    free = []
    for w in range(a.workers):
        d = f"{top}/{w}"
        os.makedirs(d)
        subprocess.run(f"cp -a /repo {d}/repo; cp -a {VERIF}/build {d}/build; mkdir {d}/evidence {d}/replays", shell=True)
        free.append(d)

    def one(m):
        f, i, old, new = m
        d = free.pop()
        try:
            p = f"{d}/repo/{f}"
            txt = open(p, encoding="latin1").read()
            lines = txt.split("\n")
            rest = lines[i][len(old):]
            lines[i] = new + rest
            open(p, "w", encoding="latin1").write("\n".join(lines))
            res = []
            for prop in a.props.split(","):
                pre = (f"mount --bind {d}/repo /repo; mount --bind {d}/evidence {VERIF}/evidence; mount --bind {d}/replays {VERIF}/replays; cd {VERIF}; "
                       f"VERIF_BUILD={d}/build python3 checks/{prop}.py quick --secs {a.secs} --seed 7 --jobs {a.jobs}")
                q = subprocess.run(["unshare", "-Urm", "bash", "-c", pre], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                out = q.stdout.decode(errors="replace")
                if "VIOLATION" in out and q.returncode == 1:
                    res.append("CAUGHT")
                    break
                if "rror: " in out or "BuildError" in out or "cannot link" in out:
                    res.append("NOBUILD")
                    break
                res.append("MISSED" if q.returncode == 0 else "ODD " + out[-300:])
            open(p, "w", encoding="latin1").write(txt)
            r = res[-1]
            print(f"{r}" + (f" {f}:{i + 1}\n   - {old.strip()}\n   + {new.strip()}" if r not in ("CAUGHT", "NOBUILD") else f" {f}:{i + 1}"), flush=True)
            return r
        finally:
            free.append(d)
    with ThreadPoolExecutor(a.workers) as ex:
        rs = list(ex.map(one, pick))
    print({k: rs.count(k) for k in set(rs)})
    shutil.rmtree(top, ignore_errors=True)


main()
