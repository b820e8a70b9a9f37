#!/usr/bin/env python3
"""A01: atools against a reference of alignment symmetrization and conversion."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa

BIN = ["intersect", "union", "grow-diag", "grow-diag-final", "grow-diag-final-and", "fmeasure"]
UN = ["convert", "invert", "display"]


def gen(g):
    n = g.int(1, 8)
    pairs = []
    for _ in range(n):
        w, h = g.pick([1, 2, 4, 7, 12]), g.pick([1, 3, 4, 7, 13])
        if g.chance(1, 15):
            w, h = g.pick([(40, 3), (2, 130), (25, 25)])
        kind = g.draw(3)
        a, b = [], []
        if kind == 0:
            dens = g.pick([1, 2, 4, 8])
            cells = [(i, j) for i in range(w) for j in range(h)]
            a = [c for c in cells if g.chance(dens, 16)]
            b = [c for c in cells if g.chance(dens, 16)]
        elif kind == 1:  # as from two directional aligners
            a = [(g.draw(w), j) for j in range(h) if g.chance(5, 6)]
            b = [(i, g.draw(h)) for i in range(w) if g.chance(5, 6)]
        else:
            a = [(min(w - 1, max(0, j * w // h + g.int(-1, 1))), j) for j in range(h) if g.chance(5, 6)]
            b = [(i, min(h - 1, max(0, i * h // w + g.int(-1, 1)))) for i in range(w) if g.chance(5, 6)]
        pairs.append([a, b])
    return {"pairs": pairs, "cmd": g.pick(BIN + BIN + UN), "order": g.flip(), "prefix": g.chance(1, 8), "cr": g.chance(1, 10),
            "nonl": g.chance(1, 6), "stdin": g.pick([0, 0, 1, 2, 3]), "extra": g.chance(1, 25), "spaces": g.chance(1, 10), "dup": g.chance(1, 8)}


def dims(a):
    return (max([i for i, _ in a], default=0) + 1, max([j for _, j in a], default=0) + 1)


def grow(a, b, cmd):
    u, r = a | b, a & b
    rows, cols = {i for i, _ in r}, {j for _, j in r}

    def add(p):
        r.add(p)
        rows.add(p[0])
        cols.add(p[1])
    cand = sorted(u - r)
    while True:
        new = []
        for i, j in cand:
            if (i not in rows or j not in cols) and any((i + x, j + y) in r for x in (-1, 0, 1) for y in (-1, 0, 1) if x or y):
                add((i, j))
                new.append((i, j))
        if not new:
            break
        cand = [c for c in cand if c not in new]
    if cmd != "grow-diag":
        for src in (a, b):
            for i, j in sorted(src):
                if (i, j) in r:
                    continue
                free = (i not in rows, j not in cols)
                if all(free) if cmd.endswith("and") else any(free):
                    add((i, j))
    return r


def text(al, case, k):
    p = [tuple(x) for x in al]
    if case["dup"] and p:
        p.append(p[0])
    if case["order"]:
        p = p[k % 3:] + p[:k % 3]
    else:
        p.sort()
    s = ("  " if case["spaces"] else " ").join("%d-%d" % x for x in p)
    if case["prefix"]:
        s = "a b ||| c 0-7 ||| " + s
    return s


def lines(case, side):
    ls = [text(p[side], case, k) for k, p in enumerate(case["pairs"])]
    t = ("\r\n" if case["cr"] else "\n").join(ls)
    return t + ("" if case["nonl"] and ls[-1] else "\n")


def grid(al):
    w, h = dims(al)
    head = " " + "".join(str(j % 10) for j in range(h)) + "\n"
    return head + "".join(f"{i % 10}" + "".join("*" if (i, j) in al else "." for j in range(h)) + f"{i % 10}\n" for i in range(w)) + head


def check(case, ctx):
    cmd = case["cmd"]
    sets = [({tuple(x) for x in a}, {tuple(x) for x in b}) for a, b in case["pairs"]]
    two = cmd in BIN
    args, stdin = ["-c", cmd], ""
    one, other = lines(case, 0), lines(case, 1)
    extra = case["extra"] and two and case["stdin"] != 3
    if extra:
        other += "\n" if other.endswith("\n") else "\n0-0\n"
    if case["stdin"] == 3 and two:
        a, b = one.split("\n"), other.split("\n")
        if one.endswith("\n"):
            a.pop()
        if other.endswith("\n"):
            b.pop()
        stdin = "".join(x + "\n" + y + "\n" for x, y in zip(a, b))
        args += ["-i", "-", "-j", "-"]
    else:
        f1 = ctx.write("one", one)
        f2 = ctx.write("two", other)
        if case["stdin"] == 1:
            f1, stdin = "-", one
        elif case["stdin"] == 2 and two:
            f2, stdin = "-", other
        args += ["-i", f1] + (["-j", f2] if two else [])
    if cmd == "fmeasure":
        m = sum(len(a & b) for a, b in sets)
        p, r = sum(len(a) for a, _ in sets), sum(len(b) for _, b in sets)
        if not m:
            raise Discard()
    rc, out, err = ctx.run("atools", args, stdin=stdin, ok=(0, 1) if extra else (0,))
    if extra:
        check_that(rc == 1, "files of different lengths are accepted")
        return
    if any(len(a ^ b) > 1 for a, b in sets):
        ctx.nontrivial()
    if cmd == "fmeasure":
        got = [x.split() for x in out.strip().split("\n")]
        want = [m / p, m / r, 2 * m / (p + r)]
        check_that([x[0] for x in got] == ["P:", "R:", "F:"] and all(near(float(x[1]), w, 1e-5) for x, w in zip(got, want)), f"{out}, expected {want}")
        return
    want = ""
    for a, b in sets:
        if cmd == "intersect":
            r = a & b
        elif cmd == "union":
            r = a | b
        elif cmd == "invert":
            r = {(j, i) for i, j in a}
        elif cmd in UN:
            r = a
        else:
            r = grow(set(a), set(b), cmd)
        if cmd == "display":
            want += grid(a) + "\n"
        want += " ".join("%d-%d" % x for x in sorted(r)) + "\n"
    check_that(out == want, lambda: f"{cmd}: {out!r}, expected {want!r}")


if __name__ == "__main__":
    run_check("A01", "a case is non-trivial when two alignments of some sentence differ in more than one link",
              py=[Suite("atools", gen, check)], programs=["atools"], quick=12, thorough=300)
