#!/usr/bin/env python3
"""A02: fast_align against a reference implementation of its EM estimation."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa

EPS = "<eps>"


def gen(g):
    sw = ["a", "b", "c", "d", "e", "\u00e9", "1-2", "f", "g", "h"][:g.pick([2, 4, 10])]
    tw = ["A", "B", "C", "D", "E", "a", "b", "F"][:g.pick([2, 4, 8])]

    def sent():
        top = g.pick([3, 6, 10])
        return [[g.pick(sw) for _ in range(g.int(1, top))], [g.pick(tw) for _ in range(g.int(1, top))]]
    corpus = [sent() for _ in range(g.int(1, 8) if g.flip() else g.int(6, 25))]
    if g.flip():   # words that translate each other
        corpus = [[s, [tw[(sw.index(w) + (0 if g.chance(5, 6) else 1)) % len(tw)] for w in s if g.chance(7, 8)] or [tw[0]]] for s, _ in corpus]
    case = {"corpus": corpus, "iters": g.int(1, 6), "reverse": g.flip(), "diag": g.chance(2, 3), "null": not g.chance(1, 4), "vb": g.chance(1, 3),
            "hide": g.chance(1, 8), "noviterbi": g.chance(1, 4), "params": g.flip()}
    if g.flip():
        case["p0"] = g.pick([0.08, 0.2, 0.01, 0.5])
        case["tension"] = g.pick([4.0, 1.0, 0.5, 10.0, 6.25])
    case["opt"] = case["diag"] and g.flip()
    case["alpha"] = g.pick([0.01, 0.1, 1.0, 0.5])
    case["beam"] = g.pick([-4, -1, -10000, 0, -2])
    if g.flip():
        case["test"] = [g.pick(corpus) if g.flip() else sent() for _ in range(g.int(1, 3))]
    case["force"] = g.chance(1, 4)
    case["nonl"] = g.chance(1, 6)
    return case


def feature(i, j, m, n):
    return -abs(j / n - i / m)


def digamma(x):
    r = 0.0
    while x < 12:
        r -= 1 / x
        x += 1
    f = 1 / (x * x)
    return r + math.log(x) - 0.5 / x - f * (1 / 12 - f * (1 / 120 - f * (1 / 252 - f * (1 / 240 - f * (1 / 132 - f * 691 / 32760)))))


class Model:
    def __init__(self, case):
        self.c = case
        self.t = {}
        self.tension = case.get("tension", 4.0)
        self.p0 = case.get("p0", 0.08)

    def word(self, s, w, j, m):
        """joint probabilities of generating target word j (from 0) by null and each source word"""
        n, c = len(s), self.c
        if c["diag"]:
            u = [math.exp(feature(j + 1, i, m, n) * self.tension) for i in range(1, n + 1)]
            z = sum(u) / (1 - self.p0)
            a = [self.p0] + [x / z for x in u]
        else:
            a = [1.0 / (n + c["null"])] * (n + 1)
        p = [self.t.get((x, w), 1e-9) * y for x, y in zip([EPS] + s, a)]
        if not c["null"]:
            p[0] = 0.0
        return p

    def best(self, p):
        """index of the best, and those that rounding may choose instead"""
        lo = 0 if self.c["null"] else 1
        k = max(range(lo, len(p)), key=lambda i: (p[i], -i))
        return {i for i in range(lo, len(p)) if p[i] >= p[k] * (1 - 1e-7)}


def train(case, corpus):
    """Model, the log likelihoods, the alternatives of each final alignment point, tensions."""
    m = Model(case)
    lls, als, c0s, feats = [], [], [], []
    for it in range(case["iters"]):
        last = it == case["iters"] - 1
        ll, cnt, c0, emp, toks = 0.0, {}, 0.0, 0.0, 0
        for s, t in corpus:
            row = []
            toks += len(t)
            for j, w in enumerate(t):
                p = m.word(s, w, j, len(t))
                z = sum(p)
                ll += math.log(z)
                if last:
                    row.append(m.best(p))
                    continue
                if case["null"]:
                    c0 += p[0] / z
                    cnt[EPS, w] = cnt.get((EPS, w), 0.0) + p[0] / z
                for i, x in enumerate(s):
                    q = p[i + 1] / z
                    cnt[x, w] = cnt.get((x, w), 0.0) + q
                    emp += q * feature(j + 1, i + 1, len(t), len(s))
            als.append(row)
        lls.append(ll)
        c0s.append(c0 / toks)
        feats.append(emp / toks)
        if last:
            als = als[-len(corpus):]
            break
        if case["opt"] and it > 0:
            for _ in range(8):
                mod = 0.0
                for s, t in corpus:
                    n = len(s)
                    for j in range(1, len(t) + 1):
                        f = [feature(j, i, len(t), n) for i in range(1, n + 1)]
                        u = [math.exp(x * m.tension) for x in f]
                        mod += sum(x * y for x, y in zip(u, f)) / sum(u)
                m.tension = min(14.0, max(0.1, m.tension + (emp / toks - mod / toks) * 20))
        tot = {}
        a = case["alpha"] if case["vb"] else 0.0
        for (x, _), v in cnt.items():
            tot[x] = tot.get(x, 0.0) + v + a
        if case["vb"]:
            m.t = {k: math.exp(digamma(v + a) - digamma(tot[k[0]])) for k, v in cnt.items()}
        else:
            m.t = {k: v / (tot[k[0]] or 1) for k, v in cnt.items()}
    return m, lls, als, c0s, feats


def links(row, rev):
    res = []
    for x in row.split():
        a, b = map(int, x.split("-"))
        res.append((b, a) if rev else (a, b))
    return res


def aligned(got, want, rev, who):
    pts = links(got, rev)
    check_that([j for _, j in pts] == sorted({j for _, j in pts}), f"{who}: {got!r} aligns a word twice")
    at = {j: i + 1 for i, j in pts}
    check_that(set(at) <= set(range(len(want))), f"{who}: {got!r} has a point outside of the sentence")
    for j, ok in enumerate(want):
        check_that(at.get(j, 0) in ok, f"{who}: word {j} is aligned to {at.get(j, 0)} (from 1), expected {sorted(ok)} in {got!r}")


def poisson(x, lam):
    return math.log(lam) * x - math.lgamma(x + 1) - lam


def test_lines(out, case, test, m, mult, ctx, hide):
    ls = out.split("\n")
    check_that(len(ls) == len(test) + 1 and ls[-1] == "", f"{len(ls) - 1} lines for {len(test)} test pairs")
    for k, (l, (s, t)) in enumerate(zip(ls, test)):
        f = l.split("|||")
        check_that(len(f) == 4 and f[0].split() == s and f[1].split() == t, f"test line {k}: {l!r}")
        if case["reverse"]:
            s, t = t, s
        lp = poisson(len(t), 0.05 + len(s) * mult)
        want = []
        for j, w in enumerate(t):
            p = m.word(s, w, j, len(t))
            lp += math.log(sum(p))
            want.append(m.best(p) if max(p) > 0 else {0})
        if hide:
            check_that(not f[2].split(), f"test line {k}: {l!r}")
        else:
            aligned(f[2], want, case["reverse"], f"test pair {k}")
        check_that(near(float(f[3]), lp, 1e-4), f"test pair {k}: log probability {f[3]}, expected {lp}")


def check(case, ctx):
    corpus = case["corpus"]
    src = ctx.write("corpus", "\n".join(" ".join(s) + " ||| " + " ".join(t) for s, t in corpus) + ("" if case["nonl"] else "\n"))
    opts = []
    if case["diag"]:
        opts.append("-d")
    if not case["null"]:
        opts.append("-N")
    if case["reverse"]:
        opts.append("-r")
    if "p0" in case:
        opts += ["--prob_align_null", case["p0"]]
    args = ["-i", src, "-I", case["iters"]] + opts
    if "tension" in case:
        args += ["-T", case["tension"]]
    if case["opt"]:
        args.append("-o")
    if case["vb"]:
        args += ["-v", "-a", case["alpha"]]
    if case["hide"]:
        args.append("-H")
    par = ctx.path("params")
    if case["params"]:
        args += ["-p", par, "-t", case["beam"]]
        if case["noviterbi"]:
            args.append("-V")
    if "test" in case:
        args += ["-x", ctx.write("test", "".join(" ".join(s) + " ||| " + " ".join(t) + "\n" for s, t in case["test"]))]
    rc, out, err = ctx.run("fast_align", args)
    data = [(t, s) for s, t in corpus] if case["reverse"] else [(s, t) for s, t in corpus]
    m, lls, als, c0s, feats = train(case, data)
    if case["iters"] > 1 and len(corpus) > 1:
        ctx.nontrivial()
    got = [float(l.split(":")[1]) for l in err.split("\n") if "log_e likelihood" in l]
    check_that(len(got) == len(lls) and all(near(x, y, 1e-4) for x, y in zip(got, lls)), f"log likelihoods {got}, expected {lls}")
    if not case["vb"] and not case["opt"] and case["iters"] > 2:
        check_that(all(b >= a - 1e-4 * (1 + abs(a)) for a, b in zip(got[1:], got[2:])), f"the likelihood decreases: {got}")
    got = [float(l.split(":")[1]) for l in err.split("\n") if "posterior p0" in l]
    check_that(all(near(x, y, 1e-4) for x, y in zip(got[:-1], c0s[:-1])), f"null alignments {got}, expected {c0s}")
    mult = sum(len(t) / len(s) for s, t in data) / len(data)
    ls = out.split("\n")
    n = 0
    if not case["hide"]:
        n = len(corpus)
        check_that(len(ls) > n or (len(ls) == n and not ls[-1]), f"{len(ls)} lines of output")
        for k in range(n):
            aligned(ls[k], als[k], case["reverse"], f"pair {k}")
    if "test" in case:
        test_lines("\n".join(ls[n:]), case, case["test"], m, mult, ctx, case["hide"])
    else:
        check_that(ls[n:] == [""], f"{len(ls)} lines of output")
    if not case["params"]:
        return
    with open(par, encoding="utf-8") as f:
        got = {}
        for l in f:
            a, b, p = l.split()
            check_that((a, b) not in got, f"parameter {a} {b} is listed twice")
            got[a, b] = float(p)
    top = {}
    for (a, b), p in m.t.items():
        top[a] = max(top.get(a, 0), p)
    beam = 10.0 ** case["beam"]
    must, may = set(), set()
    for (a, b), p in m.t.items():
        if p > top[a] * beam * (1 + 1e-7):
            must.add((a, b))
        elif p > top[a] * beam * (1 - 1e-7):
            may.add((a, b))
    if case["iters"] > 1 and not case["noviterbi"]:
        for (s, t), row in zip(data, als):
            for w, ok in zip(t, row):
                for i in ok:
                    x = EPS if i == 0 else s[i - 1]
                    (must if len(ok) == 1 else may).add((x, w))
    if case["iters"] > 1:
        check_that(must <= set(got), f"missing parameters: {sorted(must - set(got))[:5]}")
    check_that(set(got) <= must | may, f"parameters below the beam: {sorted(set(got) - must - may)[:5]}")
    for k, v in got.items():
        check_that(near(v, math.log(m.t[k]), 1e-4), f"parameter {k}: {v}, expected {math.log(m.t[k])}")
    if case["force"] and got:
        m.t = {k: math.exp(v) for k, v in got.items()}
        args = ["-i", src, "-f", par, "-m", repr(mult), "-T", repr(m.tension)] + opts
        rc, out, err = ctx.run("fast_align", args)
        ctx.count("forced")
        test_lines(out, case, corpus, m, mult, ctx, False)


if __name__ == "__main__":
    run_check("A02", "a case is non-trivial when there is more than one sentence pair and iteration",
              py=[Suite("fast_align", gen, check)], programs=["fast_align"], quick=20, thorough=400)
