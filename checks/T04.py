"""T04: tuning by pairwise ranking (PRO): the pairs that are sampled, and the classifier that is learned from them."""
import math
import os
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
from scfg import *  # noqa
from pool import *  # noqa

RULE = "some pair is printed (pairs), more than two training examples (classifier)"


def gen_pairs(g):
    names = NAMES[:g.weighted([(3, 2), (3, 4), (2, 10)])]
    sents = [gen_sent(g, names) for _ in range(g.weighted([(2, 1), (3, 2), (1, 4)]))]
    rounds = [{"w": {n: g.grid(16) for n in names if g.chance(3, 4)}, "k": g.weighted([(3, 1500), (1, 1), (2, g.int(2, 6))])} for _ in range(g.weighted([(2, 1), (2, 2), (1, 3)]))]
    return {"sents": sents, "rounds": rounds, "metric": g.pick(["IBM_BLEU", "NIST_BLEU", "TER", "WER", "QCRI_BLEU"]), "names": names,
            "gamma": g.weighted([(4, 3000), (1, 1), (1, 60)]), "xi": g.weighted([(2, 5000), (1, 1), (2, 10), (1, 0)]), "seed": g.int(0, 1 << 30), "split": g.flip()}


def parse_x(s, names):
    x = {}
    for p in s.split():
        k, v = p.rsplit("=", 1)
        check_that(k in names and k not in x, lambda: f"feature {k} in {s!r}")
        x[k] = float(v)
    return x


def check_pairs(case, ctx):
    n, metric, names = len(case["sents"]), case["metric"], case["names"]
    ds = [derivations(s) for s in case["sents"]]
    if not all(ds):
        raise Discard("no derivation")
    files = []
    for i, s in enumerate(case["sents"]):
        files.append(ctx.path(f"f{i}.gz"))
        write_forest(ctx, s, files[-1])
    refs = ctx.write("refs", "".join(" ||| ".join(" ".join(r) for r in s["refs"]) + "\n" for s in case["sents"]))
    repo = ctx.path("pools")
    shutil.rmtree(repo, ignore_errors=True)
    pools = [set() for _ in range(n)]
    sign = -1 if metric in ERROR else 1
    for t, rd in enumerate(case["rounds"]):
        wfile = ctx.write("w", weights_text(rd["w"]))
        for i in range(n):
            pools[i] |= kbest(ds[i], rd["w"], rd["k"])
        outs = []
        parts = [[i] for i in range(n)] if case["split"] or n == 1 else [list(range(n))]
        for part in parts:
            rc, out, err = ctx.run("mr_pro_map", ["-r", refs, "-w", wfile, "-m", metric, "-k", rd["k"], "-K", repo, "-G", case["gamma"], "-X", case["xi"],
                                                  "-S", case["seed"]], "".join(f"{files[i]} {i}\n" for i in part))
            outs.append((part, out))
        for i in range(n):
            check_pool(ctx, os.path.join(repo, f"kbest.{i}.txt.gz"), pools[i], f"round {t}, sentence {i}")
        for part, out in outs:
            lines = out.split("\n")[:-1]
            check_that(len(lines) % 2 == 0, f"{len(lines)} lines")
            got = []
            for a, b in zip(lines[::2], lines[1::2]):
                ya, xa = a.split("\t")
                yb, xb = b.split("\t")
                check_that({ya, yb} == {"0", "1"}, lambda: f"labels of {a!r} and {b!r}")
                xa, xb = parse_x(xa, names), parse_x(xb, names)
                check_that(xa and {k: -v for k, v in xa.items()} == xb, lambda: f"{b!r} is not the mirror image of {a!r}")
                got.append((ya == "1", xa))
            bound = min(case["xi"], case["gamma"])
            check_that(len(got) <= bound * len(part), f"{len(got)} pairs, at most {bound} for each of {len(part)} sentences were asked for")
            # all admissible pairs of each sentence
            admissible = {}
            musts = []
            for i in part:
                cs = sorted(pools[i])
                sc = [gain(c, case["sents"][i]["refs"], metric) for c in cs]
                m = len(cs)
                if m < 2:
                    continue
                sd = max(2.0, math.sqrt(sum((len(a[0]) - len(b[0])) ** 2 for a in cs for b in cs) / (m * (m - 1))))
                mine = []
                for p in range(m):
                    for q in range(m):
                        z = abs(len(cs[p][0]) - len(cs[q][0])) / sd
                        if p == q or z > 2.3:
                            continue
                        x = dict(cs[p][1])
                        for k, v in cs[q][1]:
                            x[k] = x.get(k, 0) - v
                        x = tuple((k, round(v, 3)) for k, v in sorted(x.items()) if v)
                        if not x:
                            continue
                        key_ = (sign * sc[p] > sign * sc[q], x)
                        gd = abs(sc[p] - sc[q])
                        if gd < 1e-6:  # equal, or nearly: scores are floats
                            if gd or metric not in ERROR:
                                admissible.setdefault((not key_[0], x), []).append((i, gd))
                                admissible.setdefault(key_, []).append((i, gd))
                            continue
                        admissible.setdefault(key_, []).append((i, gd))
                        mine.append((key_, gd, z))
                musts.append((i, m, mine))
            for y, x in got:
                k = (y, tuple((k, round(v, 3)) for k, v in sorted(x.items()) if v))
                check_that(k in admissible, lambda: f"round {t}: the pair labelled {int(y)} with difference {x} is not one of two candidates that differ like that in quality")
            have = {(y, tuple((k, round(v, 3)) for k, v in sorted(x.items()) if v)) for y, x in got}
            have |= {(not y, tuple((k, -v) for k, v in x)) for y, x in have}
            for i, m, mine in musts:
                per = case["gamma"] / (m * (m - 1))  # how often an ordered pair is drawn; at least half of the draws are kept
                if case["xi"] >= case["gamma"]:
                    if per >= 60:
                        for k, gd, z in mine:
                            if z < 1.7:
                                check_that(k in have, lambda: f"round {t}: of {case['gamma']} samples from {m} candidates none has the difference {dict(k[1])}")
                        ctx.count("all pairs expected")
                elif len(part) == 1 and case["xi"] and mine:
                    sure = [gd for k, gd, z in mine if z < 1.7]
                    if len(sure) * per * 0.5 >= 4 * case["xi"] + 60:
                        check_that(len(got) == case["xi"], lambda: f"round {t}: {len(got)} of the {case['xi']} pairs wanted")
                        for k in {(y, tuple((k, round(v, 3)) for k, v in sorted(x.items()) if v)) for y, x in got}:
                            best = max(gd for _, gd in admissible[k])
                            above = sum(1 for gd in sure if gd > best + 1e-5)
                            check_that(above * per * 0.5 < 4 * case["xi"] + 60, lambda: f"round {t}: a pair whose scores differ by {best} was kept among {case['xi']}, but {above} of the {len(mine)} pairs differ by more")
                        ctx.count("largest differences expected")
            if got:
                ctx.nontrivial()
    ctx.count(metric)


def gen_class(g):
    names = NAMES[:g.weighted([(1, 1), (3, 3), (2, 10)])]

    def data(lo, hi):
        d = []
        for _ in range(g.count(lo, hi)):
            x = {n: v for n in names if g.chance(2, 3) for v in [g.grid(24)] if v} or {names[0]: 1.0}
            y = g.flip()
            d.append((y, x))
            if g.chance(4, 5):
                d.append((not y, {k: -v for k, v in x.items()}))
        return d
    return {"names": names, "train": data(1, 12), "test": data(1, 6) if g.flip() else [], "C": g.pick([0.01, 0.5, 5, 500]), "T": g.pick([0, 0, 0.5, 50, 5000]),
            "l1": g.pick([0, 0, 0, 0.05, 1]), "w": {n: g.grid(16) for n in names + ["Other"] if g.chance(2, 3)} if g.chance(2, 3) else None,
            "psi": g.pick([1, 1, 1, 0.5, 0.1]), "tune": g.chance(1, 3), "reg": g.pick([(0.01, 1e6), (0.1, 100), (1, 2)]), "m": g.pick([100, 3])}


def value(w, data):
    """Negative log-likelihood, gradient and Hessian; the last weight is that of the bias."""
    n = len(w)
    f, gr, H = 0.0, [0.0] * n, [[0.0] * n for _ in range(n)]
    for x, s in data:
        z = s * sum(a * b for a, b in zip(x, w))
        f += math.log1p(math.exp(-z)) if z > 0 else -z + math.log1p(math.exp(z))
        p = math.exp(-z) / (1 + math.exp(-z)) if z > 0 else 1 / (1 + math.exp(z))
        for i in range(n):
            if x[i]:
                gr[i] -= s * p * x[i]
                for j in range(n):
                    H[i][j] += x[i] * x[j] * p * (1 - p)
    return f, gr, H


def solve(A, b):
    n = len(b)
    M = [A[i][:] + [b[i]] for i in range(n)]
    for i in range(n):
        k = max(range(i, n), key=lambda r: abs(M[r][i]))
        M[i], M[k] = M[k], M[i]
        for r in range(i + 1, n):
            f = M[r][i] / M[i][i]
            if f:
                for c in range(i, n + 1):
                    M[r][c] -= f * M[i][c]
    x = [0.0] * n
    for i in reversed(range(n)):
        x[i] = (M[i][n] - sum(M[i][c] * x[c] for c in range(i + 1, n))) / M[i][i]
    return x


def norm(v):
    return math.sqrt(sum(x * x for x in v))


def penalty(w, prev, C, T):
    return sum(C * a * a + T * (a - b) ** 2 for a, b in zip(w, prev))


def optimum(train, prev, C, T):
    w = prev[:]
    for _ in range(100):
        f, gr, H = value(w, train)
        gr = [x + 2 * C * a + 2 * T * (a - b) for x, a, b in zip(gr, w, prev)]
        f += penalty(w, prev, C, T)
        if norm(gr) < 1e-10:
            break
        for i in range(len(w)):
            H[i][i] += 2 * (C + T)
        d = solve(H, gr)
        s = 1.0
        while s > 1e-10:
            v = [a - s * b for a, b in zip(w, d)]
            if value(v, train)[0] + penalty(v, prev, C, T) <= f:
                break
            s /= 2
        w = [a - s * b for a, b in zip(w, d)]
    return w


def check_class(case, ctx):
    names = case["names"] + ["Other"]

    def text(d):
        return "".join("%d\t%s\n" % (y, " ".join("%s=%s" % (k, num(v)) for k, v in x.items())) for y, x in d)

    def arr(d):
        return [([x.get(n, 0) for n in names] + [1.0], 1.0 if y else -1.0) for y, x in d]
    args = ["-C", num(case["C"]), "-y", num(case["T"]), "-p", num(case["psi"]), "-m", case["m"]]
    if case["l1"]:
        args += ["--l1", num(case["l1"])]
    if case["w"] is not None:
        args += ["-w", ctx.write("w", weights_text(case["w"]))]
    if case["test"]:
        args += ["-t", ctx.write("test", text(case["test"]))]
    tune = case["tune"] and case["test"] and not case["l1"]
    if tune:
        args += ["-T", "-r", num(case["reg"][0]), "-R", num(case["reg"][1])]
    rc, out, err = ctx.run("mr_pro_reduce", args, text(case["train"]))
    lines = out.split("\n")
    check_that(lines[0].startswith("# C="), lambda: f"first line {lines[0]!r}")
    C = float(lines[0][4:].split("\t")[0])
    ppl = lines[0].split("perplexity=")[1]
    train = arr(case["train"])
    prev = [(case["w"] or {}).get(n, 0.0) for n in names] + [0.0]
    T = case["T"]
    if not tune:
        check_that(near(C, case["C"], 1e-9), f"C is {C}")
    got = read_weights(out)
    check_that(set(got) <= set(names), lambda: f"weights for {sorted(got)}")
    w = [got.get(n, 0.0) for n in names] + [0.0]
    if case["w"] is not None and case["psi"] != 1:
        w[:-1] = [(a - (1 - case["psi"]) * b) / case["psi"] for a, b in zip(w[:-1], prev)]
    if tune:
        test = arr(case["test"])
        sweep = [tuple(map(float, l[2:].split("\t"))) for l in lines[2:] if l.startswith("# ")]
        lo, hi = case["reg"]
        factor = math.exp((math.log(hi) - math.log(lo)) / 18)
        check_that(len(sweep) in (18, 19) and all(near(s[0], lo * factor ** i, 1e-6) for i, s in enumerate(sweep)), lambda: f"strengths tried {[s[0] for s in sweep]}")
        for i, (c, p, sm) in enumerate(sweep):
            v = optimum(train, prev, c, T)
            want = 2 ** (value(v, test)[0] / math.log(2) / len(test))
            check_that(near(p, want, 2e-2), lambda: f"with C={c} the perplexity of the test data is given as {p}, at the optimum it is {want}")
            e = p if i in (0, len(sweep) - 1) else 0.2 * sweep[i - 1][1] + 0.6 * p + 0.2 * sweep[i + 1][1]
            check_that(near(sm, e, 1e-6), f"smoothed perplexity {sm} for C={c}, expected {e}")
        best = min(s[2] for s in sweep)
        check_that(any(near(s[0], C, 1e-9) and s[2] <= best + 1e-9 for s in sweep), lambda: f"C={C} was chosen, the perplexities are {[(s[0], s[2]) for s in sweep]}")
        ctx.count("tuned")
    if case["l1"]:
        # the weight of the bias is not written: find the best one
        for _ in range(200):
            f, g, H = value(w, train)
            gb = g[-1] + 2 * (C + T) * w[-1]
            hb = H[-1][-1] + 2 * (C + T)
            # proximal Newton step for the bias
            u = w[-1] - gb / hb
            nw = math.copysign(max(0.0, abs(u) - case["l1"] / hb), u)
            if abs(nw - w[-1]) < 1e-12:
                break
            w[-1] = nw
        sub = []
        for x, a, b in zip(value(w, train)[1], w, prev):
            x += 2 * C * a + 2 * T * (a - b)
            sub.append(x + math.copysign(case["l1"], a) if a else math.copysign(max(0, abs(x) - case["l1"]), x))
        check_that(norm(sub) <= 1e-2 * max(1, norm(w)), lambda: f"the weights {got} are not optimal: the gradient is {sub}")
    else:
        o = optimum(train, prev, C, T)
        tol = 1e-3 * max(1, norm(o)) / (2 * (C + T)) + 1e-6
        check_that(max(abs(a - b) for a, b in zip(w[:-1], o)) <= tol, lambda: f"the weights are {dict(zip(names, w))}, the optimum (C={C}, T={T}) is {dict(zip(names, o))}")
        if case["test"]:
            test = arr(case["test"])
            want = 2 ** (value(o, test)[0] / math.log(2) / len(test))
            check_that(near(float(ppl), want, 2e-2), lambda: f"the perplexity of the test data is given as {ppl}, it is {want}")
        else:
            check_that(ppl == "N/A", f"perplexity {ppl} without test data")
    if len(case["train"]) > 2:
        ctx.nontrivial()
    ctx.count("with test data" if case["test"] else "no test data")
    ctx.count("l1" if case["l1"] else "l2")


if __name__ == "__main__":
    run_check("T04", RULE, py=[Suite("pairs", gen_pairs, check_pairs, 2), Suite("classifier", gen_class, check_class, 1)], programs=["mkhg", "mr_pro_map", "mr_pro_reduce"],
              quick=16, thorough=400)
