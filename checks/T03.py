"""T03: candidate pools and minimum risk training."""
import math
import os
import re
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
from scfg import *  # noqa
from pool import *  # noqa
import vbuild

RULE = ("pools of more than one candidate filled in more than one round (pool), more than two candidates (objectives), more than one candidate and feature values of many digits (written), "
        "more than two candidates for some sentence and more than one evaluation of the objective (minrisk)")


def gen(g):
    names = NAMES[:g.weighted([(3, 2), (3, 4), (2, 10)])]
    sents = [gen_sent(g, names) for _ in range(g.weighted([(2, 1), (3, 2), (1, 4)]))]
    rounds = [{"w": {n: g.grid(16) for n in names if g.chance(3, 4)}, "k": g.weighted([(3, 500), (1, 1), (2, g.int(2, 6))])} for _ in range(g.weighted([(2, 1), (2, 2), (1, 3)]))]
    return {"sents": sents, "rounds": rounds, "metric": g.pick(["IBM_BLEU", "NIST_BLEU", "TER", "WER", "QCRI_BLEU"]), "repo": g.chance(2, 3),
            "ids": g.shuffle(list(range(len(sents)))) if g.chance(1, 3) else list(range(len(sents))), "T": g.pick([0, 0, 0.5, 4, -0.25]), "C": g.pick([0, 0, 0.01, 0.3]),
            "names": names, "go_on": g.flip(), "only": g.chance(1, 5)}


def objective(w, pools, refs, metric, T):
    risk = H = 0
    gr = {}
    for p, r in zip(pools, refs):
        cs = sorted(p)
        s = [dot(feats(c), w) for c in cs]
        z = logsumexp(s)
        pr = [math.exp(x - z) for x in s]
        ls = [loss(c, r, metric) for c in cs]
        R = sum(a * b for a, b in zip(pr, ls))
        h = -sum(a * (x - z) for a, x in zip(pr, s))
        risk += R
        H += h
        for c, a, l, x in zip(cs, pr, ls, s):
            d = a * (l - R) + T * a * (x - z + h)
            for k, v in c[1]:
                gr[k] = gr.get(k, 0) + d * v
    return risk, H, gr


def check(case, ctx):
    n, metric = len(case["sents"]), case["metric"]
    ds = [derivations(s) for s in case["sents"]]
    if not all(ds):
        raise Discard("no derivation")
    files = []
    for i, s in enumerate(case["sents"]):
        files.append(ctx.path(f"f{i}.gz"))
        write_forest(ctx, s, files[-1])
    refs = ctx.write("refs", "".join(" ||| ".join(" ".join(r) for r in s["refs"]) + "\n" for s in case["sents"]))
    repo = ctx.path("pools")
    shutil.rmtree(repo, ignore_errors=True)
    order = case["ids"][:max(1, n - 1)] if case["only"] else case["ids"]
    pools = [set() for _ in range(n)]
    w = None
    for t, rd in enumerate(case["rounds"]):
        if w is None or not case["go_on"]:
            w = dict(rd["w"])
        wfile = ctx.write("w", weights_text(w))
        m = math.sqrt(sum(x * x for x in w.values()))
        w0 = {k: x / m for k, x in w.items()} if m else w
        for i in order:
            new = kbest(ds[i], w0, rd["k"])
            pools[i] = pools[i] | new if case["repo"] else new
        args = ["-r", refs, "-w", wfile, "-m", metric, "-k", rd["k"], "-T", case["T"], "-C", case["C"]] + (["-R", repo] if case["repo"] else [])
        rc, out, err = ctx.run("minrisk_optimize", args, "".join(f"{files[i]} {i}\n" for i in order))
        what = f"round {t}"
        if case["repo"]:
            for i in order:
                check_pool(ctx, os.path.join(repo, f"kbest.{i}.txt.gz"), pools[i], f"{what}, sentence {i}")
        ev = [(float(a), float(b)) for a, b in re.findall(r"^\.*(-?[0-9]\S*|nan|-nan)  H=(\S+)$", err, re.M)]
        check_that(ev, "the objective is never computed")
        P, R = [pools[i] for i in order], [case["sents"][i]["refs"] for i in order]
        r0, h0, _ = objective(w0, P, R, metric, case["T"])
        check_that(near(ev[0][0], 1 - r0 / len(order), 1e-4) and near(ev[0][1], h0, 1e-4),
                   lambda: f"{what}: at the start the expected score is {ev[0][0]} and the entropy {ev[0][1]}, they should be {1 - r0 / len(order)} and {h0}")
        w1 = read_weights(out)
        known = set(case["names"])
        check_that(set(w1) <= known, lambda: f"weights for {sorted(set(w1) - known)}")
        r1, h1, g1 = objective(w1, P, R, metric, case["T"])
        f0 = r0 - case["T"] * h0 + case["C"] * sum(abs(x) for x in w0.values())
        f1 = r1 - case["T"] * h1 + case["C"] * sum(abs(x) for x in w1.values())
        check_that(f1 <= f0 + 1e-5 * (1 + abs(f0)), lambda: f"{what}: the objective is {f1} at the weights found, it was {f0} at the start")
        sub = {}
        for k in known:
            x, d = w1.get(k, 0.0), g1.get(k, 0.0)
            if x:
                d += math.copysign(case["C"], x)
            else:
                d = math.copysign(max(0.0, abs(d) - case["C"]), d)
            sub[k] = d
        gn, xn = math.sqrt(sum(x * x for x in sub.values())), math.sqrt(sum(x * x for x in w1.values()))
        st = re.search(r"terminated with status code = (-?\d+)", err)
        check_that(st, "no status")
        ctx.count("status %s%s" % (st.group(1), " with L1" if case["C"] else ""))
        # with an L1 term a direction in which the risk is flat has no curvature and the search can get stuck, which it reports
        if not case["C"] or int(st.group(1)) >= 0:
            check_that(gn <= (1e-3 if int(st.group(1)) >= 0 else 3e-2) * max(1, xn), lambda: f"{what}: the gradient is {clean(sub)} at the weights found {w1} (T {case['T']}, C {case['C']}, status {st.group(1)})")
        if len(ev) > 1 and any(len(p) > 2 for p in P):
            ctx.nontrivial()
        w = {k: float("%.6g" % x) for k, x in w1.items()}
        ctx.count("evaluations<=%d" % next(k for k in (1, 3, 10, 30, 10**9) if len(ev) <= k))
    ctx.count(metric)


if __name__ == "__main__":
    run_check("T03", RULE, cpp=[Cpp("candidates", libs=["training_utils"] + vbuild.CDEC_LIBS, suites="pool,objectives,written".split(","), inc=vbuild.TRAIN_INC)],
              py=[Suite("minrisk", gen, check, 3)], programs=["mkhg", "minrisk_optimize"], quick=16, thorough=400)
