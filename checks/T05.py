"""T05: tuning with the ramp loss: every step of the subgradient search, on pools of candidates that grow."""
import os
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
from scfg import *  # noqa
from pool import *  # noqa

RULE = "the weights change, and some pool has more than two candidates"


def gen(g):
    names = NAMES[:g.weighted([(3, 2), (3, 4), (2, 10)])]
    sents = [gen_sent(g, names) for _ in range(g.weighted([(2, 1), (3, 2), (2, 4)]))]
    # weights and scores with fractions of their own, so that ties are rare
    rounds = [{"w": {n: g.grid(16) + g.int(0, 1000) / 8192 for n in names if g.chance(3, 4)}, "k": g.weighted([(3, 500), (1, 1), (2, g.int(2, 6))]),
               "I": g.weighted([(1, 0), (2, 1), (2, 2), (2, 10)]), "J": g.weighted([(1, 0), (2, 1), (2, 5)])} for _ in range(g.weighted([(2, 1), (2, 2), (1, 3)]))]
    return {"sents": sents, "rounds": rounds, "metric": g.pick(["IBM_BLEU", "NIST_BLEU", "TER", "WER", "QCRI_BLEU"]), "names": names, "repo": g.chance(3, 4),
            "ids": g.shuffle(list(range(len(sents)))) if g.chance(1, 3) else list(range(len(sents))), "go_on": g.flip(),
            "eta": g.pick([0.0001, 0.01, 0.1, 1]), "C": g.pick([0, 1, 0.1, 3]), "alpha": g.pick([10, 1, 0.5, 0])}


def search(cs, losses, w, alpha):
    """The candidate with the highest model score plus alpha times its loss; Discard when that is close."""
    s = [dot(feats(c), w) + alpha * l for c, l in zip(cs, losses)]
    b = max(s)
    near_ = [c for c, x in zip(cs, s) if x > b - 1e-5 * (1 + abs(b))]
    if len({c[1] for c in near_}) > 1:
        raise Discard("close")
    return feats(near_[0])


def check(case, ctx):
    n, metric = len(case["sents"]), case["metric"]
    ds = [derivations(s) for s in case["sents"]]
    if not all(ds):
        raise Discard("no derivation")
    files = []
    for i, s in enumerate(case["sents"]):
        files.append(ctx.path(f"f{i}.gz"))
        write_forest(ctx, s, files[-1])
    refs = ctx.write("refs", "".join(" ||| ".join(" ".join(r) for r in s["refs"]) + "\n" for s in case["sents"]))
    repo = ctx.path("pools")
    shutil.rmtree(repo, ignore_errors=True)
    order = case["ids"]
    pools = [set() for _ in range(n)]
    w, eta = None, case["eta"]
    for t, rd in enumerate(case["rounds"]):
        if w is None or not case["go_on"]:
            w = dict(rd["w"])
        wfile = ctx.write("w", weights_text(w))
        for i in order:
            new = kbest(ds[i], w, rd["k"])
            pools[i] = pools[i] | new if case["repo"] else new
        args = ["-r", refs, "-w", wfile, "-m", metric, "-k", rd["k"], "-I", rd["I"], "-J", rd["J"], "--eta", num(eta), "-C", num(case["C"]), "-a", num(case["alpha"])]
        rc, out, err = ctx.run("rampion_cccp", args + (["-R", repo] if case["repo"] else []), "".join(f"{files[i]} {i}\n" for i in order))
        if case["repo"]:
            for i in order:
                check_pool(ctx, os.path.join(repo, f"kbest.{i}.txt.gz"), pools[i], f"round {t}, sentence {i}")
        got = read_weights(out)
        cs = [sorted(pools[i]) for i in order]
        ls = [[loss(c, case["sents"][i]["refs"], metric) for c in p] for i, p in zip(order, cs)]
        v = dict(w)
        for _ in range(rd["I"]):
            goals = [search(c, l, v, -case["alpha"]) for c, l in zip(cs, ls)]
            for _ in range(rd["J"]):
                for c, l, goal in zip(cs, ls, goals):
                    fear = search(c, l, v, case["alpha"])
                    v = {k: x * (1 - eta * case["C"] / n) for k, x in v.items()}
                    for k in set(goal) | set(fear):
                        v[k] = v.get(k, 0.0) + eta * (goal.get(k, 0.0) - fear.get(k, 0.0))
        for k in set(v) | set(got):
            check_that(near(v.get(k, 0.0), got.get(k, 0.0), 1e-7), lambda: f"round {t}: the weight of {k} is {got.get(k)}, expected {v.get(k)}")
        if any(abs(v.get(k, 0.0) - w.get(k, 0.0)) > 1e-9 for k in v) and any(len(p) > 2 for p in cs):
            ctx.nontrivial()
        w = {k: float("%.10g" % x) for k, x in got.items()}
    ctx.count(metric)


if __name__ == "__main__":
    run_check("T05", RULE, py=[Suite("rampion", gen, check)], programs=["mkhg", "rampion_cccp"], quick=14, thorough=300)
