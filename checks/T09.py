"""T09: the online tuners (training/mira: kbest_mira, ada_opt_sm): every step of their way through the development set."""
import gzip
import itertools
import math
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *  # noqa
from scfg import *  # noqa
import mt
from pool import read_weights
from T06 import gen_corpus, setup, config, work_dir, close, load, G
from T07 import candidates

RULE = "some sentence moved the weights"


def gen_refs(g, case, metric):
    for s in case["sents"]:
        s["refs"] = [s["ref"]]
        while metric != "wer" and len(s["refs"]) < 3 and g.chance(1, 4):
            s["refs"].append([g.pick(TRG[:3]) for _ in range(g.int(1, 4))])
    case["metric"] = metric
    case["w"] = {k: g.grid(12) + g.int(1, 1000) / 8192 for k in G + ["Glue", "unseen"] if g.chance(7, 8)}


def gen_mira(g):
    case = gen_corpus(g, 3)
    gen_refs(g, case, g.pick(["ibm_bleu", "ibm_bleu", "nist_bleu", "koehn_bleu", "ter", "wer", "qcri_bleu"]))
    case.update({"passes": g.int(1, 3) if len(case["sents"]) < 3 else g.int(1, 2), "C": g.pick([0.01, 0.01, 0.1, 1]), "scale": g.pick([1, 1, 10, 0.5]),
                 "k": g.weighted([(3, 250), (2, g.int(2, 8)), (1, 1)]), "seed": g.int(1, 1 << 20), "sample": g.chance(1, 6), "unit": g.flip()})
    return case


def gen_ada(g):
    case = gen_corpus(g, 3)
    for r in case["rules"]:
        r["f"] = {k: v + g.int(1, 1000) / 1024 for k, v in r["f"].items()}
    gen_refs(g, case, g.pick(["ibm_bleu", "ibm_bleu", "nist_bleu", "koehn_bleu", "ter", "wer"]))
    case.update({"k": g.weighted([(3, 500), (3, g.int(2, 6)), (1, 1)]), "seed": g.int(1, 1 << 20)})
    return case


def measured(case, i, y, ctxt=None):
    """Statistics of a translation and its score, on top of other statistics."""
    m = case["metric"].upper()
    st = mt.segment(list(y), case["sents"][i]["refs"], m)
    return st, mt.score([a + b for a, b in zip(st, ctxt)] if ctxt else st, m)


def top(case, ds, w, k, unique=False):
    """The k best derivations, best first, Discard where ties hide which these are."""
    s = sorted(((dot(f, w), y, f) for y, f in ds), key=lambda t: -t[0])
    if unique:
        best = {}
        for x in s:
            if x[1] not in best:
                best[x[1]] = x
            elif best[x[1]][0] - x[0] < 1e-7 * (1 + abs(x[0])) and x[2] != best[x[1]][2]:
                raise Discard("tie")
        s = list(best.values())
    for j in (1, k):
        if any(a[0] - b[0] < 1e-7 * (1 + abs(b[0])) and a[1:] != b[1:] for a in s[:j] for b in s[j:]):
            raise Discard("tie")
    return s[:k]


class Mira:
    def __init__(self, case, cands):
        self.case, self.cands = case, cands
        self.w = dict(case["w"])
        self.tot, self.n = dict(self.w), 1
        self.good = [None] * len(cands)
        self.moved = 0

    def copy(self):
        m = Mira(self.case, self.cands)
        m.w, m.tot, m.n, m.good, m.moved = dict(self.w), dict(self.tot), self.n, list(self.good), self.moved
        return m

    def learn(self, i):
        case = self.case
        s = top(case, self.cands[i], self.w, case["k"] if not case["sample"] else 1 << 30)
        sign = -1 if case["metric"] in ("ter", "wer") else 1
        hyps = []
        for x, y, f in s:
            st, v = measured(case, i, y)
            hyps.append((sign * v, f, st, x))
        if case["sample"]:
            # every derivation is seen, in an order that chance decides
            for unit in ([1.0, math.sqrt(sum(v * v for v in self.w.values())) or 1.0] if case["unit"] else [1.0]):
                z = logsumexp([h[3] / unit for h in hyps])
                if any(h[3] / unit - z < math.log(0.04) for h in hyps):
                    raise Discard("an improbable derivation")
        for a in hyps + [h for h in [self.good[i]] if h]:
            for b in hyps:
                if abs(a[0] - b[0]) < 1e-5 and a[2] != b[2]:
                    raise Discard("near tie of the metric")
        good = self.good[i] or hyps[0]
        bad = hyps[0]
        for h in hyps:
            if case["sample"] and h[1] != good[1] and abs(h[0] - good[0]) < 1e-5 and self.good[i] is None and h[0] == max(x[0] for x in hyps):
                raise Discard("tie of the sample")
            if case["sample"] and h[1] != bad[1] and abs(h[0] - bad[0]) < 1e-5 and h[0] == min(x[0] for x in hyps):
                raise Discard("tie of the sample")
            if h[0] > good[0] + 1e-5:
                good = h
            if h[0] < bad[0] - 1e-5:
                bad = h
        if case["sample"] and sum(1 for h in hyps if abs(h[0] - good[0]) < 1e-5 and h[1] != good[1]) and good is not self.good[i]:
            raise Discard("tie of the sample")
        for h in hyps:
            if any(h is not x and h[2] == x[2] and abs(h[3] - x[3]) < 1e-7 * (1 + abs(x[3])) and h[1] != x[1] for x in (good, bad)):
                raise Discard("tie")
        self.good[i] = good
        if hyps[0][2] != good[2] and abs(hyps[0][0] - good[0]) > 1e-6:
            diff = clean(add(good[1], {k: -v for k, v in bad[1].items()}))
            loss = -dot(diff, self.w) + case["scale"] * (good[0] - bad[0])
            if abs(loss) < 1e-5:
                raise Discard("no loss")
            if loss > 0:
                n = sum(v * v for v in diff.values())
                step = min(case["C"], loss / n) if n else 0.0
                self.w = add(self.w, {k: v * step for k, v in diff.items()})
                self.moved += bool(diff)
        self.tot = add(self.tot, self.w)
        self.n += 1
        return hyps[0][0]

    def average(self):
        return {k: v / self.n for k, v in self.tot.items()}


def write_refs(case, ctx):
    sents = case["sents"]
    if len({len(s["refs"]) for s in sents}) == 1 and case["seed"] % 2:
        return [ctx.write(f"ref{j}", "".join(" ".join(s["refs"][j]) + "\n" for s in sents)) for j in range(len(sents[0]["refs"]))]
    return [ctx.write("refs", "".join(" ||| ".join(" ".join(r) for r in s["refs"]) + "\n" for s in sents))]


def check_mira(case, ctx):
    sents, d = case["sents"], work_dir(ctx)
    cands = [candidates(case, s) for s in sents]
    if not all(cands):
        raise Discard("a sentence without translations")
    if case["sample"] and max(map(len, cands)) > 12:
        raise Discard("too many to sample")
    setup(case, ctx, sents, "src")
    lines = []
    for i, s in enumerate(sents):
        gr = f' grammar="{ctx.path("src.g%d" % i)}"' if s["psg"] else ""
        lines.append(f'<seg id="{i}"{gr}>{" ".join(s["src"])}</seg>\n')
    args = ["-c", config(case, ctx), "-w", ctx.write("w", weights_text(case["w"]) or "Unused 0\n"), "-i", ctx.write("source", "".join(lines)), "-p", case["passes"], "-m", case["metric"],
            "-C", num(case["C"]), "-s", num(case["scale"]), "-k", 600 if case["sample"] else case["k"], "-S", case["seed"]]
    if case["sample"]:
        args += ["-f"] + ["-x"] * case["unit"]
    for r in write_refs(case, ctx):
        args += ["-r", r]
    # which order a pass takes is a matter of chance, any order may be the one
    states = [Mira(case, cands)]
    passes = []
    for p in range(case["passes"]):
        nxt = []
        for m in states:
            for order in itertools.permutations(range(len(sents))):
                m2 = m.copy()
                loss = sum(m2.learn(i) for i in order) / len(sents)
                nxt.append((m2, loss, m))
        passes.append(nxt)
        states = [x[0] for x in nxt]
        if len(states) > 300:
            raise Discard("too many orders")
        if any(max([abs(v) for v in m.w.values()] + [0]) > 1e4 for m in states):
            raise Discard("diverges")
    rc, out, err = ctx.run("kbest_mira", args, cwd=d)
    avgs = re.findall(r"\[AVG METRIC LAST PASS=(\S+)\]", err)
    check_that(len(avgs) == case["passes"], lambda: f"{len(avgs)} passes are reported, expected {case['passes']}\n{err}")
    alive = {id(x[2]) for x in passes[0]}
    for p, nxt in enumerate(passes):
        cur, avg = load(d, "weights.mira-pass%02d.gz" % p), load(d, "weights.mira-pass%02d-avg.gz" % p)
        ok = [x for x in nxt if id(x[2]) in alive and close(cur, x[0].w, 2e-5) and close(avg, x[0].average(), 2e-5) and near(float(avgs[p]), x[1], 1e-4)]
        check_that(ok, lambda: f"weights {cur} with average {avg} and metric {avgs[p]} after pass {p}; expected one of\n" +
                   "\n".join(f"{clean(x[0].w)} with average {clean(x[0].average())} and metric {x[1]}" for x in nxt if id(x[2]) in alive))
        alive = {id(x[0]) for x in ok}
        last = [x[0] for x in ok]
    check_that(close(load(d, "weights.mira-final.gz"), last[0].w, 2e-5), lambda: f"final weights {load(d, 'weights.mira-final.gz')}, expected {clean(last[0].w)}")
    check_that(close(load(d, "weights.mira-final-avg.gz"), last[0].average(), 2e-5), lambda: f"final average {load(d, 'weights.mira-final-avg.gz')}, expected {clean(last[0].average())}")
    if any(m.moved for m in last):
        ctx.nontrivial()
    if case["sample"]:
        ctx.count("sampled")


def best_of(pool, key):
    out = max(pool, key=key)
    for h in pool:
        if h is not out and abs(key(h) - key(out)) < 1e-7 * (1 + abs(key(out))):
            raise Discard("tie")
    return out


def check_ada(case, ctx):
    sents = case["sents"]
    cands = [candidates(case, s) for s in sents]
    if not all(cands):
        raise Discard("a sentence without translations")
    lines = []
    setup(case, ctx, sents, "src")
    for i, s in enumerate(sents):
        src = " ".join(s["src"])
        if s["psg"]:
            src = f'<seg id="{i}" grammar="{ctx.path("src.g%d" % i)}">{src}</seg>'
        lines.append(src + " ||| " + " ||| ".join(" ".join(r) for r in s["refs"]) + "\n")
    args = ["-c", config(case, ctx), "-d", ctx.write("dev", "".join(lines)), "-w", ctx.write("w", weights_text(case["w"]) or "Unused 0\n"), "-m", case["metric"], "-k", case["k"], "-S", case["seed"]]
    rc, out, err = ctx.run("ada_opt_sm", args)
    visits = re.findall(r"^Learning from sentence id: (\d+)\n(\d+) \|\|\| (.*) \|\|\| (\S+)$", err, re.M)
    check_that(len(visits) == 199 and "Optimization complete" in err, lambda: f"{len(visits)} steps\n{err[-2000:]}")
    w, u, gg = dict(case["w"]), {}, {}
    pools = [{} for _ in sents]
    sign = -1 if case["metric"] in ("ter", "wer") else 1
    doc, moved = None, 0
    for it, (sid, sid2, text, shown) in enumerate(visits):
        i = int(sid)
        check_that(i == int(sid2) and i < len(sents), "another sentence than drawn")
        doc = [0.9 * x for x in doc] if doc else None
        for x, y, f in top(case, cands[i], w, case["k"], True):
            k = (y, tuple(sorted(f.items())))
            if k not in pools[i]:
                pools[i][k] = (y, f, measured(case, i, y)[0])
        pool = [(y, f, st, dot(f, w), sign * mt.score([a + b for a, b in zip(st, doc)] if doc else st, case["metric"].upper())) for y, f, st in pools[i].values()]
        vit = best_of(pool, lambda h: h[3])
        hope = best_of(pool, lambda h: h[3] + h[4])
        fear = best_of(pool, lambda h: h[3] - h[4])
        check_that(" ".join(vit[0]) == text, lambda: f"step {it}: best translation {text!r}, expected {vit[0]}")
        check_that(abs(float(shown) - sign * vit[4]) < 1e-4 * (1 + abs(vit[4])), lambda: f"step {it}: score {shown}, expected {sign * vit[4]}")
        doc = [a + b for a, b in zip(vit[2], doc)] if doc else list(vit[2])
        if vit is not hope:
            moved += 1
            for k, v in clean(add(fear[1], {k: -v for k, v in hope[1].items()})).items():
                u[k] = u.get(k, 0.0) + v
                gg[k] = gg.get(k, 0.0) + v * v
            w = {k: -0.001 * u[k] / math.sqrt(gg[k]) for k in gg}
    got = read_weights(out)
    check_that(close(got, w, 2e-5), lambda: f"weights {got}, expected {clean(w)}")
    if moved:
        ctx.nontrivial()
    ctx.count("updates", moved)


if __name__ == "__main__":
    run_check("T09", RULE, py=[Suite("mira", gen_mira, check_mira, 3), Suite("adaptive", gen_ada, check_ada, 2)], programs=["kbest_mira", "ada_opt_sm"], quick=16, thorough=300)
