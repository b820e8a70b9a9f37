"""T01: minimum error rate training finds the best point of a line exactly."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
from scfg import *  # noqa
import mt
import vbuild

RULE = ("the envelope has at least two segments (hull), the error surfaces at least two boundaries (surface, programs), there are more than "
        "two directions (directions)")
NAMES = ["Fa", "Fb", "Fc", "Fd"]
METRICS = ["IBM_BLEU", "NIST_BLEU", "KOEHN_BLEU", "QCRI_BLEU", "CBLEU", "TER", "WER", "CER", "SSK"]


def gen_vec(g, names):
    v = {}
    for n in names:
        x = g.grid(16)
        if x and not g.chance(1, 4):
            v[n] = x
    return v


def gen(g):
    names = NAMES[:g.int(1, 4)]
    trg = ["A", "B", "C", "D", "E"]

    def feats():
        return {n: g.grid(64) for n in names if g.chance(3, 4)}
    sents, rules = [], []
    vocab = ["a", "b", "c", "d"][:g.int(1, 4)]
    for w in vocab:
        for _ in range(g.int(1, 4)):
            rules.append({"l": "X", "s": [w], "t": [g.pick(trg) for _ in range(g.weighted([(5, 1), (1, 2), (1, 3)]))], "f": feats()})
    for _ in range(g.count(0, 3)):
        if g.flip():
            rules.append({"l": "X", "s": [["X"], g.pick(vocab), ["X"]], "t": g.pick([[1, "A", 2], [2, 1], [2, "B", 1]]), "f": feats()})
        else:
            rules.append({"l": "X", "s": [g.pick(vocab), g.pick(vocab)], "t": [g.pick(trg) for _ in range(g.int(1, 3))], "f": feats()})
    for _ in range(g.int(1, 4)):
        src = [g.pick(vocab) for _ in range(g.int(1, 4))]
        refs = [[g.pick(trg) for _ in range(g.int(1, 6))] for _ in range(g.weighted([(3, 1), (1, 2)]))]
        sents.append({"src": src, "refs": refs})
    m = g.pick(METRICS) if not g.chance(1, 6) else "COMB"
    lines = [(gen_vec(g, names), gen_vec(g, names)) for _ in range(g.int(1, 2))]
    return {"names": names, "rules": rules, "sents": sents, "metric": m, "w": {n: g.grid(16) for n in names}, "only": g.subset(names) if g.chance(1, 3) else [],
            "lines": [(o, d) for o, d in lines if o and d], "shards": g.int(1, 3), "low": g.chance(1, 3), "random": g.weighted([(3, 0), (1, 1), (1, 4)])}


def vec_text(v):
    return ";".join("%s=%s" % (k, num(x)) for k, x in v.items())


def parse_vec(s):
    return {k: float(x) for k, x in (p.split("=") for p in s.split(";") if p)}


def intervals(lines):
    """Breakpoints of the upper envelope of (slope, value)."""
    best = {}
    for m, b in lines:
        best[m] = max(b, best.get(m, -1e300))
    hull = []
    for m in sorted(best):
        b = best[m]
        while len(hull) >= 2:
            (m1, b1), (m2, b2) = hull[-2:]
            if (b1 - b) * (m2 - m1) <= (b1 - b2) * (m - m1):
                hull.pop()
            else:
                break
        hull.append((m, b))
    return [(hull[i][1] - hull[i + 1][1]) / (hull[i + 1][0] - hull[i][0]) for i in range(len(hull) - 1)]


def metric_score(hyps, refs, metric):
    if metric == "COMB":
        return 0.5 * mt.corpus(hyps, refs, "IBM_BLEU")[1] - 0.25 * mt.corpus(hyps, refs, "TER")[1]
    return mt.corpus(hyps, refs, metric)[1]


def check(case, ctx):
    names, metric = case["names"], case["metric"]
    mname = "COMB:IBM_BLEU=0.5;TER=-0.25" if metric == "COMB" else metric
    forests = []
    gfile = ctx.write("g", "".join(rule_text(r) + "\n" for r in case["rules"]))
    wfile = ctx.write("w", weights_text(case["w"]))
    hgs = ctx.path("hgs")
    os.makedirs(hgs, exist_ok=True)
    for f in os.listdir(hgs):
        os.remove(os.path.join(hgs, f))
    for s in case["sents"]:
        forests.append(Forest(text_lattice(s["src"]), [(case["rules"], 10), (glue_rules(), "glue")], cap=1500).all())
        if not forests[-1]:
            raise Discard("no derivation")
    ctx.run("cdec", ["-f", "scfg", "-g", gfile, "-w", wfile, "-O", hgs], "".join(" ".join(s["src"]) + "\n" for s in case["sents"]))
    n = len(forests)
    refs = ctx.write("refs", "".join(" ||| ".join(" ".join(r) for r in s["refs"]) + "\n" for s in case["sents"]))
    args = ["-w", wfile, "-r", hgs, "-s", n, "-d", case["random"]]
    for f in case["only"]:
        args += ["-o", f]
    rc, agenda, err = ctx.run("mr_dpmert_generate_mapper_input", args)
    lines = agenda.split("\n")[:-1]
    opt = case["only"] or [k for k in names]
    check_that(len(lines) == n * (len(opt) + case["random"]), f"{len(lines)} lines of work for {n} sentences, {len(opt)} features and {case['random']} random directions")
    todo = {}
    for l in lines:
        p = l.split(" ")
        check_that(len(p) == 4, f"line of work without starting point or direction: {l!r}")
        check_that(p[0] == f"{hgs}/{p[1]}.bin.gz", f"forest in {l!r}")
        check_that(clean(parse_vec(p[2])) == clean(case["w"]), lambda: f"starting point {p[2]}, the weights are {case['w']}")
        d = parse_vec(p[3])
        check_that(set(d) <= set(opt) and near(sum(x * x for x in d.values()), 1, 1e-4), f"direction {p[3]}")
        todo.setdefault((p[2], p[3]), []).append(int(p[1]))
    for k, ids in todo.items():
        check_that(all(ids.count(i) == ids.count(0) for i in range(n)) and (ids.count(0) == 1 or case["random"]), lambda: f"direction {k[1]} is to be explored for the sentences {ids} of {n}")
    for f in opt:
        check_that(any(clean(parse_vec(d)) == {f: 1.0} for _, d in todo), f"feature {f} is not optimized")
    for o, d in case["lines"]:
        k = (vec_text(o), vec_text(d))
        if k not in todo:
            todo[k] = list(range(n))
            lines += ["%s/%d.bin.gz %d %s %s" % (hgs, i, i, k[0], k[1]) for i in range(n)]
    lines = list(dict.fromkeys(lines))  # a random direction can be one of the axes
    mapped = []
    for i in range(case["shards"]):
        part = lines[i::case["shards"]]
        rc, out, err = ctx.run("mr_dpmert_map", ["-m", mname.lower() if case["low"] and metric != "COMB" else mname, "-r", refs], "".join(l + "\n" for l in part))
        out = out.split("\n")[:-1]
        check_that(len(out) == len(part), f"{len(out)} results for {len(part)} lines of work")
        mapped += out
    rc, out, err = ctx.run("mr_dpmert_reduce", ["-m", mname], "".join(l + "\n" for l in sorted(mapped)))
    res = {}
    for l in out.split("\n")[:-1]:
        k, x, s = l.rsplit("|", 2)
        o, d = k.split(" ")
        check_that((o, d) in todo and (o, d) not in res, f"result {l!r} for a line that was not asked for, or twice")
        res[(o, d)] = (float(x), float(s))
    check_that(len(res) == len(todo), f"{len(res)} results for {len(todo)} lines")
    sign = -1 if metric in ("TER", "WER", "CER") else 1
    R = [s["refs"] for s in case["sents"]]
    for (o, d), (x, s) in res.items():
        fo, fd = parse_vec(o), parse_vec(d)
        cand = [[(round(dot(f, fd), 9), round(dot(f, fo), 9), y) for y, f, _ in ds] for ds in forests]
        cuts = sorted({c for cs in cand for c in intervals([(m, b) for m, b, _ in cs])})
        tie = False

        def at(t):
            hyps = []
            for cs in cand:
                best = max(m * t + b for m, b, _ in cs)
                ys = {y for m, b, y in cs if m * t + b > best - 1e-7 * (1 + abs(best))}
                if len(ys) > 1:
                    return None
                hyps.append(list(ys.pop()))
            return metric_score(hyps, R, metric)
        if len(cuts) > 60:
            continue
        mids = [(cuts[0] - 1, True)] + [((a + b) / 2, b - a > 1e-4) for a, b in zip(cuts, cuts[1:]) if b - a > 1e-7 * (1 + abs(a))] + [(cuts[-1] + 1, True)] if cuts else [(0.0, True)]
        vals = [(at(t), wide) for t, wide in mids]
        if any(v is None for v, _ in vals):
            ctx.count("ties")
            continue
        best = max(sign * v for v, wide in vals if wide)
        bound = max(sign * v for v, wide in vals)
        what = lambda: f"{mname} from {o} along {d}: the result is {s} at {x}; "
        check_that(best - 1e-4 <= sign * s <= bound + 1e-4, lambda: what() + f"the best score is {sign * best}, from {sorted(set(v for v, _ in vals))}")
        if all(abs(c - x) > 1e-4 * (1 + abs(c)) for c in cuts):
            v = at(x)
            if v is not None:
                check_that(near(v, s, 1e-4), lambda: what() + f"the score there is {v}")
                ctx.count("position checked")
        if len(cuts) > 1:
            ctx.nontrivial()
        ctx.count("cuts<=%d" % next(k for k in (0, 1, 3, 10, 60) if len(cuts) <= k))
    ctx.count(metric)


if __name__ == "__main__":
    run_check("T01", RULE, cpp=[Cpp("mert", libs=["dpmert", "training_utils"] + vbuild.CDEC_LIBS, inc=vbuild.TRAIN_INC, suites="hull,surface,directions".split(","))],
              py=[Suite("programs", gen, check, 2)], programs=["cdec", "mr_dpmert_generate_mapper_input", "mr_dpmert_map", "mr_dpmert_reduce"],
              quick=20, thorough=500)
