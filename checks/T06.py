"""T06: training log-linear models and hidden Markov models on corpora (training/crf)."""
import gzip
import itertools
import math
import os
import re
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *  # noqa
from scfg import *  # noqa
from D01 import TOL
from D07 import chain_features
from pool import read_weights
from ffs import RuleIdentity

RULE = "some sentence has a reachable reference with several derivations of the source, and the weights moved"
G = ["f", "g", "h", "p_1", "q"]


def gen_corpus(g, hi):
    cats = ["X"] + g.weighted([(4, []), (3, ["Y"])])
    vocab, trg = SRC[:g.int(1, 4)], TRG[:g.int(1, 4)]
    names = G[:g.int(1, 5)]
    rules = [r for r in gen_grammar(g, cats, vocab, 1, 6, trg=trg, src=vocab, max_arity=2)]
    for r in rules:
        r["f"] = {n: float(g.int(-3, 4)) for n in names if g.flip()}
        r["f"] = {k: v for k, v in r["f"].items() if v} or {names[0]: 1.0}
    sents = []
    for _ in range(g.int(1, hi)):
        src = [g.pick(vocab) for _ in range(g.weighted([(3, 1), (4, 2), (3, 3), (1, 4)]))]
        psg = []
        if g.chance(1, 5):
            psg = [{"l": "X", "s": [g.pick(src)], "t": [g.pick(trg)], "f": {n: float(g.int(1, 3)) for n in names[:2] + ["new"] if g.flip()} or {"new": 1.0}} for _ in range(g.int(1, 2))]
        s = {"src": src, "psg": psg, "ref": []}
        try:
            ds = Forest(text_lattice(src), grammars(rules, s), "S", cap=150).all()
        except Discard:
            ds = []
        s["ref"] = list(g.pick(ds)[0]) if ds else []
        if not s["ref"] or g.chance(1, 10):
            s["ref"] = [g.pick(trg) for _ in range(g.int(1, 4))]
        sents.append(s)
    return {"rules": rules, "sents": sents, "names": names, "wp": g.chance(1, 4), "id": g.chance(1, 4)}


def grammars(rules, s):
    return [(rules, 10), (glue_rules(), "glue")] + ([(s["psg"], 10)] if s["psg"] else [])


def identities(t):
    f = dict(RuleIdentity().rule(t[0], t[1], t[2], None))
    for k in t[3]:
        f = add(f, identities(k))
    return f


def merged(ds):
    """Derivations with equal features, counted."""
    c = {}
    for f in ds:
        k = tuple(sorted((a, b) for a, b in f.items() if b))
        c[k] = c.get(k, 0) + 1
    return [(dict(k), math.log(n)) for k, n in c.items()]


def model(case, s):
    """Derivations of the source and those of the reference; None when the sentence does not count."""
    ds = Forest(text_lattice(s["src"]), grammars(case["rules"], s), "S", cap=400).all()
    out = []
    for y, f, t in ds:
        if case["wp"]:
            f = add(f, {"WordPenalty": -len(y) / math.log(10)})
        if case["id"]:
            f = add(f, identities(t))
        out.append((y, f))
    ref = [f for y, f in out if list(y) == s["ref"]]
    return (merged([f for _, f in out]), merged(ref)) if ref else None


def zexp(ds, w):
    sc = [dot(f, w) + n for f, n in ds]
    z = logsumexp(sc)
    e = {}
    for x, (f, _) in zip(sc, ds):
        p = math.exp(x - z)
        for k, v in f.items():
            e[k] = e.get(k, 0.0) + p * v
    return z, e


def cllh(models, w):
    """Negative conditional log-likelihood and its gradient."""
    obj, gr = 0.0, {}
    for m in models:
        if m:
            z, e = zexp(m[0], w)
            zr, er = zexp(m[1], w)
            obj += z - zr
            gr = add(add(gr, e), {k: -v for k, v in er.items()})
    return obj, gr


def setup(case, ctx, sents, name):
    lines = []
    for i, s in enumerate(sents):
        line = " ".join(s["src"]) + " ||| " + " ".join(s["ref"])
        if s["psg"]:
            p = ctx.write(f"{name}.g{i}", "".join(rule_text(r) + "\n" for r in s["psg"]))
            line = f'<seg id="{i}" grammar="{p}"> {line} </seg>'
        lines.append(line + "\n")
    return ctx.write(name, "".join(lines))


def config(case, ctx, extra=""):
    g = ctx.write("g", "".join(rule_text(r) + "\n" for r in case["rules"]))
    return ctx.write("cdec.ini", f"formalism=scfg\ngrammar={g}\n" + ("feature_function=WordPenalty\n" if case["wp"] else "") + ("feature_function=RuleIdentityFeatures\n" if case["id"] else "") + extra)


def norm(v):
    return math.sqrt(sum(x * x for x in v.values()))


def work_dir(ctx):
    d = ctx.path("run")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    return d


def load(d, name):
    p = os.path.join(d, name)
    check_that(os.path.exists(p), lambda: f"{name} is not written, there are {sorted(os.listdir(d))}")
    with gzip.open(p, "rt") as f:
        return read_weights(f.read())


def likelihood_lines(ctx, wfile, corpus, ini, obj, words, what):
    rc, out, err = ctx.run("mpi_compute_cllh", ["-t", corpus, "-c", ini] + (["-w", wfile] if wfile else []))
    got = dict(re.findall(r"^\s*([A-Z_0-9a-z ]+): (\S+)$", out, re.M))
    e = obj / math.log(2) / words if words else None
    want = {"CONDITIONAL LOG_e LIKELIHOOD": obj, "CONDITIONAL LOG_2 LIKELIHOOD": obj / math.log(2)}
    if words:
        want.update({"CONDITIONAL ENTROPY": e, "PERPLEXITY": 2 ** e})
    for k, v in want.items():
        check_that(k in got and near(float(got[k]), v, TOL) or abs(float(got[k]) - v) < 1e-6, lambda: f"{what}: {k} is {got.get(k)}, expected {v}\n{out}")


def gen_batch(g):
    case = gen_corpus(g, 4)
    for s in case["sents"]:  # training stops at rules with features that are not known from the start
        for r in s["psg"]:
            r["f"] = {k: v for k, v in r["f"].items() if k in case["rules"][0]["f"]} if case["rules"] else {}
    case.update({"w": {n: g.grid(12) for n in G + ["Glue", "WordPenalty"] + ["R:X:%s:%s" % (a, b) for a in SRC[:2] for b in TRG[:2]] if g.chance(1, 3)} if g.chance(2, 3) else {},
                 "prior": g.chance(3, 4), "sigma": g.pick([1, 0.25, 10]), "means": {n: g.grid(12) for n in case["names"] + ["Glue"] if g.chance(1, 2)} if g.chance(1, 2) else None,
                 "test": g.int(0, 2) if g.chance(1, 3) else 0, "M": g.pick([10, 10, 3])})
    return case


def check_batch(case, ctx):
    cut = len(case["sents"]) - min(case["test"], len(case["sents"]) - 1)
    train, test = case["sents"][:cut], case["sents"][cut:]
    ms = [model(case, s) for s in train]
    ts = [model(case, s) for s in test]
    ini, d = config(case, ctx), work_dir(ctx)
    corpus = setup(case, ctx, train, "train")
    wfile = ctx.write("w", weights_text(case["w"]) or "Unused 0\n")
    words = sum(len(s["ref"]) for s, m in zip(train, ms) if m)
    obj, gr = cllh(ms, case["w"])
    likelihood_lines(ctx, wfile if case["w"] else None, corpus, ini, obj, words, "at the start")
    args = ["-w", wfile, "-t", corpus, "-c", ini, "-M", case["M"]]
    var = None
    mu = {}
    if case["prior"]:
        var = case["sigma"]
        args += ["-p", "--sigma_squared", num(var)]
        if case["means"] is not None:
            mu = case["means"]
            args += ["-u", ctx.write("mu", weights_text(mu) or "Unused 0\n")]
    if test:
        args += ["-T", setup(case, ctx, test, "test")]
    # features that are known before training starts; others stay without weight
    known = {k for r in case["rules"] for k in r["f"]} | {"Glue", "WordPenalty"} | set(case["w"])
    rc, out, err = ctx.run("mpi_batch_optimize", args, cwd=d)

    def full(w):
        f, gr = cllh(ms, w)
        gr = {k: v for k, v in gr.items() if k in known}
        if var:
            for k in set(w) | set(mu):
                if k in known:
                    x = w.get(k, 0.0) - mu.get(k, 0.0)
                    f += x * x / (2 * var)
                    gr[k] = gr.get(k, 0.0) + x / var
        return f, gr
    evs = [float(x) for x in re.findall(r"^EVALUATION #\d+ OBJECTIVE: (\S+)$", err, re.M)]
    trs = [float(x) for x in re.findall(r"TRAINING CORPUS: ln p\(f\|e\)=(\S+)", err)]
    check_that(evs and len(trs) == len(evs), "no evaluations are reported")
    f0, g0 = full(case["w"])
    check_that(near(trs[0], obj, TOL) or abs(trs[0] - obj) < 1e-6, lambda: f"likelihood of the training data at the start {trs[0]}, expected {obj}")
    check_that(near(evs[0], f0, TOL) or abs(evs[0] - f0) < 1e-6, lambda: f"objective at the start {evs[0]}, expected {f0}")
    if test:
        tes = [float(x) for x in re.findall(r"TEST CORPUS: ln p\(f\|e\)=(\S+)", err)]
        tobj = cllh(ts, case["w"])[0]
        check_that(len(tes) == len(evs) and (near(tes[0], tobj, TOL) or abs(tes[0] - tobj) < 1e-6), lambda: f"likelihood of the test data {tes[:1]}, expected {tobj}")
    w = load(d, "weights.final.gz")
    check_that(set(w) <= known | {"Unused"}, lambda: f"weights of {sorted(set(w) - known)}")
    f1, g1 = full(w)
    check_that(near(evs[-1], f1, TOL) or abs(evs[-1] - f1) < 1e-6, lambda: f"the last objective is {evs[-1]}, that of the weights written is {f1}")
    check_that(f1 <= f0 + 1e-7 * (1 + abs(f0)), lambda: f"the objective is {f1} at the end, it was {f0} at the start")
    check_that(norm(g1) <= 1e-3 * max(1.0, norm(w)), lambda: f"the gradient is {clean(g1)} at the weights found {w}")
    likelihood_lines(ctx, os.path.join(d, "weights.final.gz"), corpus, ini, cllh(ms, w)[0], words, "at the end")
    if any(m and len(m[0]) > 1 for m in ms) and len(evs) > 1:
        ctx.nontrivial()
    ctx.count("prior" + (" with means" if case["means"] is not None else "") if var else "no prior")
    ctx.count("evaluations<=%d" % next(x for x in (1, 3, 10, 30, 100, 10**9) if len(evs) <= x))


def gen_reach(g):
    case = gen_corpus(g, 6)
    case["w"] = {}
    return case


def check_reach(case, ctx):
    ms = [model(case, s) for s in case["sents"]]
    ini, d = config(case, ctx), work_dir(ctx)
    corpus = setup(case, ctx, case["sents"], "train")
    rc, out, err = ctx.run("mpi_extract_reachable", ["-t", corpus, "-c", ini, "-o", "r"], cwd=d)
    with open(corpus) as f:
        lines = f.read().split("\n")[:-1]
    with open(os.path.join(d, "r.0_of_1")) as f:
        got = f.read()
    want = "".join(l + "\n" for l, m in zip(lines, ms) if m)
    check_that(got == want, lambda: f"reachable: {got!r}, expected {want!r}")
    rc, out, err = ctx.run("mpi_extract_features", ["-t", corpus, "-c", ini, "-o", "f"], cwd=d)
    with open(os.path.join(d, "f.0_of_1")) as f:
        got = [x for x in f.read().split("\n")[:-1] if not x.startswith("PhraseModel_")]  # these are always there
    check_that(len(set(got)) == len(got), lambda: f"features listed twice in {got}")
    need = set()
    may = {"Glue", "WordPenalty", "PassThrough"} | {k for r in case["rules"] for k in r["f"]}
    for s in case["sents"]:
        may |= {k for r in s["psg"] for k in r["f"]}
        for y, f, t in Forest(text_lattice(s["src"]), grammars(case["rules"], s), "S", cap=400).all():
            need |= set(identities(t)) if case["id"] else set()
            need |= set(f) | ({"WordPenalty"} if case["wp"] else set())
    check_that(need <= set(got), lambda: f"features {sorted(need - set(got))} are not listed in {got}")
    extra = {k for k in set(got) - may if not (case["id"] and k.startswith("R:"))}  # rules that were built and pruned
    check_that(not extra, lambda: f"features {sorted(extra)} do not occur")
    if len({bool(m) for m in ms}) > 1:
        ctx.nontrivial()


def gen_sgd(g):
    case = gen_corpus(g, 3)
    n = len(case["sents"])
    prog = g.pick(["adagrad", "flex", "online"])
    case.update({"prog": prog, "w": {k: g.grid(12) for k in G + ["Glue"] if g.chance(1, 3)} if g.chance(2, 3) else {}, "seed": g.int(1, 1 << 20),
                 "s": min(n, g.pick([1, 1, 2])), "steps": g.int(1, 5) if prog != "flex" else g.int(1, 2), "C": g.pick([0.01, 0.1, 1]), "T": g.pick([0, 0, 0.3, 5]),
                 "eta": g.pick([1, 0.2, 0.05]), "frozen": [k for k in case["names"] if g.chance(1, 4)], "M": g.pick([10, 3]), "test": g.chance(1, 4)})
    return case


def close(a, b, tol=1e-6):
    return all(abs(a.get(k, 0.0) - b.get(k, 0.0)) <= tol * (1 + abs(b.get(k, 0.0))) for k in set(a) | set(b))


def check_sgd(case, ctx):
    sents, s, prog = case["sents"], case["s"], case["prog"]
    ms = [model(case, x) for x in sents]
    ini, d = config(case, ctx), work_dir(ctx)
    corpus = setup(case, ctx, sents, "train")
    w0 = {k: v for k, v in case["w"].items() if v}
    wargs = ["-w", ctx.write("w", weights_text(w0))] if w0 else []
    batches = list(itertools.combinations_with_replacement(range(len(sents)), s))
    test = []
    if case["test"] and prog == "adagrad":  # a test corpus that would teach something else
        t = dict(sents[0])
        t["ref"] = sents[0]["ref"][::-1] + sents[0]["ref"]
        test = ["-t", setup(case, ctx, [t] * 3 + [dict(sents[0], ref=x["ref"]) for x in sents], "test")]
    moved = False
    if prog == "adagrad":
        passes = case["steps"] * s / len(sents)
        ctx.run("mpi_adagrad_optimize", ["-d", corpus, "-c", ini, "-s", s, "-S", case["seed"], "--max_passes", repr(passes), "--write_every_n_minibatches", 1,
                                         "-C", num(case["C"]), "-e", num(case["eta"])] + wargs + test, cwd=d)
        last = int(passes / (s / len(sents))) + 1
        check_that(close(load(d, "weights.0.gz"), w0), "the weights at the start")
        states = [({}, {}, w0)]
        for t in range(1, last + 1):
            got = load(d, f"weights.{t}.gz")
            nxt = []
            for u, q, w in states:
                for b in batches:
                    gr = {k: v / s for k, v in cllh([ms[i] for i in b], w)[1].items()}
                    u2, q2 = add(u, gr), add(q, {k: v * v for k, v in gr.items()})
                    v = {}
                    for k in u2:
                        z = abs(u2[k] / t) - case["C"]
                        if z > 0:
                            v[k] = -math.copysign(1, u2[k]) * case["eta"] * z * t / math.sqrt(q2[k])
                    if close(v, got, 1e-5):
                        nxt.append((u2, q2, v))
            check_that(nxt, lambda: f"minibatch {t}: no {s} of the {len(sents)} sentences lead from {[x[2] for x in states]} to {got}")
            if len(nxt) > 1500:
                raise Discard("too many histories")
            states = nxt
            moved = moved or not close(got, w0)
    elif prog == "flex":
        ctx.run("mpi_flex_optimize", ["-d", corpus, "-c", ini, "-s", s, "-S", case["seed"], "-I", case["steps"], "-i", 200, "-C", num(case["C"]), "-T", num(case["T"]),
                                      "-M", case["M"]] + wargs, cwd=d)
        ws = [load(d, "weights.epoch_0.gz"), load(d, "weights.cur.gz") if case["steps"] > 1 else None, load(d, "weights.final.gz")]
        ws = [x for x in ws if x is not None]
        check_that(close(ws[0], w0), "the weights at the start")
        for t in range(1, len(ws)):
            prev, w = ws[t - 1], ws[t]
            best = None
            for b in batches:
                f, gr = cllh([ms[i] for i in b], w)
                f0 = cllh([ms[i] for i in b], prev)[0] + case["C"] * norm(prev) ** 2
                for k in set(w) | set(prev):
                    x, y = w.get(k, 0.0), prev.get(k, 0.0)
                    f += case["C"] * x * x + case["T"] * (x - y) ** 2
                    gr[k] = gr.get(k, 0.0) + 2 * case["C"] * x + 2 * case["T"] * (x - y)
                if f > f0 + 1e-6 * (1 + abs(f0)):
                    continue
                n = norm(gr) / max(1.0, norm(w))
                if best is None or n < best[0]:
                    best = (n, b, gr, w)
            check_that(best and best[0] < 3e-3, lambda: f"minibatch {t}: from {prev} to {w}, which is not an optimum for any {s} of the {len(sents)} sentences: the gradient is {best and clean(best[2])}")
            moved = moved or not close(w, w0)
    else:
        agenda = ctx.write("agenda", f"{ini} {case['steps']}\n")
        fz = ["-z", ctx.write("frozen", "".join(k + "\n" for k in case["frozen"]))] if case["frozen"] else []
        ctx.run("mpi_online_optimize", ["-t", corpus, "-a", agenda, "-s", s, "-S", case["seed"], "-e", num(case["eta"]), "-C", num(case["C"]), "-1"] + wargs + fz, cwd=d)
        check_that(close(load(d, "weights.epoch_1.0.gz"), w0), "the weights at the start")
        got = load(d, "weights.final.gz")
        if len(batches) ** case["steps"] > 400:
            raise Discard("too many histories")
        states = [(w0, {}, 0.0)]
        for t in range(1, case["steps"] + 1):
            e = case["eta"] * 0.85 ** (t / s)
            nxt = []
            for w, q, u in states:
                for b in batches:
                    gr = {k: -v / s for k, v in cllh([ms[i] for i in b], w)[1].items()}
                    u2, q2, w2 = u + e * case["C"] / len(sents), dict(q), dict(w)
                    for k in set(w) | set(gr):
                        if k in case["frozen"]:
                            continue
                        z = x = w.get(k, 0.0) + e * gr.get(k, 0.0)
                        if abs(z) > 1e-12:
                            x = max(0.0, z - (u2 + q.get(k, 0.0))) if z > 0 else min(0.0, z + (u2 - q.get(k, 0.0)))
                        q2[k] = q.get(k, 0.0) + x - z
                        w2[k] = x
                    nxt.append((w2, q2, u2))
            states = nxt
        check_that(any(close(w, got, 1e-5) for w, _, _ in states), lambda: f"after {case['steps']} minibatches of {s} the weights are {got}, expected one of {[clean(w) for w, _, _ in states[:8]]}")
        moved = not close(got, w0)
    if moved and any(m and len(m[0]) > 1 for m in ms):
        ctx.nontrivial()
    ctx.count(prog)


def gen_hmm(g):
    words = g.subset(["a", "b", "the", "x:y", "1", "é", "a_b"]) or ["a"]
    tags = g.pick([["1", "2"], ["C1", "C2", "C3"], ["N"], ["1", "2", "3", "4"]])
    sents = [[g.pick(words) for _ in range(g.weighted([(2, 1), (3, 2), (3, 3), (1, 4)]))] for _ in range(g.int(1, 4))]
    return {"tags": tags, "sents": sents, "n": g.int(1, 4), "seed": [g.grid(12) for _ in range(7)], "drop": g.chance(1, 6)}


def check_hmm(case, ctx):
    ini = ctx.write("cdec.ini", "formalism=tagger\ntagger_tagset=%s\nfeature_function=Tagger_BigramIndicator\nfeature_function=LexicalPairIndicator\nintersection_strategy=full\n"
                    % ctx.write("tags", " ".join(case["tags"]) + "\n"))
    corpus = ctx.write("train", "".join(" ".join(s) + "\n" for s in case["sents"]))
    d = work_dir(ctx)
    feats = [{"k": "Tagger_BigramIndicator", "n": "Tagger_BigramIndicator", "nouni": False}, {"n": "LexicalPairIndicator"}]
    ms = []
    for s in case["sents"]:
        ds = []
        for y in itertools.product(case["tags"], repeat=len(s)):
            f = {}
            for x in feats:
                chain_features(x, 0, {"src": s}, [(i, s[i], t, {}) for i, t in enumerate(y)], f, False)
            ds.append((f, 0.0))
        ms.append(ds)
    names = sorted({k for ds in ms for f, _ in ds for k in f})
    rc, out, err = ctx.run("mpi_extract_features", ["-t", corpus, "-c", ini, "-o", "features"], cwd=d)
    with open(os.path.join(d, "features.0_of_1")) as f:
        got = sorted(x for x in f.read().split("\n")[:-1] if not x.startswith("PhraseModel_"))
    check_that(got == names, lambda: f"features {got}, expected {names}")
    w = {k: 0.0 if k.startswith("Uni:") else case["seed"][i % 7] for i, k in enumerate(names)}
    if case["drop"] and len(names) > 1:
        w.pop(names[case["n"] % len(names)])
    rc, out, err = ctx.run("mpi_baum_welch", ["-c", ini, "-t", corpus, "-w", ctx.write("w", "".join("%s %s\n" % (k, num(v)) for k, v in w.items())), "-n", case["n"]], cwd=d)
    known = set(w)
    zs = [float(x) for x in re.findall(r"TRAINING CORPUS: ln p\(x\)=(\S+)", err)]
    check_that(len(zs) == case["n"], lambda: f"{len(zs)} iterations")
    for it in range(case["n"]):
        if it == case["n"] - 1 and it:
            check_that(close(load(d, "weights.cur.gz"), {k: v for k, v in w.items() if v}, 1e-6), lambda: f"weights after {it} iterations: {load(d, 'weights.cur.gz')}, expected {w}")
        obj, e = 0.0, {}
        for ds in ms:
            z, x = zexp(ds, w)
            obj += z
            e = add(e, x)
        check_that(near(zs[it], obj, TOL) or abs(zs[it] - obj) < 1e-6, lambda: f"iteration {it}: likelihood {zs[it]}, expected {obj}")
        groups = {}
        for k, v in e.items():
            if k in known and v > 0:
                if k.startswith("Bi:"):
                    groups.setdefault(k[:k.rindex("_")], []).append(k)
                elif k.startswith("Id:"):
                    groups.setdefault("Emit" + k[k.rindex(":"):], []).append(k)
        for ks in groups.values():
            z = sum(e[k] + 1e-9 for k in ks)
            for k in ks:
                w[k] = math.log(e[k] + 1e-9) - math.log(z)
    got = load(d, "weights.final.gz")
    check_that(close(got, {k: v for k, v in w.items() if v}, 1e-6), lambda: f"weights after {case['n']} iterations: {got}, expected {clean(w)}")
    if len(case["tags"]) > 1 and any(len(s) > 1 for s in case["sents"]):
        ctx.nontrivial()


if __name__ == "__main__":
    run_check("T06", RULE, py=[Suite("batch", gen_batch, check_batch, 3), Suite("minibatch", gen_sgd, check_sgd, 3), Suite("reachable", gen_reach, check_reach, 1), Suite("hmm", gen_hmm, check_hmm, 1)],
              programs=["mpi_compute_cllh", "mpi_batch_optimize", "mpi_extract_reachable", "mpi_extract_features", "mpi_adagrad_optimize", "mpi_flex_optimize", "mpi_online_optimize", "mpi_baum_welch"],
              quick=16, thorough=400)
