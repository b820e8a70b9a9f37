"""D03: feature functions score every derivation with the value their definition gives its output, under every
search strategy; approximate search and pruning keep to their guarantees."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *  # noqa
from scfg import *  # noqa
from D01 import check_kbest, parse_kbest, feq, TOL, grammar_file, pass_rules
import lm as lmmod
import ffs as F


def gen_ff(g, trg, src, markers, arity, kinds):
    k = g.weighted(kinds)
    if k == "klm":
        classes = None
        words = trg
        if g.chance(1, 6):
            cl = ["C1", "C2", "C3"]
            classes = {w: (g.pick(cl), g.grid(8)) for w in trg if not g.chance(1, 5)}
            # the model may know words themselves, which only their classes must be looked up for
            words = cl + [w for w in trg if g.chance(1, 2)]
        name = g.weighted([(3, None), (1, "LM2")])
        m = lmmod.gen_lm(g, words, max_order=5)
        return {"k": k, "order": m.order, "ng": [[list(x), p, b] for x, (p, b) in m.ng.items()], "name": name, "classes": classes}
    if k == "ngram":
        return {"k": k, "order": g.weighted([(3, 2), (3, 3), (1, 1), (1, 4), (1, 5)]), "sep": g.weighted([(3, "_"), (1, "|")]),
                "clusters": {w: g.pick(["k1", "k2"]) for w in trg if not g.chance(1, 5)} if g.chance(1, 6) else None}
    if k == "arity":
        return {"k": k, "hi": g.weighted([(2, None), (1, 0), (1, 1), (1, 2)])}
    if k == "lex":
        return {"k": k, "a": [g.draw(2), g.draw(2), g.draw(2)]}
    if k == "wordset":

        return {"k": k, "words": g.subset(trg), "oov": g.flip()}
    if k == "shape":
        return {"k": k if arity <= 2 else "wp"}
    if k == "shape2":
        e = {w: g.pick(["abc", "de", "f"]) for w in trg if not g.chance(1, 4)} if g.flip() else None
        f = {w: g.pick(["abc", "de", "f"]) for w in src if not g.chance(1, 4)} if e is None or g.flip() else None
        return {"k": k, "e": e, "f": f, "p": g.weighted([(2, 0), (1, 1), (1, 2)])}
    if k == "spans":
        cl = {w: g.pick(["K", "L"]) for w in src if not g.chance(1, 4)} if g.chance(1, 2) else None
        vals = None
        if cl and g.chance(1, 2):
            names = []
            for a in ["K", "L", "OOV", "BOS"]:
                for b in ["K", "L", "OOV", "EOS"]:
                    names += ["EBI:%s_%s" % (a, b), "BBI:%s_%s" % (a, b), "S:%s_%s" % (a, b), "S_S:%s_%s" % (a, b), "LS:1_%s_%s" % (a, b)]
                    names += ["BS:" + a, "ES:" + b]
            vals = {n: g.grid(8) for n in g.subset(sorted(set(names)), 1, 4)}
        return {"k": k, "cl": cl, "vals": vals}
    return {"k": k}


def make_ff(d, markers, idx):
    k = d["k"]
    if k == "klm":
        m = lmmod.LM(d["order"], {tuple(x): (p, b) for x, p, b in d["ng"]})
        return F.KLM(m, d["name"], markers, d["classes"] and {w: tuple(v) for w, v in d["classes"].items()}, "lm%d" % idx)
    if k == "ngram":
        return F.Ngrams(d["order"], markers, d["sep"], d["clusters"])
    if k == "arity":
        return F.ArityPenalty(d["hi"])
    if k == "lex":
        return F.Lexical(*d["a"])
    if k == "wordset":
        return F.WordSet(d["words"], oov=d["oov"])
    if k == "shape2":
        return F.RuleShape2(d["e"], d["f"], d["p"])
    if k == "spans":
        return F.Spans(d["cl"], d["vals"])
    return {"wp": F.WordPenalty, "swp": F.SourceWordPenalty, "id": F.RuleIdentity, "sb": F.SourceBigrams, "tb": F.TargetBigrams,
            "nl": F.NonLatin, "shape": F.RuleShape, "cmr": F.CMR}[k]()


STATEFUL = [(6, "klm"), (4, "ngram")]
ANY = STATEFUL + [(1, "wp"), (1, "swp"), (1, "arity"), (1, "id"), (1, "sb"), (1, "tb"), (2, "lex"), (1, "nl"), (1, "wordset"),
                  (1, "shape"), (1, "shape2"), (2, "spans"), (1, "cmr")]


def gen(g):
    nt = "X"
    cats = ["X"] + g.weighted([(3, []), (2, ["Y"]), (1, ["Y", "Z"])])
    vocab = SRC[:g.int(1, 4)]
    src = [g.pick(vocab) for _ in range(g.weighted([(4, 3), (3, 2), (2, 4), (1, 1), (1, 5)]))]
    markers = g.chance(1, 6)
    glue = not markers and not g.chance(1, 4)
    arity = g.weighted([(4, 2), (2, 3)])
    trg = g.weighted([(4, TRG[:3]), (2, TRG), (1, ["A", "é=", "x;y", "中"])])
    rules = gen_grammar(g, cats, src, 1, 7, trg=trg, max_arity=arity)
    for r in rules:
        st = [i for i, x in enumerate(r["s"]) if not isinstance(x, list)]
        tt = [i for i, x in enumerate(r["t"]) if not isinstance(x, int)]
        if st and tt and g.chance(1, 3):
            r["a"] = sorted(set((g.pick(st), g.pick(tt)) for _ in range(g.int(1, 3))))
            r["a"] = [list(x) for x in r["a"]]
    goal = "S" if glue or markers else "X"
    if markers:
        # the rules of the goal category produce the sentence markers
        for _ in range(g.int(1, 2)):
            body = [g.pick(trg)] if g.flip() else []
            r = {"l": "S", "s": [["X"], ["X"]] if g.chance(1, 3) else [["X"]], "t": None, "f": gen_feats(g)}
            mid = body + g.shuffle(range(1, 1 + len(r["s"])))
            shape = g.weighted([(4, "SX"), (1, "ST"), (1, "SB"), (1, "SE"), (1, "SBE")])
            if shape == "SX":
                r["t"] = ["<s>"] + mid + ["</s>"]
                rules.append(r)
                continue
            # ... or those of categories below it
            below = {"ST": ["T"], "SB": ["B"], "SE": ["E"], "SBE": ["B", "E"]}[shape]
            for c in below:
                q = {"l": c, "s": [["X"]], "t": None, "f": gen_feats(g)}
                q["t"] = {"T": ["<s>"] + body + [1, "</s>"], "B": ["<s>"] + body + [1], "E": body + [1, "</s>"]}[c]
                if g.flip() and not body:
                    q["s"].append(g.pick(vocab))
                rules.append(q)
            top = {"l": "S", "s": [[c] for c in below], "t": list(range(1, 1 + len(below))), "f": gen_feats(g)}
            if shape == "SB":
                top["t"] = top["t"] + ([g.pick(trg)] if g.flip() else []) + ["</s>"]
            if shape == "SE":
                top["t"] = ["<s>"] + top["t"]
            rules.append(top)
    npass = g.weighted([(4, 1), (1, 2), (1, 3)])
    passes = []
    used = set()
    for p in range(npass):
        n = g.weighted([(3, 1), (3, 2), (1, 3)])
        if p > 0 and g.chance(1, 4):
            n = 0
        fl = []
        for _ in range(n):
            d = gen_ff(g, trg, src, markers, arity, ANY)
            key = d["k"] + (d.get("name") or "")
            if key not in used and len(used) < 5:
                used.add(key)
                fl.append(d)
        passes.append({"ffs": fl, "neww": p > 0 and (g.chance(2, 3) or not fl), "seed": g.draw(1 << 20)})
    if not passes[0]["ffs"]:
        passes[0]["ffs"] = [{"k": "wp"}] if "wp" not in used else [{"k": "swp"}]
    strat = g.weighted([(4, "full"), (4, "cube_pruning"), (2, "fast_cube_pruning"), (2, "fast_cube_pruning_2")])
    pop = g.weighted([(6, 100000), (1, 1), (1, 2), (1, 5), (1, 20)]) if strat != "full" else 0
    prune = g.weighted([(5, None), (1, "beam"), (1, "density"), (1, "both")])
    return {"src": src, "rules": rules, "glue": glue, "markers": markers, "goal": goal, "passes": passes, "strat": strat, "pop": pop,
            "prune": prune, "alpha": 0.033 + g.draw(40) / 8.0, "density": 1 + g.draw(16) / 4.0, "pass": g.chance(1, 4) and not markers,
            "k": g.weighted([(3, 1000), (2, 10), (1, 3)]), "unique": g.chance(1, 4), "w": gen_weights(g), "grid": not g.chance(1, 6)}


def weights_for(names, base, seed, grid):
    import random
    rnd = random.Random(seed)
    w = dict(base)
    for n in sorted(names):
        if n not in w and rnd.random() < 0.75:
            v = rnd.randint(-8, 8) / 8.0 if grid else round(rnd.uniform(-1, 1), 6)
            if v:
                w[n] = v
    return w


def edges_of(tree, out):
    """The rule applications of a derivation, identified by rule, span and the yields below (exact without merging)."""
    r, i, j, kids = tree
    out.append((id(r), i, j, tuple((k[0]["l"], k[1], k[2]) for k in kids)))
    for k in kids:
        edges_of(k, out)
    return out


def check(case, ctx):
    o = case
    src = o["src"]
    rules = [dict(r, a=[tuple(x) for x in r["a"]]) if r.get("a") else r for r in o["rules"]]
    gs = [(rules, 10)]
    if o["glue"]:
        gs.append((glue_rules(), "glue"))
    if o["pass"]:
        gs.append(([dict(r, a=[(0, 0)]) for r in pass_rules(src, "X", 0)], "pass"))
    ds = Forest(text_lattice(src), gs, o["goal"], cap=1500).all()
    args = ["-f", "scfg", "-g", grammar_file(ctx, "g", rules, False), "-z", "-k", o["k"], "--goal", o["goal"], "-I", o["strat"]]
    if o["strat"] != "full":
        args += ["-K", o["pop"]]
    if o["unique"]:
        args.append("-r")
    if not o["glue"]:
        args.append("-n")
    if o["pass"]:
        args.append("-P")
    scored = [(d, dict(d[1])) for d in ds]
    stateful = False
    idx = 0
    ws = []
    w = None
    stages = []
    for p, ps in enumerate(o["passes"]):
        sfx = "" if p == 0 else str(p + 1)
        if p > 0 and o["strat"] in ("full", "cube_pruning"):
            args += ["--intersection_strategy" + sfx, o["strat"]]
        if p > 0 and o["pop"]:
            args += ["--cubepruning_pop_limit" + sfx, o["pop"]]
        fl = []
        for d in ps["ffs"]:
            f = make_ff(d, o["markers"], idx)
            idx += 1
            spec = f.spec
            for n, text in f.needs.items():
                spec = spec.replace("%" + n + "%", ctx.write("ff_%d_%s" % (idx, n), text))
            args += ["--feature_function" + sfx, spec]
            fl.append(f)
            stateful |= f.stateful
            ctx.count("ff " + d["k"])
        scored = [(d, _more(f, fl, d, src)) for d, f in scored]
        names = set(n for _, f in scored for n in f)
        if p == 0 or ps["neww"]:
            w = weights_for(names, o["w"] if p == 0 else {}, ps["seed"], o["grid"])
            args += ["-w" if p == 0 else "--weights" + sfx, ctx.write("w" + sfx, weights_text(w))]
        stages.append((p, bool(fl), dict(w)))
    last = len(o["passes"]) - 1
    lsfx = "" if last == 0 else str(last + 1)
    prune = o["prune"]
    if prune in ("beam", "both"):
        args += ["--beam_prune" + lsfx, o["alpha"]]
    if prune in ("density", "both"):
        args += ["--density_prune" + lsfx, o["density"]]
    rc, out, err = ctx.run("cdec", args, " ".join(src) + "\n")
    kb = parse_kbest(out).get(0, [])
    if not ds:
        check_that("NO PARSE FOUND" in err and not kb, "a translation was found, the grammar derives none")
        return
    check_that("NO PARSE FOUND" not in err, "no translation found")
    final = [(dot(f, w), d[0], f, d[2]) for d, f in scored]
    best = max(x[0] for x in final)
    complete = o["strat"] == "full" or o["pop"] >= 100000
    if complete:
        for p, has, wp in stages:
            sc = []
            for d in ds:
                f = dict(d[1])
                for q in range(p + 1):
                    f = _more(f, [make_ff(x, o["markers"], 0) for x in o["passes"][q]["ffs"]], d, src)
                sc.append(dot(f, wp))
            m = re.search(r"Pass%d partition\s+log\(Z\): (\S+)" % (p + 1), err)
            check_that(m is not None, "no partition reported\n" + err)
            check_that(near(float(m.group(1)), logsumexp(sc), TOL), lambda: f"pass {p + 1}: log Z {m.group(1)}, sum over derivations {logsumexp(sc)}")
            if has:
                m = re.search(r"Pass%d forest\s+\(paths\): (\S+)" % (p + 1), err)
                check_that(near(float(m.group(1)), len(ds), TOL), lambda: f"pass {p + 1}: {m.group(1)} derivations, the grammar has {len(ds)}")
                m = re.search(r"Pass%d forest\s+Viterbi logp: (\S+)" % (p + 1), err)
                check_that(near(float(m.group(1)), max(sc), TOL), lambda: f"pass {p + 1}: Viterbi score {m.group(1)}, best derivation {max(sc)}")
        if not prune:
            check_kbest(kb, [(y, f, t) for _, y, f, t in final], w, o["k"], o["unique"], ctx)
    if not complete or prune:
        # sound: only derivations of the grammar, each at most once, with their true features and scores
        check_that(kb, "no translation in the output")
        pool = {}
        for s, y, f, _ in final:
            pool.setdefault(y, []).append((s, f))
        prev = None
        for i, (y, f, s) in enumerate(kb):
            check_that(prev is None or s <= prev + TOL * (1 + abs(s)), "k-best list not in descending order")
            prev = s
            c = pool.get(y, [])
            hit = next((j for j, (s2, f2) in enumerate(c) if near(s2, s, TOL) and feq(f, f2)), None)
            check_that(hit is not None, lambda: f"entry {i}: {' '.join(y)} with features {f}, score {s} is not (any more) a derivation of the grammar")
            c.pop(hit)
    if complete and prune:
        check_that(near(kb[0][2], best, TOL), lambda: f"pruning lost the best derivation: {kb[0][2]} left, {best} before")
        m = re.search(r"Pruned\s+Pass%d forest\s+\(paths\): (\S+)" % (last + 1), err)
        kept = float(m.group(1)) if m else len(ds)
        if prune == "beam":
            inside = sum(s >= best - o["alpha"] + 1e-3 for s, _, _, _ in final)
            check_that(kept >= inside - 0.5, lambda: f"beam {o['alpha']}: {kept} derivations left, {inside} lie within the beam")
            if not stateful:
                # an edge survives exactly when some derivation through it lies within the beam
                mm = {}
                es = [edges_of(t, []) for _, _, _, t in final]
                for (s, _, _, _), e in zip(final, es):
                    for x in e:
                        mm[x] = max(mm.get(x, -1e9), s)
                if all(abs(v - (best - o["alpha"])) > 1e-3 for v in mm.values()):
                    want = sum(all(mm[x] > best - o["alpha"] for x in e) for e in es)
                    check_that(near(kept, want, TOL), lambda: f"beam {o['alpha']}: {kept} derivations left, {want} have every rule within the beam")
                    ctx.count("exact beam check")
    ctx.count(o["strat"] if complete else o["strat"] + " limited")
    ctx.count("prune %s" % prune)
    ctx.count("passes %d" % len(o["passes"]))
    if len(ds) > 1:
        ctx.nontrivial()
    if stateful and len(ds) > 1:
        ctx.count("nontrivial stateful")


def _more(f, fl, d, src):
    if not fl:
        return f
    f = F.tree_feats(fl, d[2], src, dict(f))
    for ff in fl:
        for k, v in ff.final(d[0]).items():
            f[k] = f.get(k, 0.0) + v
    return f


if __name__ == "__main__":
    run_check("D03", "Random grammars, inputs and weights with 1-3 rescoring passes of random feature functions (n-gram models of order "
              "1-5 with or without word classes and explicit sentence markers, n-gram, rule, span, lexical, shape and penalty "
              "features), search strategy, pop limit, beam and density pruning; features recomputed from the definition on every "
              "enumerated derivation. Non-trivial: at least two derivations.",
              py=[Suite("features", gen, check)], programs=["cdec"], quick=50, thorough=900)
