"""D02: word lattices."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *  # noqa
from scfg import *  # noqa
from D01 import check_kbest, parse_kbest, feq, TOL, grammar_file, pass_rules

WORDS = ["a", "b", "c", "d"]
ODD = ["a", "it's", "back\\slash", "x,y", "(p)", "été", "'"]


def span(g, lat):
    """A span limit; what it means for spans with paths of different lengths is not specified."""
    if any(a[2] > 1 for x in lat for a in x):
        return 30
    return g.weighted([(4, 10), (1, 1), (1, 2), (1, 3), (1, 5)])


def gen(g):
    cats = ["X"] + g.weighted([(5, []), (3, ["Y"]), (2, ["Y", "Z"])])
    odd = g.chance(1, 5)
    vocab = (ODD if odd else WORDS)[:g.int(1, 6)]
    n = g.weighted([(3, 3), (2, 2), (3, 4), (2, 5), (1, 1), (1, 6)])
    fmt = g.weighted([(5, "dense1"), (2, "dense2"), (1, "dense0"), (3, "sparse")])
    lat = []
    for i in range(n):
        arcs = []
        for _ in range(g.weighted([(3, 1), (4, 2), (2, 3)])):
            jump = g.weighted([(5, 1), (2, 2), (1, 3)])
            jump = min(jump, n - i)
            if fmt == "dense1":
                f = {"LatticeCost_0": g.grid(16)}
            elif fmt == "dense2":
                f = {"LatticeCost_0": g.grid(16), "LatticeCost_1": g.grid(8)}
            elif fmt == "dense0":
                f = {}
            else:
                f = {g.pick(["LatticeCost", "lf", "f"]): g.grid(16) for _ in range(g.int(0, 2))}
            arcs.append([g.pick(vocab), f, jump])
        lat.append(arcs)
    eps = g.chance(1, 5)
    if eps:
        i = g.draw(n)
        lat[i][g.draw(len(lat[i]))][0] = EPS
    words = [a[0] for x in lat for a in x if a[0] != EPS]
    return {"lat": lat, "fmt": fmt, "eps": eps, "glue": not g.chance(1, 6), "pass": g.chance(1, 4), "spaces": g.flip(),
            "grammar": gen_grammar(g, cats, words, 0, 8, src=vocab), "k": g.weighted([(3, 50), (2, 5), (2, 1000)]),
            "w": gen_weights(g, ["LatticeCost", "LatticeCost_0", "LatticeCost_1", "lf"]), "unique": g.chance(1, 4),
            "span": span(g, lat)}


def gen_large(g):
    cats = ["X"] + g.weighted([(5, []), (3, ["Y"]), (2, ["Y", "Z"])])
    n = g.int(3, g.pick([8, 12, 15]))
    vocab = ["w%d" % i for i in range(g.pick([3, 8, 30]))]
    lat = []
    for i in range(n):
        lat.append([[g.pick(vocab), {g.pick(["LatticeCost", "lf", "f"]): g.grid(16) for _ in range(g.int(0, 2))}, min(g.weighted([(5, 1), (3, 2), (1, 3), (1, 6)]), n - i)]
                    for _ in range(g.weighted([(4, 1), (3, 2), (2, 3), (1, 5)]))])
    words = [a[0] for x in lat for a in x]
    rules = gen_grammar(g, cats, words, 0, 15, src=words, cover=8 if g.flip() else 7)
    for _ in range(g.int(0, 8)):
        # a phrase along a path
        i, s = g.draw(n), []
        while i < n and len(s) < 5 and not (s and g.chance(1, 3)):
            a = g.pick(lat[i])
            s.append(a[0])
            i += a[2]
        if len(s) > 2 and g.flip():
            s[g.draw(len(s))] = [g.pick(cats)]
        t = [g.pick(TRG)] + ([1] if any(isinstance(x, list) for x in s) else [])
        rules.append({"l": g.pick(cats), "s": s, "t": t, "f": gen_feats(g)})
    return {"lat": lat, "fmt": "sparse", "glue": not g.chance(1, 4), "pass": g.chance(1, 4), "spaces": g.flip(), "grammar": rules,
            "k": 1, "unique": False, "w": gen_weights(g, ["LatticeCost", "lf"]), "span": span(g, lat)}


def check_large(case, ctx):
    w, lat = case["w"], case["lat"]
    args, gs, goal, dist = setup(case, ctx)
    want = Sums(lat, gs, w, goal, dist=dist).derivs(goal, 0, len(lat))
    text = plf(case)
    rc, out, err = ctx.run("cdec", args, text + "\n")
    if not want:
        check_that("NO PARSE FOUND" in err, lambda: f"{text}\na translation was found, the grammar derives none")
        return
    cnt, z, best = want
    check_that("NO PARSE FOUND" not in err, lambda: f"{text}\nno translation found, the grammar has {cnt} derivations")
    m = re.search(r"Init\. forest\s+\(paths\): (\S+)", err)
    check_that(m and near(float(m.group(1)), cnt, TOL), lambda: f"{text}\nthe forest has {m and m.group(1)} derivations, the grammar {cnt}")
    m = re.search(r"Partition\s+log\(Z\): (\S+)", err)
    check_that(m and near(float(m.group(1)), z, TOL), lambda: f"{text}\nlog Z {m and m.group(1)}, sum over derivations {z}")
    kb = parse_kbest(out).get(0, [])
    check_that(len(kb) == 1 and near(kb[0][2], best, TOL) and near(dot(kb[0][1], w), best, 4 * TOL), lambda: f"{text}\nbest derivation {kb}, it scores {best}")
    if cnt > 20:
        ctx.nontrivial()
    ctx.count("large derivations<=%d" % next(x for x in (1, 100, 10000, 10 ** 8, 10 ** 99) if cnt <= x))


def quote(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"


def plf(case):
    sp = " " if case["spaces"] else ""
    nodes = []
    for x in case["lat"]:
        arcs = []
        for label, f, jump in x:
            if case["fmt"] == "sparse":
                mid = "{" + ("," + sp).join("%s:%s%s" % (quote(k), sp, num(v)) for k, v in f.items()) + "}," + sp
            else:
                mid = "".join(num(v) + "," + sp for _, v in sorted(f.items()))
            arcs.append("(%s,%s%s%d)" % (quote(label), sp, mid, jump))
        nodes.append("(" + ("," + sp).join(arcs) + ("," if sp or len(arcs) == 1 else "") + ")")
    return "(" + ("," + sp).join(nodes) + ("," if len(nodes) % 2 else "") + ")"


def setup(case, ctx):
    """Arguments, grammars with their span limits, goal category, lengths of spans."""
    lat = case["lat"]
    d = distances(lat)
    gs = [(case["grammar"], case["span"])]
    if case["glue"]:
        gs.append((glue_rules(), "glue"))
    if case["pass"]:
        labels = [a[0] for x in lat for a in x]
        gs.append((pass_rules([x for x in labels if x != EPS], "X", 0), "pass"))
    goal = "S" if case["glue"] else "X"
    args = ["-f", "scfg", "-w", ctx.write("w", weights_text(case["w"])), "-g", grammar_file(ctx, "g", case["grammar"], False), "-z",
            "-S", case["span"], "-k", case["k"], "--goal", goal]
    if case["unique"]:
        args.append("-r")
    if not case["glue"]:
        args.append("-n")
    if case["pass"]:
        args.append("-P")
    return args, gs, goal, lambda i, j: d[i][j]


def check(case, ctx):
    w, lat = case["w"], case["lat"]
    args, gs, goal, dist = setup(case, ctx)
    ds = Forest(lat, gs, goal, dist=dist).all()
    text = plf(case)
    rc, out, err = ctx.run("cdec", args, text + "\n")
    kb = parse_kbest(out).get(0, [])
    if not ds:
        ctx.count("no parse")
        check_that("NO PARSE FOUND" in err and not kb, lambda: f"{text}\na translation was found, the grammar derives none: {kb[:1]}")
        return
    ctx.count("parsed")
    check_that("NO PARSE FOUND" not in err, lambda: f"{text}\nno translation found, the grammar has {len(ds)} derivations, e.g. {ds[0][:2]}")
    sc = [dot(f, w) for _, f, _ in ds]
    m = re.search(r"Init\. forest\s+Viterbi logp: (\S+)", err)
    check_that(m and near(float(m.group(1)), max(sc), TOL), lambda: f"{text}\nViterbi score {m and m.group(1)}, best derivation {max(sc)}")
    if case["eps"]:
        # how often an empty arc is counted is not specified: compare supports
        ctx.count("empty arc")
        have = {}
        for (y, f, _), s in zip(ds, sc):
            have.setdefault(y, []).append((f, s))
        for y, f, s in kb:
            check_that(any(near(s, s2, TOL) and feq(f, f2) for f2, s2 in have.get(y, [])), lambda: f"{text}\n{' '.join(y)} {f} {s} is not a translation of the lattice")
        if case["unique"]:
            check_that(len(kb) == min(case["k"], len(have)), lambda: f"{text}\n{len(kb)} distinct translations, {len(have)} expected")
            check_that(near(kb[0][2], max(sc), TOL), "best entry")
    else:
        m = re.search(r"Init\. forest\s+\(paths\): (\S+)", err)
        check_that(near(float(m.group(1)), len(ds), TOL), lambda: f"{text}\nthe forest has {m.group(1)} derivations, the grammar {len(ds)}")
        m = re.search(r"Partition\s+log\(Z\): (\S+)", err)
        check_that(near(float(m.group(1)), logsumexp(sc), TOL), lambda: f"{text}\nlog Z {m.group(1)}, sum over derivations {logsumexp(sc)}")
        check_kbest(kb, ds, w, case["k"], case["unique"], ctx)
    jumps = any(a[2] > 1 for x in lat for a in x)
    branch = any(len(x) > 1 for x in lat)
    ctx.count("jumps" if jumps else "no jumps")
    if branch and len(ds) > 1:
        ctx.nontrivial()
        if jumps:
            ctx.count("nontrivial with jumps")


if __name__ == "__main__":
    run_check("D02", "Random lattices (1-6 nodes, up to 3 arcs a node, jumps up to 3, dense or sparse arc scores, quoting, empty "
              "arcs) in Python lattice format with random grammars; every (path, derivation) pair is enumerated by a reference "
              "model. Non-trivial: a node has several arcs and there are at least two derivations.",
              py=[Suite("lattice", gen, check, 3), Suite("large", gen_large, check_large, 1)], programs=["cdec"], quick=40, thorough=900)
