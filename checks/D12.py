"""D12: pruning the forest removes exactly what its options say; coarse-to-fine parsing finds the refinements of what is left."""
import collections
import math
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
from scfg import *  # noqa
from D01 import TOL, check_kbest, feq, parse_kbest
from D02 import plf
from D10 import base_args, canon, edge_key, gen_case, model, nodes_of, shape

ALL = 100000


def gen_prune(g):
    c = gen_case(g)
    c["beam"] = g.pick([0.25, 0.5, 1, 2, 3, 5, 8]) if g.chance(2, 3) else 0
    c["density"] = g.pick([1, 1.25, 1.5, 2, 3, 5]) if not c["beam"] or g.chance(1, 4) else 0
    c["scale"] = g.chance(1, 4)
    c["pass"] = g.weighted([(3, 1), (1, 2)])
    c["w2"] = dict(gen_weights(g), WordPenalty=g.grid(16))
    c["wp"] = g.chance(1, 3)
    return c


def margins(ds, w):
    """Best score of a derivation through every edge."""
    mm = {}
    for y, f, t in ds:
        s = dot(f, w)
        for n in nodes_of(t):
            k = edge_key(n) + (id(n[0]),)
            mm[k] = max(s, mm.get(k, -1e300))
    return mm


def keys(t):
    return [edge_key(n) + (id(n[0]),) for n in nodes_of(t)]


def check_prune(c, ctx):
    ds = model(c)
    if not ds:
        raise Discard("no derivation")
    suf, w = "", c["w"]
    args = base_args(c, ctx) + ["-k", ALL]
    if c["wp"] or c["pass"] == 2:
        args += ["-F", "WordPenalty"]
        ds = [(y, dict(f, WordPenalty=-len(y) / math.log(10)), t) for y, f, t in ds]
    if c["pass"] == 2:
        suf, w = "2", c["w2"]
        args += ["--weights2", ctx.write("w2", weights_text(w))]
    beam = c["beam"] * (len(c["src"]) if c["scale"] else 1)
    if c["beam"]:
        args += ["--beam_prune" + suf, c["beam"]]
    if c["density"]:
        args += ["--density_prune" + suf, c["density"]]
    if c["scale"]:
        args.append("--scale_prune_srclen")
    rc, out, err = ctx.run("cdec", args, " ".join(c["src"]) + "\n")
    got = parse_kbest(out).get(0, [])
    mm = margins(ds, w)
    top = max(mm.values())
    eps = 1e-4 * (1 + abs(top))
    if not c["density"]:
        if any(abs(top - v - beam) < eps for v in mm.values()):
            ctx.count("on the border")
            lo = [d for d in ds if all(mm[k] >= top - beam + eps for k in keys(d[2]))]
            check_that(len(got) >= len(lo), lambda: f"{len(got)} derivations are left, at least {len(lo)} are within {beam} of the best")
            return
        want = [d for d in ds if all(mm[k] >= top - beam for k in keys(d[2]))]
        check_kbest(got, want, w, ALL, False, ctx)
        ctx.count("beam")
        if len(want) < len(ds):
            ctx.nontrivial()
        return
    # density: what is kept is better than what is not, and about as much as asked for
    best = max(dot(d[1], w) for d in ds)
    lens = {len(keys(d[2])) + 1 for d in ds if dot(d[1], w) >= best - eps}
    check_that(got and near(got[0][2], best, TOL), lambda: f"the best derivation scores {best}, after pruning {got[0][2] if got else None}")
    vals = sorted(mm.values(), reverse=True)
    # candidates for the threshold: the derivations left are those above one of the values
    sizes = {}
    for v in sorted(set(round(x, 6) for x in vals)):
        n = sum(all(mm[k] >= v - eps for k in keys(d[2])) for d in ds)
        sizes.setdefault(n, []).append(v)
    check_that(len(got) in sizes, lambda: f"{len(got)} derivations are left; cutting by the score of edges leaves {sorted(sizes)}")
    want = [d for d in ds if all(mm[k] >= min(sizes[len(got)]) - eps for k in keys(d[2]))]
    check_kbest(got, want, w, ALL, False, ctx)
    kept = len({k for d in want for k in keys(d[2])}) + 1
    total = len(mm) + 1
    if c["beam"]:
        ctx.count("beam and density")
        tight = [d for d in ds if all(mm[k] >= top - beam - eps for k in keys(d[2]))]
        check_that(len(want) <= len(tight), lambda: f"{len(want)} derivations are left, {len(tight)} are within {beam} of the best")
    else:
        ctx.count("density")
        lo = min(min(int(c["density"] * n), total) for n in lens)
        check_that(kept >= min(lo, total), lambda: f"{kept} of {total} edges are left, {lo} may be kept")
        hi = max(min(int(c["density"] * n), total) for n in lens) + 1
        # ties at the border are kept together; the top edge counts as one with the best score
        svals = sorted(list(mm.values()) + [top], reverse=True)
        if hi < total:
            hi = sum(v >= svals[hi - 1] - eps for v in svals)
        check_that(kept <= hi, lambda: f"{kept} of {total} edges are left, {hi} are asked for")
    if len(want) < len(ds):
        ctx.nontrivial()


# ---------------------------------------------------------------- coarse to fine

def gen_ctf(g):
    coarse = g.pick([["X"], ["X", "Y"]])
    depth = g.weighted([(3, 1), (1, 2)])
    vocab = SRC[:g.int(1, 3)]
    src = [g.pick(vocab) for _ in range(g.int(1, 4))]
    rules = gen_grammar(g, coarse, src, 0, 4)
    fine = {x: [x, x + "1", x + "2"][:g.int(1, 3)] for x in coarse + ["S"]}
    fine["S"] = ["S"]
    glue = g.chance(1, 2)
    if not glue:
        rules.append({"l": "S", "s": [["X"]], "t": [1], "f": gen_feats(g)})
        if g.flip():
            rules.append({"l": "S", "s": [["S"], ["X"]], "t": [1, 2], "f": gen_feats(g)})
    if not rules:
        rules.append({"l": "X", "s": [src[0]], "t": ["a"], "f": gen_feats(g)})

    def refine(r, lev):
        subs = []
        for _ in range(g.weighted([(4, 1), (3, 2), (1, 0), (1, 3)]) if lev == 0 or g.flip() else 1):
            x = {"l": g.pick(fine[r["base"][0]]), "s": [], "t": list(r["t"]), "f": gen_feats(g), "base": r["base"]}
            i = 1
            for y in r["s"]:
                if isinstance(y, list):
                    x["s"].append([g.pick(fine[r["base"][i]])])
                    i += 1
                else:
                    x["s"].append(y)
            x["sub"] = refine(x, lev + 1) if lev + 1 < depth else []
            subs.append(x)
        return subs
    for r in rules:
        r["base"] = [r["l"]] + [y[0] for y in r["s"] if isinstance(y, list)]
        r["sub"] = refine(r, 0)
    if not any(len(_levels(r)) == depth for r in rules):
        rules[0]["sub"] = [{"l": rules[0]["l"], "s": rules[0]["s"], "t": rules[0]["t"], "f": {}, "base": rules[0]["base"], "sub": []}]
        depth = max(len(_levels(r)) for r in rules)
    lat, fmt = None, g.pick(["dense1", "dense2", "sparse"])
    if g.chance(1, 4):
        # a lattice with the source as one of its paths
        lat = []
        for i, x in enumerate(src):
            arcs = []
            for j in range(g.weighted([(3, 1), (3, 2), (1, 3)])):
                f = {"LatticeCost_0": g.grid(16)} if fmt == "dense1" else {"LatticeCost_0": g.grid(16), "LatticeCost_1": g.grid(8)} if fmt == "dense2" else \
                    {g.pick(["LatticeCost", "lf", "f"]): g.grid(16) for _ in range(g.int(0, 2))}
                arcs.append([g.pick(vocab) if j else x, f, min(g.weighted([(5, 1), (2, 2)]), len(src) - i) if j else 1])
            lat.append(arcs)
    return {"rules": rules, "src": src, "w": gen_weights(g, ["LatticeCost", "LatticeCost_0", "LatticeCost_1", "lf"] if lat else []), "glue": glue, "lat": lat, "fmt": fmt, "spaces": g.flip(), "depth": depth, "alpha": g.pick([0.25, 0.5, 1, 2, 4, 8, 1000]),
            "widen": g.pick([2.0, 1.5, 3.0]), "times": g.pick([2, 0, 1, 4]), "exh": not g.chance(1, 3), "pass": g.chance(1, 4), "tab": g.flip()}


def _levels(r):
    return [0] + max((_levels(s) for s in r["sub"]), key=len) if r["sub"] else []


def nts(r):
    return [y[0] for y in r["s"] if isinstance(y, list)]


def same_chain(r, n):
    """A rule refined by itself n times, like the glue rules."""
    out = dict(r)
    out["sub"] = [same_chain(r, n - 1)] if n else []
    return out


class LatticeForest(Forest):
    """Rules in derivations carry the features of the arcs they match."""

    def build(self, r, kids, lf, i, j):
        y, f, t = Forest.build(self, r, kids, lf, i, j)
        return y, f, (on_arcs(r, lf), i, j, t[3])


MEMO = {}


def on_arcs(r, lf):
    lf = {k: v for k, v in lf.items() if v}
    if not lf:
        return r
    k = (id(r), tuple(sorted(lf.items())))
    if k not in MEMO:
        # the rule is kept along, so that its id stays its own
        MEMO[k] = (dict(r, f=add(r["f"], lf), lf=lf), r)
    return MEMO[k][0]


def refine_trees(trees):
    """All refinements of coarse trees by one level; trees share their nodes by identity of content."""
    memo = {}

    def go(t):
        k = id(t)
        if k not in memo:
            r, i, j, kids = t
            res = []
            ks = [go(x) for x in kids]
            for s in r["sub"]:
                combos = [()]
                for want, opts in zip(nts(s), ks):
                    combos = [a + (o,) for a in combos for o in opts if o[0]["l"] == want]
                    if len(combos) > 2000:
                        raise Discard("too many derivations")
                res += [(on_arcs(s, r.get("lf", {})), i, j, x) for x in combos]
            memo[k] = res
        return memo[k]
    out = []
    for t in trees:
        out += go(t)
        if len(out) > 2000:
            raise Discard("too many derivations")
    return out


def yield_feats(t):
    r, i, j, kids = t
    ks = [yield_feats(x) for x in kids]
    y, f = [], dict(r["f"])
    for x in r["t"]:
        if isinstance(x, int):
            y += ks[x - 1][0]
        else:
            y.append(x)
    for k in ks:
        f = add(f, k[1])
    return tuple(y), f


def ekeys(t):
    return [(id(n[0]), n[1], n[2], tuple((k[0]["l"], k[1], k[2], id_class(k)) for k in n[3])) for n in nodes_of(t)]


def id_class(t):
    return None


def ctf_text(rules, ind="", tab=False):
    out = ""
    for r in rules:
        out += ind + rule_text({k: r[k] for k in "lstf"}) + "\n"
        out += ctf_text(r["sub"], ind + ("\t" if tab else " "), tab)
    return out


def check_ctf(c, ctx):
    MEMO.clear()
    rules = c["rules"]
    w = c["w"]
    depth = max([len(_levels(r)) for r in rules] + [0])
    if depth == 0:
        raise Discard("no refinement")
    if any(len(_levels(r)) < 1 for r in rules) or depth == 2:
        # a coarse rule without any refinement is an error the decoder reports
        def full(r, d):
            return d == 0 or (r["sub"] and all(full(s, d - 1) for s in r["sub"]))
        if not all(full(r, depth) for r in rules):
            raise Discard("refinements missing")
    args = ["-f", "scfg", "-g", ctx.write("g", ctf_text(rules, "", c["tab"])), "-w", ctx.write("w", weights_text(w)), "-k", ALL,
            "--coarse_to_fine_beam_prune", c["alpha"], "--ctf_beam_widen", c["widen"], "--ctf_num_widenings", c["times"]]
    gs = [(rules, 10)]
    if not c["exh"]:
        args.append("--ctf_no_exhaustive")
    if c["glue"]:
        gs.append(([same_chain(r, depth) for r in glue_rules()], "glue"))
    else:
        args.append("-n")
    if c["pass"]:
        args.append("-P")
        gs.append(([same_chain({"l": "X", "s": [x], "t": [x], "f": {"PassThrough": 1.0}}, depth) for x in dict.fromkeys(c["src"] + [a[0] for y in c["lat"] or [] for a in y])], "pass"))
    if c["lat"]:
        d = distances(c["lat"])
        coarse = [t for _, _, t in LatticeForest(c["lat"], gs, cap=400, dist=lambda i, j: d[i][j]).all()]
        ctx.count("lattice")
    else:
        coarse = [t for _, _, t in Forest(text_lattice(c["src"]), gs, cap=400).all()]
    rc, out, err = ctx.run("cdec", args, (plf(c) if c["lat"] else " ".join(c["src"])) + "\n")
    got = parse_kbest(out).get(0, [])
    if not coarse:
        check_that("NO PARSE FOUND" in err and not got, "a translation was found, the coarse grammar derives none")
        return

    def prune(trees, alpha):
        """The trees whose edges all are within the beam; None if one is on the border."""
        sc = [dot(yield_feats(t)[1], w) for t in trees]
        top = max(sc)
        mm = {}
        for s, t in zip(sc, trees):
            for k in ekeys(t):
                mm[k] = max(s, mm.get(k, -1e300))
        if any(abs(top - v - alpha) < 1e-4 * (1 + abs(top)) for v in mm.values()):
            return None
        return [t for t in trees if all(mm[k] >= top - alpha for k in ekeys(t))]
    alpha, want, tried = c["alpha"], None, 0
    for _ in range(c["times"] + 1):
        trees = coarse
        tried += 1
        for lev in range(depth):
            trees = prune(trees, alpha)
            if trees is None:
                raise Discard("on the border of the beam")
            trees = refine_trees(trees)
            if not trees:
                break
        if trees:
            want = trees
            break
        alpha *= c["widen"]
    if want is None:
        ctx.count("no parse in the beams")
        if c["exh"]:
            trees = coarse
            for lev in range(depth):
                trees = refine_trees(trees)
                if not trees:
                    break
            want = trees
    check_that(err.count("Coarse-to-fine source parse") == tried, lambda: f"{err.count('Coarse-to-fine source parse')} beams were tried, expected {tried}")
    if not want:
        check_that("NO PARSE FOUND" in err and not got, "a translation was found, the refined grammar derives none")
        ctx.count("no parse")
        return
    ds = []
    for t in want:
        y, f = yield_feats(t)
        ds.append((y, f, t))
    check_that("NO PARSE FOUND" not in err, lambda: f"no translation found, there are {len(ds)} refined derivations, e.g. {ds[0][:2]}")
    check_kbest(got, ds, w, ALL, False, ctx)
    ctx.count("levels %d" % depth)
    ctx.count("beams %d" % tried)
    if len(ds) > 1 or tried > 1:
        ctx.nontrivial()


if __name__ == "__main__":
    run_check("D12", "Small random grammars, beams, densities and refinements of one or two levels, against the list of all derivations. "
              "Non-trivial: something is pruned (prune), more than one derivation or beam (ctf).",
              py=[Suite("prune", gen_prune, check_prune), Suite("ctf", gen_ctf, check_ctf)], programs=["cdec"], quick=25, thorough=500)
