"""D11: forests written to disk can be merged and rescored; passes compose."""
import collections
import math
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
from scfg import *  # noqa
from D01 import TOL, check_kbest, feq, parse_kbest
from D10 import base_args, edge_key, gen_case, model, node_key, nodes_of

ALL = 100000


def gen(g):
    c = gen_case(g)
    # what the second run sees: other weights, some rules less, some more, some with other features
    second = [dict(r) for r in c["rules"] if not g.chance(1, 4)]
    for r in second:
        if g.chance(1, 6):
            r["f"] = gen_feats(g)
    seen = {rule_text(dict(r, f={})) for r in second}
    for r in gen_grammar(g, sorted({r["l"] for r in c["rules"] if r["l"] != "S"}) or ["X"], c["src"], 0, 3, cover=2):
        k = rule_text(dict(r, f={}))
        if k not in seen:
            seen.add(k)
            second.append(r)
    # keep the features of equal rules apart by more than what counts as equal
    c["second"] = second
    c["runs"] = g.weighted([(3, 2), (1, 1), (1, 3)])
    c["w2"] = gen_weights(g)
    c["w3"] = dict(gen_weights(g), WordPenalty=g.grid(16))
    c["id"] = g.weighted([(2, 0), (1, 12)])
    c["wp"] = g.flip()
    c["ref"] = g.weighted([(4, -1), (1, g.draw(1000))])
    c["passes"] = g.flip()
    c["swap"] = g.flip()
    return c


def key(t):
    """An edge as the union tells it from others."""
    return edge_key(t) + (tuple(sorted((k, round(v, 6)) for k, v in clean(t[0]["f"]).items())),)


def wp(ds):
    return [(y, dict(f, WordPenalty=-len(y) / math.log(10)), t) for y, f, t in ds]


def check(c, ctx):
    d = ctx.path("hg")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%d.bin.gz" % c["id"])
    if os.path.exists(path):
        os.remove(path)
    runs = [c, dict(c, rules=c["second"], w=c["w2"])] if not c["swap"] else [dict(c, rules=c["second"], w=c["w2"]), c]
    runs = (runs + runs)[:c["runs"]]
    inp = '<seg id="%d"> %s </seg>\n' % (c["id"], " ".join(c["src"]))
    edges, lists = set(), []
    for i, r in enumerate(runs):
        ds = model(r)
        if not ds:
            raise Discard("no derivation")
        if c["ref"] >= 0:
            y = model(runs[0])[c["ref"] % len(model(runs[0]))][0]
            ds = [x for x in ds if x[0] == y]
            if not y or not ds:
                raise Discard("reference out of reach")
            inp = '<seg id="%d"> %s ||| %s </seg>\n' % (c["id"], " ".join(c["src"]), " ".join(y))
        lists.append(ds)
    if c["ref"] >= 0 and len(runs) > 1 and runs[0] is not runs[1]:
        runs, lists = runs[:1], lists[:1]
    for i, r in enumerate(runs):
        ctx.run("cdec", base_args(r, ctx, "g%d" % i) + ["-O", d], inp)
        check_that(os.path.exists(path), f"run {i} did not write {path}")
        for x in lists[i]:
            edges.update(key(t) for t in nodes_of(x[2]))
    if len(runs) == 1:
        want = lists[0]
    else:
        # all derivations made of the parts of the forests, which are derivations of both grammars together
        rules, seen = [], set()
        for r in runs:
            for x in r["rules"]:
                k = rule_text(dict(x, f={})) + repr(sorted((k, round(v, 6)) for k, v in clean(x["f"]).items()))
                if k not in seen:
                    seen.add(k)
                    rules.append(x)
        want = [x for x in model(c, rules) if all(key(t) in edges for t in nodes_of(x[2]))]
        if len(want) > max(len(x) for x in lists):
            ctx.count("union larger than its parts")
            ctx.nontrivial()
    args = ["-f", "rescore", "-k", ALL, "-w", ctx.write("w3", weights_text(c["w3"])), "-z"]
    if c["ref"] >= 0:  # a constrained forest has the source on its target side
        want = [(tuple(c["src"]), f, t) for _, f, t in want]
    elif c["wp"]:
        args += ["-F", "WordPenalty"]
        want = wp(want)
    rc, out, err = ctx.run("cdec", args, "::forest:: %s\n" % path)
    m = re.search(r"Init\. forest\s+\(paths\): (\S+)", err)
    check_that(m and near(float(m.group(1)), len(want), TOL), lambda: f"the forest read back has {m and m.group(1)} derivations, {len(want)} expected from {[len(x) for x in lists]}")
    check_kbest(parse_kbest(out).get(0, []), want, c["w3"], ALL, False, ctx)
    if len(want) > 1:
        ctx.nontrivial()
    ctx.count("runs %d" % len(runs))
    if c["ref"] >= 0:
        ctx.count("constrained")


def gen_passes(g):
    c = gen_case(g)
    c["ws"] = [dict(gen_weights(g), WordPenalty=g.grid(16), SourceWordPenalty=g.grid(8), Arity_0=g.grid(8), Arity_1=g.grid(8), Arity_2=g.grid(8)) for _ in range(g.int(1, 2))]
    c["ffs"] = [g.subset(["WordPenalty", "SourceWordPenalty", "ArityPenalty"]) for _ in range(3)]
    used = set()
    for f in c["ffs"]:  # every function once
        f[:] = [x for x in f if x not in used]
        used.update(f)
    c["n"] = g.int(1, 3)
    c["skip"] = [g.chance(1, 4) for _ in range(3)]
    c["full"] = g.flip()
    return c


def check_passes(c, ctx):
    ds = model(c)
    if not ds:
        raise Discard("no derivation")
    args = base_args(c, ctx) + ["-k", ALL, "-z"]
    w, new, parts = c["w"], ds, []
    used = 0
    for p in range(c["n"]):
        suf = "" if p == 0 else str(p + 1)
        ffs = list(c["ffs"][p])
        has_w = p > 0 and p - 1 < len(c["ws"]) and not (c["skip"][p] and ffs)
        if not ffs and not has_w:
            if p == 0:
                ffs = ["WordPenalty"]
                for other in c["ffs"][1:]:
                    if "WordPenalty" in other:
                        other.remove("WordPenalty")
            else:
                break
        for f in ffs:
            args += ["-F" if p == 0 else "--feature_function" + suf, f]
        if has_w:
            w = c["ws"][p - 1]
            args += ["--weights" + suf, ctx.write("w" + suf, weights_text(w))]
        if c["full"]:
            args += ["--intersection_strategy" + suf, "full"]
        for f in ffs:
            out = []
            for y, fv, t in new:
                fv = dict(fv)
                if f == "WordPenalty":
                    fv["WordPenalty"] = -len(y) / math.log(10)
                elif f == "SourceWordPenalty":
                    fv["SourceWordPenalty"] = -sum(sum(isinstance(x, str) for x in n[0]["s"]) for n in nodes_of(t)) / math.log(10)
                else:
                    for n in nodes_of(t):
                        k = "Arity_%d" % len(n[3])
                        fv[k] = fv.get(k, 0) + 1
                out.append((y, fv, t))
            new = out
        parts.append(logsumexp([dot(f, w) for _, f, _ in new]))
        used += 1
    rc, out, err = ctx.run("cdec", args, " ".join(c["src"]) + "\n")
    m = re.findall(r"Pass(\d)\s+partition\s+log\(Z\): (\S+)", err)
    check_that(len(m) == used, lambda: f"{len(m)} passes of {used}\n{err}")
    for i, (k, z) in enumerate(m):
        check_that(int(k) == i + 1 and near(float(z), parts[i], TOL), lambda: f"log Z after pass {i + 1} is given as {z}, it is {parts[i]}")
    check_kbest(parse_kbest(out).get(0, []), new, w, ALL, False, ctx)
    ctx.count("passes %d" % used)
    if len(ds) > 1:
        ctx.nontrivial()


if __name__ == "__main__":
    run_check("D11", "Small random grammars; forests of one to three runs with different rules, features and weights merged on disk and rescored, "
              "against the derivations composed of their edges; one to three passes with features and weights of their own. Non-trivial: at least two derivations.",
              py=[Suite("disk", gen, check, 2), Suite("passes", gen_passes, check_passes)], programs=["cdec"], quick=25, thorough=500)
