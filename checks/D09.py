"""D09: tree-to-string translation covers the input tree with rule fragments in every possible way."""
import itertools
import math
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *  # noqa
from scfg import *  # noqa
from D01 import check_kbest, parse_kbest, TOL
from D04 import judge

LABELS = ["S", "NP", "VP", "X"]
WORDS = ["a", "b", "c", "NP", "d-e"]  # a word may look like a label
TRG = ["A", "B", "C"]
# a tree is [label, child, ...], a child a word, a tree or (in rules) {"v": label}


def gen_tree(g, labels, words, depth, wide):
    t = [g.pick(labels)]
    for _ in range(g.weighted([(3, 1), (4, 2), (1, 3)] + ([(1, 3), (1, 4)] if wide else []))):
        if depth > 0 and g.chance(3, 5):
            t.append(gen_tree(g, labels, words, depth - 1, wide))
        else:
            t.append(g.pick(words))
    if wide is not None and g.chance(1, 40):
        del t[1:]
    return t


def nodes(t):
    yield t
    for c in t[1:]:
        if isinstance(c, list):
            yield from nodes(c)


def size(t):
    return 1 + sum(size(c) if isinstance(c, list) else 1 for c in t[1:])


def cut(g, t, depth):
    r = [t[0]]
    for c in t[1:]:
        if isinstance(c, list):
            r.append(cut(g, c, depth - 1) if depth > 0 and g.chance(2, 5) else {"v": c[0]})
        else:
            r.append(c)
    return r


def perturb(g, t, labels, words):
    n = g.pick(list(nodes(t)))
    if len(n) < 2 or g.chance(1, 6):
        n[0] = g.pick(labels)
        return
    i = g.int(1, len(n) - 1)
    m = g.draw(4)
    if m == 0:
        n[i] = g.pick(words)
    elif m == 1:
        n[i] = {"v": g.pick(labels)}
    elif m == 2:
        del n[i]
    else:
        n.insert(i, g.pick(words) if g.flip() else {"v": g.pick(labels)})


def fronts(t):
    for c in t[1:]:
        if isinstance(c, dict):
            yield c["v"]
        elif isinstance(c, list):
            yield from fronts(c)


def fringe(t):
    for c in t[1:]:
        if isinstance(c, list):
            yield from fringe(c)
        else:
            yield c


def gen_rules(g, trees, labels, words, n):
    rules = []
    for _ in range(n):
        s = cut(g, g.pick(list(nodes(g.pick(trees)))), g.weighted([(4, 0), (3, 1), (2, 2), (1, 3)]))
        if g.chance(1, 6):
            perturb(g, s, labels, words)
        k = len(list(fronts(s)))
        if k > 9 or size(s) > 40:
            continue
        y = g.shuffle(list(range(1, k + 1))) if g.flip() else list(range(1, k + 1))
        for _ in range(g.int(0 if k else 1, 2)):
            y.insert(g.draw(len(y) + 1), g.pick(TRG))
        rules.append({"s": s, "t": y, "f": gen_feats(g, 2), "a": g.chance(1, 6)})
    return rules


def gen(g, large=False):
    labels = LABELS[:g.int(1, 4)]
    words = WORDS[:g.int(1, 5)]
    mode = "plain" if large else g.weighted([(6, "plain"), (2, "kbest"), (2, "cond"), (2, "grad"), (1, "exp"), (2, "spans")])
    depth = g.int(2, 7) if large else g.weighted([(1, 0), (3, 1), (4, 2), (3, 3)])
    trees = [gen_tree(g, labels, words, depth, large if mode == "plain" else None) for _ in range(g.weighted([(3, 1), (3, 2), (1, 3)]))]
    files = [gen_rules(g, trees, labels, words, g.int(1, 40 if large else 10)) for _ in range(g.weighted([(1, 0), (6, 1), (2, 2)]))]
    return {"trees": trees, "files": files, "own": [[gen_rules(g, [t], labels, words, g.int(1, 4)) for _ in range(g.weighted([(4, 0), (1, 1), (1, 2)]))] for t in trees],
            "pass": g.chance(1, 2) or not files, "mode": mode, "k": 1 if large else g.weighted([(3, 1000), (1, 3), (1, 1)]),
            "unique": g.chance(1, 4) and mode == "plain" and not large, "b64": g.flip(), "layout": g.draw(4) + 4 * g.chance(1, 4), "combine": 1,
            "pick": [g.draw(1 << 10) for _ in trees],
            "w": gen_weights(g, ["PassThrough_Lexical", "PassThrough_Abstract", "PassThrough_Mix"] + ["PassThrough:" + l for l in labels])}


def show(t, layout=0):
    sp = "  " if layout & 1 else " "
    out = t[0]
    for last, c in zip(t, t[1:]):
        x = show(c, layout) if isinstance(c, list) else "[%s]" % c["v"] if isinstance(c, dict) else c
        out += ("" if layout & 4 and (isinstance(c, list) or isinstance(last, list)) else sp) + x
    return ("( " if layout & 2 else "(") + out + ")"


def rules_text(rules, layout):
    out = []
    for i, r in enumerate(rules):
        if layout & 3 == 3 and i % 3 == 0:
            out.append(g_comment)
        out.append("%s ||| %s ||| %s%s\n" % (show(r["s"], layout), " ".join("[%d]" % x if isinstance(x, int) else x for x in r["t"]),
                                            " ".join("%s=%s" % (k, num(v)) for k, v in r["f"].items()) or "F0=0", " ||| 0-0" if r["a"] else ""))
    return "".join(out)


g_comment = "# (S [X]) ||| [1] Z ||| F0=1\n\n"


def freeze(t):
    return tuple(freeze(x) if isinstance(x, list) else ("v", x["v"]) if isinstance(x, dict) else x for x in t)


def pass_through(tree, grammars):
    """The rules for what no grammar says: every production of the tree as it is."""
    have = {(freeze(r["s"]), tuple(r["t"])) for rs in grammars for r in rs}
    out, seen = [], set()
    for n in nodes(tree):
        s = [n[0]] + [{"v": c[0]} if isinstance(c, list) else c for c in n[1:]]
        if freeze(s) in seen:
            continue
        seen.add(freeze(s))
        nt = any(isinstance(c, dict) for c in s[1:])
        lex = any(isinstance(c, str) for c in s[1:])
        t, k = [], 0
        for c in s[1:]:
            k += isinstance(c, dict)
            t.append(k if isinstance(c, dict) else c)
        if nt and not lex and (freeze(s), tuple(t)) in have:
            continue
        f = {"PassThrough": 1.0, "PassThrough:" + n[0]: 1.0}
        if nt or lex:
            f["PassThrough_Mix" if nt and lex else "PassThrough_Lexical" if lex else "PassThrough_Abstract"] = 1.0
        out.append({"s": s, "t": t, "f": f})
    return out


def match(s, t, out):
    """Does the fragment match at the top of the tree?  Collects the nodes that are left open."""
    if s[0] != t[0] or len(s) != len(t):
        return False
    for a, b in zip(s[1:], t[1:]):
        if isinstance(a, dict):
            if not isinstance(b, list) or a["v"] != b[0]:
                return False
            out.append(b)
        elif isinstance(a, list):
            if not isinstance(b, list) or not match(a, b, out):
                return False
        elif a != b:
            return False
    return True


def derivations(tree, rules, cap=2500):
    memo = {}

    def of(n):
        if id(n) not in memo:
            out = []
            for r in rules:
                subs = []
                if not match(r["s"], n, subs):
                    continue
                for parts in itertools.product(*[of(x) for x in subs]):
                    y, f = (), dict(r["f"])
                    for x in r["t"]:
                        y += parts[x - 1][0] if isinstance(x, int) else (x,)
                    for p in parts:
                        f = add(f, p[1])
                    out.append((y, f))
                    if len(out) > cap:
                        raise Discard("too many derivations")
            memo[id(n)] = out
        return memo[id(n)]
    return of(tree)


def drawings(tree, rules, cap=600):
    """(features, drawing) of every derivation; a drawing names every node used with its label and words covered"""
    spans, memo = {}, {}

    def span(n, i):
        j = i
        for c in n[1:]:
            j = span(c, j) if isinstance(c, list) else j + 1
        spans[id(n)] = (i, j)
        return j
    span(tree, 0)

    def of(n):
        if id(n) not in memo:
            out = []
            for r in rules:
                subs = []
                if not match(r["s"], n, subs):
                    continue
                for parts in itertools.product(*[of(x) for x in subs]):
                    f = dict(r["f"])
                    for p in parts:
                        f = add(f, p[0])
                    out.append((f, "(%s{%d-%d}%s)" % (n[0], *spans[id(n)], "".join(parts[x - 1][1] if isinstance(x, int) else x for x in r["t"]))))
                    if len(out) > cap:
                        raise Discard("too many derivations")
            memo[id(n)] = out
        return memo[id(n)]
    return of(tree)


def totals(tree, rules, w):
    """(number of derivations, log of the sum of their weights, score of the best)."""
    memo = {}

    def of(n):
        if id(n) not in memo:
            c, zs, best = 0, [], -math.inf
            for r in rules:
                subs = []
                if not match(r["s"], n, subs):
                    continue
                k, z = 1, dot(r["f"], w)
                b = z
                for x in subs:
                    a = of(x)
                    k, z, b = k * a[0], z + a[1], b + a[2]
                if k:
                    c += k
                    zs.append(z)
                    best = max(best, b)
            memo[id(n)] = (c, logsumexp(zs) if zs else -math.inf, best)
        return memo[id(n)]
    return of(tree)


def sane(t, rule):
    if not isinstance(t, list) or not t or not isinstance(t[0], str) or not t[0]:
        raise Discard("not a tree")
    for c in t[1:]:
        if isinstance(c, list):
            sane(c, rule)
        elif isinstance(c, dict):
            if not rule or not c.get("v"):
                raise Discard("open node")
        elif not c:
            raise Discard("no word")


def setup(case, ctx):
    args = ["-f", "t2s", "-w", ctx.write("w", weights_text(case["w"])), "-z"]
    for t in case["trees"]:
        sane(t, False)
    for rs in list(case["files"]) + [r for o in case["own"] for r in o]:
        for r in rs:
            sane(r["s"], True)
            if sorted(x for x in r["t"] if isinstance(x, int)) != list(range(1, 1 + len(list(fronts(r["s"]))))) or not r["t"]:
                raise Discard("not a rule")
    for i, rs in enumerate(case["files"]):
        args += ["-g", ctx.write("g%d" % i, rules_text(rs, case["layout"]))]
    if case["pass"]:
        args.append("-P")
    text, rules = "", []
    for i, t in enumerate(case["trees"]):
        own = case["own"][i]
        line = show(t, case["layout"] & 5)
        gs = list(case["files"]) + own
        if own:
            line = '<seg id="%d"%s>%s</seg>' % (i, "".join(' grammar%s="%s"' % (j or "", ctx.write("s%d_%d" % (i, j), rules_text(o, 0))) for j, o in enumerate(own)), line)
            ctx.count("grammar of the sentence")
        text += line + "\n"
        rules.append([r for rs in gs for r in rs] + (pass_through(t, gs) if case["pass"] else []))
    return args, text, rules


def forest_check(b, i, n, z, best):
    m = re.search(r"Init\. forest\s+\(paths\): (\S+)", b)
    check_that(m and near(float(m.group(1)), n, TOL), lambda: f"tree {i}: the forest has {m and m.group(1)} derivations, {n} exist")
    m = re.search(r"Init\. forest\s+Viterbi logp: (\S+)", b)
    check_that(m and near(float(m.group(1)), best, TOL), lambda: f"tree {i}: Viterbi score {m and m.group(1)}, best derivation {best}")
    m = re.search(r"Partition\s+log\(Z\): (\S+)", b)
    check_that(m and near(float(m.group(1)), z, TOL), lambda: f"tree {i}: log Z {m and m.group(1)}, sum over derivations {z}")


def check(case, ctx):
    w, mode = case["w"], case["mode"]
    args, text, rules = setup(case, ctx)
    if mode == "spans":
        want = [drawings(t, r) for t, r in zip(case["trees"], rules)]
        ctx.count(mode)
        rc, out, err = ctx.run("cdec", args + ["-J"], text)
        got = dict((int(l.split(" ||| ")[0]), l.split(" ||| ")[1].replace(" ", "")) for l in out.splitlines() if " ||| " in l)
        for i, ds in enumerate(want):
            check_that((i in got) == bool(ds), lambda: f"tree {i}: {len(ds)} derivations, the decoder draws {got.get(i)}")
            if ds:
                best = max(dot(f, w) for f, _ in ds)
                ok = {x for f, x in ds if dot(f, w) > best - 1e-6 * (1 + abs(best))}
                check_that(got[i] in ok, lambda: f"tree {i}: drawn {got[i]}, best derivations {sorted(ok)}")
                if len(ds) > 1:
                    ctx.nontrivial()
        return
    models, lines = [], text.splitlines()
    for i, t in enumerate(case["trees"]):
        ds = [(y, f, tuple(fringe(t))) for y, f in derivations(t, rules[i])]
        cs = []
        if mode != "plain":
            if any(len(n) == 1 for n in nodes(t)):
                raise Discard("pass-through rule without words")
            ref = ds[case["pick"][i] % len(ds)][0] if ds else ("A",)
            if not ref:
                raise Discard("empty reference")
            if case["pick"][i] % 11 == 0:
                ref += ("Z",)
            cs = [(src, f, (frozenset(), y)) for y, f, src in ds if y == ref]
            r = " ||| " + " ".join(ref)
            lines[i] = lines[i][:-6] + r + "</seg>" if lines[i].endswith("</seg>") else lines[i] + r
        models.append((ds, cs, False, []))
    text = "".join(l + "\n" for l in lines)
    ctx.count(mode)
    if mode == "plain":
        args += ["-k", case["k"]] + (["-r"] if case["unique"] else [])
        rc, out, err = ctx.run("cdec", args, text)
        blocks = err.split("INPUT: ")[1:]
        check_that(len(blocks) == len(models), f"{len(blocks)} inputs decoded, {len(models)} given")
        kb = parse_kbest(out)
        for i, (ds, _, _, _) in enumerate(models):
            check_that(("NO PARSE FOUND" in blocks[i]) == (not ds), lambda: f"tree {i}: {len(ds)} derivations, the decoder disagrees:\n{blocks[i]}")
            if not ds:
                ctx.count("no parse")
                continue
            sc = [dot(f, w) for _, f, _ in ds]
            forest_check(blocks[i], i, len(ds), logsumexp(sc), max(sc))
            check_kbest(kb.get(i, []), ds, w, case["k"], case["unique"], ctx)
            if len(ds) > 1:
                ctx.nontrivial()
            ctx.count("derivations<=%d" % next(x for x in (1, 3, 10, 100, 10 ** 9) if len(ds) <= x))
        return
    if mode == "kbest":
        args += ["-k", case["k"]]
    elif mode == "cond":
        args.append("--show_conditional_prob")
    else:
        args += ["--cll_gradient" if mode == "grad" else "--feature_expectations", "--vector_format", "b64" if case["b64"] else "text"]
    judge(case, ctx, args, text, models)


def check_large(case, ctx):
    args, text, rules = setup(case, ctx)
    want = [totals(t, r, case["w"]) for t, r in zip(case["trees"], rules)]
    if any(n[0] > 1e250 for n in want):
        raise Discard("very many derivations")
    rc, out, err = ctx.run("cdec", args + ["-k", 1], text)
    blocks = err.split("INPUT: ")[1:]
    check_that(len(blocks) == len(want), f"{len(blocks)} inputs decoded, {len(want)} given")
    kb = parse_kbest(out)
    for i, (n, z, best) in enumerate(want):
        check_that(("NO PARSE FOUND" in blocks[i]) == (not n), lambda: f"tree {i}: {n} derivations, the decoder disagrees:\n{blocks[i]}")
        if not n:
            ctx.count("no parse")
            continue
        forest_check(blocks[i], i, n, z, best)
        ent = kb.get(i, [])
        check_that(len(ent) == 1 and near(ent[0][2], best, TOL) and near(dot(ent[0][1], case["w"]), best, 4 * TOL),
                   lambda: f"tree {i}: best derivation {ent}, score {best} expected")
        if n > 1:
            ctx.nontrivial()
        ctx.count("nodes<=%d" % next(x for x in (5, 20, 80, 10 ** 9) if size(case["trees"][i]) <= x))
        ctx.count("derivations<=%.0e" % next(x for x in (1, 1e2, 1e4, 1e8, 1e300) if n <= x))


if __name__ == "__main__":
    run_check("D09", "Random trees and rules cut from them (and perturbed), in shared and per-sentence grammars, with and without pass-through rules; every "
              "derivation is enumerated, or counted and summed by recursion over the tree for large trees. Non-trivial: some tree has at least two derivations.",
              py=[Suite("trees", gen, check, 3), Suite("large", lambda g: gen(g, True), check_large, 1)], programs=["cdec"], quick=20, thorough=600)
