"""D06: finite-state translation covers sentences and source forests with sequences of phrases."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *  # noqa
from scfg import *  # noqa
from D01 import check_kbest, parse_kbest
from D04 import judge

WORDS = ["a", "b", "c", "d"]
TRG = ["A", "B", "C"]


def gen_cfg(g, words):
    """An acyclic grammar: category i only uses later ones; the start has one rule."""
    n = g.int(1, 5)
    cats = ["N%d" % i for i in range(n)]
    rules = [["S", ["[N0]"], gen_feats(g, 1)]]
    for i, c in enumerate(cats):
        seen = set()
        for _ in range(g.weighted([(3, 1), (3, 2), (1, 3)])):
            rhs = []
            for _ in range(g.weighted([(2, 1), (4, 2), (2, 3)])):
                if i + 1 < n and g.chance(3, 5):
                    rhs.append("[%s]" % g.pick(cats[i + 1:]))
                else:
                    rhs.append(g.pick(words))
            if tuple(rhs) not in seen:
                seen.add(tuple(rhs))
                rules.append([c, rhs, gen_feats(g, 2) if g.chance(2, 3) else {}])
    return rules


def gen(g):
    words = WORDS[:g.int(1, 4)]
    mode = g.weighted([(6, "plain"), (2, "kbest"), (2, "cond"), (2, "grad"), (1, "exp")])
    sents = []
    for _ in range(g.weighted([(3, 1), (3, 2), (1, 3)])):
        if g.chance(2, 5):
            sents.append({"cfg": gen_cfg(g, words)})
        else:
            sents.append({"src": [g.pick(words) for _ in range(g.weighted([(2, 1), (3, 2), (3, 3), (2, 4), (1, 6)]))]})
    table = []
    for _ in range(g.int(1, 9)):
        # often a piece of an input
        s = g.pick(sents)
        if "src" in s and g.chance(2, 3):
            i = g.draw(len(s["src"]))
            f = s["src"][i:i + g.int(1, 3)]
        else:
            f = [g.pick(words) for _ in range(g.weighted([(3, 1), (3, 2), (1, 3)]))]
        table.append([f, [g.pick(TRG) for _ in range(g.weighted([(4, 1), (2, 2), (1, 3)]))], gen_feats(g, 2)])
    if not g.chance(1, 4):
        for w in words:
            if g.chance(5, 6):
                table.append([[w], [g.pick(TRG)], gen_feats(g, 1)])
    return {"sents": sents, "table": table, "files": g.weighted([(3, 1), (1, 2)]), "pass": g.chance(2, 5), "mode": mode,
            "k": g.weighted([(3, 1000), (1, 3), (1, 1)]), "unique": g.chance(1, 4) and mode == "plain", "combine": 1, "b64": g.flip(),
            "pick": [g.draw(1 << 10) for _ in sents], "w": gen_weights(g, ["TOP", "PassThrough"])}


def segmentations(src, table, cap=2500):
    """Ways to cover src with phrases: (output, features)."""
    out = []
    ok = [False] * len(src) + [True]
    for i in reversed(range(len(src))):
        ok[i] = any(src[i:i + len(p)] == tuple(p) and ok[i + len(p)] for p, _, _ in table)

    def go(i, y, f):
        if i == len(src):
            out.append((y, f))
            if len(out) > cap:
                raise Discard("too many derivations")
            return
        for p, t, x in table:
            if src[i:i + len(p)] == tuple(p) and ok[i + len(p)]:
                go(i + len(p), y + tuple(t), add(f, x))
    go(0, (), {})
    return out


def trees(rules, cap=400):
    """All derivations of a grammar: (words, features)."""
    memo = {}

    def of(c):
        if c not in memo:
            memo[c] = []
            for l, rhs, f in rules:
                if l != c:
                    continue
                for parts in itertools.product(*[of(x[1:-1]) if x[0] == "[" else [((x,), {})] for x in rhs]):
                    y, v = (), dict(f)
                    for a, b in parts:
                        y, v = y + a, add(v, b)
                    memo[c].append((y, v))
                    if len(memo[c]) > cap or len(y) > 9:
                        raise Discard("too many derivations")
        return memo[c]
    return of("S")


def check(case, ctx):
    w, mode = case["w"], case["mode"]
    models, text = [], ""
    if not all(p and t for p, t, _ in case["table"]):
        raise Discard("an empty phrase")
    for i, s in enumerate(case["sents"]):
        if "cfg" in s:
            if not s["cfg"] or s["cfg"][0][0] != "S" or len(s["cfg"][0][1]) != 1 or any(r[0] == "S" for r in s["cfg"][1:]):
                raise Discard("not one start rule")
            if any(x[0] == "[" and l != "S" and int(x[2:-1]) <= int(l[1:]) for l, rhs, _ in s["cfg"] for x in rhs):
                raise Discard("a recursive grammar")
            src = trees(s["cfg"])
            if not src:
                raise Discard("an empty language")
            # rules with a category that nothing derives are not part of a forest
            good = {l for l, _, _ in s["cfg"]}
            if any(x[0] == "[" and x[1:-1] not in good for _, rhs, _ in s["cfg"] for x in rhs):
                raise Discard("a category without rules")
            if any(not rhs for _, rhs, _ in s["cfg"]) or len({(l, tuple(r)) for l, r, _ in s["cfg"]}) < len(s["cfg"]):
                raise Discard("an empty rule or one twice")
            vocab = reachable(s["cfg"])
            f = ctx.write("f%d.hg" % i, b"")
            ctx.run("mkhg", [f], "".join("[%s] ||| %s ||| %s\n" % (l, " ".join(rhs), " ".join("%s=%s" % (k, num(v)) for k, v in x.items()))
                                        for l, rhs, x in s["cfg"]))
            line = "::forest:: " + f
            ctx.count("forest")
        else:
            if not s["src"]:
                raise Discard("empty")
            src = [(tuple(s["src"]), {"TOP": 1.0})]
            vocab = s["src"]
            line = " ".join(s["src"])
            ctx.count("sentence")
        table = list(case["table"])
        if case["pass"]:
            have = {tuple(p) for p, _, _ in table}
            table += [[[x], [x], {"PassThrough": 1.0}] for x in dict.fromkeys(vocab) if (x,) not in have]
        ds = []
        for y, f in src:
            for t, v in segmentations(y, table):
                ds.append((t, add(f, v), y))
            if len(ds) > 2500:
                raise Discard("too many derivations")
        cs = []
        if mode != "plain":
            ref = ds[case["pick"][i] % len(ds)][0] if ds else ("A",)
            if not ref:
                raise Discard("empty reference")
            if case["pick"][i] % 11 == 0:
                ref += ("Z",)
            cs = [(src_, f, (frozenset(), t)) for t, f, src_ in ds if t == ref]
            line += " ||| " + " ".join(ref)
        models.append((ds, cs, False, []))
        text += line + "\n"
    args = ["-f", "fst", "-w", ctx.write("w", weights_text(w)), "-z"]
    n = case["files"]
    for j in range(n):
        args += ["-g", ctx.write("pt%d" % j, "".join("%s ||| %s ||| %s\n" % (" ".join(f), " ".join(e), " ".join("%s=%s" % (k, num(v)) for k, v in x.items()))
                                                    for f, e, x in case["table"][j::n]))]
    if case["pass"]:
        args.append("-P")
    ctx.count(mode)
    if mode == "plain":
        args += ["-k", case["k"]] + (["-r"] if case["unique"] else [])
        rc, out, err = ctx.run("cdec", args, text)
        blocks = err.split("INPUT: ")[1:]
        check_that(len(blocks) == len(models), f"{len(blocks)} inputs decoded, {len(models)} given")
        kb = parse_kbest(out)
        for i, (ds, _, _, _) in enumerate(models):
            check_that(("NO PARSE FOUND" in blocks[i]) == (not ds), lambda: f"input {i}: {len(ds)} derivations, the decoder disagrees:\n{blocks[i]}")
            if not ds:
                ctx.count("no parse")
                continue
            m = re.search(r"Init\. forest\s+\(paths\): (\S+)", blocks[i])
            check_that(m and near(float(m.group(1)), len(ds), 3e-5), lambda: f"input {i}: the forest has {m and m.group(1)} derivations, {len(ds)} exist")
            check_kbest(kb.get(i, []), ds, w, case["k"], case["unique"], ctx)
            if len(ds) > 1:
                ctx.nontrivial()
            ctx.count("derivations<=%d" % next(x for x in (1, 3, 10, 100, 10 ** 9) if len(ds) <= x))
        return
    if mode == "kbest":
        args += ["-k", case["k"]]
    elif mode == "cond":
        args.append("--show_conditional_prob")
    else:
        args += ["--cll_gradient" if mode == "grad" else "--feature_expectations", "--vector_format", "b64" if case["b64"] else "text"]
    judge(case, ctx, args, text, models)


def reachable(cfg):
    seen, todo, words = set(), ["S"], []
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        for l, rhs, _ in cfg:
            if l == c:
                for x in rhs:
                    (todo if x[0] == "[" else words).append(x[1:-1] if x[0] == "[" else x)
    return words


if __name__ == "__main__":
    run_check("D06", "Random phrase tables, sentences and acyclic source grammars (forests), with and without pass-through phrases and references, weights; "
              "every derivation and segmentation is enumerated. Non-trivial: some input has at least two derivations.",
              py=[Suite("fst", gen, check)], programs=["cdec", "mkhg"], quick=20, thorough=600)
