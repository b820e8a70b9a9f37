"""D05: phrase-based translation."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *  # noqa
from scfg import *  # noqa
from D01 import check_kbest, parse_kbest, TOL
from D02 import quote


def gen(g):
    vocab = SRC[:g.int(1, 4)]
    table = []
    for _ in range(g.count(1, 9)):
        s = [g.pick(vocab) for _ in range(g.weighted([(4, 1), (4, 2), (2, 3)]))]
        t = [g.pick(TRG) for _ in range(g.weighted([(4, 1), (3, 2), (1, 3)]))]
        table.append([s, t, gen_feats(g)])
    if not g.chance(1, 3):
        for v in vocab:
            if g.chance(3, 4):
                table.append([[v], [g.pick(TRG)], gen_feats(g)])
    sents = []
    for _ in range(g.weighted([(4, 1), (4, 2), (2, 3)])):
        n = g.weighted([(3, 3), (3, 2), (3, 4), (2, 1), (3, 5), (2, 6), (1, 7)])
        if g.chance(1, 4):
            lat = []
            for i in range(n):
                lat.append([[g.pick(vocab), None, min(g.weighted([(5, 1), (2, 2), (1, 3)]), n - i)]
                            for _ in range(g.weighted([(3, 1), (4, 2), (1, 3)]))])
            sents.append({"plf": True, "lat": lat})
        else:
            words = [g.pick(vocab + (["oov"] if g.chance(1, 8) else [])) for _ in range(n)]
            sents.append({"plf": False, "lat": text_lattice(words)})
    return {"table": table, "sents": sents, "maxd": g.weighted([(2, 4), (2, 0), (3, 1), (3, 2), (1, 9)]),
            "pass": g.chance(1, 2), "w": gen_weights(g), "k": g.weighted([(3, 100), (2, 2000), (2, 5), (1, 0)]),
            "unique": g.chance(1, 4)}


def model(table, lat, maxd, cap=4000):
    """All sequences of phrases covering the input: (yield, features)."""
    trie = {}
    for s, t, f in table:
        trie.setdefault(tuple(s), []).append((t, f))
    prefixes = {k[:i] for k in trie for i in range(len(k) + 1)}
    n = len(lat)
    memo = {}

    def phrases(i, cov):
        out, todo = [], [(i, ())]
        while todo:
            j, p = todo.pop()
            if p in trie:
                out += [(j, t, f) for t, f in trie[p]]
            if j < n:
                for label, _, jump in lat[j]:
                    q = p + (label,)
                    if q in prefixes and not any(k in cov for k in range(i, j + jump)):
                        todo.append((j + jump, q))
        return out

    def rest(cov):
        if cov in memo:
            return memo[cov]
        if len(cov) == n:
            return [((), {}, None)]
        gap = next(i for i in range(n) if i not in cov)
        out = []
        for i in range(gap, min(n, gap + maxd + 1)):
            if i in cov:
                continue
            for j, t, f in phrases(i, cov):
                for y, f2, _ in rest(cov | frozenset(range(i, j))):
                    out.append((tuple(t) + y, add(f, f2), None))
                if len(out) > cap:
                    raise Discard("too many derivations")
        memo[cov] = out
        return out
    return rest(frozenset()), trie


def prepare(case, s):
    """The line of an input, the table with its pass-through words, and the table as text."""
    if s["plf"]:
        text = "(" + "".join("(" + "".join("(%s,%d)," % (quote(a[0]), a[2]) for a in x) + ")," for x in s["lat"]) + ")\n"
    else:
        text = " ".join(x[0][0] for x in s["lat"]) + "\n"
    table = case["table"]
    pt = "".join("%s ||| %s ||| %s\n" % (" ".join(s), " ".join(t), " ".join("%s=%s" % (k, num(v)) for k, v in f.items()))
                 for s, t, f in table)
    if case["pass"]:
        have = {tuple(r[0]) for r in table}
        labels = dict.fromkeys(a[0] for x in s["lat"] for a in x)
        table = table + [[[v], [v], {"PassThrough": 1.0}] for v in labels if (v,) not in have]
    return text, table, pt


def check(case, ctx):
    w = case["w"]
    text, models = "", []
    for s in case["sents"]:
        t, table, pt = prepare(case, s)
        text += t
        models.append(model(table, s["lat"], case["maxd"])[0])
    args = ["-f", "pb", "-w", ctx.write("w", weights_text(w)), "-g", ctx.write("pt", pt), "-z", "--pb_max_distortion", case["maxd"]]
    if case["k"]:
        args += ["-k", case["k"]] + (["-r"] if case["unique"] else [])
    if case["pass"]:
        args.append("-P")
    rc, out, err = ctx.run("cdec", args, text)
    blocks = err.split("INPUT: ")[1:]
    check_that(len(blocks) == len(models), f"{len(blocks)} inputs decoded, {len(models)} given\n{err[-500:]}")
    kb = parse_kbest(out)
    lines = out.split("\n")
    li = 0
    for i, ds in enumerate(models):
        b = blocks[i]
        line = text.split("\n")[i]
        if not ds:
            ctx.count("no translation")
            check_that("NO PARSE FOUND" in b, lambda: f"sentence {i} {line}: a translation was found, the phrases cover it in no way")
            check_that(i not in kb, f"sentence {i}: k-best list for an input that has no derivation")
            li += 1
            continue
        check_that("NO PARSE FOUND" not in b, lambda: f"sentence {i} {line}: no translation found, there are {len(ds)}, e.g. {ds[0][:2]}")
        sc = [dot(f, w) for _, f, _ in ds]
        m = re.search(r"Init\. forest\s+\(paths\): (\S+)", b)
        check_that(m and near(float(m.group(1)), len(ds), TOL), lambda: f"sentence {i} {line}: the forest has {m and m.group(1)} derivations, there are {len(ds)}")
        m = re.search(r"Partition\s+log\(Z\): (\S+)", b)
        check_that(m and near(float(m.group(1)), logsumexp(sc), TOL), lambda: f"sentence {i}: log Z {m and m.group(1)}, sum over derivations {logsumexp(sc)}")
        if case["k"]:
            check_kbest(kb.get(i, []), ds, w, case["k"], case["unique"], ctx)
            li += len(kb.get(i, []))
        else:
            y = tuple(lines[li].split())
            li += 1
            best = [s for s, d in zip(sc, ds) if d[0] == y]
            check_that(best and near(max(best), max(sc), 1e-9), lambda: f"sentence {i}: output {' '.join(y)} scores {max(best) if best else None}, the best derivation {max(sc)}")
        if len(ds) > 1:
            ctx.nontrivial()
        if case["sents"][i]["plf"]:
            ctx.count("lattice")
        ctx.count("derivations<=%d" % next(x for x in (1, 10, 100, 1000, 10 ** 9) if len(ds) <= x))


def gen_large(g):
    n = g.int(4, 9)
    words = ["w%d" % i for i in range(n)]
    if g.chance(1, 3):
        words[g.draw(n)] = words[g.draw(n)]
    table = []
    for i in range(n):
        for l in range(1, g.pick([2, 2, 2, 3, 4, 9])):
            if i + l <= n and g.chance(2 if l > 1 else 9, 10 if l == 1 else 3):
                for _ in range(g.weighted([(5, 1), (1, 2)])):
                    table.append([words[i:i + l], [g.pick(TRG)], gen_feats(g)])
    if g.chance(1, 3):
        lat = []
        for i in range(n):
            arcs = [[words[i], None, 1]]
            for _ in range(g.weighted([(4, 0), (2, 1), (1, 2)])):
                arcs.append([g.pick(words + ["v"]), None, g.int(1, min(n - i, g.pick([2, 3, 9])))])
            if len(arcs) > 1 and g.chance(1, 3):
                arcs = arcs[1:]
            lat.append(arcs)
        sents = [{"plf": True, "lat": lat}]
    else:
        sents = [{"plf": False, "lat": text_lattice(words)}]
    return {"table": table, "sents": sents, "maxd": g.weighted([(3, 1), (3, 2), (2, 3), (2, 4), (1, 0), (1, 9)]),
            "pass": g.chance(1, 2), "w": gen_weights(g)}


def sums(table, lat, maxd, w):
    """The number of derivations, the log of the sum of their weights, and the best score."""
    trie = {}
    for s, t, f in table:
        trie.setdefault(tuple(s), []).append(dot(f, w))
    prefixes = {k[:i] for k in trie for i in range(len(k) + 1)}
    n = len(lat)
    full = (1 << n) - 1
    memo = {full: (1, 0.0, 0.0)}

    def rest(cov):
        if cov in memo:
            return memo[cov]
        gap = next(i for i in range(n) if not cov >> i & 1)
        cnt, ls, best = 0, [], []
        for i in range(gap, min(n, gap + maxd + 1)):
            todo = [(i, ())]
            while todo:
                j, p = todo.pop()
                if p in trie:
                    c, z, b = rest(cov | ((1 << j) - (1 << i)))
                    if c:
                        for v in trie[p]:
                            cnt += c
                            ls.append(z + v)
                            best.append(b + v)
                if j < n:
                    for label, _, jump in lat[j]:
                        q = p + (label,)
                        if q in prefixes and not cov & ((1 << (j + jump)) - (1 << i)):
                            todo.append((j + jump, q))
        memo[cov] = (cnt, logsumexp(ls), max(best)) if cnt else (0, None, None)
        return memo[cov]
    return rest(0)


def check_large(case, ctx):
    text, table, pt = prepare(case, case["sents"][0])
    cnt, z, best = sums(table, case["sents"][0]["lat"], case["maxd"], case["w"])
    args = ["-f", "pb", "-w", ctx.write("w", weights_text(case["w"])), "-g", ctx.write("pt", pt), "-z", "--pb_max_distortion", case["maxd"], "-k", 1]
    if case["pass"]:
        args.append("-P")
    rc, out, err = ctx.run("cdec", args, text)
    if not cnt:
        check_that("NO PARSE FOUND" in err, "a translation was found, the phrases cover the input in no way")
        return
    check_that("NO PARSE FOUND" not in err, lambda: f"no translation found, there are {cnt}")
    m = re.search(r"Init\. forest\s+\(paths\): (\S+)", err)
    check_that(m and near(float(m.group(1)), cnt, TOL), lambda: f"the forest has {m and m.group(1)} derivations, there are {cnt}")
    m = re.search(r"Partition\s+log\(Z\): (\S+)", err)
    check_that(m and near(float(m.group(1)), z, TOL), lambda: f"log Z {m and m.group(1)}, sum over derivations {z}")
    kb = parse_kbest(out).get(0, [])
    check_that(len(kb) == 1 and near(kb[0][2], best, TOL), lambda: f"best derivation {kb}, it scores {best}")
    if cnt > 1:
        ctx.nontrivial()
    ctx.count("large derivations<=%d" % next(x for x in (1, 100, 10000, 10 ** 6, 10 ** 18) if cnt <= x))


if __name__ == "__main__":
    run_check("D05", "Random phrase tables, sentences and lattices, distortion limits and weights; every sequence of phrases that "
              "covers the input within the limit is enumerated. Non-trivial: some input of the case has at least two derivations.",
              py=[Suite("phrases", gen, check, 2), Suite("large", gen_large, check_large, 1)], programs=["cdec"], quick=20, thorough=600)
