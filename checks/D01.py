"""D01: text translation with a synchronous grammar explores exactly the derivations of the grammar."""
import gzip
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
from scfg import *  # noqa

TOL = 3e-5


def gen(g):
    goal = g.weighted([(8, "S"), (1, "TOP"), (1, "G2")])
    nt = g.weighted([(8, "X"), (1, "NP"), (1, "PHR")])
    cats = [nt] + g.weighted([(5, []), (3, ["Y"]), (2, ["Y", "Z"])])
    if g.chance(1, 2):
        cats = g.shuffle(cats)
    words = SRC if not g.chance(1, 6) else ["a", "été", "中文", "b=c", "x|y", "1,000", "]"]
    vocab = words[:g.int(1, 4)]
    opts = {"glue": not g.chance(1, 4), "goal": goal, "nt": nt, "span": g.weighted([(6, 10), (1, 1), (1, 2), (1, 3), (1, 4)]),
            "pass": g.chance(1, 3), "ptf": g.weighted([(5, 0), (1, 1), (1, 3)]),
            "k": g.weighted([(2, 0), (3, 10), (3, 100), (2, 3), (1, 1), (2, 2000)]), "unique": g.chance(1, 3),
            "gz": g.chance(1, 8), "intersect": g.flip()}
    sents, shared = [], []
    nsent = g.weighted([(6, 1), (3, 2), (1, 4)])
    top = [goal] if (not opts["glue"] or g.chance(1, 3)) else []
    every = cats
    if top and g.chance(1, 2):  # the goal occurs inside rules, too, below other categories unless glue rules put it above them
        every = list(cats)
        every.insert(0 if opts["glue"] else g.draw(len(cats) + 1), goal)

    def grammar(ws, hi):
        rules = gen_grammar(g, every, ws, 0, hi)
        if top:
            for _ in range(g.int(1, 3)):
                r = gen_rule(g, cats)
                r["l"] = goal
                if len(r["s"]) == 1 and isinstance(r["s"][0], list) and goal in every and every.index(goal) > every.index(r["s"][0][0]):
                    continue  # would close a cycle
                rules.append(r)
        return rules
    for _ in range(nsent):
        src = [g.pick(vocab) for _ in range(g.weighted([(4, 3), (3, 2), (2, 4), (2, 1), (2, 5), (1, 6)]))]
        own = []
        for _ in range(g.weighted([(3, 0), (2, 1), (1, 2)])):
            own.append(grammar(src if g.flip() else [], 5))
        sents.append({"src": src, "grammars": own, "oov": False})
    allw = [w for s in sents for w in s["src"]]
    shared = [grammar(allw, 8) for _ in range(g.weighted([(8, 1), (2, 2)]))]
    return {"opts": opts, "shared": shared, "sents": sents,
            "w": gen_weights(g, ["PassThrough_%d" % i for i in range(1, 5)])}


def utf8len(s):
    return len(s)


def pass_rules(src, nt, ptf):
    import math
    out = []
    for w in dict.fromkeys(src):
        f = {"PassThrough": 1.0}
        if ptf:
            n = int(math.log(utf8len(w)) / math.log(1.6)) + 1
            f["PassThrough_%d" % min(n, ptf)] = 1.0
        out.append({"l": nt, "s": [w], "t": [w], "f": f})
    return out


def parse_kbest(out):
    res = {}
    for line in out.split("\n"):
        if line.count(" ||| ") != 3 and not (line.endswith(" ||| ") or " ||| " in line):
            continue
        p = line.split(" ||| ")
        if len(p) != 4:
            continue
        f = {}
        for x in p[2].split():
            k, v = x.rsplit("=", 1)
            f[k] = f.get(k, 0.0) + float(v)
        res.setdefault(int(p[0]), []).append((tuple(p[1].split()), f, float(p[3])))
    return res


def feq(a, b, tol=TOL):
    a, b = clean(a), clean(b)
    return all(near(a.get(k, 0.0), b.get(k, 0.0), tol) for k in set(a) | set(b))


def check_kbest(got, ds, w, k, unique, ctx):
    """got: list of (yield, feats, score); ds: all derivations (yield, feats, tree)."""
    scored = sorted(((dot(f, w), y, f) for y, f, _ in ds), key=lambda x: -x[0])
    if unique:
        best = {}
        for s, y, f in scored:
            best.setdefault(y, s)
        want = sorted(best.values(), reverse=True)
    else:
        want = [x[0] for x in scored]
    n = min(k, len(want))
    check_that(len(got) == n, lambda: f"the {k}-best list has {len(got)} entries, {n} expected ({len(want)} exist)")
    pool = {}
    for s, y, f in scored:
        pool.setdefault(y, []).append((s, f))
    last = None
    seen = set()
    for i, (y, f, s) in enumerate(got):
        check_that(near(s, want[i], TOL), lambda: f"entry {i} of the k-best list {' '.join(y)} scores {s}, the {i}-th best derivation scores {want[i]}")
        check_that(last is None or s <= last + 1e-9 + TOL * abs(s), f"k-best list not in descending order at entry {i}")
        last = s
        check_that(near(dot(f, w), s, TOL * 4), lambda: f"entry {i}: features {f} do not sum to its score {s}")
        if unique:
            check_that(y not in seen, f"entry {i} repeats the translation {' '.join(y)}")
            seen.add(y)
        c = pool.get(y, [])
        hit = next((j for j, (s2, f2) in enumerate(c) if near(s2, s, TOL) and feq(f, f2)), None)
        check_that(hit is not None, lambda: f"entry {i}: {' '.join(y)} with features {f}, score {s} is not (any more) a derivation of the grammar")
        c.pop(hit)


def grammar_file(ctx, name, rules, gz):
    txt = "".join(rule_text(r) + "\n" for r in rules)
    if gz:
        return ctx.write(name + ".gz", gzip.compress(txt.encode()))
    return ctx.write(name, txt)


def setup(case, ctx):
    o = case["opts"]
    args = ["-f", "scfg", "-w", ctx.write("w", weights_text(case["w"])), "-S", o["span"], "-z", "--goal", o["goal"], "-d", o["nt"]]
    for i, r in enumerate(case["shared"]):
        args += ["-g", grammar_file(ctx, f"g{i}", r, o["gz"])]
    if not o["glue"]:
        args.append("-n")
    if o["pass"]:
        args.append("-P")
        if o["ptf"]:
            args += ["-Q", o["ptf"]]
    return args


def check(case, ctx):
    o, w = case["opts"], case["w"]
    args = setup(case, ctx)
    if o["k"]:
        args += ["-k", o["k"]]
        if o["unique"]:
            args.append("-r")
    inp, models = "", []
    for i, s in enumerate(case["sents"]):
        attrs = ""
        gs = [(r, o["span"]) for r in case["shared"]]
        for j, r in enumerate(s["grammars"]):
            attrs += ' grammar%s="%s"' % (j or "", grammar_file(ctx, f"s{i}_{j}", r, False))
            gs.append((r, o["span"]))
        inp += '<seg id="%d"%s> %s </seg>\n' % (i, attrs, " ".join(s["src"])) if attrs else " ".join(s["src"]) + "\n"
        if o["glue"]:
            gs.append((glue_rules(o["goal"], o["nt"]), "glue"))
        if o["pass"]:
            gs.append((pass_rules(s["src"], o["nt"], o["ptf"]), "pass"))
        models.append(Forest(text_lattice(s["src"]), gs, o["goal"]).all())
    rc, out, err = ctx.run("cdec", args, inp)
    blocks = err.split("INPUT: ")[1:]
    check_that(len(blocks) == len(models), f"{len(blocks)} inputs decoded, {len(models)} given")
    lines = out.split("\n")[:-1]
    kb = parse_kbest(out)
    li = 0
    for i, ds in enumerate(models):
        b = blocks[i]
        if not ds:
            ctx.count("no parse")
            check_that("NO PARSE FOUND" in b, f"sentence {i}: a translation was found, the grammar derives none\n{b}")
            check_that(i not in kb, f"sentence {i}: k-best list for an input that has no derivation")
            check_that(li < len(lines) and lines[li] == "", f"sentence {i}: no empty output line for an input without derivation")
            li += 1
            continue
        ctx.count("parsed")
        check_that("NO PARSE FOUND" not in b, lambda: f"sentence {i}: no translation found, the grammar has {len(ds)} derivations, e.g. {ds[0][:2]}")
        m = re.search(r"Init\. forest\s+\(paths\): (\S+)", b)
        check_that(m is not None, f"sentence {i}: no forest statistics\n{b}")
        check_that(near(float(m.group(1)), len(ds), TOL), lambda: f"sentence {i}: the forest has {m.group(1)} derivations, the grammar {len(ds)}")
        sc = [dot(f, w) for _, f, _ in ds]
        m = re.search(r"Init\. forest\s+Viterbi logp: (\S+)", b)
        check_that(near(float(m.group(1)), max(sc), TOL), lambda: f"sentence {i}: Viterbi score {m.group(1)}, best derivation {max(sc)}")
        m = re.search(r"Partition\s+log\(Z\): (\S+)", b)
        check_that(near(float(m.group(1)), logsumexp(sc), TOL), lambda: f"sentence {i}: log Z {m.group(1)}, sum over derivations {logsumexp(sc)}")
        if o["k"]:
            check_kbest(kb.get(i, []), ds, w, o["k"], o["unique"], ctx)
            n = len(kb.get(i, []))
            check_that(all(x.startswith(f"{i} ||| ") for x in lines[li:li + n]), f"sentence {i}: output out of order")
            li += n
        else:
            check_that(li < len(lines), f"sentence {i}: no output")
            y = tuple(lines[li].split())
            li += 1
            best = [s for s, d in zip(sc, ds) if d[0] == y]
            check_that(best and near(max(best), max(sc), 1e-9), lambda: f"sentence {i}: output {' '.join(y)} scores {max(best) if best else None}, the best derivation {max(sc)}")
        if len(ds) > 1:
            ctx.nontrivial()
        ctx.count("derivations<=%d" % next(x for x in (1, 3, 10, 30, 100, 300, 1000, 10 ** 9) if len(ds) <= x))
        if any(len(rule_nts(r)) > 1 for g_ in case["shared"] for r in g_):
            ctx.count("reordering grammar")
    check_that(li == len(lines), f"{len(lines) - li} surplus output lines")


def gen_large(g):
    """Longer sentences, larger grammars and rules with more nonterminals."""
    nt = "X"
    cats = g.pick([["X"], ["X", "Y"], ["X", "Y", "Z"], ["X"] + ["C%d" % i for i in range(6)]])
    n = g.int(1, g.pick([8, 12, 16, 25]))
    vocab = ["w%d" % i for i in range(g.pick([2, 4, 10, 40]))]
    src = [g.pick(vocab) for _ in range(n)]
    opts = {"glue": not g.chance(1, 4), "goal": "S", "nt": nt, "span": g.pick([10, 10, 10, 4, 6, 25, 15]), "pass": g.chance(1, 2), "ptf": 0,
            "k": 1, "unique": False, "gz": False}
    rules = []
    for w in dict.fromkeys(src):
        for _ in range(g.weighted([(4, 1), (2, 2), (1, 0), (1, 4)])):
            rules.append({"l": g.pick(cats), "s": [w], "t": [g.pick(TRG)], "f": gen_feats(g)})
    for _ in range(g.int(0, g.pick([4, 10, 30]))):
        # cut from the sentence, with some parts replaced by nonterminals
        i = g.draw(n)
        s = [x for x in src[i:i + g.int(1, 8)]]
        nts = 0
        for _ in range(g.weighted([(3, 1), (3, 2), (2, 0), (1, 3), (1, 4)])):
            if nts < len(s):
                a = g.draw(len(s))
                if isinstance(s[a], str):
                    b = a + 1
                    while b < len(s) and isinstance(s[b], str) and g.flip():
                        b += 1
                    s[a:b] = [[g.pick(cats)]]
                    nts += 1
        if nts == 1 and len(s) == 1:
            s.append(g.pick(vocab))
        t = g.shuffle(list(range(1, nts + 1)))
        for _ in range(g.int(0 if nts else 1, 3)):
            t.insert(g.draw(len(t) + 1), g.pick(TRG))
        rules.append({"l": g.pick(cats), "s": s, "t": t, "f": gen_feats(g)})
    for c in cats[1:]:
        if g.flip():
            rules.append({"l": cats[cats.index(c) - 1], "s": [[c]], "t": [1], "f": gen_feats(g)})
    if not opts["glue"]:
        rules.append({"l": "S", "s": [[g.pick(cats)]], "t": [1], "f": gen_feats(g)})
        for _ in range(g.int(0, 3)):
            a = [["S"], [g.pick(cats)]] if g.flip() else [[g.pick(cats)], [g.pick(cats)]]
            rules.append({"l": "S", "s": a, "t": g.pick([[1, 2], [2, 1]]), "f": gen_feats(g)})
    w = gen_weights(g)
    parts = [rules] if g.flip() else [rules[::2], rules[1::2]]
    return {"opts": opts, "shared": parts, "src": src, "w": w}


def check_large(case, ctx):
    o, w = case["opts"], case["w"]
    args = setup(case, ctx)
    gs = [(r, o["span"]) for r in case["shared"]]
    if o["glue"]:
        gs.append((glue_rules(o["goal"], o["nt"]), "glue"))
    if o["pass"]:
        gs.append((pass_rules(case["src"], o["nt"], 0), "pass"))
    want = Sums(text_lattice(case["src"]), gs, w, o["goal"]).derivs(o["goal"], 0, len(case["src"]))
    if want and want[0] > 1e12:
        ctx.count("very many derivations")
    rc, out, err = ctx.run("cdec", args + ["-k", 1], " ".join(case["src"]) + "\n")
    if not want:
        check_that("NO PARSE FOUND" in err, "a translation was found, the grammar derives none")
        return
    cnt, z, best = want
    check_that("NO PARSE FOUND" not in err, lambda: f"no translation found, the grammar has {cnt} derivations")
    m = re.search(r"Init\. forest\s+\(paths\): (\S+)", err)
    check_that(m and near(float(m.group(1)), cnt, TOL), lambda: f"the forest has {m and m.group(1)} derivations, the grammar {cnt}")
    m = re.search(r"Partition\s+log\(Z\): (\S+)", err)
    check_that(m and near(float(m.group(1)), z, TOL), lambda: f"log Z {m and m.group(1)}, sum over derivations {z}")
    kb = parse_kbest(out).get(0, [])
    check_that(len(kb) == 1 and near(kb[0][2], best, TOL), lambda: f"best derivation {kb}, it scores {best}")
    check_that(near(dot(kb[0][1], w), best, 4 * TOL), lambda: f"features {kb[0][1]} do not sum to {best}")
    if cnt > 20:
        ctx.nontrivial()
    ctx.count("large derivations<=%d" % next(x for x in (1, 100, 10000, 10 ** 8, 10 ** 99) if cnt <= x))


if __name__ == "__main__":
    run_check("D01", "Random grammars (several categories, 0-3 nonterminals a rule, reordering, unary rules, duplicate rules; "
              "shared and per-sentence; with and without glue rules, pass-through rules, span limits), random short inputs and "
              "weights; every derivation is enumerated by a reference model. Non-trivial: some input of the case has at least "
              "two derivations.", py=[Suite("decode", gen, check, 3), Suite("large", gen_large, check_large, 1)], programs=["cdec"], quick=45, thorough=900)
