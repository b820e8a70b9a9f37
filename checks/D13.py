"""D13: features that compare a derivation with the source sentence and its parse tree have the values of their definition."""
import math
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *  # noqa
from scfg import *  # noqa
from D01 import check_kbest, parse_kbest, TOL, grammar_file, pass_rules
from ffs import span_size, esc

LABELS = ["NP", "VP", "PP", "DT", "S", "N", "NPS", "ADJP-SBJ", "NNS", "NN", "PRP$"]


# ---- source trees: [label, kids], a kid is a tree or a word

def gen_tree(g, words, labels, flat):
    """A tree over the words; flat: words need no label of their own."""
    lab = g.pick(labels)
    if len(words) == 1:
        t = [lab, [words[0]]]
        while g.chance(1, 5):
            t = [g.pick(labels), [t]]
        return t
    if flat and g.chance(1, 4):
        return [lab, list(words)]
    n = min(len(words), g.weighted([(5, 2), (3, 3), (1, 4)]))
    cuts = sorted(g.shuffle(range(1, len(words)))[:n - 1])
    kids = []
    for a, b in zip([0] + cuts, cuts + [len(words)]):
        kids.append(gen_tree(g, words[a:b], labels, flat))
    t = [lab, kids]
    if g.chance(1, 5):
        t = [g.pick(labels), [t]]
    return t


def tree_text(t):
    if isinstance(t, str):
        return t
    return "(" + t[0] + " " + " ".join(tree_text(k) for k in t[1]) + ")"


def constituents(t, i, out):
    """Labels of spans; of several constituents with one span the highest counts."""
    if isinstance(t, str):
        return i + 1
    j = i
    for k in t[1]:
        j = constituents(k, j, out)
    out[i, j] = t[0]
    return j


class Nearest:
    """The constituent nearest to a span: words are added or removed at its ends until a constituent is found."""

    def __init__(self, con):
        self.con = con

    def __call__(self, i, j):
        if (i, j) in self.con:
            return 0, self.con[i, j]
        for d in range(1, j - i):
            for left in range(d + 1):
                for s in ((i - left, j + d - left), (i + left, j - d + left)):
                    if s in self.con:
                        return d, self.con[s]
        return max(j - i - 1, 0), ""


# ---- features of one rule application: fn(spec, rule, i, j, spans of the nonterminals, sentence)

def f_match(d, r, i, j, kids, st):
    near_ = Nearest(st["con"])
    m = near_(i, j)[0]
    if d["how"] in ("", "b", "x"):
        return {"PM": float(m + sum(near_(*k)[0] for k in kids) == 0)}
    return {"PM": {"l": 1.0 / (m + 1), "e": math.exp(-m), "r": (j - i) / (j - i + m)}[d["how"][0]]}


def f_soft(d, r, i, j, kids, st):
    lab = st["con"].get((i, j), "XX")
    f = {}
    for x in d["labels"]:
        n, how = "SOFT:" + x[:-1], x[-1]
        ok = lab == x[:-1]
        if how == "2":
            f[n + ("_conform" if ok else "_cross")] = 1.0
        elif how == "_":
            f[n] = 1.0 if ok else -1.0
        elif how == "+" and ok:
            f[n + "_conform"] = 1.0
        elif how == "-" and not ok:
            f[n + "_cross"] = 1.0
    return f


def f_mindist(d, r, i, j, kids, st):
    dist, lab = Nearest(st["con"])(i, j)
    f = {}
    for x in d["labels"]:
        n, how = "SOFTM:" + x[:-1], x[-1]
        same = lab == x[:-1]
        if how == "2" and same:
            f[n + ("_cross" if dist else "_conform")] = 1.0
        elif how == "_" and same:
            f[n] = -1.0 if dist else 1.0
        elif how == "+" and same and not dist:
            f[n + "_conform"] = 1.0
        elif how == "-" and not same and dist:
            f[n + "_cross"] = 1.0
    return f


def target(r):
    return "_".join("[%d]" % x if isinstance(x, int) else x for x in r["t"])


def f_syn(d, r, i, j, kids, st):
    lab = lambda s: st["con"].get(tuple(s), "XX")  # noqa
    ks = iter(kids)
    if d["k"] == "syn":
        src = "_".join("[%s]" % lab(next(ks)) if isinstance(x, list) else x for x in r["s"])
        n = "SSYN:%s:%s:%s" % (lab((i, j)), src, target(r))
    else:
        src = ""
        for k, x in enumerate(r["s"]):
            if isinstance(x, list):
                src += ("_" if k else "") + "[%s]" % lab(next(ks))
        n = "SSYN2:%s:%s:%s" % (lab((i, j)), src, target(r))
    return {n: 1.0}


def f_size(d, r, i, j, kids, st):
    if not kids:
        return {}
    ks = iter(kids)

    def nt(x):
        a, b = next(ks)
        return "[%s%d]" % (x[0], span_size(b - a))
    return {"SSS:%s:%s" % ("_".join(nt(x) if isinstance(x, list) else x for x in r["s"]), target(r)): 1.0}


def f_context(d, r, i, j, kids, st):
    if kids or len(r["t"]) != 1:
        return {}
    src = st["src"]

    def word(m):
        k = i + int(m.group(1))
        return "<s>" if k < 0 else "</s>" if k >= len(src) else src[k]
    return {esc(re.sub(r"%x\[(-?\d+)\]", word, d["tpl"]).replace("%y[0]", r["t"][0])): 1.0}


def f_path(d, r, i, j, kids, st):
    """Words of a rule and pairs of neighbours; a nonterminal counts as its last word."""
    f, prev, ks = {}, None, iter(kids)
    for x in r["s"]:
        if isinstance(x, list):
            x = st["src"][next(ks)[1] - 1]
        else:
            f["SU:" + x] = f.get("SU:" + x, 0) + 1.0
        if prev is not None:
            n = "SB:%s_%s" % (prev, x)
            f[n] = f.get(n, 0) + 1.0
        prev = x
    return f


FNS = {"match": f_match, "soft": f_soft, "mindist": f_mindist, "syn": f_syn, "syn2": f_syn, "size": f_size, "context": f_context, "path": f_path}
FILES = {"syn", "syn2"}


def spec(d, filt):
    k = d["k"]
    return {"match": lambda: "ParseMatchFeatures" + (" " + d["how"] if d["how"] else ""),
            "soft": lambda: "SoftSyntaxFeatures " + " ".join(d["labels"]),
            "mindist": lambda: "SoftSyntaxFeaturesMindist " + " ".join(d["labels"]),
            "syn": lambda: "SourceSyntaxFeatures" + (" " + filt if filt else ""),
            "syn2": lambda: "SourceSyntaxFeatures2" + (" " + filt if filt else ""),
            "size": lambda: "SourceSpanSizeFeatures",
            "context": lambda: "RuleContextFeatures -t " + d["tpl"],
            "path": lambda: "SourcePathFeatures"}[k]()


def gen(g):
    cats = ["X"] + g.weighted([(3, []), (2, ["Y"])])
    vocab = SRC[:g.int(1, 4)]
    path = g.chance(1, 5)
    context = not path and g.chance(1, 4)
    nsent = g.weighted([(3, 1), (2, 2), (1, 3)])
    hi = 9 if path else 6
    srcs = [[g.pick(vocab) for _ in range(min(hi, g.weighted([(3, 3), (3, 4), (2, 2), (2, 5), (1, 1), (1, 6), (1, 9)])))] for _ in range(nsent)]
    allw = [w for s in srcs for w in s]
    rules = gen_grammar(g, cats, allw, 1, 6, max_arity=g.weighted([(4, 2), (1, 3)]))
    if path:
        # derivations that grow to the right
        for r in rules:
            nts = [x for x in r["s"] if isinstance(x, list)]
            if nts:
                r["s"] = nts[:1] + [x for x in r["s"] if not isinstance(x, list)] + ([g.pick(vocab)] if g.flip() or all(isinstance(x, list) for x in r["s"]) else [])
                r["t"] = [x for x in r["t"] if not isinstance(x, int) or x == 1]
    if context:
        for r in rules:
            if not any(isinstance(x, list) for x in r["s"]) and len(r["s"]) > 1 and len(r["t"]) == 1:
                r["t"].append(g.pick(TRG))
    kinds = [(3, "match"), (2, "soft"), (2, "mindist"), (3, "syn"), (2, "syn2"), (3, "size")]
    ks = []
    if path:
        ks = ["path"]
    if context:
        ks.append("context")
    for _ in range(g.int(0 if ks else 1, 2)):
        k = g.weighted(kinds)
        if k not in ks:
            ks.append(k)
    labels = LABELS[:g.int(1, len(LABELS))]
    ffs = []
    for k in ks:
        d = {"k": k}
        if k == "match":
            d["how"] = g.pick(["", "b", "l", "e", "r", "x", "linear", "exponential", "relative"])
        if k in ("soft", "mindist"):
            d["labels"] = [x + g.pick("2_+-") for x in g.subset(labels + ["XX"], 2, 3)]
        if k in FILES:
            d["filter"] = g.chance(1, 3)
            d["fseed"] = g.draw(1 << 20)
        if k == "context":
            at = lambda: g.weighted([(3, 0), (3, -1), (3, 1), (1, -2), (1, 2), (1, 10), (1, -10), (1, 12)])  # noqa
            xs = ["%%x[%d]" % at() for _ in range(g.int(1, 3))]
            parts = g.shuffle(xs + ["%y[0]"] + g.weighted([(4, []), (1, ["%y[0]"]), (1, ["U1:"])]))
            d["tpl"] = "C:" + g.pick(["_", "|", ";", ""]).join(parts)
        ffs.append(d)
    flat = not any(d["k"] in ("match", "mindist") for d in ffs)
    sents = [{"src": s, "tree": gen_tree(g, s, labels, flat), "nl": not g.chance(1, 6)} for s in srcs]
    glue = not path and not g.chance(1, 4)
    return {"sents": sents, "rules": rules, "glue": glue, "goal": "S" if glue else "X", "ffs": ffs, "w": gen_weights(g), "seed": g.draw(1 << 20),
            "grid": g.flip(), "strat": g.weighted([(3, "full"), (2, "cube_pruning"), (1, "fast_cube_pruning")]), "pass": not context and g.chance(1, 4),
            "late": g.chance(1, 4)}


def applications(tree, out):
    r, i, j, kids = tree
    out.append((r, i, j, [(k[1], k[2]) for k in kids]))
    for k in kids:
        applications(k, out)
    return out


def check(case, ctx):
    import random
    o = case
    args = ["-f", "scfg", "-g", grammar_file(ctx, "g", o["rules"], False), "-z", "-k", 1000, "--goal", o["goal"], "-I", o["strat"]]
    if o["strat"] != "full":
        args += ["-K", 100000]
    if not o["glue"]:
        args.append("-n")
    if o["pass"]:
        args.append("-P")
    sents = []
    for n, s in enumerate(o["sents"]):
        gs = [(o["rules"], 10)]
        if o["glue"]:
            gs.append((glue_rules(), "glue"))
        if o["pass"]:
            gs.append((pass_rules(s["src"], "X", 0), "pass"))
        st = {"src": s["src"], "con": {}}
        constituents(s["tree"], 0, st["con"])
        ds = Forest(text_lattice(s["src"]), gs, o["goal"], cap=1000).all()
        sents.append((st, ds, ctx.write("tree%d" % n, tree_text(s["tree"]) + ("\n" if s["nl"] else ""))))
    # features by definition
    allow = {}
    names = set()
    feats = []
    per = {d["k"]: [] for d in o["ffs"]}
    for st, ds, _ in sents:
        for d in ds:
            tot = {}
            for app in applications(d[2], []):
                for x in o["ffs"]:
                    f = FNS[x["k"]](x, *app, st)
                    for n, v in f.items():
                        tot.setdefault(x["k"], {})
                        tot[x["k"]][n] = tot[x["k"]].get(n, 0.0) + v
            feats.append(tot)
            for k, f in tot.items():
                per[k].append(set(f))
    for x in o["ffs"]:
        if x.get("filter"):
            rnd = random.Random(x["fseed"])
            allow[x["k"]] = set(n for n in sorted(set().union(*per[x["k"]]) if per[x["k"]] else []) if rnd.random() < 0.5) | {"SSYN:none"}
    i = 0
    rnd = random.Random(o["seed"])
    scored = []
    for st, ds, _ in sents:
        cur = []
        for y, f, t in ds:
            f = dict(f)
            for k, m in feats[i].items():
                for n, v in m.items():
                    if k not in allow or n in allow[k]:
                        f[n] = f.get(n, 0.0) + v
            i += 1
            names |= set(f)
            cur.append((y, f, t))
        scored.append(cur)
    w = dict(o["w"])
    for n in sorted(names):
        if n not in w and rnd.random() < 0.75:
            v = rnd.randint(-8, 8) / 8.0 if o["grid"] else round(rnd.uniform(-1, 1), 6)
            if v:
                w[n] = v
    sfx = "2" if o["late"] else ""
    for x in o["ffs"]:
        filt = ctx.write("filter_" + x["k"], "".join(n + "\n" for n in sorted(allow[x["k"]]))) if x["k"] in allow else None
        args += ["--feature_function" + sfx, spec(x, filt)]
    args += ["-w", ctx.write("w", weights_text(w))]
    if o["late"]:
        args += ["--feature_function", "WordPenalty"]
        if o["strat"] != "full":
            args += ["--cubepruning_pop_limit2", 100000]
            if o["strat"] == "cube_pruning":
                args += ["--intersection_strategy2", o["strat"]]
        for cur in scored:
            for y, f, t in cur:
                f["WordPenalty"] = -len(y) / math.log(10)
    text = "".join('<seg id="%d" src_tree="%s">%s</seg>\n' % (n, s[2], " ".join(s[0]["src"])) for n, s in enumerate(sents))
    rc, out, err = ctx.run("cdec", args, text)
    kbs = parse_kbest(out)
    big = False
    for n, cur in enumerate(scored):
        kb = kbs.get(n, [])
        if not cur:
            check_that(not kb, "a translation was found, the grammar derives none")
            continue
        check_kbest(kb, cur, w, 1000, False, ctx)
        big |= len(cur) > 1
    for x in o["ffs"]:
        ctx.count("ff " + x["k"])
    ctx.count("sentences %d" % len(sents))
    if big:
        ctx.nontrivial()


if __name__ == "__main__":
    run_check("D13", "Random grammars and one to three sentences, each with a random source parse tree, decoded with one or two of the features that look "
              "at the tree or the source string (constituent match, soft syntax, nearest constituent, source syntax with and without a list of "
              "features, span sizes, context templates, source path), in the first or second pass and with every search strategy; the whole list of "
              "derivations is compared with their definitions. Non-trivial: at least two derivations of a sentence.",
              py=[Suite("source", gen, check)], programs=["cdec"], quick=50, thorough=900)
