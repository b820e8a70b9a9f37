"""D07: linear-chain models: tagging, lexical translation and word alignment with their features."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *  # noqa
from scfg import *  # noqa
from D01 import check_kbest, parse_kbest, TOL
from D04 import judge

SW = ["a", "b", "c", "x", "long"]
TW = ["A", "B", "C", "x", "long"]
ODD = ["=", ";", ",", "é"]


def gen_lines(g, sents, vocab):
    return [[g.pick(vocab) for _ in s["src"]] for s in sents]


def gen_jump(g, sents):
    o = g.subset(["use_binned_log_lengths", "flen", "elen"])
    c = g.subset(["f0", "f-1", "f+1", "fprev"]) if g.flip() else []
    return {"n": "NewJump", "o": o + c, "file": gen_lines(g, sents, ["P", "Q"]) if c else None}


def gen_feature(g, kind, sents, src, trg):
    k = g.weighted([(2, "LexicalPairIndicator"), (2, "OutputIndicator"), (2, "InputIndicator"),
                    (2, "WordPairFeatures"), (1, "LexicalTranslationTrigger"), (2, "IdentityCycleDetector")]
                   + ([(4, "NewJump"), (3, "LexNullJump"), (3, "SourceBigram"), (2, "RelativeSentencePosition")] if kind != "tagger" else [(5, "Tagger_BigramIndicator")]))
    if k == "NewJump":
        return gen_jump(g, sents)
    d = {"n": k}
    if k == "Tagger_BigramIndicator":
        d["nouni"] = g.weighted([(6, ""), (1, "no_uni"), (1, "NO_UNI")])
    elif k == "WordPairFeatures":
        d["table"] = [[f, e, {g.pick(["wp1", "wp2"]): g.grid(8)}] for f in src + ["<eps>"] for e in g.subset(trg, 2, 3)]
    elif k == "LexicalTranslationTrigger":
        d["file"] = [[g.pick(["T1", "T2", "T3", "T4", "T5"]) for _ in range(g.int(0, 5))] for _ in sents]
    elif k == "IdentityCycleDetector":
        d["min"] = g.weighted([(2, None), (1, 1), (1, 0), (1, 4)])
    elif k == "RelativeSentencePosition":
        d["file"] = gen_lines(g, sents, ["P", "Q"]) if g.flip() else None
    elif k in ("SourceBigram", "LexicalPairIndicator"):
        if g.chance(1, 3):
            d["name"] = "Nm"
            d["file"] = gen_lines(g, sents, ["P", "Q", ","]) if k == "SourceBigram" or g.flip() else None
            if k == "LexicalPairIndicator":
                d["map"] = {w: g.pick(["m1", "m2", ";"]) for w in trg if g.chance(2, 3)} if g.flip() else None
    return d


def gen(g):
    kind = g.weighted([(2, "tagger"), (4, "lextrans"), (3, "lexalign")])
    odd = g.chance(1, 8)
    src = (ODD if odd else SW)[:g.int(1, 4 if odd else 5)]
    trg = (ODD if odd else TW)[:g.int(1, 4 if odd else 5)]
    if kind == "tagger":
        trg = g.shuffle(TW if not odd else ODD)[:g.int(1, 4)]
    sents = []
    for _ in range(g.weighted([(3, 1), (3, 2), (1, 3)])):
        n = g.weighted([(3, 2), (3, 3), (2, 1), (2, 4)])
        if g.chance(1, 12):
            n = g.int(5, 12)
        m = n if kind == "tagger" else g.weighted([(3, 2), (3, 3), (2, 1), (1, 4)]) if n < 5 else g.weighted([(2, 1), (2, 2), (1, 3)])
        sents.append({"src": [g.pick(src) for _ in range(n)], "ref": [g.pick(trg + (["ZZ"] if g.chance(1, 12) else [])) for _ in range(m)]})
    null = kind == "lextrans" and g.flip()  # lexalign cannot be told to use null words
    table = []
    for f in src + (["<eps>"] if null else []):
        for e in trg:
            for _ in range(g.weighted([(5, 1), (1, 0), (1, 2)])):
                table.append([f, e, gen_feats(g, 2)])
    psg = None
    if kind == "lextrans" and g.chance(1, 5):
        psg = [[[f, e, gen_feats(g, 2)] for f in src for e in g.subset(trg, 2, 3)] for _ in sents]
    feats, seen = [], set()
    for _ in range(g.weighted([(2, 0), (4, 1), (3, 2), (1, 3)])):
        d = gen_feature(g, kind, sents, src, trg)
        if d["n"] not in seen:
            seen.add(d["n"])
            feats.append(d)
    mode = g.weighted([(3, "kbest"), (2, "cond"), (3, "grad"), (2, "exp")] + ([(4, "align"), (2, "alignk")] if kind != "tagger" else [(3, "plain")]))
    return {"kind": kind, "sents": sents, "null": null, "table": table, "tags": trg, "psg": psg, "feats": feats, "mode": mode, "only": g.chance(1, 3),
            "k": g.weighted([(3, 1000), (1, 3), (1, 1)]), "combine": g.weighted([(2, 1), (1, 2)]), "b64": g.flip(), "unique": False,
            "wseed": g.draw(1 << 16)}


def esc(s):
    return s.replace("=", "_").replace(";", "_")


ESC3 = {"=": "__EQ", ";": "__SC", ",": "__CO"}


def binned(n):
    return min(16, int(math.log(n + 1) / math.log(1.3)))


def chain_features(d, si, s, path, out, only_rules):
    """path: one (source position or -1, source word, target word, rule features) per target position."""
    n, m = len(s["src"]), len(path)
    k = d["n"]

    def fire(x, v=1.0):
        out[x] = out.get(x, 0.0) + v
    if k == "Tagger_BigramIndicator":
        if not d["nouni"]:
            for p in path:
                fire(esc("Uni:" + p[2]))
        for i in range(1, m):
            fire(esc("Bi:%s_%s" % (path[i - 1][2], path[i][2])))
        if m > 1:
            fire(esc("Bi:BOS_" + path[0][2]))
            fire(esc("Bi:%s_EOS" % path[-1][2]))
    elif k == "LexicalPairIndicator":
        for j, f, e, _ in path:
            sf = "<eps>" if j < 0 else ESC3.get((d.get("file") or {si: s["src"]})[si][j], (d.get("file") or {si: s["src"]})[si][j])
            if d.get("map"):
                te = ESC3.get(d["map"][e], d["map"][e]) if e in d["map"] else e
            else:
                te = ESC3.get(e, e)
            fire(esc("%s:%s:%s" % (d.get("name", "Id"), sf, te)))
    elif k == "OutputIndicator":
        for p in path:
            fire(esc("T:" + ESC3.get(p[2], p[2])))
    elif k == "InputIndicator":
        for p in path:
            fire("S:" + ESC3.get(p[1], p[1]))
    elif k == "WordPairFeatures":
        t = {}
        for f, e, v in d["table"]:
            t.setdefault((f, e), {}).update(v)
        for p in path:
            for x, v in t.get((p[1], p[2]), {}).items():
                fire(x, v)
    elif k == "LexicalTranslationTrigger":
        for p in path:
            for t in sorted(set(d["file"][si])):
                fire("T:%s:%s_%s" % (t, p[1], p[2]))
                fire("TT:%s:%s" % (t, p[2]))
    elif k == "IdentityCycleDetector":
        lim = 3 if d["min"] is None else d["min"]
        same = [p[1] == p[2] and len(p[2].encode()) >= lim for p in path]
        for i in range(1, m):
            if path[i - 1][0] == path[i][0] and same[i - 1] != same[i]:
                fire("IdentityCycle_LenGT%d" % lim)
    elif k == "RelativeSentencePosition":
        for i, p in enumerate(path):
            if p[0] >= 0:
                v = abs(p[0] / n - i / m)
                fire("RelativeSentencePosition", v)
                if d["file"]:
                    fire("RelPos_FC:" + d["file"][si][p[0]], v)
    elif k == "LexNullJump":
        for i in range(1, m):
            a, b = ["Null" if path[x][0] < 0 else "Lex" for x in (i - 1, i)]
            fire("Jump" + a + b)
    elif k == "SourceBigram":
        line = d["file"][si] if d.get("file") else s["src"]
        ws = ["<eps>" if p[0] < 0 else ESC3.get(line[p[0]], line[p[0]]) for p in path]
        pre = d.get("name", "SB") + ":"
        for a, b in zip(["BOS"] + ws, ws + ["EOS"]):
            fire("%s%s_%s" % (pre, a, b))
    elif k == "NewJump":
        o = d["o"]
        pre = "J" + "".join(c for f, c in (("flen", "F"), ("elen", "E"), ("f0", "C"), ("f-1", "L"), ("f+1", "R"), ("fprev", "P")) if f in o)
        trans = []
        pos = [p[0] for p in path]
        if pos[0] >= 0:
            trans.append((-1, pos[0]))
        if m > 1 and pos[-1] >= 0:
            trans.append((pos[-1], n))
        trans += [(a, b) for a, b in zip(pos, pos[1:]) if a >= 0 and b >= 0]
        bl = binned if "use_binned_log_lengths" in o else (lambda x: x)
        line = d["file"][si] if d["file"] else None

        def word(i):
            return "BOS" if i < 0 else "EOS" if i >= n else line[i]
        for a, b in trans:
            x = "%s:%s%d" % (pre, "R" if b > a else "S" if a == b else "L", bl(abs(b - a)))
            if "flen" in o:
                x += ":%d" % bl(n)
            if "elen" in o:
                x += ":%d" % bl(m)
            for f, i in (("f0", b), ("f-1", b - 1), ("f+1", b + 1), ("fprev", a)):
                if f in o:
                    x += ":" + word(i)
            fire(x)
    else:
        raise AssertionError(k)


def lexicon(case, si, f):
    rows = [r for r in case["table"] if r[0] == f]
    return rows or [r for r in (case["psg"][si] if case["psg"] else []) if r[0] == f]


def paths(case, si, s):
    """Per target position, the ways to produce a word there: (source position, source word, target word, features)."""
    n, m = len(s["src"]), len(s["ref"])
    if case["kind"] == "tagger":
        return [[(i, s["src"][i], t, {}) for t in case["tags"]] for i in range(n)]
    js = ([-1] if case["null"] else []) + list(range(n))
    cols = []
    for i in range(m):
        col = []
        for j in js:
            f = "<eps>" if j < 0 else s["src"][j]
            if case["kind"] == "lexalign":
                e = s["ref"][i]
                x = "Lx:%s_%s" % (fdesc(f), fdesc(e))
                col.append((j, f, e, {x: 1.0}))
            else:
                for a, b, v in lexicon(case, si, f):
                    if (not case["only"] or b in s["ref"]):
                        col.append((j, f, b, v))
        cols.append(col)
    return cols


def row(f, e, feats):
    return "%s ||| %s ||| %s\n" % (f, e, " ".join("%s=%s" % (k, num(v)) for k, v in feats.items()))


def fdesc(s):
    """the escaped form of a word in a feature name"""
    return "".join("%%%02X" % ord(c) if c in "=:;,_|%" else c for c in s)


def check(case, ctx):
    import itertools
    import random
    mode = case["mode"]
    models, text, extra = [], "", ""
    has_ref = mode != "plain"
    allf = set()
    for si, s in enumerate(case["sents"]):
        cols = paths(case, si, s)
        size = 1
        for c in cols:
            size *= len(c)
        if size > 2500:
            raise Discard("too many derivations")
        miss = case["kind"] == "lextrans" and any(not lexicon(case, si, f) for f in s["src"] + (["<eps>"] if case["null"] else []))
        if not miss and not all(cols):
            raise Discard("no translation is left")
        ds = []
        if not miss:
            for path in itertools.product(*cols):
                f = {}
                for p in path:
                    for k, v in p[3].items():
                        f[k] = f.get(k, 0.0) + v
                for d in case["feats"]:
                    chain_features(d, si, s, path, f, False)
                ds.append((tuple(p[2] for p in path), f, path))
        cs = [(tuple(p[1] for p in path), f, (frozenset((p[0], i) for i, p in enumerate(path)), y, s["src"])) for y, f, path in ds if y == tuple(s["ref"])]
        models.append((ds, cs, True, s["src"]))
        for _, f, _ in ds:
            allf |= set(f)
        line = " ".join(s["src"]) + (" ||| " + " ".join(s["ref"]) if has_ref else "")
        if case["psg"]:
            line = '<seg id="%d" psg="@%d"> %s </seg>' % (si, len(extra.encode()), line)
            extra += "".join(row(*r) for r in case["psg"][si]) + "###EOS###\n"
        text += line + "\n"
    rnd = random.Random(case["wseed"])
    w = {}
    for k in sorted(allf):
        w[k] = rnd.randrange(-16, 17) / 8
    case = dict(case, w=w)
    args = ["-f", case["kind"], "-w", ctx.write("w", weights_text({k: v for k, v in w.items() if "=" not in k})), "-z", "--intersection_strategy", "full"]
    if any("=" in k for k in w):
        raise Discard("unwritable feature name")
    if case["kind"] == "lextrans":
        args += ["-g", ctx.write("g", "".join(row(*r) for r in case["table"]))]
        if case["psg"]:
            args += ["--per_sentence_grammar_file", ctx.write("psg", extra)]
            ctx.count("per-sentence lexicon")
        if case["only"]:
            args.append("--lextrans_align_only")
    if case["null"]:
        args.append("--lextrans_use_null")
    if case["kind"] == "tagger":
        args += ["--tagger_tagset", ctx.write("tags", " ".join(case["tags"]) + "\n")]
    for i, d in enumerate(case["feats"]):
        x = d["n"]

        def lines(name):
            return ctx.write("%s%d" % (name, i), "".join(" ".join(l) + "\n" for l in d["file"])) if d.get("file") else "*"
        if x == "NewJump":
            p = d["o"] + (["f:" + lines("nj")] if d["file"] else [])
        elif x == "Tagger_BigramIndicator":
            p = [d["nouni"]] if d["nouni"] else []
        elif x == "WordPairFeatures":
            t = sorted(d["table"], key=lambda r: r[0])
            if ({y for z in case["sents"] for y in z["src"]} | ({"<eps>"} if case["null"] else set())) - {r[0] for r in t}:
                raise Discard("the word pair table has no entry for a source word")
            p = [ctx.write("wp%d" % i, "".join(row(*r) for r in t))]
        elif x == "LexicalTranslationTrigger":
            p = [lines("tr")]
        elif x == "IdentityCycleDetector":
            p = [] if d["min"] is None else [str(d["min"])]
        elif x == "RelativeSentencePosition":
            p = [lines("rp")] if d["file"] else []
        elif x == "SourceBigram":
            p = [d["name"], lines("sb")] if d.get("name") else []
        elif x == "LexicalPairIndicator":
            mp = ctx.write("map%d" % i, "".join("%s %s\n" % kv for kv in sorted(d["map"].items()))) if d.get("map") else "*"
            p = [d["name"], lines("lp"), mp] if d.get("name") else []
        else:
            p = []
        args += ["-F", " ".join([x] + [str(y) for y in p])]
        ctx.count(x)
    if mode in ("kbest", "alignk", "plain"):
        args += ["-k", case["k"]]
    if mode == "cond":
        args.append("--show_conditional_prob")
    if mode in ("grad", "exp"):
        args += ["--cll_gradient" if mode == "grad" else "--feature_expectations", "--vector_format", "b64" if case["b64"] else "text",
                 "--combine_size", case["combine"]]
    if mode in ("align", "alignk"):
        args.append("--aligner")
    if mode == "alignk":
        args.append("--aligner_use_viterbi")
    ctx.count(case["kind"])
    if mode == "plain":
        rc, out, err = ctx.run("cdec", args, text)
        kb = parse_kbest(out)
        for i, (ds, _, _, _) in enumerate(models):
            check_kbest(kb.get(i, []), ds, w, case["k"], False, ctx)
            if len(ds) > 1:
                ctx.nontrivial()
        return
    judge(case, ctx, args, text, models)


if __name__ == "__main__":
    run_check("D07", "Random lexicons, tag sets, sentence pairs, alignment and tagging features with files and options, weights; every labelling "
              "or alignment is enumerated. Non-trivial: at least two derivations of a reference (or labellings of a sentence).",
              py=[Suite("chain", gen, check)], programs=["cdec"], quick=25, thorough=900)
