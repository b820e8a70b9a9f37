"""D08: compound splitting considers every segmentation with its features, and writes them as a lattice."""
import ast
import math
import os
import random
import re
import struct
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *  # noqa
from scfg import *  # noqa
from lm import gen_lm
from D01 import check_kbest, parse_kbest, TOL
from D04 import judge, plf_text

FRAG = ["s", "es", "en", "n", "e", "sch", "ch", "ie", "zw", "a", "b", "ü", "ß", "中", "e", "s", "nen", "ses", "'", "-"]


def gen(g):
    frag = FRAG[:-2] if not g.chance(1, 6) else FRAG
    words = []
    for _ in range(g.weighted([(3, 1), (3, 2), (1, 4)])):
        w = ""
        for _ in range(g.int(1, 8)):
            w += g.pick(frag)
        words.append(w[:13])
    allsub = sorted({w[i:j] for w in words for i in range(len(w)) for j in range(i + 1, len(w) + 1)}, key=lambda x: (-len(x), x))
    ff = None
    if not g.chance(1, 5):
        d = [[g.pick(allsub), g.pick([0.5, 3.0, 6.5, 7.0, 7.5, 8.0, 8.5, 9.5, 10.0, 11.0, 14.25])] for _ in range(g.int(1, 8))]
        ff = {"dict": d, "bad": [g.pick(allsub) for _ in range(g.int(0, 4))] if g.flip() else None, "special": None,
              "comment": g.chance(1, 8), "nl": not g.chance(1, 4)}
        if ff["bad"] is not None and g.flip():
            ff["special"] = [g.pick(allsub) for _ in range(g.int(0, 4))]
    lm = None
    if g.chance(1, 3):
        m = gen_lm(g, sorted({c for w in words for c in w}))
        lm = m.arpa()
    mode = g.weighted([(4, "plain"), (4, "plf"), (2, "kbest"), (2, "cond"), (2, "grad"), (1, "exp")])
    return {"words": words, "ff": ff, "lm": lm, "lmp": [[list(k), v[0], v[1]] for k, v in m.ng.items()] if lm else None, "order": m.order if lm else 0,
            "mode": mode, "beam": g.weighted([(2, None), (2, g.int(1, 40) / 8)]), "density": g.weighted([(3, None), (1, 1 + g.draw(16) / 8)]),
            "full": g.flip(), "k": g.weighted([(3, 1000), (1, 3), (1, 1)]), "combine": 1, "b64": g.flip(), "unique": False, "wseed": g.draw(1 << 16),
            "refs": [[g.draw(1 << 10) for _ in range(g.weighted([(3, 1), (1, 2)]))] for _ in words]}


def arcs(word):
    """all segments: (start, end, source text, output, own features)"""
    n = len(word)
    pos = [0] + list(range(3, n - 2)) + [n]
    out = []
    for i in pos[:-1]:
        for j in pos:
            if j < min(i + 3, n) or j <= i:
                continue
            s = word[i:j]
            out.append((i, j, s, s, {}))
            if j < n:
                b = len(s.encode())
                if b > 5 and s.endswith("es"):
                    out.append((i, j, s, s[:-2], {"FugS": 1.0}))
                elif b > 4 and s.endswith("s"):
                    out.append((i, j, s, s[:-1], {"FugS": 1.0}))
                elif b > 5 and s.endswith("en"):
                    out.append((i, j, s, s[:-1], {"FugN": 1.0}))
    return out


def f32(x):
    """frequencies are single precision"""
    return struct.unpack("f", struct.pack("f", x))[0]


def features(word, a, case):
    i, j, s, t, f = a
    f = dict(f)
    n = len(word)
    ff = case["ff"]
    if ff:
        sub = i > 0 or j < n
        f["LenBias_%d" % min(9, int(math.log(n) / math.log(1.69)))] = 1.0
        f["WordCount"] = 1.0
        f["LettersSq"] = float((j - i) ** 2)
        f["LettersLog"] = math.log(j - i)
        f["LettersSqrt"] = math.sqrt(j - i)
        c = len(t)
        if "sch" in t:
            c -= 2
        elif "ch" in t:
            c -= 1
        c -= ("ie" in t) + ("zw" in t)
        fr = {}
        for x, v in ff["dict"]:
            fr[x] = v
        v = fr.get(t, 0)
        if v:
            f["LogFreq"] = v
            f["LogLogFreq"] = f32(math.log(v)) / math.log(1.69)
            f["InDict"] = 1.0
            if sub:
                f["InDictSubWord"] = 1.0
        else:
            f["OOV"] = 1.0
            f["OOVSubWord" if sub else "InDictFullWord"] = 1.0
            v = 99.0
        if t in (ff["special"] or []):
            f["CS:" + t] = 1.0
        if t in (ff["bad"] or []):
            f["Bad"] = 1.0
        if c < 5:
            f["Short"] = 1.0
        if c > 10:
            f["Long"] = 1.0
        if v < 7:
            f["HighFreq"] = 1.0
        if 8 < v < 10:
            f["MedFreq"] = 1.0
        if v < 10 and c < 5:
            f["ShortRange"] = 1.0
        if c <= 0:
            raise Discard("no letters are left")
        f["FreqLen1"] = f32(math.sqrt(c * v))
        f["FreqLen2"] = f32(v / c)
    if case["lm"]:
        from lm import LM
        m = LM(case["order"], {tuple(k): (p, b) for k, p, b in case["lmp"]})
        ctx = ["<s>"] + list(reversed(word[i:min(n, i + case["order"] - 1)]))
        f["RevCharLM"] = m.score(ctx, "</s>")[0]
    return f


def segmentations(word, al, cap=1500):
    by = {}
    for x, a in enumerate(al):
        by.setdefault(a[0], []).append(x)
    out = []

    def go(p, seq):
        if p == len(word):
            if len(out) > cap:
                raise Discard("too many segmentations")
            out.append(seq)
            return
        for x in by.get(p, []):
            go(al[x][1], seq + [x])
    go(0, [])
    return out


def check(case, ctx):
    mode, rnd = case["mode"], random.Random(case["wseed"])
    ws, models, text = [], [], ""
    names = set()
    for word, picks in zip(case["words"], case["refs"]):
        al = arcs(word)
        fs = [features(word, a, case) for a in al]
        for f in fs:
            names |= set(f)
        segs = segmentations(word, al)
        ds = []
        for seq in segs:
            f = {}
            for x in seq:
                f = add(f, fs[x])
            ds.append((("#",) + tuple(al[x][3] for x in seq), f, tuple(seq)))
        cs = []
        if mode in ("kbest", "cond", "grad", "exp"):
            refs = [ds[p % len(ds)][0] for p in picks]
            if len(refs) > 1:
                # a lattice of the alternatives: the words they share at the start are shared
                a, b = refs[0], refs[1]
                if len(a) != len(b) or a == b:
                    refs = refs[:1]
            if len(refs) == 1:
                allowed = {refs[0]}
                line = " ".join(refs[0])
            else:
                cols = [list(dict.fromkeys(c)) for c in zip(*refs)]
                import itertools
                allowed = set(itertools.product(*cols))
                line = plf_text([[[x, {}, 1] for x in c] for c in cols])
                ctx.count("reference lattice")
            for y, f, seq in ds:
                if y in allowed:
                    cs.append((("#",) + tuple(al[x][2] for x in seq), f, (frozenset(), y)))
            text += word + " ||| " + line + "\n"
        else:
            text += word + "\n"
        models.append((ds, cs, False, [word]))
        ws.append((word, al, fs))
    w = {k: rnd.randrange(-16, 17) / 8 for k in sorted(names)}
    case = dict(case, w=w)
    args = options(case, ctx, w)
    ctx.count(mode)
    if mode == "plain":
        rc, out, err = ctx.run("cdec", args + ["-k", case["k"]], text)
        kb = parse_kbest(out)
        for i, (ds, _, _, _) in enumerate(models):
            check_kbest(kb.get(i, []), ds, w, case["k"], False, ctx)
            if len(ds) > 1:
                ctx.nontrivial()
        return
    if mode == "plf":
        prune = case["beam"] is not None or case["density"] is not None
        args.append("--csplit_output_plf")
        if case["beam"] is not None:
            args += ["--beam_prune", case["beam"]]
        if case["density"] is not None:
            args += ["--density_prune", case["density"]]
        if prune and case["full"]:
            args.append("--csplit_preserve_full_word")
        rc, out, err = ctx.run("cdec", args, text)
        lines = out.splitlines()
        check_that(len(lines) == len(ws), f"{len(lines)} lattices for {len(ws)} words:\n{out}")
        for line, (word, al, fs), (ds, _, _, _) in zip(lines, ws, models):
            judge_lattice(case, ctx, line, word, al, fs, ds, w)
        return
    if mode == "kbest":
        args += ["-k", case["k"]]
    elif mode == "cond":
        args.append("--show_conditional_prob")
    else:
        args += ["--cll_gradient" if mode == "grad" else "--feature_expectations", "--vector_format", "b64" if case["b64"] else "text"]
    judge(case, ctx, args, text, models)


def gen_long(g):
    case = gen(g)
    case["words"] = ["".join(g.pick(FRAG[:-2]) for _ in range(g.int(8, 60)))[:g.pick([20, 40, 60, 120])] for _ in range(g.weighted([(3, 1), (1, 2)]))]
    if case["lm"]:
        m = gen_lm(g, sorted({c for w in case["words"] for c in w}))
        case["lm"], case["lmp"], case["order"] = m.arpa(), [[list(k), v[0], v[1]] for k, v in m.ng.items()], m.order
    if case["ff"]:
        w = case["words"][0]
        for x in case["ff"]["dict"]:
            i = g.draw(len(w) - 3)
            x[0] = w[i:i + g.int(3, 12)]
    return case


def check_long(case, ctx):
    """Sums over all segmentations of long words, position by position."""
    rnd = random.Random(case["wseed"])
    ws, names = [], set()
    for word in case["words"]:
        al = arcs(word)
        fs = [features(word, a, case) for a in al]
        for f in fs:
            names |= set(f)
        ws.append((word, al, fs))
    w = {k: rnd.randrange(-16, 17) / 8 for k in sorted(names)}
    args = options(case, ctx, w)
    rc, out, err = ctx.run("cdec", args + ["-k", 1], "".join(x + "\n" for x in case["words"]))
    kb = parse_kbest(out)
    parts = err.split("INPUT: ")[1:]
    check_that(len(parts) == len(ws), lambda: f"{len(parts)} words split\n{err[-500:]}")
    for i, (word, al, fs) in enumerate(ws):
        n = len(word)
        cnt, z, best = [1] + [0] * n, [[] for _ in range(n + 1)], [[] for _ in range(n + 1)]
        z[0], best[0] = [0.0], [0.0]
        for j in range(n + 1):
            z[j] = logsumexp(z[j]) if z[j] else None
            best[j] = max(best[j]) if best[j] else None
            if not cnt[j]:
                continue
            for a, f in zip(al, fs):
                if a[0] == j:
                    v = dot(f, w)
                    cnt[a[1]] += cnt[j]
                    z[a[1]].append(z[j] + v)
                    best[a[1]].append(best[j] + v)
        m = re.search(r"Init\. forest\s+\(paths\): (\S+)", parts[i])
        check_that(m and near(float(m.group(1)), cnt[n], TOL), lambda: f"{word}: {m and m.group(1)} segmentations, there are {cnt[n]}")
        m = re.findall(r"[Pp]artition\s+log\(Z\): (\S+)", parts[i])
        check_that(m and near(float(m[-1]), z[n], TOL), lambda: f"{word}: log Z {m}, sum over segmentations {z[n]}")
        k = kb.get(i, [])
        check_that(len(k) == 1 and near(k[0][2], best[n], TOL), lambda: f"{word}: best segmentation {k}, the best score is {best[n]}")
        if cnt[n] > 100:
            ctx.nontrivial()
        ctx.count("long word, segmentations<=%d" % next(x for x in (1, 100, 10 ** 6, 10 ** 12, 10 ** 99) if cnt[n] <= x))


def options(case, ctx, w):
    args = ["-f", "csplit", "-w", ctx.write("w", weights_text(w)), "-z", "--intersection_strategy", "full"]
    ff = case["ff"]
    if ff:
        t = "".join("%s %s\n" % (x, num(v)) for x, v in ff["dict"])
        p = [ctx.write("dict", ("#comment " if ff["comment"] else "") + (t if ff["nl"] else t[:-1]))]
        for k in ("bad", "special"):
            if ff[k] is not None:
                p.append(ctx.write(k, "".join(x + "\n" for x in ff[k])))
        args += ["-F", "CSplit_BasicFeatures " + " ".join(p)]
        ctx.count("basic features, %d files" % len(p))
    if case["lm"]:
        args += ["-F", "CSplit_ReverseCharLM " + ctx.write("lm.arpa", case["lm"])]
        ctx.count("character language model")
    return args


def judge_lattice(case, ctx, line, word, al, fs, ds, w):
    sc = [dot(f, w) for f in fs]
    tot = [sum(sc[x] for x in seq) for _, _, seq in ds]
    best = max(tot)
    mm = [max(t for t, d in zip(tot, ds) if x in d[2]) - best for x in range(len(al))]
    cut = -math.inf
    if case["beam"] is not None:
        cut = -case["beam"]
    if case["density"] is not None:
        lens = {len(d[2]) for t, d in zip(tot, ds) if t > best - 1e-6}
        if len(lens) > 1:
            raise Discard("best segmentations of different lengths")
        # the start and the end count as edges
        r = int(case["density"] * (lens.pop() + 2))
        e = sorted(mm + [0.0, 0.0], reverse=True)
        if r < len(e):
            cut = max(cut, e[r])
            ctx.count("density")
    full = next(x for x, a in enumerate(al) if a[0] == 0 and a[1] == len(word))
    if any(abs(m - cut) < 1e-5 * (1 + abs(cut)) for x, m in enumerate(mm)) and cut > -math.inf:
        # an edge exactly at the limit may go or stay
        if case["density"] is None or sum(abs(m - cut) < 1e-5 * (1 + abs(cut)) for m in mm) > 1 or case["beam"] is not None:
            raise Discard("a segment at the limit")
    prune = case["beam"] is not None or case["density"] is not None
    got = ast.literal_eval("(" + line + ")") if line != "()" else ()
    opts = []
    for eps in (1e-5, -1e-5):
        ks = [x for x in range(len(al)) if mm[x] > cut + eps * (1 + abs(cut) if cut > -math.inf else 1) or (prune and case["full"] and x == full)]
        # segments that are left without a start or an end go as well
        while True:
            reach = {0} | {al[x][1] for x in ks}
            back = {len(word)} | {al[x][0] for x in ks}
            k2 = [x for x in ks if al[x][0] in reach and al[x][1] in back]
            if k2 == ks:
                break
            ks = k2
        ks = set(ks)
        opts.append((len(ks), sorted((d[0][1:], tuple(sc[x] for x in d[2])) for d in ds if ks.issuperset(d[2]))))
    paths = []

    def go(p, y, s):
        if p == len(got):
            paths.append((y, s))
            check_that(len(paths) <= len(ds), lambda: f"{word}: the lattice has more than {len(ds)} paths: {line}")
            return
        check_that(p < len(got), lambda: f"{word}: an arc leaves the lattice {line}")
        for l, v, d in got[p]:
            check_that(d > 0, lambda: f"{word}: an arc of length {d} in {line}")
            go(p + d, y + (l,), s + (v,))
    go(0, (), ())
    paths.sort()

    def same(want):
        left = {}
        for y, s in paths:
            left.setdefault(y, []).append(s)
        for y, s in want:
            h = next((x for x in left.get(y, []) if all(near(a, b, TOL) for a, b in zip(x, s))), None)
            if h is None:
                return False
            left[y].remove(h)
        return len(want) == len(paths)
    check_that(any(same(o[1]) for o in opts), lambda: f"{word}: lattice {line}\nexpected {opts[0][1]}")
    if opts[0][0] > 1:
        ctx.nontrivial()
    if opts[0][0] < len(al):
        ctx.count("pruned")


if __name__ == "__main__":
    run_check("D08", "Random words (several scripts, linking elements, digraphs), frequency lists, bad and special words, character language models, "
              "weights, pruning limits and references; every segmentation is enumerated. Non-trivial: more than one segment or segmentation possible.",
              py=[Suite("split", gen, check, 3), Suite("long", gen_long, check_long, 1)], programs=["cdec"], quick=20, thorough=600)
