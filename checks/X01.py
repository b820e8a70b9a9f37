#!/usr/bin/env python3
"""X01: grammars extracted from the suffix array against a declarative reference of hierarchical phrase extraction."""
import gzip
import math
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa

NULL = "__NULL__"
FEATS = ["EgivenFCoherent", "SampleCountF", "CountEF", "MaxLexFgivenE", "MaxLexEgivenF", "IsSingletonF", "IsSingletonFE"]


def gen(g):
    sw = ["a", "b", "c", "d", "e", "f", "\u00e9", "10-5", "X"][:g.pick([1, 2, 3, 5, 9])]
    tw = ["A", "B", "C", "D", "E", "[F]", "<s>"][:g.pick([1, 2, 4, 7])]
    if g.chance(1, 3) and len(sw) > 1:  # a few words are much more frequent
        sw = sw[:1] * g.int(2, 4) + sw[1:2] * 2 + sw[1:]
    loose = g.chance(1, 4)
    n = g.int(1, 4) if g.flip() else g.int(3, 14)
    corpus = []
    for _ in range(n):
        if corpus and g.chance(1, 6):
            corpus.append(corpus[g.draw(len(corpus))])
            continue
        top = 6 if loose else 10
        ls, lt = g.int(1, top), g.int(1, top)
        if g.chance(1, 25):
            ls = 0
        if g.chance(1, 25):
            lt = 0
        s = [g.pick(sw) for _ in range(ls)]
        if s and g.chance(1, 12):
            s[0] = "<s>"
        t = [g.pick(tw) for _ in range(lt)]
        links = []
        kind = g.draw(4)
        if ls and lt:
            if kind == 0:    # mostly monotone
                for i in range(ls):
                    if g.chance(5, 6):
                        j = min(lt - 1, max(0, i * lt // ls + g.int(-1, 1)))
                        links.append([i, j])
            elif kind == 1:  # blocks in a random order
                p = g.shuffle(range(min(ls, lt)))
                for i, j in enumerate(p):
                    if g.chance(7, 8):
                        links.append([i, j])
            elif kind == 2:
                for i in range(ls):
                    for j in range(lt):
                        if g.chance(1, max(4, ls)):
                            links.append([i, j])
            else:            # inverted
                for i in range(ls):
                    if g.chance(4, 5):
                        links.append([i, max(0, lt - 1 - i)])
        if g.chance(1, 3):
            links = g.shuffle(links)
        uniq = []
        for x in links:
            if x not in uniq:
                uniq.append(x)
        corpus.append([s, t, uniq])
    loo = g.chance(1, 4)
    if loo:
        tests = [list(c[0]) for c in corpus][:6]
    else:
        tests = []
        for _ in range(g.int(1, 3)):
            if g.flip() and corpus:
                w = list(corpus[g.draw(len(corpus))][0])
                if w and g.flip():
                    w[g.draw(len(w))] = g.pick(sw + ["unk"])
            else:
                w = [g.pick(sw + ["unk"] if g.chance(1, 6) else sw) for _ in range(g.count(0, 9))]
            tests.append(w)
    span = g.weighted([(3, 15), (1, 10), (1, 8), (1, 6), (1, 5), (1, 4)])
    case = {"corpus": corpus, "tests": tests, "loo": loo, "loose": loose, "span": span, "symbols": min(span, g.pick([5, 5, 5, 3, 4, 6, 2, 1])),
            "gap": g.weighted([(4, 1), (1, 2), (1, 3)]), "nt": g.weighted([(5, 2), (1, 1), (1, 0), (3, 3)]),
            "samples": g.weighted([(5, 300), (1, 1), (1, 2), (1, 3), (1, 5)]),
            "frequent": g.pick([100, 0, 3, 10, 30]), "super": g.pick([10, 0, 2, 5, 30, 1, 3]), "minfreq": g.pick([1000, 2, 1, 3, 4]), "plen": g.pick([4, 1, 2, 3]),
            "threads": g.weighted([(4, 1), (1, 2), (1, 4)]), "gz": g.chance(1, 5), "bitext": g.flip(), "suffix": g.chance(1, 5), "one": g.chance(1, 6)}
    return case


# ------------------------------------------------------------ reference

def hull(pairs):
    pairs = [p for p in pairs if p is not None]
    return (min(p[0] for p in pairs), max(p[1] for p in pairs)) if pairs else None


class Sent:
    def __init__(self, s, t, links):
        self.s, self.t, self.links = s, t, [tuple(x) for x in links]
        self.fwd = [[j for i, j in self.links if i == k] for k in range(len(s))]
        self.bwd = [[i for i, j in self.links if j == k] for k in range(len(t))]

    def proj(self, a, b, back=False):
        m = self.bwd if back else self.fwd
        x = [j for i in range(a, b) for j in m[i]]
        return (min(x), max(x) + 1) if x else None

    def consistent(self, a, b):
        """The target span of [a,b) when no link leaves the block."""
        t = self.proj(a, b)
        if t is None:
            return None
        r = self.proj(t[0], t[1], True)
        return t if r[0] >= a and r[1] <= b else None


def occurrences(case, pattern):
    """pattern: list of chunks (lists of words) -> [(sentence, [start of each chunk])]"""
    gap, span = case["gap"], case["span"]
    res = []
    for k, (s, _, _) in enumerate(case["corpus"]):
        def rec(c, starts):
            if c == len(pattern):
                res.append((k, list(starts)))
                return
            ch = pattern[c]
            lo = 0 if c == 0 else starts[-1] + len(pattern[c - 1]) + gap
            for p in range(lo, len(s) - len(ch) + 1):
                if c and p + len(ch) - starts[0] > span:
                    break
                if s[p:p + len(ch)] == ch:
                    rec(c + 1, starts + [p])
        rec(0, [])
    return res


def instances(case, sent, pattern, starts):
    """All (lead X?, trail X?, source span, gaps, target span) of one occurrence."""
    tight, gap, span, maxnt, maxsym = not case["loose"], case["gap"], case["span"], case["nt"], case["symbols"]
    n = len(sent.s)
    aligned = [bool(x) for x in sent.fwd]
    ends = [p + len(c) for p, c in zip(starts, pattern)]
    if not any(aligned[i] for p, e in zip(starts, ends) for i in range(p, e)):
        return []
    inner = [(ends[i], starts[i + 1]) for i in range(len(pattern) - 1)]
    if tight and any(not aligned[a] or not aligned[b - 1] for a, b in inner):
        return []
    lo, hi = starts[0], ends[-1]
    t = sent.proj(lo, hi)
    if t[1] - t[0] > span:
        return []
    r = hull([sent.proj(t[0], t[1], True), (lo, hi)])
    blo, bhi = r
    if r != (lo, hi):
        # the words aligned into the block's target span become gaps at its ends
        if (blo < lo) + (bhi > hi) > maxnt - len(pattern) + 1:
            return []
        if blo < lo:
            blo = min(blo, lo - gap)
        if bhi > hi:
            bhi = max(bhi, hi + gap)
        if blo < 0 or bhi > n or bhi - blo > span:
            return []
        if sent.proj(blo, bhi) != t:
            return []
    nsym = sum(map(len, pattern)) + len(inner) + (blo < lo) + (bhi > hi)
    if nsym > maxsym:
        return []
    lead = [(blo, lo)] if blo < lo else []
    trail = [(hi, bhi)] if bhi > hi else []
    if tight and any(not aligned[a] or not aligned[b - 1] for a, b in lead + trail):
        return []
    gaps = []
    for a, b in lead + inner + trail:
        x = sent.consistent(a, b)
        if x is None or x[1] - x[0] > span:
            return []
        gaps.append(x)
    res = []
    # an unaligned first or last terminal keeps this rule, not those with more gaps around it
    if not tight or ((lead or aligned[lo]) and (trail or aligned[hi - 1])):
        res.append((bool(lead), bool(trail), gaps, t))
    if len(gaps) >= maxnt or nsym >= maxsym or bhi - blo + gap > span:
        return res
    for l, r in ((0, 1), (1, 0), (1, 1)):
        if (l and lead) or (r and trail) or len(gaps) + l + r > maxnt or nsym + l + r > maxsym:
            continue
        xlo, xhi = blo - gap * l, bhi + gap * r
        if tight:
            # gaps begin and end with aligned words, as does the rule
            if l and blo and not aligned[blo - 1] or r and bhi < n and not aligned[bhi]:
                continue
            if not l and not aligned[blo] or not r and not aligned[bhi - 1]:
                continue
            while l and 0 <= xlo and not aligned[xlo]:
                xlo -= 1
            while r and xhi <= n and not aligned[xhi - 1]:
                xhi += 1
        if xlo < 0 or xhi > n or xhi - xlo > span:
            continue
        # the smallest consistent block around it
        ok = True
        while True:
            tx = sent.proj(xlo, xhi)
            if tx is None or tx[1] - tx[0] > span:
                ok = False
                break
            b = hull([sent.proj(tx[0], tx[1], True), (xlo, xhi)])
            if b == (xlo, xhi):
                break
            if (b[0] < xlo and not l) or (b[1] > xhi and not r) or b[1] - b[0] > span:
                ok = False
                break
            xlo, xhi = b
        if not ok:
            continue
        gl = sent.consistent(xlo, blo) if l else None
        gr = sent.consistent(bhi, xhi) if r else None
        if (l and gl is None) or (r and gr is None):
            continue
        res.append((bool(lead) or bool(l), bool(trail) or bool(r), ([gl] if l else []) + gaps + ([gr] if r else []), tx))
    return res


def target_sides(case, sent, gaps, t, srcidx):
    """[(target symbols, alignment)]: gaps numbered in source order, all attachments of unaligned words when loose."""
    span, m = case["span"], len(sent.t)
    order = sorted(range(len(gaps)), key=lambda k: gaps[k])
    free = [not x for x in sent.bwd]
    xlo, xhi = t
    if case["loose"]:
        while xlo > 0 and t[1] - xlo < span and free[xlo - 1]:
            xlo -= 1
        while xhi < m and xhi - t[0] < span and free[xhi]:
            xhi += 1
    # boundaries: begin, (gap begin, gap end)*, end
    rng = [(xlo, t[0])]
    for k in order:
        a, b = gaps[k]
        ea, eb = a, b
        if case["loose"]:
            while ea > xlo and free[ea - 1]:
                ea -= 1
            while eb < xhi and free[eb]:
                eb += 1
        rng += [(ea, a), (b, eb)]
    rng.append((t[1], xhi))
    res = []

    def rec(i, cut):
        if i == len(rng):
            if cut[-1] - cut[0] > span:
                return
            sym, idx = [], {}
            for c in range(0, len(cut), 2):
                for j in range(cut[c], cut[c + 1]):
                    idx[j] = len(sym)
                    sym.append(sent.t[j])
                if c // 2 < len(order):
                    sym.append("[X,%d]" % (order[c // 2] + 1))
            al = tuple((srcidx[i], idx[j]) for i, j in sent.links if j in idx)
            res.append((" ".join(sym), al))
            return
        for v in range(max(rng[i][0], cut[-1] if cut else 0), rng[i][1] + 1):
            rec(i + 1, cut + [v])
    rec(0, [])
    return res


def patterns(case, words):
    """{pattern: may be out of the span limit}"""
    res = {}
    n = len(words)

    def rec(pos, chunks, sym):
        key = tuple(tuple(c) for c in chunks)
        over = pos[-1] - pos[0] >= case["span"]
        res[key] = res.get(key, True) and over
        for j in range(pos[-1] + 1, n):
            if j - pos[0] > case["span"]:
                break
            if j == pos[-1] + 1:
                if sym + 1 <= case["symbols"]:
                    rec(pos + [j], chunks[:-1] + [chunks[-1] + [words[j]]], sym + 1)
            if j - pos[-1] - 1 >= case["gap"] and j > pos[-1] and sym + 2 <= case["symbols"] and len(chunks) <= case["nt"]:
                rec(pos + [j], chunks + [[words[j]]], sym + 2)
    for i in range(n):
        if case["symbols"] >= 1:
            rec([i], [[words[i]]], 1)
    return res


class Lex:
    def __init__(self, corpus):
        self.c, self.f, self.e = {}, {}, {}
        self.sv = {NULL, "__END_OF_LINE__"} | {w for s, _, _ in corpus for w in s}
        for s, t, links in corpus:
            ls, lt = set(), set()
            for i, j in links:
                ls.add(i)
                lt.add(j)
                self.add(s[i], t[j])
            for i, w in enumerate(s):
                if i not in ls:
                    self.add(w, NULL)
            for j, w in enumerate(t):
                if j not in lt:
                    self.add(NULL, w)

    def add(self, f, e):
        self.c[f, e] = self.c.get((f, e), 0) + 1
        self.f[f] = self.f.get(f, 0) + 1
        self.e[e] = self.e.get(e, 0) + 1

    def fge(self, src, trg):
        r = 0.0
        for f in src:
            m = max(self.c.get((f, e), 0) / self.e[e] if (f, e) in self.c else 0 for e in trg + [NULL])
            r += -math.log10(m) if m > 0 else 99
        return r

    def egf(self, src, trg):
        r = 0.0
        for e in trg:
            m = max(self.c.get((f, e), 0) / self.f[f] if (f, e) in self.c else 0 for f in src + [NULL])
            r += -math.log10(m) if m > 0 else 99
        return r


def terminals(side):
    return [w for w in side.split() if not re.fullmatch(r"\[X,\d+\]", w)]


def source_side(pattern, lead, trail):
    out, k = [], 1
    if lead:
        out.append("[X,1]")
        k = 2
    for i, c in enumerate(pattern):
        if i:
            out.append("[X,%d]" % k)
            k += 1
        out += c
    if trail:
        out.append("[X,%d]" % k)
    return " ".join(out)


def reference(case, sents, lex, words, skip):
    """[(required, {(src, trg): (count, source count, alignments)}, occurrences)] per pattern"""
    res = []
    for pat, over in patterns(case, ["<s>"] + words + ["</s>"]).items():
        occ = occurrences(case, [list(c) for c in pat])
        total = len(occ)  # what is sampled from, before sentences are left out
        occ = [o for o in occ if o[0] != skip]
        rules, srcs = {}, {}
        for k, starts in occ:
            for lead, trail, gaps, t in instances(case, sents[k], pat, starts):
                src = source_side(pat, lead, trail)
                idx, p = {}, int(lead)
                for a, c in zip(starts, pat):
                    for d in range(len(c)):
                        idx[a + d] = p
                        p += 1
                    p += 1
                ts = target_sides(case, sents[k], gaps, t, idx)
                for trg, al in ts:
                    r = rules.setdefault((src, trg), [0, {}])
                    r[0] += 1
                    r[1][al] = r[1].get(al, 0) + 1
                    srcs[src] = srcs.get(src, 0.0) + 1.0 / len(ts)
        if occ:
            res.append((not over, {k: (c, srcs[k[0]], al) for k, (c, al) in rules.items()}, len(occ), total))
    return res


# ------------------------------------------------------------ running

def read_grammar(path):
    op = gzip.open if path.endswith(".gz") else open
    with op(path, "rb") as f:
        data = f.read()
    if path.endswith(".gz"):
        with open(path, "rb") as f:
            check_that(f.read(2) == b"\x1f\x8b", "the grammar is not compressed")
    res = {}
    for l in data.decode("utf-8").split("\n")[:-1]:
        f = l.split(" ||| ")
        if l.endswith(" |||"):
            f = (l + " ").split(" ||| ")
        check_that(len(f) == 5 and f[0] == "[X]", f"malformed rule: {l!r}")
        feats = [x.split("=") for x in f[3].split()]
        check_that([x[0] for x in feats] == FEATS, f"features of {l!r}")
        al = tuple(tuple(map(int, x.split("-"))) for x in f[4].split())
        check_that((f[1], f[2]) not in res, f"listed twice: {f[1]} ||| {f[2]}")
        res[f[1], f[2]] = ([float(x[1]) for x in feats], al)
    return res


def check(case, ctx):
    corpus = case["corpus"]
    src = [" ".join(c[0]) for c in corpus]
    trg = [" ".join(c[1]) for c in corpus]
    al = [" ".join("%d-%d" % tuple(x) for x in c[2]) for c in corpus]
    if case["bitext"]:
        data = ["-b", ctx.write("bitext", "".join(f"{a} ||| {b}\n" for a, b in zip(src, trg)))]
    else:
        data = ["-f", ctx.write("src", "".join(x + "\n" for x in src)), "-e", ctx.write("trg", "".join(x + "\n" for x in trg))]
    data += ["-a", ctx.write("align", "".join(x + "\n" for x in al))]
    limits = ["--max_rule_span", case["span"], "--max_rule_symbols", case["symbols"], "--min_gap_size", case["gap"]]
    pre = ["--frequent", case["frequent"], "--super_frequent", case["super"], "--max_phrase_len", case["plen"], "--min_frequency", case["minfreq"]]
    opts = ["-t", case["threads"], "--max_nonterminals", case["nt"], "--max_samples", case["samples"], "--tight_phrases", int(not case["loose"])]
    if case["loo"]:
        opts.append("--leave_one_out")
    stdin = "".join(" ".join(t) + (" ||| x y" if case["suffix"] else "") + "\n" for t in case["tests"])
    gdir = ctx.path("g")
    import shutil
    for d in ("g", "sa"):
        shutil.rmtree(ctx.path(d), ignore_errors=True)
    env = {"OMP_NUM_THREADS": "4"}
    if case["one"]:
        rc, out, err = ctx.run("run_extractor", data + limits + pre + opts + ["-g", gdir], stdin=stdin, env=env)
        ext = ""
    else:
        cfg = ctx.path("sa.ini")
        ctx.run("sacompile", data + limits + pre + ["-o", ctx.path("sa"), "-c", cfg])
        ext = ".gz" if case["gz"] else ""
        rc, out, err = ctx.run("extract", ["-c", cfg, "-g", gdir] + limits + opts + (["-z"] if ext else []), stdin=stdin, env=env)
    lines = out.split("\n")[:-1]
    check_that(len(lines) == len(case["tests"]), f"{len(lines)} lines for {len(case['tests'])} sentences")
    real = os.path.realpath(gdir)
    for i, (l, t) in enumerate(zip(lines, case["tests"])):
        m = re.fullmatch(r'<seg grammar="(.*)" id="(\d+)">(.*)</seg>(.*)', l)
        check_that(m and int(m.group(2)) == i and m.group(1) == f"{real}/grammar.{i}{ext}", f"output line {i}: {l!r}")
        check_that(m.group(3).split() == t and m.group(4).split() == (["|||", "x", "y"] if case["suffix"] else []), f"output line {i}: {l!r}")
    sents = [Sent(*c) for c in corpus]
    lex = Lex(corpus)
    for i, t in enumerate(case["tests"]):
        got = read_grammar(f"{gdir}/grammar.{i}{ext}")
        ref = reference(case, sents, lex, t, i if case["loo"] else None)
        judge(case, ctx, i, got, ref, lex)


def judge(case, ctx, i, got, ref, lex):
    done = set()
    for required, rules, nocc, total in ref:
        full = total <= case["samples"]
        ctx.count("sampled", int(not full))
        if len(rules) > 2:
            ctx.nontrivial()
        if not required and not any(k in got for k in rules):
            continue
        for k, (cnt, sc, als) in rules.items():
            who = f"sentence {i}: {k[0]} ||| {k[1]}"
            if k not in got:
                check_that(not full, f"{who} is missing")
                continue
            done.add(k)
            f, al = got[k]
            s, e = terminals(k[0]), terminals(k[1])
            check_that(near(f[3], lex.fge(s, e), 1e-8), f"{who}: MaxLexFgivenE={f[3]}, expected {lex.fge(s, e)}")
            check_that(near(f[4], lex.egf(s, e), 1e-8), f"{who}: MaxLexEgivenF={f[4]}, expected {lex.egf(s, e)}")
            check_that(al in als, f"{who}: alignment {al}, seen {als}")
            n = nocc
            if not full:
                n = round(10 ** f[1] - 1)
                check_that(0 < n <= case["samples"] and (case["loo"] or n == case["samples"]), f"{who}: {n} samples of {nocc}")
                c = round(10 ** f[2] - 1)
                check_that(1 <= c <= cnt, f"{who}: counted {c} times in the samples, {cnt} in all")
                check_that(f[6] == (c == 1) and (f[5] in (0, 1)), f"{who}: singleton features")
            else:
                c = cnt
                check_that(als[al] == max(als.values()), f"{who}: alignment {al} is not the most frequent of {als}")
                check_that(f[5] == (abs(sc - 1) < 1e-6) and f[6] == (cnt == 1), f"{who}: singletons {f[5:]}, counts {sc} and {cnt}")
            want = [-math.log10(c / n), math.log10(1 + n), math.log10(1 + c)]
            check_that(all(near(a, b, 1e-8) for a, b in zip(f, want)), f"{who}: {dict(zip(FEATS, f))}, expected {want}, {c} of {n}")
            ctx.evals(1)
        if len(rules) and any("[X,3]" in k[0] for k in rules):
            ctx.count("three gaps")
    for k in got:
        check_that(k in done, f"sentence {i}: {k[0]} ||| {k[1]} does not follow from the corpus")


if __name__ == "__main__":
    run_check("X01", "a case is non-trivial when some source pattern has more than two rules",
              py=[Suite("extract", gen, check)], programs=["sacompile", "extract", "run_extractor"], quick=25, thorough=600)
