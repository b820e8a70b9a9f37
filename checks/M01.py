"""M01: metric scores of a corpus."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
import mt

VOC = ["a", "b", "c", "d", "e", "aa", "ab", "été", "x-y", "'s", "日本", "1"]
TOL = 2e-5


def edit(g, s, voc):
    """A few edits, shifts and changes of word order of a sentence."""
    s = list(s)
    for _ in range(g.count(0, 6)):
        op = g.draw(6)
        i = g.draw(len(s) + 1)
        if op == 0 and s:
            del s[min(i, len(s) - 1)]
        elif op == 1:
            s.insert(i, g.pick(voc))
        elif op == 2 and s:
            s[min(i, len(s) - 1)] = g.pick(voc)
        elif s:  # move a block
            i = min(i, len(s) - 1)
            n = g.int(1, min(12, len(s) - i))
            blk, rest = s[i:i + n], s[:i] + s[i + n:]
            j = g.draw(len(rest) + 1)
            s = rest[:j] + blk + rest[j:]
    return s


def gen_segment(g, voc, big, empty=True):
    n = g.int(12, 70) if big else g.count(1, 14)
    ref = [g.pick(voc) for _ in range(n)]
    refs = [ref]
    for _ in range(g.weighted([(4, 0), (3, 1), (2, 2), (1, 3)])):
        refs.append(edit(g, g.pick(refs), voc) if g.chance(2, 3) else [g.pick(voc) for _ in range(g.count(1, 10))])
    h = g.weighted([(8, "edit"), (2, "random"), (1, "same"), (1, "empty")])
    if h == "edit":
        hyp = edit(g, g.pick(refs), voc)
    elif h == "same":
        hyp = list(g.pick(refs))
    elif h == "random" or not empty:
        hyp = [g.pick(voc) for _ in range(g.count(0 if empty else 1, 12))]
    else:
        hyp = []
    if any(refs[1:]) or refs[0]:
        refs = [r for r in refs if r]
    return hyp, refs


def gen(g):
    big = g.chance(1, 40)
    voc = VOC[:g.int(2, len(VOC))] + (["w%d" % i for i in range(60)] if g.chance(1, 3) else [])
    n = g.weighted([(4, 1), (3, 2), (3, 3), (1, 7)]) if not big else 1
    segs = [gen_segment(g, voc, big) for _ in range(n)]
    kind = g.weighted([(7, "one"), (2, "comb")])
    if kind == "one":
        m = g.pick(mt.METRICS if not big else ["TER", "IBM_BLEU", "SSK"])
        metrics = [(m, 1.0)]
    else:
        ms = g.shuffle(mt.METRICS)[:g.weighted([(3, 2), (1, 3)])]
        metrics = [(m, g.grid(16)) for m in ms]
        if g.chance(1, 8):
            metrics = [("TER", -0.5), ("IBM_BLEU", 0.5)]
    # how the references are laid out: one file with |||, one file each, or both
    files = g.int(1, 4)
    return {"hyps": [s[0] for s in segs], "refs": [s[1] for s in segs], "metrics": metrics, "files": files,
            "place": [[g.draw(files) for _ in s[1]] for s in segs], "lower": g.chance(1, 4), "nl": not g.chance(1, 4),
            "fewer": g.chance(1, 8), "alias": g.chance(1, 2), "space": g.chance(1, 5), "stdin": g.flip()}


def check(case, ctx):
    hyps, refs = case["hyps"], [list(map(tuple, r)) for r in case["refs"]]
    files = [[[] for _ in refs] for _ in range(case["files"])]
    order = []
    for i, (rs, pl) in enumerate(zip(refs, case["place"])):
        for r, p in zip(rs, pl):
            files[p][i].append(list(r))
        order.append([r for f in files for r in f[i]])
    sp = "  " if case["space"] else " "
    if case["fewer"] and len(hyps) > 1:
        hyps = hyps[:-1]
    args = []
    for k, f in enumerate(files):
        text = "\n".join((" ||| ").join(sp.join(r) for r in rs) for rs in f)
        last_empty = not f[-1]
        args += ["-r", ctx.write("ref%d" % k, text + ("\n" if case["nl"] or last_empty else ""))]
    ms = case["metrics"]
    if len(ms) == 1:
        name = ms[0][0]
    else:
        name = "COMB:" + ";".join("%s=%s" % (m, w) for m, w in ms)
    if case.get("alias"):  # the old names
        name = {"IBM_BLEU": "BLEU", "COMB:TER=-0.5;IBM_BLEU=0.5": "COMBI"}.get(name, name)
    hyp = "".join(sp.join(h) + "\n" for h in hyps)
    args += ["-m", name.lower() if case["lower"] else name]
    if not case["stdin"]:
        args += ["-i", ctx.write("hyp", hyp)]
    rc, out, err = ctx.run("fast_score", args, hyp if case["stdin"] else "")
    want, scale = 0.0, 0.0
    for m, w in ms:
        st, s = mt.corpus(hyps, order, m)
        want += w * s
        scale += abs(w * s)
        ctx.count(m)
        if m == "TER" and st[3]:
            ctx.count("TER with shifts")
        if 0 < s < 1:
            ctx.nontrivial()
    desc = lambda: "hypotheses %r\nreferences %r\n" % ([" ".join(h) for h in hyps], [[" ".join(r) for r in o] for o in order])
    try:
        got = float(out)
    except ValueError:
        raise Violation(desc() + "no score: %r" % out)
    check_that(abs(got - want) <= TOL * max(1.0, scale), lambda: desc() + "%s is %r, by its definition %.9g" % (name, got, want))
    if len(ms) == 1 and m.endswith("BLEU"):
        n = 5 if m == "CBLEU" else 4
        _, prec, bp = mt.bleu(st, m[:-5] if n == 4 else "IBM", n)
        d = re.search(r"_BLEU = (\S+), (\S+)\|(\S+)\|(\S+)\|(\S+) \(brev=(\S+)\)", err)
        check_that(d, lambda: "details: " + err[-300:])
        g = [float(x) for x in d.groups()]
        prec = (prec + [0.0] * 4)[:4]
        check_that(abs(g[0] - 100 * want) < 0.0051, lambda: desc() + "detailed score %r, expected %r" % (g[0], 100 * want))
        check_that(all(abs(a - 100 * b) < 0.051 for a, b in zip(g[1:5], prec)) and abs(g[5] - bp) < 0.00051,
                   lambda: desc() + "precisions and brevity penalty %r, expected %r %r" % (g[1:], prec, bp))
    if len(ms) == 1 and m == "TER":
        d = re.search(r"TER = (\S+),\s*(\d+)\|\s*(\d+)\|\s*(\d+)\|\s*(\d+) \(len=\s*(\d+)\)", err)
        check_that(d and [int(x) for x in d.groups()[1:]] == st, lambda: desc() + "TER counts %r, expected %r (ins dels subs shifts len)" % (d and d.groups(), st))


def gen_small(g):
    voc = VOC[:g.int(1, 5)]
    return {"hyp": [g.pick(voc) for _ in range(g.int(0, 5))], "ref": [g.pick(voc) for _ in range(g.int(1, 5))]}


def check_ter(case, ctx):
    """TER lies between the best sequence of edits and block moves, found by search, and the edit distance."""
    hyp, ref = case["hyp"], case["ref"]
    rc, out, err = ctx.run("fast_score", ["-r", ctx.write("r", " ".join(ref) + "\n"), "-m", "TER"], " ".join(hyp) + "\n")
    got = float(out) * len(ref)
    seen, layer, best, k = {tuple(hyp)}, [tuple(hyp)], mt.levenshtein(hyp, ref), 0
    while k < best and layer:
        best = min([best] + [k + mt.levenshtein(h, ref) for h in layer])
        nxt = []
        for h in layer:
            for i in range(len(h)):
                for j in range(i + 1, len(h) + 1):
                    rest = h[:i] + h[j:]
                    for p in range(len(rest) + 1):
                        x = rest[:p] + h[i:j] + rest[p:]
                        if x not in seen:
                            seen.add(x)
                            nxt.append(x)
        layer = nxt
        k += 1
    ctx.nontrivial(best > 0)
    if best < mt.levenshtein(hyp, ref):
        ctx.count("moves help")
    check_that(best - 1e-4 <= got <= mt.levenshtein(hyp, ref) + 1e-4,
               lambda: f"{hyp} against {ref}: {got} edits, between {best} and {mt.levenshtein(hyp, ref)} expected")


def gen_over(g):
    n = g.int(1, 4)
    return {"n": n, "more": g.int(1, 5)}


def check_over(case, ctx):
    """More translations than references: an error, not a score."""
    ref = ctx.write("r", "".join("a b c%d\n" % i for i in range(case["n"])))
    rc, out, err = ctx.run("fast_score", ["-r", ref], "a b\n" * (case["n"] + case["more"]), ok=None)
    ctx.nontrivial()
    check_that(rc == 1 and not out.strip() and "Too many" in err, lambda: f"exit status {rc}, {out!r} {err[-200:]!r}")


if __name__ == "__main__":
    run_check("M01", "a case is non-trivial when some score lies strictly between 0 and 1 (for the search bound: when edits are needed)",
              py=[Suite("corpus", gen, check, 8), Suite("terbound", gen_small, check_ter, 1), Suite("overrun", gen_over, check_over, 0.2)],
              programs=["fast_score"], quick=20, thorough=400)
