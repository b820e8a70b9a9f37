"""M03: minimum Bayes risk decoding of k-best lists."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *  # noqa
import mt
from M01 import edit, VOC

TOL = 2e-5


def gen(g):
    voc = VOC[:g.int(1, 8)]
    nf = g.weighted([(4, 1), (2, 2), (1, 3)])
    metric = g.pick(["IBM_BLEU", "ibm_bleu", "TER", "ter", "WER", "CER", "NIST_BLEU", "CBLEU", "SSK", "QCRI_BLEU", "KOEHN_BLEU", "COMB"])
    comb = None
    if metric == "COMB":  # gain: 1 minus it may be negative
        comb = [[m, g.pick([1.0, 0.5, 2.0, -1.0, -0.25])] for m in g.shuffle(["IBM_BLEU", "TER", "SSK", "WER"])[:2]]
    rate = comb or metric.upper() in ("TER", "WER", "CER")  # error rates against an empty translation are undefined
    sents = []
    for i in range(g.int(1, 4)):
        base = [g.pick(voc) for _ in range(g.count(1, 8))]
        lists = []
        for f in range(nf):
            n = g.weighted([(3, g.count(1, 6)), (1, 1), (1, 20)])
            lists.append([[(edit(g, base, voc) if g.chance(7, 8) else []) or (base if rate else []), g.weighted([(4, g.grid(40)), (1, -1000 + g.grid(40)), (1, 0.5)])] for _ in range(n)])
        sents.append([g.pick(["", "s"]) + str(i + 10 * g.draw(2)), lists])
    ids = set()
    for s in sents:
        while s[0] in ids:
            s[0] += "0"
        ids.add(s[0])
    return {"sents": sents, "metric": metric, "list": g.flip(), "comb": comb,
            "scale": [g.pick([1.0, 0.5, 2.0, 0.1]) for _ in range(nf)] if g.flip() else None,
            "offset": [g.grid(16) for _ in range(nf)] if g.flip() else None, "feats": g.flip()}


def check(case, ctx):
    nf = len(case["sents"][0][1])
    comb = case.get("comb")
    args = ["-m", "COMB:" + ";".join("%s=%s" % (m, c) for m, c in comb) if comb else case["metric"]]
    scale = case["scale"] or [1.0] * nf
    offset = case["offset"] or [0.0] * nf
    for f in range(nf):
        text = ""
        for sid, lists in case["sents"]:
            for t, s in lists[f]:
                text += "%s ||| %s |||%s %r\n" % (sid, " ".join(t), " a=1 b=-2.5 |||" if case["feats"] else "", s)
        args += ["-i", ctx.write("k%d" % f, text)]
    for opt, v in (("-a", case["scale"]), ("-b", case["offset"])):
        for x in v or []:
            args.append("%s%s" % ("--scale=" if opt == "-a" else "--offset=", x))
    if case["list"]:
        args.append("-L")
    rc, out, err = ctx.run("mbr_kbest", args)
    lines = out.split("\n")[:-1]
    metric = case["metric"].upper()
    pos = 0
    for sid, lists in case["sents"]:
        cand = [(t, s * scale[f] + offset[f]) for f in range(nf) for t, s in lists[f]]
        top = max(s for _, s in cand)
        w = [math.exp(s - top) for _, s in cand]
        z = sum(w)
        memo = {}
        loss = []
        for i, (r, _) in enumerate(cand):
            tot = 0.0
            for j, (h, _) in enumerate(cand):
                if i == j:
                    continue
                k = (tuple(r), tuple(h))
                if k not in memo and comb:
                    memo[k] = 1 - sum(c * mt.score(mt.segment(list(h), [list(r)], m), m) for m, c in comb)
                elif k not in memo:
                    st = mt.segment(list(h), [list(r)], metric)
                    if metric in ("TER", "WER", "CER"):
                        e = sum(st[:4]) if metric == "TER" else st[0]
                        n = st[-1]
                        memo[k] = e / n
                    else:
                        memo[k] = 1 - mt.score(st, metric)
                tot += memo[k] * w[j] / z
            loss.append(tot)
        if len({tuple(t) for t, _ in cand}) > 2:
            ctx.nontrivial()
        ctx.count("sentences")
        desc = lambda: "%s %s: candidates %r\nlosses %r\noutput %r\n" % (sid, metric, cand, loss, lines[pos:pos + 3])
        if case["list"]:
            got = lines[pos:pos + len(cand)]
            pos += len(cand)
            check_that(len(got) == len(cand), lambda: desc() + "lines are missing")
            have = []
            last = -math.inf
            for line in got:
                p = line.split(" ||| ")
                check_that(len(p) == 3 and p[0] == sid, lambda: desc() + f"bad line {line!r}")
                v = float(p[2])
                check_that(v >= last - TOL, lambda: desc() + "not sorted")
                last = v
                have.append((p[1], v))
            want = sorted((" ".join(t), l) for (t, _), l in zip(cand, loss))
            check_that(all(x[0] == y[0] and abs(x[1] - y[1]) <= TOL * max(1, abs(y[1])) for x, y in zip(sorted(have), want)),
                       lambda: desc() + f"listed {sorted(have)}, expected {want}")
        else:
            check_that(pos < len(lines), lambda: desc() + "no output")
            best = min(loss)
            ok = {" ".join(t) for (t, _), l in zip(cand, loss) if l <= best + TOL * max(1, abs(best))}
            check_that(lines[pos] in ok, lambda: desc() + f"{lines[pos]!r} chosen, of least expected loss are {ok}")
            pos += 1
    check_that(pos == len(lines), lambda: "extra output %r" % lines[pos:])


if __name__ == "__main__":
    run_check("M03", "a case is non-trivial when a sentence has at least three different candidates",
              py=[Suite("mbr", gen, check)], programs=["mbr_kbest"], quick=15, thorough=300)
