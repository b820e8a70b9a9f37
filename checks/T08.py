"""T08: the large-margin tuner (training/mira): hope, best and fear translations and the updates they cause."""
import glob
import gzip
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *  # noqa
from scfg import *  # noqa
import mt
from pool import read_weights
from T06 import gen_corpus, setup, config, work_dir, close, G
from T07 import candidates

RULE = "some sentence moved the weights"
SMO_EPS, MAX_SMO = 0.0001, 10


def gen(g):
    case = gen_corpus(g, 4)
    n = len(case["sents"])
    for s in case["sents"]:
        s["refs"] = [s["ref"]]
        while len(s["refs"]) < 3 and g.chance(1, 4):
            s["refs"].append([g.pick(TRG[:3]) for _ in range(g.int(1, 4))])
    opt = g.weighted([(4, 2), (3, 4), (2, 1), (3, 3)])
    approx = g.pick(["sent", "pseudo", "gain", "first"]) if opt != 3 else g.pick(["sent", "gain", "first"])
    metric = g.pick(["ibm_bleu", "ibm_bleu", "nist_bleu", "koehn_bleu", "ibm_bleu_3"] + (["wer", "ter"] if approx in ("sent", "first") else []))
    if metric in ("wer", "ter"):
        for s in case["sents"]:
            s["refs"] = s["refs"][:1]
    case.update({"w": {k: g.grid(12) + g.int(1, 1000) / 8192 for k in G + ["Glue"] if g.chance(2, 3)}, "opt": opt, "approx": approx, "metric": metric,
                 "fear": g.pick([1, 1, 2, 3]) if opt == 1 else 1, "hope": g.pick([1, 1, 2]), "scale": g.pick([1, 1, 10, 0.5]), "C": g.pick([0.001, 0.1, 1, 0.01]),
                 "k": g.weighted([(3, 100), (2, g.int(2, 8)), (1, 1)]), "b": g.pick([1, 1, 2, 100]), "unique": g.flip(), "noselect": g.chance(1, 3), "noreweight": g.chance(1, 3),
                 "pass": g.int(1, 12) if approx == "gain" else g.int(0, 12) if approx == "pseudo" else g.pick([0, 3]) if approx == "sent" else 0,
                 "prev": [[g.pick(TRG[:3]) for _ in range(g.int(1, 4))] for _ in range(n)], "seed": g.int(1, 1 << 20)})
    return case


def gen_stream(g):
    case = gen(g)
    case.update({"opt": g.pick([1, 2, 4]), "approx": "sent", "metric": g.pick(["ibm_bleu", "nist_bleu", "wer"]), "fear": 1, "b": 1, "pass": 0})
    ops = []
    for i, s in enumerate(case["sents"]):
        s["psg"], s["refs"] = [], s["refs"][:1]
    for _ in range(g.int(1, 6)):
        i = g.int(0, len(case["sents"]) - 1)
        ops.append(g.weighted([(4, ["learn", i]), (2, ["translate", i]), (1, ["write"]),
                               (1, ["set", {k: g.grid(12) + g.int(1, 1000) / 8192 for k in G + ["Glue", "unseen1", "unseen2"] if g.chance(1, 3)}]), (1, ["bad"])]))
    case["ops"] = ops
    return case


def stats(y, refs, metric):
    m = metric.upper()
    if m == "IBM_BLEU_3":
        return mt.bleu_stats(list(y), refs, "IBM", 3)
    return mt.segment(list(y), refs, m)


def score(st, metric):
    if "bleu" not in metric:
        return mt.score(st, metric.upper())
    n = 3 if metric == "ibm_bleu_3" else 4
    s = sum(math.log((st[i] or 0.01) / st[n + i]) for i in range(n) if st[n + i] > 0) / n
    h, r = st[2 * n], st[2 * n + 1]
    if h < r:
        if h <= 0:
            return 0.0
        s += (h - r) / h
    return math.exp(s)


class Hyp:
    def __init__(self, f, mt, y):
        self.f, self.mt, self.y = f, mt, y
        self.hope = self.fear = self.alpha = self.loss = 0.0
        self.oracle = None

    def same(self, o):
        return self.f == o.f and self.y == o.y


def ranked(hyps, key, what, top=1):
    """Sorted best first; the first must be clear."""
    out = sorted(hyps, key=lambda h: -key(h))
    for h in out[top:]:
        if abs(key(out[0]) - key(h)) < 1e-4 * (1 + abs(key(h))) and not h.same(out[0]):
            raise Discard("tie of " + what)
    return out


class Tuner:
    def __init__(self, case, cands):
        self.case, self.cands = case, cands
        self.w = dict(case["w"])
        self.pseudo, self.length = None, 0.0
        self.moved = False
        if case["approx"] == "gain":
            self.prev = [stats(y, s["refs"], case["metric"]) for y, s in zip(case["prev"], case["sents"])]
            self.total = [sum(x) for x in zip(*self.prev)]

    def lists(self, i, w):
        case = self.case
        s = sorted(((dot(f, w), y, f) for y, f in self.cands[i]), key=lambda t: -t[0])
        if case["unique"]:
            best = {}
            for x in s:
                if x[1] not in best:
                    best[x[1]] = x
                elif best[x[1]][0] - x[0] < 1e-7 * (1 + abs(x[0])) and x[2] != best[x[1]][2]:
                    raise Discard("tie")
            s = list(best.values())
        k = case["k"]
        for j in (1, k):
            if any(a[0] - b[0] < 1e-7 * (1 + abs(b[0])) and a[1:] != b[1:] for a in s[:j] for b in s[j:]):
                raise Discard("tie")
        sent, m = case["sents"][i], case["metric"]
        hyps = []
        for x, y, f in s[:k]:
            st = stats(y, sent["refs"], m)
            if case["approx"] == "gain":
                rest = [a - b for a, b in zip(self.total, self.prev[i])]
                v = case["scale"] * (score([a + 0.5 * b for a, b in zip(st, rest)], m) - score(rest, m))
            elif case["approx"] == "pseudo":
                v = (self.length + len(sent["src"])) * score([a + b for a, b in zip(st, self.pseudo)] if self.pseudo else st, m)
            else:
                v = case["scale"] * score(st, m)
            hyps.append(Hyp(f, -v if m in ("wer", "ter") else v, y))
        best = hyps[0]
        if case["approx"] == "pseudo":
            st = stats(best.y, sent["refs"], m)
            self.pseudo = [0.95 * (a + b) for a, b in zip(st, self.pseudo or [0] * len(st))]
            self.length = 0.95 * (self.length + len(sent["src"]))
        for h in hyps:
            h.hope = h.mt + dot(h.f, w)
        hyps = ranked(hyps, (lambda h: h.hope) if case["hope"] == 1 else (lambda h: h.mt), "hope")
        good = hyps[0]
        for h in hyps:
            h.loss, h.oracle = good.mt - h.mt, good
            h.fear = h.loss - dot(good.f, w) + dot(h.f, w)
        bads = ranked(hyps, [lambda h: h.fear, lambda h: -h.mt, lambda h: dot(h.f, w)][case["fear"] - 1], "fear")
        if case["opt"] in (2, 3) and good is not bads[0] and good.same(bads[0]):
            bads.remove(good)
            bads.insert(0, good)
        return good, best, bads[0], bads[:case["b"]]

    def step(self, p, q, w):
        """One dual step between two constraints."""
        loss = p.loss - q.loss
        margin = -(dot(p.oracle.f, w) - dot(p.f, w)) + (dot(q.oracle.f, w) - dot(q.f, w))
        diff = clean(add(p.f, {k: -v for k, v in q.f.items()}))
        n = sum(v * v for v in diff.values())
        d = (margin + loss) / (n * self.case["C"]) if n else 0.0
        for lim in (-p.alpha, q.alpha):
            if 0 < abs(d - lim) < 1e-6 * (1 + abs(lim)):
                raise Discard("at the limit")
        d = max(-p.alpha, min(d, q.alpha))
        p.alpha += d
        q.alpha -= d
        if d and diff:
            self.moved = True
        self.w = add(self.w, {k: -v * d * self.case["C"] for k, v in diff.items()})
        return d

    def more(self, a, b, eps):
        if abs(a - b - eps) < 1e-5 * (1 + abs(a)):
            raise Discard("near the threshold")
        return a > b + eps

    def select(self, cs):
        if self.case["noselect"]:
            return cs[:2]
        for u, c in enumerate(cs):
            others = [x for i, x in enumerate(cs) if i != u]
            if not others:
                return []
            m = max(x.fear for x in others)
            if c.alpha == 0 and self.more(c.fear, m, SMO_EPS):
                for x in others:
                    if x.alpha > 0:
                        return [c, x]
            if c.alpha > 0 and self.more(m, c.fear, SMO_EPS):
                for x in others:
                    if self.more(x.fear, c.fear, 0):
                        return [c, x]
        return []

    def learn(self, i):
        case, C, opt = self.case, self.case["C"], self.case["opt"]
        w = dict(self.w)
        good, best, bad, bads = self.lists(i, w)
        if opt == 1:
            d = C
        elif opt == 4:
            diff = clean(add(good.f, {k: -v for k, v in bad.f.items()}))
            n = sum(v * v for v in diff.values())
            d = min(C, (bad.fear - good.fear) / n) if n else 0.0
        if opt in (1, 4):
            diff = clean(add(good.f, {k: -v for k, v in bad.f.items()}))
            if diff and d:
                self.moved = True
            self.w = add(self.w, {k: d * v for k, v in diff.items()})
        elif opt == 2:
            if good is not bad and self.more(bad.fear, good.fear, SMO_EPS):
                good.alpha = 1.0
                self.step(good, bad, w)
        else:
            cs, calls = [good], 0
            while True:
                again = False
                calls += 1
                if case["noreweight"]:
                    # hope and fear among the list kept
                    for h in bads:
                        h.hope = h.mt + dot(h.f, w)
                    h0 = ranked(bads, lambda h: h.hope, "hope")[0]
                    for h in bads:
                        h.fear = -h.mt + h0.mt - dot(h0.f, w) + dot(h.f, w)
                    bads = ranked(bads, lambda h: h.fear, "fear")
                if self.more(bads[0].fear, max(c.fear for c in cs), SMO_EPS):
                    if any(c is not bads[0] and c.same(bads[0]) for c in cs) and case["noreweight"]:
                        raise Discard("a copy")
                    cs.append(bads[0])
                    again = calls < MAX_SMO
                    if not again:
                        break
                if not again:
                    break
                for c in cs:
                    c.alpha = 0.0
                cs[0].alpha = 1.0
                for _ in range(MAX_SMO):
                    pair = self.select(cs)
                    if not pair:
                        break
                    d = self.step(pair[0], pair[1], w)
                    w = dict(self.w)
                    if case["noselect"] and d == 0:
                        break
                if not case["noreweight"]:
                    good, _, bad, bads = self.lists(i, w)
            bad = bads[0]
        return good.y, best.y, bad.y


def check(case, ctx):
    sents, d = case["sents"], work_dir(ctx)
    cands = [candidates(case, s) for s in sents]
    if case["opt"] == 3 and any(len({repr(x) for x in c}) < len(c) for c in cands) and not case["unique"]:
        raise Discard("copies")
    t = Tuner(case, cands)
    want, ws = [], [dict(t.w)]
    for i in range(len(sents)):
        if not cands[i]:
            want.append(((), (), ()))
            continue
        want.append(t.learn(i))
        if max([abs(v) for v in t.w.values()] + [0]) > 1e5:
            raise Discard("diverges")
        ws.append(dict(t.w))
    nrefs = max(len(s["refs"]) for s in sents)
    if all(len(s["refs"]) == nrefs for s in sents) and case["seed"] % 2:
        refs = [ctx.write(f"ref{j}", "".join(" ".join(s["refs"][j]) + "\n" for s in sents)) for j in range(nrefs)]
    else:
        refs = [ctx.write("refs", "".join(" ||| ".join(" ".join(r) for r in s["refs"]) + "\n" for s in sents))]
    setup(case, ctx, sents, "src")
    lines = []
    for i, s in enumerate(sents):
        gr = f' grammar="{ctx.path("src.g%d" % i)}"' if s["psg"] else ""
        lines.append(f'<seg id="{i}"{gr}>{" ".join(s["src"])}</seg>\n')
    args = ["-c", config(case, ctx), "-w", ctx.write("w", weights_text(case["w"])), "-m", case["metric"], "-o", case["opt"], "-f", case["fear"], "-h", case["hope"], "-C", num(case["C"]),
            "-s", num(case["scale"]), "-k", case["k"], "-b", case["b"], "-p", case["pass"], "-O", d, "-D", d, "-S", case["seed"]]
    for r in refs:
        args += ["-r", r]
    args += ["-" + o for o, k in (("u", case["unique"]), ("n", case["noselect"]), ("d", case["noreweight"]), ("a", case["approx"] == "sent"), ("e", case["approx"] == "pseudo")) if k]
    if case["pass"]:
        with open(os.path.join(d, f"run.raw.{case['pass'] - 1}.B"), "w") as f:
            f.write("".join(" ".join(y) + "\n" for y in case["prev"]))
    rc, out, err = ctx.run("kbest_cut_mira", args, "".join(lines))
    exp = [" ||| ".join(" ".join(y) for y in x) for x in want]
    check_that(out.split("\n")[:-1] == exp, lambda: f"hope, best and fear translations\n{out}expected\n" + "\n".join(exp))
    files = {}
    for p in glob.glob(d + "/weights.mira-pass%02d.*.gz" % case["pass"]):
        with gzip.open(p, "rt") as f:
            files["avg" if p.endswith("-avg.gz") else "cur"] = read_weights(f.read())
    check_that(set(files) == {"avg", "cur"}, lambda: f"files {os.listdir(d)}")
    avg = {}
    for x in ws:
        avg = add(avg, {k: v / len(ws) for k, v in x.items()})
    check_that(close(files["cur"], t.w, 2e-5), lambda: f"weights {files['cur']}, expected {clean(t.w)}")
    check_that(close(files["avg"], avg, 2e-5), lambda: f"averaged weights {files['avg']}, expected {clean(avg)}")
    if t.moved:
        ctx.nontrivial()
    ctx.count(f"optimizer {case['opt']}")
    ctx.count(case["approx"])


def check_stream(case, ctx):
    cands = [candidates(case, s) for s in case["sents"]]
    t = Tuner(case, cands)
    inp, exp = [], []
    for op in case["ops"]:
        s = case["sents"][op[1]] if op[0] in ("learn", "translate") else None
        src = " ".join(s["src"]) if s else ""
        if op[0] == "learn":
            inp.append(f"LEARN ||| {src} ||| {' '.join(s['refs'][0])}\n")
            exp.append(" ||| ".join(" ".join(y) for y in (t.learn(op[1]) if cands[op[1]] else ((), (), ()))))
            if max([abs(v) for v in t.w.values()] + [0]) > 1e5:
                raise Discard("diverges")
        elif op[0] == "translate":
            inp.append(src + "\n")
            c = sorted(((dot(f, t.w), y) for y, f in cands[op[1]]), key=lambda x: -x[0])
            if len(c) > 1 and any(c[0][0] - x[0] < 1e-7 * (1 + abs(x[0])) and x[1] != c[0][1] for x in c):
                raise Discard("tie")
            exp.append(" ".join(c[0][1]) if c else "")
        elif op[0] == "write":
            inp.append("WEIGHTS ||| WRITE\n")
            exp.append(dict(t.w))
        elif op[0] == "set":
            inp.append("WEIGHTS ||| " + " ".join(f"{k}={v!r}" for k, v in op[1].items()) + "\n")
            t.w.update(op[1])
        else:
            inp.append("NONSENSE ||| a ||| b\n")
    args = ["-t", "-c", config(case, ctx), "-w", ctx.write("w", weights_text(case["w"])), "-m", case["metric"], "-o", case["opt"], "-h", case["hope"], "-C", num(case["C"]),
            "-s", num(case["scale"]), "-k", case["k"]] + (["-u"] if case["unique"] else [])
    rc, out, err = ctx.run("kbest_cut_mira", args, "".join(inp))
    got = out.split("\n")[:-1]
    check_that(len(got) == len(exp), lambda: f"{len(got)} lines, expected {len(exp)}:\n{out}")
    for a, b in zip(got, exp):
        if isinstance(b, dict):
            check_that(close({k: float(v) for k, v in (x.rsplit("=", 1) for x in a.split())}, b, 2e-5), lambda: f"weights {a}, expected {clean(b)}")
        else:
            check_that(a == b, lambda: f"{a!r}, expected {b!r} in\n{out}for\n{''.join(inp)}")
    if t.moved:
        ctx.nontrivial()


if __name__ == "__main__":
    run_check("T08", RULE, py=[Suite("pass", gen, check, 3), Suite("stream", gen_stream, check_stream, 1)], programs=["kbest_cut_mira"], quick=16, thorough=300)
