"""T07: online learning to rank (dtrain): perceptron and SVM updates on pairs from k-best lists."""
import gzip
import math
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *  # noqa
from scfg import *  # noqa
from D01 import TOL
from pool import read_weights
from T06 import gen_corpus, grammars, identities, setup, config, work_dir, close, load, G

RULE = "some pair of translations causes an update"
SCORERS = ["stupid_bleu", "bleu", "fixed_stupid_bleu", "smooth_bleu", "sum_bleu", "sumexp_bleu", "sumwhatever_bleu", "approx_bleu"]


def gen(g):
    case = gen_corpus(g, 4)
    # weights with fractions of their own, so that ties are rare
    case["w"] = {n: g.grid(12) + g.int(1, 1000) / 8192 for n in G + ["Glue"] if g.chance(2, 3)} if g.chance(7, 8) else {}
    pairs = g.pick(["XYX", "XYX", "all", "PRO"])
    case.update({"T": g.int(1, 3), "k": g.weighted([(3, 100), (2, g.int(2, 8)), (1, 1)]), "filter": g.pick(["uniq", "not"]), "pairs": pairs,
                 "hi_lo": g.pick([0.1, 0.02, 0.3, 0.5]), "threshold": g.pick([0.05, 0.3]) if pairs == "PRO" else g.pick([0, 0, 0.05, 0.3]), "N": g.pick([4, 4, 2, 1, 5]),
                 "scorer": g.pick(SCORERS), "eta": g.pick([1, 0.1, 0.0001]), "gamma": g.pick([0, 0, 0.1]), "select": g.pick(["last", "avg", "best"]),
                 "rescale": g.chance(1, 6), "margin": g.pick([0, 0, 1, 9999]), "batch": g.chance(1, 5), "stop": g.int(1, 3) if g.chance(1, 6) else 0,
                 "scale": g.chance(1, 6), "pclr": g.chance(1, 6), "keep": g.chance(1, 4), "bitext": g.flip(), "noup": g.chance(1, 20)})
    case["rescale"] = case["rescale"] and not case["noup"]
    if case["pairs"] != "PRO" and g.chance(1, 3):
        case["max"], case["threshold"] = g.int(1, 8), 0
    if g.chance(1, 6):
        case["l1"] = g.pick([0.001, 0.01, 0.1, 0.5])
    return case


def counts(y, ref, n):
    cl, su = [0.0] * n, [0.0] * n
    for m in range(1, n + 1):
        a, b = {}, {}
        for s, d in ((y, a), (ref, b)):
            for i in range(len(s) - m + 1):
                d[tuple(s[i:i + m])] = d.get(tuple(s[i:i + m]), 0) + 1
        cl[m - 1] = float(sum(min(v, b.get(k, 0)) for k, v in a.items()))
        su[m - 1] = float(sum(a.values()))
    return cl, su


class Scorer:
    def __init__(self, kind, n, d=0.9):
        self.kind, self.n, self.d = kind, n, d
        self.reset()

    def reset(self):
        self.gcl, self.gsu = [0.0] * self.n, [0.0] * self.n

    def __call__(self, y, ref, rank):
        n, kind = self.n, self.kind
        if not ref or (not y and kind != "approx_bleu"):
            return 0.0
        cl, su = counts(y, ref, n)
        m = min(n, len(ref))

        def bp(extra=0):
            return 1.0 if len(y) > len(ref) + extra else math.exp(1 - (len(ref) + extra) / len(y))

        def bleu(cl, su):
            if not y or not all(cl[:m]):
                return 0.0
            return bp() * math.exp(sum(math.log(a / b) / m for a, b in zip(cl[:m], su)))
        if kind == "bleu":
            return bleu(cl, su)
        if kind == "approx_bleu":
            s = bleu([a + b for a, b in zip(cl, self.gcl)], [a + b for a, b in zip(su, self.gsu)])
            if rank == 0:
                self.gcl = [(a + b) * self.d for a, b in zip(cl, self.gcl)]
                self.gsu = [(a + b) * self.d for a, b in zip(su, self.gsu)]
            return s
        if kind in ("stupid_bleu", "fixed_stupid_bleu"):
            if not cl[0]:
                return 0.0
            return bp(kind[0] == "f") * math.exp(sum(math.log((a + (i > 0)) / (b + (i > 0))) / m for i, (a, b) in enumerate(zip(cl[:m], su))))
        s, logs = 0.0, 0.0
        for i in range(m):
            if not cl[i]:
                break
            p = cl[i] / su[i]
            logs += math.log(p)
            s += {"smooth_bleu": lambda: math.exp(logs / (i + 1)), "sum_bleu": lambda: p, "sumexp_bleu": lambda: math.exp(p), "sumwhatever_bleu": lambda: math.exp(math.log(p) / m)}[kind]() / 2.0 ** (n - i)
        return bp() * s


def candidates(case, s):
    out = []
    for y, f, t in Forest(text_lattice(s["src"]), grammars(case["rules"], s), "S", cap=300).all():
        if case["wp"]:
            f = add(f, {"WordPenalty": -len(y) / math.log(10)})
        if case["id"]:
            f = add(f, identities(t))
        if case.get("pclr") and len(clean(f)) < len(f):
            raise Discard("a feature that cancels in a translation: whether it counts as updated is not stated")
        out.append((y, clean(f)))
    return out


def kbest(ds, w, k, unique):
    s = sorted(((dot(f, w), y, f) for y, f in ds), key=lambda t: -t[0])
    if unique:
        best = {}
        for x, y, f in s:
            if y not in best:
                best[y] = (x, y, f)
            elif best[y][0] - x < 1e-7 * (1 + abs(x)) and f != best[y][2]:
                raise Discard("tie")
        s = list(best.values())
    if k < len(s) and s[k - 1][0] - s[k][0] < 1e-7 * (1 + abs(s[k][0])):
        raise Discard("tie")
    if len(s) > 1 and s[0][0] - s[1][0] < 1e-7 * (1 + abs(s[0][0])):
        raise Discard("tie")
    return s[:k]


def pairs_of(case, hs, misranked):
    """hs: (score, model, features), best score first."""
    n = len(hs)

    def wanted(a, b):
        if misranked and a[1] > b[1]:
            return False
        d = a[0] - b[0]
        return d >= case["threshold"] if case["threshold"] else d > 0
    if case["pairs"] in ("all", "PRO"):
        out = [(a, b) for i, a in enumerate(hs) for b in hs[i + 1:] if wanted(a, b)]
        if case["pairs"] == "PRO" and len(out) > 50:
            out.sort(key=lambda p: -(p[0][0] - p[1][0]))
            if out[49][0][0] - out[49][1][0] - (out[50][0][0] - out[50][1][0]) < 1e-9:
                raise Discard("tie")
            out = out[:50]
        return out[:case.get("max", len(out))]
    if n < 2:
        return []
    sep = int(math.floor(n * f32(case["hi_lo"]) + 0.5))
    if n > 4:
        hi = max(1, sep)
        while hi < n and hs[hi - 1][0] == hs[hi][0]:
            hi += 1
    else:
        hi = 1
        if hs[0][0] == hs[1][0]:
            raise Discard("tie")
    lo = n - max(1, sep)
    while lo > 0 and hs[lo - 1][0] == hs[lo][0]:
        lo -= 1
    if abs(n * case["hi_lo"] - math.floor(n * case["hi_lo"]) - 0.5) < 1e-3 and n * case["hi_lo"] > 0.5:
        raise Discard("rounding")
    out = [(a, b) for a in hs[:hi] for b in hs[hi:] if wanted(a, b)]
    out += [(a, b) for a in hs[hi:lo] for b in hs[lo:] if wanted(a, b)]
    return out[:case.get("max", len(out))]


def f32(x):
    import struct
    return struct.unpack("f", struct.pack("f", x))[0]


def check(case, ctx):
    sents, d = case["sents"], work_dir(ctx)
    n = min(case["stop"], len(sents)) if case["stop"] else len(sents)
    cands = [candidates(case, s) for s in sents]
    corpus = setup(case, ctx, sents, "bitext")
    args = ["--decoder_config", config(case, ctx), "--epochs", case["T"], "--k", case["k"], "--filter", case["filter"], "--pair_sampling", case["pairs"], "--hi_lo", case["hi_lo"],
            "--pair_threshold", num(case["threshold"]), "--N", case["N"], "--scorer", case["scorer"], "--learning_rate", num(case["eta"]), "--gamma", num(case["gamma"]),
            "--select_weights", case["select"], "--loss_margin", num(case["margin"]), "--stop_after", case["stop"], "--output", "out"]
    for o, k in (("rescale", "rescale"), ("batch", "batch"), ("keep", "keep"), ("scale_bleu_diff", "scale"), ("noup", "noup")):
        if case[k]:
            args.append("--" + o)
    if case["pclr"]:
        args += ["--pclr", "simple"]
    if "max" in case:
        args += ["--max_pairs", case["max"]]
    if "l1" in case:
        args += ["--l1_reg", "clip", "--l1_reg_strength", num(case["l1"])]
    if case["w"]:
        args += ["--input_weights", ctx.write("w", weights_text(case["w"]))]
    psg = any(s["psg"] for s in sents)
    if case["bitext"] and not psg:
        args += ["--bitext", corpus]
    else:
        lines = []
        for i, s in enumerate(sents):
            line = " ".join(s["src"])
            lines.append(f'<seg id="{i}" grammar="{corpus}.g{i}"> {line} </seg>\n' if s["psg"] else line + "\n")
        args += ["--input", ctx.write("src", "".join(lines)), "--refs", ctx.write("refs", "".join(" ".join(s["ref"]) + "\n" for s in sents))]
    # the model
    w, lr = dict(case["w"]), {}
    avg = {}
    scorer = Scorer(case["scorer"], case["N"])
    fast = not case["gamma"] and not case["margin"]
    margin = case["margin"] if case["margin"] <= 9998 else 1e30
    ws, stats, moved = [], [], False
    for t in range(case["T"]):
        total, msum, upd, npairs, nlist = 0.0, 0.0, {}, 0, 0
        for i in range(n):
            kb = kbest(cands[i], w, case["k"], case["filter"] == "uniq")
            hs, seen = [], []
            for r, (m, y, f) in enumerate(kb):
                sc = scorer(list(y), sents[i]["ref"], r)
                for s2, c2 in seen:
                    if abs(s2 - sc) < 1e-9 and c2 != counts(y, sents[i]["ref"], case["N"]) + (len(y),):
                        raise Discard("equal scores for different reasons")
                seen.append((sc, counts(y, sents[i]["ref"], case["N"]) + (len(y),)))
                for s2, _ in seen:
                    if abs(abs(s2 - sc) - case["threshold"]) < 1e-9 and case["threshold"]:
                        raise Discard("at the threshold")
                hs.append((sc, m, f))
            nlist += len(hs)
            if hs:
                total += hs[0][0]
                msum += hs[0][1]
            if case["noup"]:
                continue
            for a in range(len(hs)):
                for b in range(a):
                    if hs[a][2] != hs[b][2]:
                        x = abs(hs[a][1] - hs[b][1])
                        if x < 1e-7 * (1 + abs(hs[a][1])) or (case["margin"] and abs(x - margin) < 1e-6 * (1 + x)):
                            raise Discard("tie")
                    elif hs[a][0] != hs[b][0] and (case["gamma"] or "max" in case or case["pairs"] == "PRO" and len(hs) > 10):
                        raise Discard("a pair whose model scores may differ by rounding")
                    if case["gamma"] and hs[a][0] == hs[b][0]:
                        raise Discard("tie")
            hs.sort(key=lambda h: -h[0])
            if "max" in case and any(a[0] == b[0] for a, b in zip(hs, hs[1:])):
                raise Discard("which of the pairs come first")
            ps = pairs_of(case, hs, fast)
            before = dict(w)
            npairs += len(ps)
            if case["pairs"] == "PRO" and case["gamma"] and len(ps) > 1 and len(ps) >= 50:
                raise Discard("order")
            sums, touched = {}, set()
            for a, b in ps:
                eta = a[0] - b[0] if case["scale"] else case["eta"]
                md = a[1] - b[1]
                if not (fast or md <= 0 or abs(md) < margin):
                    continue
                diff = add(a[2], {k: -v for k, v in b[2].items()})
                moved = moved or bool(clean(diff))
                touched.update(clean(diff))
                if case["batch"]:
                    upd = add(upd, diff)
                elif case["pclr"]:
                    sums = add(sums, diff)
                else:
                    w = add(w, {k: eta * v for k, v in diff.items()})
                    if case["gamma"]:
                        w = {k: v * (1 - 2 * case["gamma"] * eta / len(ps)) for k, v in w.items()}
            for k, v in sums.items():
                if abs(v) < 1e-9 and case["pclr"]:
                    raise Discard("a difference that cancels")
                w[k] = w.get(k, 0.0) + v / max(1.0, lr.get(k, 0.0))
                lr[k] = lr.get(k, 0.0) + 1
            if "l1" in case:  # the weights that the sentence changed move towards zero
                for k, v in w.items():
                    d0 = v - before.get(k, 0.0)
                    if abs(d0) < 1e-9 and (d0 or k in touched):
                        raise Discard("changed by rounding")
                    if d0:
                        w[k] = max(0.0, v - case["l1"]) if v > 0 else min(0.0, v + case["l1"])
            if case["rescale"]:
                l = math.sqrt(sum(v * v for v in w.values()))
                if l < 1e-6:
                    raise Discard("no weights")
                w = {k: v / l for k, v in w.items()}
        if case["batch"] and not case["noup"]:
            if case["scale"] or (case["gamma"] and not npairs):
                raise Discard("the learning rate of the last pair")
            w = add(w, {k: case["eta"] * v for k, v in upd.items()})
            if case["gamma"]:
                w = {k: v * (1 - 2 * case["gamma"] * case["eta"] / npairs) for k, v in w.items()}
        if max([abs(v) for v in w.values()] + [0]) > 1e6:
            raise Discard("diverges")
        scorer.reset()
        stats.append((total / n, msum / n, nlist / n))
        ws.append(dict(w))
        avg = add(avg, w)
        if case["noup"]:
            break
    rc, out, err = ctx.run("dtrain", args, cwd=d)
    got = [(float(a), float(b), float(c)) for a, b, c in re.findall(r"1best avg score: (\S+).*\n\s*1best avg model score: (\S+)(?:.*\n)*?\s*avg list sz: (\S+)", err)]
    check_that(len(got) == len(stats), lambda: f"{len(got)} iterations:\n{err}")
    for t, (a, b) in enumerate(zip(got, stats)):
        check_that(all(abs(x - y) <= 2e-4 * (1 + abs(y)) for x, y in zip(a, b)), lambda: f"iteration {t + 1}: score, model score and list size are {a}, expected {b}")
    path = os.path.join(d, "out")
    if case["noup"]:
        check_that(not os.path.exists(path), "weights are written without updates")
        return
    best = 0
    for t, s in enumerate(stats):
        if s[0] > stats[best][0] + 1e-9 if t and stats[best][0] > 0 else s[0] > 1e-12 and not stats[best][0]:
            best = t
        elif t and abs(s[0] - stats[best][0]) < 1e-9 and s[0] != stats[best][0] and case["select"] == "best":
            raise Discard("tie")
    want = {"last": ws[-1], "avg": {k: v / case["T"] for k, v in avg.items()}, "best": ws[best]}[case["select"]]
    with open(path, "rb") as f:
        data = f.read()
    if data[:2] == b"\x1f\x8b":
        data = gzip.decompress(data)
    w1 = read_weights(data.decode())
    check_that(close(w1, want, 1e-6), lambda: f"the weights ({case['select']}) are {w1}, expected {clean(want)}")
    files = sorted(x for x in os.listdir(d) if x != "out")
    check_that(files == ([f"weights.{t}.gz" for t in range(case["T"])] if case["keep"] else []), lambda: f"files {files}")
    if case["keep"]:
        for t in range(case["T"]):
            check_that(close(load(d, f"weights.{t}.gz"), ws[t], 1e-6), lambda: f"weights of iteration {t + 1}: {load(d, f'weights.{t}.gz')}, expected {clean(ws[t])}")
    if moved:
        ctx.nontrivial()
    ctx.count(case["pairs"])
    ctx.count(case["scorer"])


if __name__ == "__main__":
    run_check("T07", RULE, py=[Suite("dtrain", gen, check)], programs=["dtrain"], quick=14, thorough=300)
