"""L03: language model estimation (lmplz) against a reference of interpolated modified Kneser-Ney smoothing."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa

WORDS = ["a", "b", "c", "d", "e", "f", "g", "h", "the", "\u00e9t\u00e9", "x|y", "10.5", "aa", "ab", "<tag>", "w15", ",", "<", "S"]


def gen(g):
    order = g.int(1, 5)
    nv = g.pick([1, 2, 3, 5, 8, len(WORDS)])
    big = g.chance(1, 12)
    vocab = WORDS[:nv] + (["v%d" % i for i in range(g.int(5, 400))] if big or g.chance(1, 6) else [])
    lines = []
    n = g.int(300, 1500) if big else g.int(20, 150) if g.flip() else g.int(1, 12)
    for _ in range(n):
        if lines and g.chance(1, 5):
            lines.append(list(lines[g.draw(len(lines))]))
            continue
        ln = []
        for _ in range(g.count(0, 9)):
            i = min(g.draw(len(vocab)), g.draw(len(vocab)))
            ln.append(vocab[i])
        lines.append(ln)
    case = {"order": order, "lines": [" ".join(x) for x in lines]}
    if g.flip():
        t = [0]
        for _ in range(g.int(0, order - 1)):
            t.append(t[-1] + g.weighted([(3, 0), (3, 1), (1, 2)]))
        case["prune"] = t
    d = [g.draw(9) / 8.0, g.draw(17) / 8.0, g.draw(25) / 8.0]
    case["fallback"] = g.pick([None, [], d[:1], d[:2], d])
    if case["fallback"] and any(x > i + 1 for i, x in enumerate((case["fallback"] + [case["fallback"][-1]] * 2)[:3])):
        case["fallback"] = []
    if g.chance(1, 5):
        case["interp"] = 0
    elif g.chance(1, 8):
        case["pad"] = g.pick([1, 10, 1000])
    if g.chance(1, 12):
        case["q"] = True
    case["mem"] = g.pick([[], ["-S", "64K", "--minimum_block", "200b", "--sort_block", "300b"], ["-S", "20K", "--minimum_block", "96b", "--sort_block", "700b"],
                          ["-S", "1M", "--sort_block", "4K", "--minimum_block", "1K"], ["--block_count", "3", "-S", "200K", "--minimum_block", "100b", "--sort_block", "1K"]])
    if g.chance(1, 6):  # special words as whitespace
        case["skip"] = g.pick(["<s>", "</s>", "<unk>"])
        case["skip_at"] = g.draw(len(lines))
    case["nonl"] = g.chance(1, 8)
    return case


class Bad(Exception):
    pass


def reference(case):
    """Counts per order, and {ngram: (prob, backoff)}, in the natural scale."""
    N = case["order"]
    thr = case.get("prune", [0])
    thr = thr + [thr[-1]] * (N - len(thr))
    real = [dict() for _ in range(N + 1)]
    left = [dict() for _ in range(N + 1)]
    voc = {}
    for ln in case["lines"]:
        w = ["<s>"] + ln.split() + ["</s>"]
        for x in w:
            voc.setdefault(x, 1)
        for j in range(1, len(w)):
            for n in range(1, N + 1):
                i = j - n + 1
                if i < 0:
                    break
                k = tuple(w[i:j + 1])
                real[n][k] = real[n].get(k, 0) + 1
                if i > 0:
                    left[n].setdefault(k, set()).add(w[i - 1])
    adj = [dict() for _ in range(N + 1)]
    for n in range(1, N + 1):
        for k, c in real[n].items():
            adj[n][k] = c if n == N or k[0] == "<s>" else len(left[n][k])
    adj[1][("<unk>",)] = 0
    adj[1][("<s>",)] = 0
    marked = [set() for _ in range(N + 1)]
    for n in range(2, N + 1):
        if thr[n - 1]:
            marked[n] = {k for k in adj[n] if real[n][k] <= thr[n - 1]}
    fb = case["fallback"]
    if fb is not None:
        fb = fb or [0.5, 1, 1.5]
        fb = (fb + [fb[-1]] * 2)[:3]
    disc = [None]
    for n in range(1, N + 1):
        t = [0] * 5
        for c in adj[n].values():
            if c < 5:
                t[c] += 1
        try:
            if not (t[1] and t[2] and t[3]):
                raise Bad("no counts of 1, 2 or 3 at order %d" % n)
            y = t[1] / (t[1] + 2.0 * t[2])
            d = [0.0] + [j - (j + 1) * y * t[j + 1] / t[j] for j in (1, 2, 3)]
            for j in (1, 2, 3):
                if abs(d[j]) < 1e-5 or abs(d[j] - j) < 1e-5:
                    raise Discard()
                if d[j] < 0 or d[j] > j:
                    raise Bad("discount out of range")
        except Bad:
            if fb is None:
                raise
            d = [0.0] + fb
        disc.append(d)
    V = len(adj[1]) - 1
    uni = 1.0 / max(V, case.get("pad", 0))
    probs = [dict() for _ in range(N + 1)]
    back = [dict() for _ in range(N)]
    for n in range(1, N + 1):
        den, gam = {}, {}
        for k, c in adj[n].items():
            cut = 0 if k in marked[n] else c
            d = den.setdefault(k[:-1], [0, 0.0])
            d[0] += c
            d[1] += disc[n][min(cut, 3)] + (c - cut)
        for k, d in den.items():
            back[n - 1][k] = d[1] / d[0]
        for k, c in adj[n].items():
            if k in marked[n]:
                continue
            d = den[k[:-1]]
            p = (c - disc[n][min(c, 3)]) / d[0] if c else 0.0
            g = d[1] / d[0]
            if n == 1:
                if case.get("interp", 1):
                    p += g * uni
                elif k == ("<unk>",):
                    p = g
            else:
                p += g * probs[n - 1][k[1:]]
            probs[n][k] = p
    res = {}
    for n in range(1, N + 1):
        for k, p in probs[n].items():
            b = 1.0
            if n < N and k[-1] not in ("<unk>", "</s>"):
                b = back[n].get(k, 1.0)
            res[k] = (p, b)
    return N, res, [len(p) for p in probs[1:]]


def read_arpa(text):
    ls = text.split("\n")
    counts, res, order = [], {}, 0
    check_that(ls[0] == "\\data\\", "the output does not begin with \\data\\")
    seen = []
    for l in ls[1:]:
        if l.startswith("ngram "):
            a, b = l[6:].split("=")
            check_that(int(a) == len(counts) + 1, "n-gram counts out of order")
            counts.append(int(b))
        elif l.startswith("\\") and l.endswith("-grams:"):
            order += 1
            seen.append(0)
            check_that(l == "\\%d-grams:" % order, "sections out of order")
        elif l and not l.startswith("\\"):
            f = l.split("\t")
            k = tuple(f[1].split(" "))
            check_that(len(k) == order, f"an n-gram of {len(k)} words in section {order}: {l!r}")
            check_that(k not in res, f"{k} is listed twice")
            res[k] = (float(f[0]), float(f[2]) if len(f) > 2 else None)
            seen[-1] += 1
    check_that(ls[-2] == "\\end\\", "the output is cut off")
    check_that(seen == counts, f"the header counts {counts} n-grams, the file has {seen}")
    return counts, res


def log10(x):
    return math.log10(x) if x > 0 else -math.inf


def close(a, b, scale=1e-4):
    if a == b:
        return True
    return abs(a - b) < scale * (1 + abs(b))


def check(case, ctx):
    order = case["order"]
    try:
        want = reference(case)
        if 0 in want[2]:  # pruned until an order is empty: refused
            want = None
    except Bad:
        want = None
    lines = list(case["lines"])
    skip = case.get("skip")
    if skip:
        lines[case["skip_at"]] = (lines[case["skip_at"]] + " " + skip + " " + skip).strip()
    text = "\n".join(lines) + ("" if case["nonl"] and lines[-1] else "\n")
    src = ctx.write("text", text)
    args = ["-o", order, "--vocab_estimate", "100", "-T", ctx.path("tmp"), "--arpa", ctx.path("arpa"), "--text", src]
    if "prune" in case:
        args += ["--prune"] + case["prune"]
    if case["fallback"] is not None:
        args += ["--discount_fallback"] + [repr(x) for x in case["fallback"]]
    if "interp" in case:
        args += ["--interpolate_unigrams", "0"]
    if "pad" in case:
        args += ["--vocab_pad", str(case["pad"])]
    if skip:
        args += ["--skip_symbols"]
    if case.get("q"):
        args += ["--collapse_values"]

    def run(mem):
        if os.path.exists(ctx.path("arpa")):
            os.unlink(ctx.path("arpa"))
        rc, out, err = ctx.run("lmplz", args + mem, ok=None, mem=None)
        if want is None:
            check_that(rc != 0, "the discounts cannot be estimated or an order is empty, and yet there is a model")
            return None
        check_that(rc == 0, f"exit status {rc}: {err[-600:]}")
        with open(ctx.path("arpa"), encoding="utf-8", errors="surrogateescape") as f:
            return read_arpa(f.read())
    if want is None:
        ctx.count("no discounts")
        run(["-S", "1G"])
        return
    # memory of a few blocks has to do: ask for what the program says it needs
    base = run(["-S", "20M"])
    counts, got = base
    N, ref, refcounts = want
    check_that(counts == refcounts, f"n-grams by order: {counts}, expected {refcounts}")
    if max(refcounts[1:], default=0) > 2 and "q" not in case:
        ctx.nontrivial()
    ctx.count("order %d" % order)
    if "prune" in case and sum(case["prune"]):
        ctx.count("pruned")
    for k, (p, b) in ref.items():
        check_that(k in got, f"{k} is missing")
        if case.get("q"):
            continue
        gp, gb = got[k]
        if p > 0 or k != ("<s>",):
            check_that(close(gp, min(0.0, log10(p))) or (p < 1e-5 and abs(10 ** gp - p) < 1e-7),
                       f"p{k} = {gp}, expected {log10(p)}")
        if len(k) < N:
            check_that(gb is not None and (close(gb, log10(b)) or (b < 1e-5 and abs(10 ** gb - b) < 1e-7)), f"backoff of {k} = {gb}, expected {log10(b)}")
    if not case.get("q") and "pad" not in case:
        sums(got, N)
    if case.get("q"):
        collapsed(case, ref, got, N)
    if case["mem"]:
        c2, g2 = run_mem(ctx, run, case["mem"])
        if c2 is not None:
            ctx.count("small memory")
            check_that(c2 == counts and set(g2) == set(got), f"with {case['mem']} the model has other n-grams: {c2}")
            for k in got:
                check_that(all(x == y or (x != x and y != y) or (x is not None and y is not None and close(x, y, 1e-5)) for x, y in zip(got[k], g2[k])),
                           f"with {case['mem']} {k} has {g2[k]}, with much memory {got[k]}")


def run_mem(ctx, run, mem):
    try:
        return run(mem)
    except Violation as v:
        # a setting that the program refuses
        if "Not enough memory" in str(v) or "exceeds total memory" in str(v) or "below the minimum block" in str(v) or "too small to fit" in str(v):
            return None, None
        raise


def prob(m, N, h, w):
    bo = 1.0
    while True:
        k = h + (w,)
        if k in m:
            return bo * 10 ** m[k][0]
        if not h:
            return 0.0
        if h in m:
            bo *= 10 ** m[h][1]
        h = h[1:]


def sums(m, N):
    """Every context's distribution sums to one."""
    voc = [k[0] for k in m if len(k) == 1 and k[0] != "<s>"]
    ctxs = [k for k in m if len(k) < N and k[-1] not in ("</s>", "<unk>")]
    for h in [()] + ctxs[:12] + ctxs[-12:]:
        t = sum(prob(m, N, h, w) for w in voc)
        check_that(abs(t - 1) < 1e-3, f"the probabilities after {h} sum to {t}")


def collapsed(case, ref, got, N):
    """The collapsed values give sentences the same score."""
    if any(b < 1e-6 for _, b in ref.values()):
        return  # a back-off of zero cannot be divided out
    m = {k: (log10(p), log10(b)) for k, (p, b) in ref.items()}
    for ln in case["lines"][:8]:
        w = ["<s>"] + ln.split() + ["</s>"]
        a = b = 0.0
        for i in range(1, len(w)):
            h = tuple(w[max(0, i - N + 1):i])
            a += log10(prob(m, N, h, w[i]))
            while h + (w[i],) not in got:
                h = h[1:]
            b += got[h + (w[i],)][0]
        # the first value holds the back-off of <s>, which begins every sentence
        b += log10(ref[("<s>",)][1])
        if math.isfinite(a):
            check_that(abs(a - b) < 1e-2 * (1 + abs(a)), f"collapsed values score {ln!r} {b}, expected {a}")


if __name__ == "__main__":
    run_check("L03", "a case is non-trivial when the model has more than two n-grams of an order above one",
              py=[Suite("estimate", gen, check)], programs=["lmplz"], quick=25, thorough=600)
