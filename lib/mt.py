"""Reference models of the translation metrics, written from their definitions."""
import math
from collections import Counter


def levenshtein(a, b):
    d = list(range(len(b) + 1))
    for i in range(1, len(a) + 1):
        p, d[0] = d[0], i
        for j in range(1, len(b) + 1):
            c = min(d[j] + 1, d[j - 1] + 1, p + (a[i - 1] != b[j - 1]))
            p, d[j] = d[j], c
    return d[len(b)]


def ngrams(s, n):
    return Counter(tuple(s[i:i + n]) for i in range(len(s) - n + 1))


def chars(s):
    return list(" ".join(s))


def bleu_stats(hyp, refs, kind, n):
    out = []
    for k in range(1, n + 1):
        h = ngrams(hyp, k)
        m = Counter()
        for r in refs:
            m |= ngrams(r, k)
        out.append(sum((h & m).values()))
    for k in range(1, n + 1):
        out.append(max(0, len(hyp) - k + 1))
    out.append(len(hyp))
    lens = [len(r) for r in refs]
    if kind == "KOEHN":
        out.append(sum(lens) / len(lens))
    elif kind == "NIST":
        out.append(min(lens))
    else:
        out.append(min(lens, key=lambda l: abs(l - len(hyp))))
    return out


def bleu(st, kind, n):
    """(score, precisions, brevity penalty)"""
    alpha = 1.0 if kind == "QCRI" else 0.01
    logs = [math.log((st[k] or alpha) / st[n + k]) for k in range(n) if st[n + k] > 0]
    if not logs:
        return 0.0, [], 0.0
    h, r = st[2 * n], st[2 * n + 1]
    bp = 0.0
    if h < r:
        bp = (h - r - (alpha if kind == "QCRI" else 0)) / h
    s = math.exp(sum(logs) / len(logs) + bp)
    if kind == "QCRI":
        adj = [math.log(alpha / (st[n + k] + alpha)) for k in range(n) if st[n + k] > 0]
        s -= math.exp(bp + sum(adj) / len(adj))
    return s, [math.exp(x) for x in logs], math.exp(bp)


def ssk1(s, t, lam=0.8, n=4):
    """sum over the common subsequences of at most n words (or characters) of lam^(span in s + span in t)"""
    # dp[i][j]: weight of common subsequences that start anywhere and end exactly at (i, j)
    total = 0.0
    cur = {(i, j): lam * lam for i in range(len(s)) for j in range(len(t)) if s[i] == t[j]}
    for k in range(n):
        total += sum(cur.values())
        nxt = {}
        for i in range(len(s)):
            for j in range(len(t)):
                if s[i] == t[j]:
                    v = sum(w * lam ** (i - a + j - b) for (a, b), w in cur.items() if a < i and b < j)
                    if v:
                        nxt[i, j] = v
        cur = nxt
    return total


def ssk(s, t, lam=0.8, n=4):
    k = ssk1(s, t, lam, n)
    return k / math.sqrt(ssk1(s, s, lam, n) * ssk1(t, t, lam, n)) if k else 0.0


# --- TER -------------------------------------------------------------------
MAX_SIZE, MAX_DIST = 10, 50


def align(hyp, ref):
    """Edit distance with a path; a match or substitution is preferred to an insertion, that to a deletion."""
    H, R = len(hyp), len(ref)
    c = [[0] * (R + 1) for _ in range(H + 1)]
    b = [[None] * (R + 1) for _ in range(H + 1)]
    for i in range(H + 1):
        for j in range(R + 1):
            opts = []
            if i and j:
                opts.append((c[i - 1][j - 1] + (hyp[i - 1] != ref[j - 1]), 0, "m" if hyp[i - 1] == ref[j - 1] else "s"))
            if i:
                opts.append((c[i - 1][j] + 1, 1, "i"))
            if j:
                opts.append((c[i][j - 1] + 1, 2, "d"))
            if opts:
                o = min(opts)
                c[i][j], b[i][j] = o[0], o[2]
    path, i, j = [], H, R
    while i or j:
        t = b[i][j]
        path.append(t)
        i -= t in "msi"
        j -= t in "msd"
    return c[H][R], path[::-1]


def shift(h, start, end, to):
    """Moves h[start..end] to behind the word at position `to` of the sentence (-1: to the front)."""
    blk = h[start:end + 1]
    if to == -1:
        return blk + h[:start] + h[end + 1:]
    if to < start:
        return h[:to + 1] + blk + h[to + 1:start] + h[end + 1:]
    if to > end:
        return h[:start] + h[end + 1:to + 1] + blk + h[to + 1:]
    # the target lies inside the block: it moves to the right by its distance
    return h[:start] + h[end + 1:end + 1 + (to - start)] + blk + h[end + 1 + (to - start):]


def ter(hyp, ref):
    """Greedy shift search of tercom: (edits, subs, ins, dels, shifts)."""
    words = set(hyp)
    where = {}
    for st in range(len(ref)):
        for ln in range(1, min(MAX_SIZE, len(ref) - st) + 1):
            if ref[st + ln - 1] not in words:
                break
            where.setdefault(tuple(ref[st:st + ln]), []).append(st)
    cur = list(hyp)
    med, path = align(cur, ref)
    nshift = 0
    while True:
        herr, rerr, ral, hp = [], [], [], -1
        for t in path:
            if t in "msi":
                hp += 1
                herr.append(t != "m")
            if t in "msd":
                rerr.append(t != "m")
                ral.append(hp)
        cand = {}
        for st in range(len(cur)):
            w = where.get((cur[st],))
            if not w or not any(st != ral[m] and ral[m] - st < MAX_DIST and st - ral[m] - 1 < MAX_DIST for m in w):
                continue
            for en in range(st, min(len(cur), st + MAX_SIZE)):
                w = where.get(tuple(cur[st:en + 1]))
                if not w:
                    break
                if not any(herr[st:en + 1]):
                    continue
                ok = False
                for m in w:
                    rm = ral[m]
                    if not ((rm < st or rm > en) and rm - st <= MAX_DIST and st - rm - 1 <= MAX_DIST):
                        continue
                    ok = True
                    if not any(rerr[m:m + en - st + 1]):
                        continue
                    for off in range(en - st + 1):
                        r2 = ral[m + off]
                        if r2 != st and (off == 0 or r2 != rm):
                            cand.setdefault(en - st, []).append((st, en, r2))
                if not ok:
                    break
        best = None
        for size in sorted(cand, reverse=True):
            gain = (med - best[0] - 1) if best else 0
            most = 2 * (1 + size) - 1
            if gain > most or (best is None and gain == most):
                break
            for st, en, to in cand[size]:
                gain = (med - best[0] - 1) if best else 0
                if gain > most or (best is None and gain == most):
                    continue
                sh = shift(cur, st, en, to)
                d, p = align(sh, ref)
                g = ((best[0] + 1) if best else med) - (d + 1)
                if g > 0 or (best is None and g == 0):
                    best = (d, p, sh)
        if best is None:
            break
        med, path, cur = best
        nshift += 1
    return med + nshift, path.count("s"), path.count("i"), path.count("d"), nshift


def segment(hyp, refs, metric):
    """Sufficient statistics of one segment."""
    if metric.endswith("_BLEU"):
        return bleu_stats(hyp, refs, metric[:-5], 4)
    if metric == "CBLEU":
        return bleu_stats(chars(hyp), [chars(r) for r in refs], "IBM", 5)
    if metric == "WER":
        return list(min(((levenshtein(hyp, r), len(r)) for r in refs), key=lambda x: x[0]))
    if metric == "CER":
        h = " ".join(hyp).encode()
        rs = [" ".join(r).encode() for r in refs]
        return list(min(((levenshtein(h, r), len(r)) for r in rs), key=lambda x: x[0]))
    if metric == "SSK":
        return [max(ssk(hyp, r) for r in refs), 1]
    if metric == "TER":
        e = min((ter(hyp, r) for r in refs), key=lambda x: x[0])
        return [e[2], e[3], e[1], e[4], sum(len(r) for r in refs) // len(refs)]
    raise ValueError(metric)


def score(st, metric):
    if metric.endswith("_BLEU"):
        return bleu(st, metric[:-5], 4)[0]
    if metric == "CBLEU":
        return bleu(st, "IBM", 5)[0]
    if metric == "TER":
        return sum(st[:4]) / st[4]
    return st[0] / st[1]


def corpus(hyps, refs, metric):
    tot = None
    for h, r in zip(hyps, refs):
        s = segment(h, r, metric)
        tot = s if tot is None else [a + b for a, b in zip(tot, s)]
    return tot, score(tot, metric)


METRICS = ["IBM_BLEU", "NIST_BLEU", "KOEHN_BLEU", "QCRI_BLEU", "CBLEU", "TER", "WER", "CER", "SSK"]
