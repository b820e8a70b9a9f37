"""Small forests with a known list of derivations, and the pools of candidates that tuning programs collect from them."""
import math
import os
import random
from vp import check_that, Discard
from scfg import dot, num
import mt

NAMES = ["Fa", "Fb", "Fc", "Fd", "Fe", "Ff", "Fg", "Fh", "Fi", "Fj"]
TRG = ["A", "B", "C", "D", "E"]
ERROR = ("TER", "WER", "CER")


def gen_sent(g, names, trg=TRG, refs=(1, 2)):
    """A forest as rules (cat, rhs, feats) from the leaves up; rhs items are words or [cat]."""
    cats = ["C", "B", "A", "S"][-g.int(2, 4):]
    rules = []
    for i, c in enumerate(cats):
        for _ in range(g.weighted([(2, 2), (2, 3), (1, 1), (1, 5)])):
            subs = [g.pick(cats[:i]) for _ in range(g.weighted([(1, 0), (3, 1), (2, 2)]))] if i else []
            rhs = [[s] for s in dict.fromkeys(subs)]
            for _ in range(g.weighted([(2, 0), (3, 1), (2, 2)]) if rhs else g.weighted([(4, 1), (3, 2), (2, 3), (1, 6)])):
                rhs.insert(g.int(0, len(rhs)), g.pick(trg))
            rules.append((c, rhs, {n: x for n in names if g.chance(2, 3) for x in [g.grid(16)] if x}))
    r = [[g.pick(trg) for _ in range(g.int(1, 6))] for _ in range(g.pick(refs))]
    return {"rules": rules, "refs": r}


def derivations(sent, cap=80):
    memo = {}
    for c, rhs, f in sent["rules"]:
        alts = [((), dict(f))]
        for x in rhs:
            if isinstance(x, list):
                nxt = []
                for y, fs in alts:
                    for y2, f2 in memo.get(x[0], []):
                        h = dict(fs)
                        for k, v in f2.items():
                            h[k] = h.get(k, 0) + v
                        nxt.append((y + y2, h))
                alts = nxt
            else:
                alts = [(y + (x,), fs) for y, fs in alts]
            if len(alts) > cap:
                raise Discard("too many derivations")
        memo.setdefault(c, []).extend(alts)
        if len(memo[c]) > cap:
            raise Discard("too many derivations")
    return memo.get("S", [])


def write_forest(ctx, sent, path):
    keep = reachable(sent)
    ctx.run("mkhg", [path], "".join("[%s] ||| %s%s\n" % (c, " ".join("[%s]" % x[0] if isinstance(x, list) else x for x in rhs),
                                                               " ||| " * bool(f) + " ".join("%s=%s" % (k, num(v)) for k, v in f.items())) for c, rhs, f in keep))


def reachable(sent):
    need = {"S"}
    for c, rhs, f in reversed(sent["rules"]):
        if c in need:
            need |= {x[0] for x in rhs if isinstance(x, list)}
    have = {c for c, _, _ in sent["rules"]}
    if not need <= have:
        raise Discard("a category without rules")
    return [r for r in sent["rules"] if r[0] in need]


def key(y, f):
    return (y, tuple(sorted((k, v) for k, v in f.items() if v)))


def kbest(ds, w, k):
    """The candidates of the k best derivations; Discard when a tie makes that ambiguous."""
    s = sorted(((dot(f, w), key(y, f)) for y, f in ds), key=lambda t: -t[0])
    if k < len(s):
        cut = s[k - 1][0]
        tied = [c for x, c in s if abs(x - cut) < 1e-7 * (1 + abs(cut))]
        if abs(s[k][0] - cut) < 1e-7 * (1 + abs(cut)) and len(set(tied)) > 1:
            raise Discard("tie at the end of the list")
    return {c for x, c in s[:k]}


_score = {}


def gain(c, refs, metric):
    """The score of a candidate's words."""
    k = (c[0], repr(refs), metric)
    if k not in _score:
        if len(_score) > 100000:
            _score.clear()
        _score[k] = mt.corpus([list(c[0])], [refs], metric)[1]
    return _score[k]


def loss(c, refs, metric):
    s = gain(c, refs, metric)
    return s if metric in ERROR else 1 - s


def feats(c):
    return dict(c[1])


def read_weights(text):
    w = {}
    for l in text.split("\n"):
        if not l or l.startswith("#"):
            continue
        p = l.split()
        check_that(len(p) == 2, lambda: f"line of weights {l!r}")
        check_that(p[0] not in w, lambda: f"two weights for {p[0]}")
        w[p[0]] = float(p[1])
    return w


def read_pool(ctx, path):
    import gzip
    with open(path, "rb") as f:
        b = f.read()
    if b[:2] == b"\x1f\x8b":
        b = gzip.decompress(b)
    ls = b.decode().split("\n")
    check_that(ls[-1] == "" and len(ls) % 3 == 1, lambda: f"{path} has {len(ls) - 1} lines")
    res = []
    for i in range(0, len(ls) - 1, 3):
        f = {}
        for p in ls[i + 1].split():
            k, v = p.rsplit("=", 1)
            f[k] = float(v)
        res.append(key(tuple(ls[i].split()), f))
    return res


def check_pool(ctx, path, want, what):
    check_that(os.path.exists(path), lambda: f"{what}: no pool was written to {os.path.basename(path)}")
    have = read_pool(ctx, path)
    check_that(len(set(have)) == len(have), lambda: f"{what}: the pool has {len(have)} entries for {len(set(have))} candidates")
    check_that(set(have) == want, lambda: f"{what}: the pool lacks {sorted(want - set(have))[:3]} and has {sorted(set(have) - want)[:3]} that it should not")
