"""Reference model of synchronous context-free translation: enumerates every
derivation of an input (a word sequence or a word lattice) under a grammar.

A rule is a dict {l: category, s: [...], t: [...], f: {feature: value}}; a
source symbol is "w" or ["C"], a target symbol is "w" or an index 1, 2, ...
into the nonterminals of the source side.
A lattice is a list of nodes, each a list of arcs [label, features or None, jump].
"""
import math
from vp import Discard


def text_lattice(words):
    return [[[w, None, 1]] for w in words]


def rule_text(r, sep=" "):
    s, n = [], 0
    for x in r["s"]:
        if isinstance(x, list):
            n += 1
            s.append("[%s,%d]" % (x[0], n))
        else:
            s.append(x)
    t = ["[%d]" % x if isinstance(x, int) else x for x in r["t"]]
    f = " ".join("%s=%s" % (k, num(v)) for k, v in sorted(r["f"].items()))
    a = " ||| " + " ".join("%d-%d" % x for x in r["a"]) if r.get("a") else ""
    return "[%s] ||| %s ||| %s ||| %s%s" % (r["l"], " ".join(s), " ".join(t), f, a)


def num(v):
    return repr(int(v)) if v == int(v) else repr(v)


def rule_nts(r):
    return [x[0] for x in r["s"] if isinstance(x, list)]


def glue_rules(goal="S", nt="X"):
    return [{"l": goal, "s": [[nt]], "t": [1], "f": {}},
            {"l": goal, "s": [[goal], [nt]], "t": [1, 2], "f": {"Glue": 1.0}}]


def is_unary(r):
    return len(r["s"]) == 1 and isinstance(r["s"][0], list)


EPS = "*EPS*"


def add(f, g):
    if not g:
        return f
    f = dict(f)
    for k, v in g.items():
        f[k] = f.get(k, 0.0) + v
    return f


def distances(lat):
    """Fewest arcs between two nodes; for unreachable pairs, that of the next reachable node."""
    n = len(lat)
    inf = 10 ** 9
    d = [[inf] * (n + 1) for _ in range(n + 1)]
    for i in range(n - 1, -1, -1):
        for _, _, jump in lat[i]:
            d[i][i + jump] = 1
            for j in range(i + jump + 1, n + 1):
                d[i][j] = min(d[i][j], 1 + d[i + jump][j])
    for i in range(n + 1):
        latest = inf
        for j in range(n, i - 1, -1):
            if d[i][j] < inf:
                latest = d[i][j]
            else:
                d[i][j] = latest
    return d


class Forest:
    """All derivations.  grammars: list of (rules, kind), kind = max span or "glue" or "pass"."""

    def __init__(self, lattice, grammars, goal="S", cap=3000, dist=None):
        self.lat, self.n, self.goal, self.cap = lattice, len(lattice), goal, cap
        self.eps = any(a[0] == EPS for x in lattice for a in x)
        self.memo = {}
        self.rules, self.unary = {}, {}
        self.dist = dist or (lambda i, j: j - i)
        for gi, (rules, kind) in enumerate(grammars):
            for r in rules:
                if is_unary(r):
                    self.unary.setdefault(r["l"], []).append(r)
                else:
                    self.rules.setdefault(r["l"], []).append((r, kind))
        self.nrule = 0

    def allowed(self, kind, i, j):
        if kind == "glue":
            return i == 0
        if kind == "pass":
            return self.dist(i, j) < 4
        return self.dist(i, j) <= kind

    def derivs(self, cat, i, j):
        """List of (yield, feats, tree)."""
        key = (cat, i, j)
        if key in self.memo:
            r = self.memo[key]
            if r is None:
                raise Discard("unary cycle")
            return r
        self.memo[key] = None
        out = []
        for r, kind in self.rules.get(cat, ()):
            if self.allowed(kind, i, j):
                self.match(r, kind, 0, i, j, [], {}, out, i)
        for r in self.unary.get(cat, ()):
            child = r["s"][0][0]
            if child == self.goal:
                continue  # the decoder does not rewrite the goal category
            for d in self.derivs(child, i, j):
                out.append(self.build(r, [d], {}, i, j))
        if len(out) > self.cap:
            raise Discard("too many derivations")
        self.memo[key] = out
        return out

    def match(self, r, kind, k, i, j, kids, lf, out, start):
        if self.eps and i < j and r["s"]:
            # an empty arc may be skipped anywhere inside a rule
            for label, cost, jump in self.lat[i]:
                if label == EPS and i + jump <= j:
                    self.match(r, kind, k, i + jump, j, kids, add(lf, cost), out, start)
        if k == len(r["s"]):
            if i == j:
                import itertools
                n = 1
                for c in kids:
                    n *= len(c)
                if n + len(out) > self.cap:
                    raise Discard("too many derivations")
                for combo in itertools.product(*kids):
                    out.append(self.build(r, combo, lf, start, j))
            return
        x = r["s"][k]
        if isinstance(x, list):
            for m in range(i + 1, j + 1):
                if i == start and m == j:
                    continue  # would need an empty rest
                d = self.derivs(x[0], i, m)
                if d:
                    self.match(r, kind, k + 1, m, j, kids + [d], lf, out, start)
        elif i < j:
            for label, cost, jump in self.lat[i]:
                if label == x and i + jump <= j:
                    self.match(r, kind, k + 1, i + jump, j, kids, add(lf, cost), out, start)

    def build(self, r, kids, lf, i, j):
        y, f = [], dict(r["f"])
        for k, v in lf.items():
            f[k] = f.get(k, 0.0) + v
        for x in r["t"]:
            if isinstance(x, int):
                y.extend(kids[x - 1][0])
            else:
                y.append(x)
        for d in kids:
            for k, v in d[1].items():
                f[k] = f.get(k, 0.0) + v
        return (tuple(y), f, (r, i, j, tuple(d[2] for d in kids)))

    def all(self):
        return self.derivs(self.goal, 0, self.n) if self.n else []


class Sums(Forest):
    """The number of derivations, the log of the sum of their weights and the best score, span by span."""

    def __init__(self, lattice, grammars, w, goal="S", dist=None):
        Forest.__init__(self, lattice, grammars, goal, dist=dist)
        self.w = w
        self.plain = not self.eps and all(a[2] == 1 for x in lattice for a in x)

    def derivs(self, cat, i, j):
        key = (cat, i, j)
        if key in self.memo:
            r = self.memo[key]
            if r is None:
                raise Discard("unary cycle")
            return r
        self.memo[key] = None
        out = []
        for r, kind in self.rules.get(cat, ()):
            if self.allowed(kind, i, j):
                self.match(r, kind, 0, i, j, [], {}, out, i)
        for r in self.unary.get(cat, ()):
            child = r["s"][0][0]
            d = self.derivs(child, i, j) if child != self.goal else None
            if d:
                v = dot(r["f"], self.w)
                out.append((d[0], d[1] + v, d[2] + v))
        res = (sum(x[0] for x in out), logsumexp([x[1] for x in out]), max(x[2] for x in out)) if out else ()
        self.memo[key] = res
        return res

    def match(self, r, kind, k, i, j, kids, lf, out, start):
        s = r["s"]
        left = len(s) - k
        if self.plain and left > j - i:
            return
        if k == len(s) and i == j:
            v = dot(r["f"], self.w) + dot(lf, self.w)
            n, z, b = 1, v, v
            for c in kids:
                n, z, b = n * c[0], z + c[1], b + c[2]
            out.append((n, z, b))
            return
        Forest.match(self, r, kind, k, i, j, kids, lf, out, start)


def dot(f, w):
    return sum(v * w.get(k, 0.0) for k, v in f.items())


def logsumexp(xs):
    m = max(xs)
    return m + math.log(sum(math.exp(x - m) for x in xs))


def clean(f):
    return {k: v for k, v in f.items() if abs(v) > 1e-9}


# ---------------------------------------------------------------- generators

SRC = ["a", "b", "c", "d"]
TRG = ["A", "B", "C", "D", "E"]
FEATS = ["f", "g", "h", "p_1", "q"]


def gen_weights(g, extra=()):
    w = {}
    for n in list(FEATS) + ["Glue", "PassThrough"] + list(extra):
        v = g.grid(16)
        if v:
            w[n] = v
    return w


def weights_text(w):
    return "".join("%s %s\n" % (k, num(v)) for k, v in w.items())


def gen_feats(g, hi=3, names=FEATS):
    return {g.pick(names): g.grid(16) for _ in range(g.count(0, hi))}


def gen_rule(g, cats, src=SRC, trg=TRG, max_arity=3, unary=True):
    """A random rule; categories are ordered and unary rules go down only."""
    lhs = g.pick(cats)
    n_nt = g.weighted([(6, 0), (4, 1), (3, 2), (1, max_arity)])
    n_t = g.weighted([(5, 1), (3, 2), (2, 0), (1, 3)])
    if n_nt == 0 and n_t == 0:
        n_t = 1
    nts = []
    if n_nt == 1 and n_t == 0:
        lower = cats[cats.index(lhs) + 1:]
        if unary and lower:
            nts = [[g.pick(lower)]]
        else:
            n_t = 1
            nts = [[g.pick(cats)]]
    else:
        nts = [[g.pick(cats)] for _ in range(n_nt)]
    s = [g.pick(src) for _ in range(n_t)]
    for x in nts:
        s.insert(g.draw(len(s) + 1), x)
    order = g.shuffle(range(1, len(nts) + 1))
    t = [g.pick(trg) for _ in range(g.weighted([(5, 1), (3, 0), (3, 2), (1, 3)]))]
    if not nts and not t:
        t = [g.pick(trg)]
    # keep the order: insert the indices one after another from the left
    pos = sorted(g.draw(len(t) + 1) for _ in order)
    for d, (p, o) in enumerate(zip(pos, order)):
        t.insert(p + d, o)
    return {"l": lhs, "s": s, "t": t, "f": gen_feats(g)}


def gen_lexical(g, word, cats, trg=TRG):
    return {"l": g.pick(cats), "s": [word], "t": [g.pick(trg)], "f": gen_feats(g)}


def gen_grammar(g, cats, words, lo=0, hi=8, cover=7, **kw):
    """Random rules, and (mostly) a lexical rule for every word."""
    rules = [gen_rule(g, cats, **kw) for _ in range(g.count(lo, hi))]
    for w in sorted(set(words)):
        if g.chance(cover, 8) or cover >= 8:
            rules.append(gen_lexical(g, w, cats))
    return rules
