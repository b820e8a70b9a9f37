"""Reference models of the decoder's feature functions.

Each model has `spec` (the text after -F), `needs` (files {name: content}, the
name is substituted for %name% in spec) and two functions:
rule(r, i, j, src) -> features of one rule application, and
final(yield) -> features of the whole output (stateful models).
"""
import math


def esc(s):
    return s.replace("=", "_").replace(";", "_")


class FF:
    spec = ""
    stateful = False
    needs = {}

    def rule(self, r, i, j, src):
        return {}

    def final(self, y):
        return {}


def inc(d, k, v=1.0):
    d[k] = d.get(k, 0.0) + v


class WordPenalty(FF):
    spec = "WordPenalty"

    def rule(self, r, i, j, src):
        return {"WordPenalty": -sum(not isinstance(x, int) for x in r["t"]) / math.log(10)}


class SourceWordPenalty(FF):
    spec = "SourceWordPenalty"

    def rule(self, r, i, j, src):
        return {"SourceWordPenalty": -sum(not isinstance(x, list) for x in r["s"]) / math.log(10)}


class ArityPenalty(FF):
    spec = "ArityPenalty"

    def __init__(self, hi=None):
        self.hi = 9 if hi is None else hi
        if hi is not None:
            self.spec = "ArityPenalty %d" % hi

    def rule(self, r, i, j, src):
        n = sum(isinstance(x, list) for x in r["s"])
        return {"Arity_%d" % n: 1.0} if n <= self.hi else {}


class RuleIdentity(FF):
    spec = "RuleIdentityFeatures"

    def rule(self, r, i, j, src):
        s = "_".join("N" + x[0] if isinstance(x, list) else x for x in r["s"])
        t = "_".join("N%d" % x if isinstance(x, int) else x for x in r["t"])
        return {esc("R:%s:%s:%s" % (r["l"], s, t)): 1.0}


class SourceBigrams(FF):
    spec = "RuleSourceBigramFeatures"

    def rule(self, r, i, j, src):
        f = {}
        s = ["<r>"] + [x[0] if isinstance(x, list) else x for x in r["s"]] + ["</r>"]
        for a, b in zip(s, s[1:]):
            inc(f, esc("RBS:%s_%s" % (a, b)))
        return f


class TargetBigrams(FF):
    spec = "RuleTargetBigramFeatures"

    def rule(self, r, i, j, src):
        f = {}
        nts = [x[0] for x in r["s"] if isinstance(x, list)]
        t = ["<r>"] + [nts[x - 1] + str(x) if isinstance(x, int) else x for x in r["t"]] + ["</r>"]
        for a, b in zip(t, t[1:]):
            inc(f, esc("RBT:%s_%s" % (a, b)))
        return f


class Lexical(FF):
    def __init__(self, t=1, i=1, d=1):
        self.t, self.i, self.d = t, i, d
        self.spec = "LexicalFeatures %d %d %d" % (t, i, d)

    def rule(self, r, i, j, src):
        f = {}
        a = r.get("a", [])
        for s, t in a:
            if self.t:
                inc(f, "LT:%s:%s" % (esc(r["s"][s]), esc(r["t"][t])))
        if self.d:
            for k, x in enumerate(r["s"]):
                if not isinstance(x, list) and all(p[0] != k for p in a):
                    inc(f, "LD:" + esc(x))
        if self.i:
            for k, x in enumerate(r["t"]):
                if not isinstance(x, int) and all(p[1] != k for p in a):
                    inc(f, "LI:" + esc(x))
        return f


class NonLatin(FF):
    spec = "NonLatinCount"

    def rule(self, r, i, j, src):
        n = sum(any(ord(c) > 127 for c in x) for x in r["t"] if not isinstance(x, int))
        return {"NonLatinCount": float(n)} if n else {}


class WordSet(FF):
    def __init__(self, words, name="InSet", oov=False):
        self.words, self.name, self.oov = set(words), name, oov
        self.spec = "WordSet -v %vocab% -N " + name + (" --oov" if oov else "")
        self.needs = {"vocab": "".join(w + "\n" for w in words)}

    def rule(self, r, i, j, src):
        n = sum((x in self.words) != self.oov for x in r["t"] if not isinstance(x, int))
        return {self.name: float(n)}


def shape(seq, isnt):
    bits, k = "", 0
    while k < len(seq):
        if len(bits) % 2 == 0:
            if not isnt(seq[k]):
                bits += "1"
                while k < len(seq) and not isnt(seq[k]):
                    k += 1
            else:
                bits += "0"
        else:
            bits += "1"
            k += 1
    return bits + "0" * (5 - len(bits))


class RuleShape(FF):
    """Rules of arity 2 at most."""
    spec = "RuleShape"

    def rule(self, r, i, j, src):
        return {"Shape_S%s_T%s" % (shape(r["s"], lambda x: isinstance(x, list)), shape(r["t"], lambda x: isinstance(x, int))): 1.0}


class RuleShape2(FF):
    def __init__(self, emap, fmap, pfx):
        self.e, self.f, self.p = emap, fmap, pfx
        self.needs = {}
        self.spec = "RuleShape2"
        if emap is not None:
            self.needs["emap"] = "".join("%s %s 1\n" % (c, w) for w, c in emap.items())
            self.spec += " -e %emap%"
        if fmap is not None:
            self.needs["fmap"] = "".join("%s %s\n" % (c, w) for w, c in fmap.items())
            self.spec += " -f %fmap%"
        if pfx:
            self.spec += " -p %d" % pfx

    def cls(self, m, x, nt):
        if nt:
            return "NT"
        if x in ("<s>", "</s>"):
            return x
        c = m.get(x)
        if c is None:
            return "<unk>"
        return c[:self.p] if self.p else c

    def rule(self, r, i, j, src):
        o = []
        if self.f is not None:
            o.append("_".join(self.cls(self.f, x, isinstance(x, list)) for x in r["s"]))
        if self.e is not None:
            o.append("_".join(self.cls(self.e, x, isinstance(x, int)) for x in r["t"]))
        return {"RS:" + "__".join(o): 1.0}


def span_size(n):
    return int(math.log(n + 1) / math.log(1.39)) - 1 if n else 0


class Spans(FF):
    """Indicators for the words around the two ends of a span."""
    spec = "SpanFeatures"

    def __init__(self, classes=None, vals=None):
        self.classes, self.vals = classes, vals
        self.needs = {}
        if classes is not None:
            self.needs["smap"] = "".join("%s %s\n" % x for x in classes.items())
            self.spec += " %smap%"
            if vals is not None:
                self.needs["svals"] = "# span weights\n" + "".join("%s %r\n" % x for x in vals.items())
                self.spec += " %svals%"

    def rule(self, r, i, j, src):
        def left(k):
            return m(src[k - 1]) if k > 0 else "BOS"

        def right(k):
            return m(src[k]) if k < len(src) else "EOS"

        def m(w):
            return w if self.classes is None else self.classes.get(w, "OOV")
        p = "S_" if r["l"] == "S" else ""
        names = [["ES:" + right(j), "EBI:%s_%s" % (left(j), right(j))],
                 ["BS:" + left(i), "BBI:%s_%s" % (left(i), right(i))],
                 [p + "S:%s_%s" % (left(i), right(j)), p + "LS:%d_%s_%s" % (span_size(j - i), left(i), right(j))]]
        if self.vals is None:
            return {esc(n): 1.0 for g in names for n in g}
        v = [sum(self.vals.get(esc(n), 0.0) for n in g) for g in names]
        return {"SpanEnd": v[0], "SpanBegin": v[1], ("SSpanContext" if p else "XSpanContext"): v[2]}


class CMR(FF):
    spec = "CMR2008ReorderingFeatures"

    def rule(self, r, i, j, src):
        if sum(isinstance(x, list) for x in r["s"]) != 2 or r["l"] == "S":
            return {}
        first = next(x for x in r["t"] if isinstance(x, int))
        n = "CMRReorder" if first == 2 else "CMRMono"
        return {n: 1.0, "%s_%d" % (n, span_size(j - i)): 1.0}


class KLM(FF):
    stateful = True

    def __init__(self, lm, name=None, markers=False, classes=None, fname="lm"):
        self.lm, self.name, self.markers, self.classes = lm, name or "LanguageModel", markers, classes
        self.needs = {fname: lm.arpa()}
        self.spec = "KLanguageModel %" + fname + "%" + (" -n " + name if name else "") + (" -x" if markers else "")
        if classes is not None:
            self.needs[fname + "c"] = "".join("%s %s %r\n" % (c, w, p) for w, (c, p) in classes.items())
            self.spec += " -m %" + fname + "c%"

    def final(self, y):
        f = {}
        if self.markers:
            y = y[1:-1]
        if self.classes is not None:
            e = sum(self.classes[w][1] for w in y if w in self.classes)
            if e:
                f[self.name + "_Emit"] = e
            y = [self.classes[w][0] if w in self.classes else "<unk>" for w in y]
        f[self.name] = self.lm.sentence(y)
        oov = sum(not self.lm.known(w) or w == "<unk>" for w in y)
        if oov:
            f[self.name + "_OOV"] = float(oov)
        return f


class Ngrams(FF):
    stateful = True
    PFX = ["U:", "B:", "T:", "4:", "5:"]

    def __init__(self, order, markers=False, sep="_", clusters=None, name=""):
        self.order, self.markers, self.sep, self.clusters, self.name = order, markers, sep, clusters, name
        self.spec = "NgramFeatures -o %d" % order + (" -x" if markers else "") + (" -S " + sep if sep != "_" else "")
        if name:
            self.spec += " -n " + name
        self.needs = {}
        if clusters is not None:
            self.needs["nclus"] = "# clusters\n" + "".join("%s %s\n" % (c, w) for w, c in clusters.items())
            self.spec += " -c %nclus%"

    def final(self, y):
        f = {}
        y = list(y[1:-1] if self.markers else y)
        if self.clusters is not None:
            y = [self.clusters.get(w, "<unk>") for w in y]
        y = ["<s>"] + y + ["</s>"]
        for i in range(1, len(y)):
            for n in range(1, self.order + 1):
                if i - n + 1 < 0:
                    break
                inc(f, self.name + self.PFX[n - 1] + self.sep.join(esc(w) for w in y[i - n + 1:i + 1]))
        return f


def tree_feats(ffs, tree, src, f):
    """Adds the features of every rule application of a derivation."""
    r, i, j, kids = tree
    for ff in ffs:
        for k, v in ff.rule(r, i, j, src).items():
            f[k] = f.get(k, 0.0) + v
    for t in kids:
        tree_feats(ffs, t, src, f)
    return f


def all_feats(ffs, d, src):
    y, f, tree = d
    f = tree_feats(ffs, tree, src, dict(f))
    for ff in ffs:
        for k, v in ff.final(y).items():
            f[k] = f.get(k, 0.0) + v
    return f
