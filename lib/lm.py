"""Random back-off language models in ARPA format and a reference scorer."""


class LM:
    """order; ngrams: {tuple of words: (log10 prob, log10 backoff)}."""

    def __init__(self, order, ngrams):
        self.order, self.ng = order, ngrams

    def arpa(self, shuffled=None, bo_zero=True):
        by = [[] for _ in range(self.order)]
        for k in (shuffled or self.ng):
            by[len(k) - 1].append(k)
        out = ["\\data\\"]
        for n, l in enumerate(by):
            out.append("ngram %d=%d" % (n + 1, len(l)))
        for n, l in enumerate(by):
            out.append("")
            out.append("\\%d-grams:" % (n + 1))
            for k in l:
                p, b = self.ng[k]
                s = "%r\t%s" % (p, " ".join(k))
                if n + 1 < self.order and (bo_zero or b != 0):
                    s += "\t%r" % b
                out.append(s)
        out += ["", "\\end\\", ""]
        return "\n".join(out)

    def known(self, w):
        return (w,) in self.ng

    def score(self, ctx, w):
        """(log10 p(w | ctx), length of the matched n-gram)."""
        k = tuple(x if self.known(x) else "<unk>" for x in tuple(ctx)[-(self.order - 1):]) if self.order > 1 else ()
        w = w if self.known(w) else "<unk>"
        bo = 0.0
        while k:
            if k + (w,) in self.ng:
                return bo + self.ng[k + (w,)][0], len(k) + 1
            bo += self.ng.get(k, (0, 0.0))[1]
            k = k[1:]
        return bo + self.ng[(w,)][0], 1

    def sentence(self, words, bos=True, eos=True):
        ctx = ["<s>"] if bos else []
        t = 0.0
        for w in list(words) + (["</s>"] if eos else []):
            t += self.score(ctx, w)[0]
            ctx.append(w)
        return t


def gen_lm(g, words, min_order=2, max_order=4, closed=True, unk=True, unit=8.0, max_ngrams=12):
    """A random model over (a subset of) words; values are multiples of 1/unit.
    closed: with an n-gram, its prefix and its suffix are in the model."""
    order = g.int(min_order, max_order)
    vocab = [w for w in words if not g.chance(1, 8)]
    ng = {}

    def val(k):
        p = -g.draw(5 * int(unit)) / unit
        if k[-1] == "<s>":
            p = -99.0
        return (p, 0.0 if k[-1] == "</s>" else g.grid(16, unit))
    if unk:
        ng[("<unk>",)] = (-g.draw(7 * int(unit)) / unit, 0.0)
    for w in ["<s>", "</s>"] + vocab:
        ng[(w,)] = val((w,))
    unused = [w for w in vocab]
    for n in range(2, order + 1):
        prev = [k for k in ng if len(k) == n - 1 and k[-1] != "</s>" and k != ("<unk>",)]
        for _ in range(g.count(1 if n == 2 else 0, max_ngrams)):
            if not prev:
                break
            k = g.pick(prev)
            w = g.pick(unused + ["</s>"])
            new = k + (w,)
            if closed and new[1:] not in ng:
                continue
            ng.setdefault(new, val(new))
    if order > 1 and not any(len(k) == 2 for k in ng):
        ng[("<s>", "</s>")] = val(("</s>",))
    # every order needs an entry
    while order > 1 and not any(len(k) == order for k in ng):
        order -= 1
    return LM(order, {k: (p, b if len(k) < order else 0.0) for k, (p, b) in sorted(ng.items(), key=lambda x: (len(x[0]),)) if len(k) <= order})
