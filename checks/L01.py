"""L01: language model queries."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
import vbuild
import lm

WORDS = ["a", "b", "c", "d", "\u00e9t\u00e9", "x|y", "<tag>", "10.5", "aa"]


def gen(g):
    voc = WORDS[:g.int(1, len(WORDS))]
    closed = g.chance(2, 3)
    m = lm.gen_lm(g, voc, closed=closed, max_order=5, max_ngrams=15)
    # probabilities, also implied ones, do not exceed one
    for k, (p, b) in list(m.ng.items()):
        m.ng[k] = (p, -abs(b))
    sents = []
    for _ in range(g.count(1, 6)):
        s = [g.pick(voc + ["oov", "zz"][:g.draw(3)]) for _ in range(g.count(0, 8))]
        if g.flip() and m.order > 2:
            s += [w for w in g.pick(list(m.ng)) if w not in ("<s>", "</s>", "<unk>")]
        sents.append(s)
    typ = g.pick([[], ["probing"], ["trie"], ["-q", "12", "trie"], ["-q", "11", "-b", "13", "trie"], ["-a", "255", "trie"], ["-a", "3", "-q", "16", "trie"], ["-w", "after", "probing"], ["-w", "mmap", "probing"], ["-w", "after", "trie"]])
    return {"order": m.order, "lm": [[list(k), p, b] for k, (p, b) in m.ng.items()], "sents": sents, "type": typ, "n": g.flip(), "s": g.chance(1, 5),
            "load": g.pick([None, "lazy", "populate", "read", "parallel"]), "text": closed and g.chance(1, 4), "nospecial": g.chance(1, 8)}


def check(case, ctx):
    m = lm.LM(case["order"], {tuple(k): (p, b) for k, p, b in case["lm"]})
    arpa = ctx.write("m.arpa", m.arpa())
    f = arpa
    if not case["text"]:
        f = ctx.path("m.bin")
        opts = list(case["type"])
        if "trie" in opts:
            opts = ["-T", ctx.path("t"), "-S", "1M"] + opts
        else:
            opts = ["-p", "300"] + opts
        ctx.run("build_binary", opts + [arpa, f])
        ctx.count("binary " + " ".join(case["type"]))
    args = (["-n"] if case["n"] else []) + (["-s"] if case["s"] else []) + (["-l", case["load"]] if case["load"] else [])
    rc, out, err = ctx.run("query", args + [f], stdin="".join(" ".join(s) + "\n" for s in case["sents"]))
    lines = out.split("\n")
    tot = oovtot = 0.0
    nw = noov = 0
    for s, l in zip(case["sents"], lines):
        h = [] if case["n"] else ["<s>"]
        ws = s if case["n"] else s + ["</s>"]
        f = l.split("\t")
        st, so = 0.0, 0
        for i, w in enumerate(ws):
            p, n = m.score(h, w)
            if n > 1 or len(h) > 1:
                ctx.nontrivial()
            oov = not m.known(w)
            st += p
            so += oov
            if oov:
                oovtot += p
            if not case["s"]:
                a = f[i].split(" ")
                check_that(a[0].startswith(w + "=") and (a[0] == w + "=0") == oov, f"word {i} of {s}: {f[i]!r}")
                check_that(near(float(a[2]), p, 1e-4), f"p({w} | {' '.join(h)}) = {a[2]}, the file says {p}")
                check_that(n <= int(a[1]) <= len(h) + 1, f"p({w} | {' '.join(h)}) matched {a[1]} words, the file has {n}")
            h.append(w)
        want = "Total: "
        check_that(f[-1].startswith("Total: "), f"{l!r}")
        a = f[-1].split(" ")
        check_that(near(float(a[1]), st, 1e-4) and int(a[3]) == so, f"{s}: {f[-1]}, expected {st} and {so} unknown words")
        tot += st
        nw += len(ws)
        noov += so
    rest = lines[len(case["sents"]):]
    if case["s"]:
        check_that(rest == [""], f"{rest}")
        return
    v = [x.split("\t") for x in rest[:4]]
    check_that([x[0] for x in v] == ["Perplexity including OOVs:", "Perplexity excluding OOVs:", "OOVs:", "Tokens:"], f"{rest}")
    check_that(int(v[2][1]) == noov and int(v[3][1]) == nw, f"{v[2:]}, expected {noov} unknown words of {nw}")
    if nw:
        check_that(near(math.log10(float(v[0][1])), -tot / nw, 1e-4), f"perplexity {v[0][1]}, expected {10 ** (-tot / nw)}")
    if nw > noov:
        check_that(near(math.log10(float(v[1][1])), -(tot - oovtot) / (nw - noov), 1e-4), f"perplexity {v[1][1]} without unknown words")


if __name__ == "__main__":
    run_check("L01", "a case is non-trivial when a query has a history of two words or matches more than a unigram",
              py=[Suite("cli", gen, check, 0.5)], programs=["build_binary", "query"],
              cpp=[Cpp("klm", libs=vbuild.KLM_LIBS, suites=["query"])], quick=20, thorough=600)
