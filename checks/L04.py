"""L04: filtering language models and n-gram counts to vocabularies or phrases."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
import lm

WORDS = ["a", "b", "c", "d", "e", "f", "\u00e9t\u00e9", "x|y", "10.5", "aa", "<tag>", "<", ">"]


def gen(g):
    voc = WORDS[:g.int(1, len(WORDS))]
    mode = g.pick(["single", "union", "multiple", "copy"])
    phrase = mode in ("union", "multiple") and g.flip()
    fmt = g.pick(["arpa", "raw"])
    case = {"mode": mode, "phrase": phrase, "fmt": fmt, "context": g.flip() and mode != "copy"}
    use = [w for w in voc if g.chance(3, 4)] or voc[:1]
    sents = []
    for _ in range(g.count(0 if mode != "multiple" else 1, 6)):
        ph = [[g.pick(use + ["zz"]) for _ in range(g.count(1, 4))] for _ in range(g.count(1, 6))]
        sents.append(ph)
    case["sents"] = sents
    if fmt == "arpa":
        m = lm.gen_lm(g, [w for w in voc if w not in ("<", ">")], closed=g.flip(), max_ngrams=25, max_order=5)
        case["lm"] = [[list(k), p, b] for k, (p, b) in m.ng.items()]
        case["order"] = m.order
    else:
        lines = []
        for _ in range(g.count(0, 40)):
            n = g.int(1, 6)
            w = [g.pick(voc) for _ in range(n)]
            if sents and g.flip():  # pieces of phrases
                s = g.pick(sents)
                w = []
                for _ in range(g.int(1, 3)):
                    w += g.pick(s)
                i = g.draw(len(w))
                w = w[i:g.int(i + 1, len(w))]
            if g.chance(1, 5):
                w = ["<s>"] + w
            if g.chance(1, 5):
                w = w + ["</s>"]
            lines.append(" ".join(w) + g.pick(["", "\t3", "\t3\tx y", "\t"]))
        case["lines"] = lines
    case["threads"] = g.pick([1, 1, 2, 4])
    case["batch"] = g.pick([1, 2, 5, 100])
    case["stdin"] = g.pick(["vocab", "model"])
    case["sep"] = g.pick(["\t", "\t", "\v"]) if phrase else " "
    case["nonl"] = g.chance(1, 6)
    # blank lines before sentences and at the end: they are no sentences
    case["blank"] = [g.pick(["\n", "\n\n", " \n", "\t\n"]) if g.chance(1, 3) else "" for _ in range(len(sents) + 1)] if g.chance(1, 4) else []
    return case


def tag(w):
    return w[0] == "<" and w[-1] == ">"


def generated(ng, ph):
    """Can the phrases, put together in any order and cut off, make this n-gram?"""
    if ng and tag(ng[0]):
        ng = ng[1:]
    if "</s>" in ng:
        ng = ng[:ng.index("</s>")]
    if not ng:
        return None
    n = len(ng)
    for p in ph:
        if any(p[i:i + n] == ng for i in range(len(p))):
            return True
    ok = [False] * n  # the first i words end in a phrase boundary
    for i in range(1, n):
        ok[i] = any(p[-i:] == ng[:i] for p in ph if len(p) >= i) or any(ok[j] and p == ng[j:i] for j in range(1, i) for p in ph)
    return any(ok[i] and p[:n - i] == ng[i:] for i in range(1, n) for p in ph)


def passes(ng, case, sents):
    """The sentences that the n-gram can be used in, or None for all."""
    if case["context"]:
        ng = ng[:-1]
    if case["phrase"]:
        r = [generated(ng, ph) for ph in sents]
        if generated(ng, []) is None:
            return None
        return [i for i, x in enumerate(r) if x]
    need = [w for w in ng if not tag(w)]
    if not need:
        return None
    return [i for i, ph in enumerate(sents) if all(any(w in p for p in ph) for w in need)]


def check(case, ctx):
    sents = case["sents"]
    vocab = "\n".join(case["sep"].join(" ".join(p) for p in s) for s in sents) + ("\n" if sents and not case["nonl"] else "")
    bl = case.get("blank")
    if bl and sents:
        vocab = "".join(b + case["sep"].join(" ".join(p) for p in s) + "\n" for b, s in zip(bl, sents)) + bl[-1]
    if case["fmt"] == "arpa":
        m = lm.LM(case["order"], {tuple(k): (p, b) for k, p, b in case["lm"]})
        model = m.arpa()
        items = [(k, "%r\t%s" % (m.ng[k][0], " ".join(k)) + ("\t%r" % m.ng[k][1] if len(k) < m.order else "")) for n in range(1, m.order + 1) for k in m.ng if len(k) == n]
    else:
        model = "".join(l + "\n" for l in case["lines"])
        items = [(tuple(l.split("\t")[0].split(" ")), l) for l in case["lines"]]
    ssents = sents
    if case["mode"] == "single":
        ssents = [[p for s in sents for p in s]]
    pats = [passes(list(k), case, ssents) for k, _ in items]
    if case["mode"] == "copy":
        pats = [None] * len(items)
    n = len(sents) if case["mode"] == "multiple" else 1
    want = []
    for i in range(n):
        if case["mode"] == "multiple":
            want.append([l for (_, l), p in zip(items, pats) if p is None or i in p])
        else:
            want.append([l for (_, l), p in zip(items, pats) if p is None or p])
    if any(0 < len(w) < len(items) for w in want):
        ctx.nontrivial()
    ctx.count(case["mode"] + (" phrase" if case["phrase"] else "") + (" context" if case["context"] else "") + " " + case["fmt"])
    args = [case["mode"]] + (["phrase"] if case["phrase"] else []) + (["context"] if case["context"] else []) + [case["fmt"], "threads:%d" % case["threads"], "batch_size:%d" % case["batch"]]
    out = ctx.path("out")
    for f in os.listdir(ctx.work):
        if f.startswith("out"):
            os.unlink(ctx.path(f))
    if case["stdin"] == "vocab":
        args += ["model:" + ctx.write("model", model), out]
        ctx.run("filter", args, stdin=vocab, wall=60)
    else:
        args += ["vocab:" + ctx.write("vocab", vocab), out]
        ctx.run("filter", args, stdin=model, wall=60)
    names = [out + str(i) for i in range(n)] if case["mode"] == "multiple" else [out]
    got_files = sorted(f for f in os.listdir(ctx.work) if f.startswith("out"))
    check_that(sorted(map(os.path.basename, names)) == got_files, f"files {got_files}")
    for i, name in enumerate(names):
        with open(name, encoding="utf-8") as f:
            text = f.read()
        if case["fmt"] == "raw":
            got = text.split("\n")[:-1]
        else:
            got, sec, counts = [], 0, []
            for l in text.split("\n"):
                if l.startswith("ngram "):
                    counts.append(int(l.split("=")[1]))
                elif l.startswith("\\") and l.endswith("-grams:"):
                    sec += 1
                    check_that(l == "\\%d-grams:" % sec, "section " + l)
                elif l.strip() and not l.startswith("\\"):
                    got.append(l)
                    check_that(len(l.split("\t")[1].split(" ")) == sec, f"{l!r} is in section {sec}")
            have = [sum(1 for l in got if len(l.split("\t")[1].split(" ")) == j + 1) for j in range(sec)]
            check_that(counts == have and sec == case["order"], f"the header counts {counts}, the file holds {have}")
            check_that(text.rstrip().endswith("\\end\\"), "no end")
        missing = [l for l in want[i] if l not in got]
        extra = [l for l in got if l not in want[i]]
        check_that(got == want[i], f"output {i}: missing {missing[:5]}, too many {extra[:5]}" + ("" if missing or extra else ", or in another order"))


if __name__ == "__main__":
    run_check("L04", "a case is non-trivial when some but not all n-grams pass",
              py=[Suite("filter", gen, check)], programs=["filter"], quick=15, thorough=300)
