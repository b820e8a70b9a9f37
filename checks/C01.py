"""C01: the tools that prepare parallel corpora and grammars."""
import math
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa

RULE = "a case is non-trivial when at least two of its lines are written and one of them has two words"
CORPUS = os.path.join(vbuild.REPO, "corpus")
WORDS = ["a", "b", "c", "d", "e", "der", "Haus", "ein", "\u00e4", "\u0436\u0431", "0", "1", "-", "|", "||", "<s>", "&amp;",
         "\u4e2d", ",", "0.5", "s's", "\\", "$x", "@y", "%", "[X]", "\U0001f600"]


def tool(ctx, name, args=(), stdin=b"", ok=(0,)):
    return ctx.run(os.path.join(CORPUS, name), args, stdin, ok=ok)


def word(g):
    return g.pick(WORDS) if g.chance(2, 3) else "".join(g.pick("abcdefgh") for _ in range(g.count(1, 6)))


def sentence(g, lo=0, hi=12, words=None):
    return [g.pick(words) if words else word(g) for _ in range(g.count(lo, hi))]


def text(lines, last=True):
    return "".join(l + "\n" for l in lines[:-1]) + (lines[-1] + ("\n" if last else "") if lines else "")


def split_lines(out):
    check_that(out == "" or out.endswith("\n"), "the output does not end with a line")
    return out.split("\n")[:-1]


def nontrivial(ctx, lines):
    ctx.nontrivial(len(lines) >= 2 and any(len(l.split()) >= 2 for l in lines))


# ------------------------------------------------ pasting and cutting

def gen_fields(g):
    n, k = g.count(0, 8), g.int(2, 4)
    files = []
    for _ in range(k):
        ls = []
        for _ in range(n):
            s = sentence(g)
            l = ""
            for i, w in enumerate(s):
                l += (g.weighted([(6, " "), (1, "  "), (1, "\t"), (1, " \t ")]) if i else g.weighted([(5, ""), (1, " ")])) + w
            l += g.weighted([(5, ""), (1, " "), (1, "\r")])
            if g.chance(1, 15):
                l += g.weighted([(1, " ||| x"), (1, "|||"), (1, "||||")])
            ls.append(l)
        files.append(ls)
    extra = g.int(1, k) - 1 if g.chance(1, 6) else -1  # this file has one more line
    if extra >= 0:
        files[extra].append("one more")
    cut = []
    for _ in range(g.count(1, 4)):
        a = g.int(1, k + 1)
        if g.chance(1, 3):
            cut.append([a, a + g.int(1, 2)])
        else:
            cut.append([a])
    return {"files": files, "even": extra < 0, "last": g.flip(), "gz": g.chance(1, 4), "cut": cut}


def check_fields(c, ctx):
    import gzip
    paths = []
    for i, ls in enumerate(c["files"]):
        d = text(ls, c["last"] or (bool(ls) and ls[-1] == "")).encode()
        z = c["gz"] and i == 0
        paths.append(ctx.write(f"f{i}" + (".gz" if z else ""), gzip.compress(d) if z else d))
    rc, out, err = tool(ctx, "paste-files.pl", paths, ok=None)
    check_that((rc == 0) == c["even"], f"files of {[len(f) for f in c['files']]} lines: paste-files.pl exits with {rc}")
    if not c["even"]:
        ctx.count("uneven")
        return
    want = []
    for row in zip(*c["files"]):
        want.append(["" if "|||" in x else " ".join(x.split()) for x in row])
    got = split_lines(out)
    check_that(got == [" ||| ".join(w) for w in want], lambda: f"paste-files.pl writes {got!r}, expected {want!r}")
    bad = sum("|||" in x for f in c["files"] for x in f)
    check_that((f"containing ||| was: {bad}\n" in err) if bad else "containing" not in err, "wrong number of lines with |||: " + err)
    ctx.count("pasted")
    nontrivial(ctx, got)
    spec = ",".join("-".join(map(str, x)) for x in c["cut"])
    idx = [i for x in c["cut"] for i in (range(x[0], x[1] + 1) if len(x) == 2 else x)]
    _, cut, _ = tool(ctx, "cut-corpus.pl", [spec], out)
    exp = [" ||| ".join(w[i - 1] if i <= len(w) else "" for i in idx) for w in want]
    cut = split_lines(cut)
    check_that(cut == exp, lambda: f"cut-corpus.pl {spec} of {got!r} writes {cut!r}, expected {exp!r}")


# ------------------------------------------------ length filter

def gen_length(g):
    mx = g.weighted([(3, None), (1, 8), (1, 12), (1, 40)])
    tab = g.chance(1, 5)
    rows = []
    small = g.chance(1, 5)
    for _ in range(g.int(1, 30)):
        kind = g.weighted([(20, "pair"), (1, "one"), (1, "three"), (1, "nosrc"), (1, "notrg"), (1, "empty")])
        top = mx or 150
        a = g.weighted([(6, g.int(1, 6)), (0 if small else 10, g.int(1, 24)), (0 if small else 1, top + g.int(-1, 2))])
        b = g.weighted([(8, max(1, a + g.int(-3, 3))), (3, g.int(1, 24) if not small else g.int(1, 6)),
                        (0 if small else 1, max(1, a * g.pick([2, 4, 8, 9, 10]) + g.int(-1, 1))), (0 if small else 1, top + g.int(-1, 2))])
        rows.append([kind, a, b])
    if g.chance(1, 8):  # one ratio only
        for r in rows:
            r[2] = r[1]
    return {"rows": rows, "max": mx, "tab": tab, "gz": g.chance(1, 6), "last": g.flip()}


def check_length(c, ctx):
    import gzip
    sep = "\t" if c["tab"] else " ||| "
    lines, kinds = [], []
    for n, (k, a, b) in enumerate(c["rows"]):
        f = " ".join(f"s{n}" if i == 0 else WORDS[i % 6] for i in range(a))
        e = " ".join(f"t{n}" if i == 0 else WORDS[i % 7] for i in range(b))
        if k == "pair":
            l = f + sep + e
        elif k == "one":
            l = f
        elif k == "three":
            l = f + sep + e + sep + "z"
        elif k == "nosrc":
            l = sep + e
        elif k == "notrg":
            l = f + sep
        else:
            l = sep
        lines.append(l)
    mx = c["max"] or 150
    d = text(lines, c["last"]).encode()
    p = ctx.write("corpus" + (".gz" if c["gz"] else ""), gzip.compress(d) if c["gz"] else d)
    _, out, _ = tool(ctx, "filter-length.pl", ([f"-{c['max']}"] if c["max"] else []) + [p])
    long, may = [], {}
    for n, (k, a, b) in enumerate(c["rows"]):
        if k != "pair" or a > mx or b > mx:
            may[n] = 0
        elif a < 7 and b < 7:
            may[n] = 1
        else:
            r = max(a, b) / min(a, b)
            if r > 9:
                may[n] = 0
            else:
                if r == 9 and min(a, b) > 1:
                    raise Discard()  # the logarithms decide
                long.append((n, math.log(a) - math.log(b)))
    if long:
        m = sum(x for _, x in long) / len(long)
        sd = math.sqrt(sum((x - m) ** 2 for _, x in long) / len(long))
        flat = all(abs(x - long[0][1]) < 1e-12 for _, x in long)
        for n, x in long:
            z = 0 if flat else abs(x - m) / sd
            if abs(z - 2) < 1e-9:
                raise Discard()
            may[n] = int(z <= 2)
            ctx.count("outlier" if z > 2 else "typical")
    got = out.split("\n")[:-1] if out.endswith("\n") else out.split("\n") if out else []
    want = [l for n, l in enumerate(lines) if may[n]]
    check_that(got == want, lambda: f"filter-length.pl keeps {got!r}\nexpected {want!r}")
    nontrivial(ctx, got)
    ctx.count("kept", len(want))
    ctx.count("left out", len(lines) - len(want))


# ------------------------------------------------ sentence markers

def gen_markers(g):
    n, k = g.count(0, 8), g.int(2, 3)
    rows, al = [], []
    for _ in range(n):
        rows.append([sentence(g, 1, 8) for _ in range(k)])
        al.append(sorted({(g.int(0, len(rows[-1][0]) - 1), g.int(0, len(rows[-1][1]) - 1)) for _ in range(g.count(0, 8))}))
    return {"rows": rows, "al": al, "with": g.flip(), "mono": g.chance(1, 6), "odd": g.weighted([(8, 0), (1, 1), (1, -1)])}


def check_markers(c, ctx):
    rows = [r[:1] for r in c["rows"]] if c["mono"] and not c["with"] else c["rows"]
    for r in rows:
        for s in r:
            if "|||" in s:
                raise Discard()
    p = ctx.write("corpus", text([" ||| ".join(" ".join(s) for s in r) for r in rows]))
    args = [p]
    if c["with"]:
        al = [" ".join(f"{i}-{j}" for i, j in a) for a in c["al"]]
        if c["odd"] > 0:
            al.append("0-0")
        elif c["odd"] < 0 and al:
            al.pop()
        args += [ctx.write("al", text(al)), ctx.path("out.al")]
    rc, out, err = tool(ctx, "add-sos-eos.pl", args, ok=None)
    if c["with"] and len(al) != len(rows):
        check_that(rc != 0, "files of different lengths are accepted")
        return
    check_that(rc == 0, "add-sos-eos.pl fails: " + err)
    want = [" ||| ".join(" ".join(["<s>"] + s + ["</s>"]) for s in r) for r in rows]
    got = split_lines(out)
    check_that(got == want, lambda: f"add-sos-eos.pl writes {got!r}, expected {want!r}")
    nontrivial(ctx, got)
    if c["with"]:
        ctx.count("with alignments")
        for r, a, l in zip(rows, c["al"], split_lines(open(ctx.path("out.al")).read()) + [""]):
            w = ["0-0"] + [f"{i + 1}-{j + 1}" for i, j in a] + [f"{len(r[0]) + 1}-{len(r[1]) + 1}"]
            check_that(l.split() == w, lambda: f"alignment {l!r}, expected {w}")
        check_that(len(split_lines(open(ctx.path("out.al")).read())) == len(rows), "wrong number of alignments")


# ------------------------------------------------ self translations and statistics

def gen_self(g):
    ws = g.subset(WORDS, 1, 2) or ["a"]
    return {"rows": [[sentence(g, 1, 6, ws), sentence(g, 1, 6, ws)] for _ in range(g.int(1, 8))]}


def check_self(c, ctx):
    lines = [" ".join(f) + " ||| " + " ".join(e) for f, e in c["rows"]]
    _, out, _ = tool(ctx, "add-self-translations.pl", [], text(lines))
    freq, same = {}, set()
    for f, e in c["rows"]:
        for w in f:
            freq[w] = freq.get(w, 0) + 1
        same |= set(f) & set(e)
    want = [f"{w} ||| {w}" for w in sorted(same, key=lambda x: x.encode()) if freq[w] <= 4 for _ in range(3)]
    got = split_lines(out)
    check_that(got == want, lambda: f"add-self-translations.pl writes {got!r}, expected {want!r}")
    nontrivial(ctx, got)
    mono = [" ".join(f) for f, _ in c["rows"]]
    _, out, _ = tool(ctx, "corpus-stats.pl", [], text(mono))
    st = dict(re.findall(r"^ *([^:\n]+): (.*)$", out, re.M))
    tok = sum(freq.values())
    n = [len(mono), tok, len(freq), sum(v == 1 for v in freq.values())]
    s = [int(st[k]) for k in ("Lines", "Tokens", "Types", "Singletons")]
    check_that(s == n, lambda: f"corpus-stats.pl counts {s} lines, tokens, types, singletons, expected {n}")
    check_that(near(float(st["sqrt(types)"]), math.sqrt(len(freq))) and near(float(st["Type-tok ratio"]), tok / len(freq)), "ratios " + out)
    top = st["Most freq types"].split(" ")
    check_that(len(set(top)) == len(top) == min(25, len(freq)) and
               [freq.get(w) for w in top] == sorted(freq.values(), reverse=True)[:25], "most frequent types " + out)


# ------------------------------------------------ labelled sequences

def gen_conll(g):
    k = g.int(0, 3)
    sents = [[[g.pick(WORDS + ['"', 'say"it', '"x"', 'a"b"c']) for _ in range(k + 2)] for _ in range(g.int(1, 6))] for _ in range(g.int(1, 5))]
    return {"k": k, "sents": sents, "blank": g.flip(), "sep": g.pick([" ", "\t", "  "])}


def check_conll(c, ctx):
    f = "\n".join("".join(c["sep"].join(r) + "\n" for r in s) for s in c["sents"]) + ("\n" if c["blank"] else "")
    _, out, _ = tool(ctx, "conll2cdec.pl", [ctx.write("in.conll", f)])
    want = []
    for n, s in enumerate(c["sents"]):
        a = "".join(' feat%d="%s"' % (j + 1, " ".join(r[j + 1] for r in s).replace('"', "'")) for j in range(c["k"]))
        want.append(f'<seg id="{n}"{a}> {" ".join(r[0] for r in s)} ||| {" ".join(r[-1] for r in s)} </seg>')
    got = split_lines(out)
    check_that(got == want, lambda: f"conll2cdec.pl writes {got!r}, expected {want!r}")
    ctx.count("ends with a blank line" if c["blank"] else "ends with a token")
    nontrivial(ctx, got)


# ------------------------------------------------ escaping for Moses

def gen_escape(g):
    bits = WORDS + ["&", "|", "<", ">", "'", '"', "[", "]", "&amp;", "&lt;", "amp;", "&#124;", "#", ";", "&&amp;", "&#91;", "lt;", "  ", "\t"]
    return {"lines": ["".join(g.pick(bits) for _ in range(g.count(0, 14))) for _ in range(g.int(1, 8))], "last": g.flip()}


def check_escape(c, ctx):
    t = text(c["lines"], c["last"])
    _, esc, _ = tool(ctx, "moses-xml.pl", ["escape"], t)
    m = re.search(r"[|<>'\"\[\]]|&(?!(amp|#124|lt|gt|apos|quot|#91|#93);)", esc)
    check_that(not m, lambda: f"{t!r} is escaped as {esc!r}")
    check_that(esc.count("\n") == t.count("\n"), "escaping changes the number of lines")
    table = {"&": "&amp;", "|": "&#124;", "<": "&lt;", ">": "&gt;", "'": "&apos;", '"': "&quot;", "[": "&#91;", "]": "&#93;"}
    want = "".join(table.get(x, x) for x in t)
    check_that(esc == want, lambda: f"{t!r} is escaped as {esc!r}, expected {want!r}")
    _, back, _ = tool(ctx, "moses-xml.pl", ["unescape"], esc)
    check_that(back == t, lambda: f"{t!r} is escaped as {esc!r}, which is unescaped as {back!r}")
    ctx.nontrivial(sum(x in table for x in t) >= 3 and len(c["lines"]) > 1)


# ------------------------------------------------ Moses grammars

LABELS = ["X", "NP", "VP", "S", "PP", "N,P", "NN&apos;S", "A,B,C", "TOP"]
VALUES = ["0.00110169", "1", "0.0073223", "2.84566e-06", "0.5", "2.718", "0.606531", "0", "1e-07"]


def gen_scfg(g):
    rules = []
    for _ in range(g.int(1, 8)):
        k = g.int(0, 2)
        src = [["t", g.pick(["von", "der", "\u00e4", "3", "a|b", ",", "x"])] for _ in range(g.count(1 if k == 0 else 0, 4))]
        for i in range(k):
            src.insert(g.int(0, len(src)), ["n", g.pick(LABELS)])
        trg = [["t", g.pick(["of", "the", "&apos;s", "4", "y"])] for _ in range(g.count(1 if k == 0 else 0, 4))]
        nts = [i for i, s in enumerate(src) if s[0] == "n"]
        for i in g.shuffle(nts):
            trg.insert(g.int(0, len(trg)), ["n", i])
        al = [[s[1], t] for t, s in enumerate(trg) if s[0] == "n"]
        ts = [t for t, s in enumerate(trg) if s[0] == "t"]
        ss = [i for i, s in enumerate(src) if s[0] == "t"]
        if ts and ss:
            for _ in range(g.count(0, 3)):
                p = [g.pick(ss), g.pick(ts)]
                if p not in al:
                    al.append(p)
        rules.append({"lhs": g.pick(LABELS), "src": src, "trg": trg, "al": g.shuffle(al),
                      "v": [g.pick(VALUES[:-2]) if g.chance(14, 15) else g.pick(VALUES) for _ in range(7)]})
    return {"rules": rules}


def check_scfg(c, ctx):
    lines, want = [], []
    for r in c["rules"]:
        lab = {i: s[1] for i, s in enumerate(r["src"]) if s[0] == "n"}
        src = " ".join(f"[X][{s[1]}]" if s[0] == "n" else s[1] for s in r["src"])
        trg = " ".join(f"[X][{lab[s[1]]}]" if s[0] == "n" else s[1] for s in r["trg"])
        al = " ".join(f"{a}-{b}" for a, b in r["al"])
        lines.append(f"{src} [X] ||| {trg} [{r['lhs']}] ||| {' '.join(r['v'])} ||| {al} ||| 3 4 2")
        v = [float(x) for i, x in enumerate(r["v"]) if i != 5]
        if min(v) == 0:
            ctx.count("impossible rule")
            continue

        def plain(x):
            return x.replace("&apos;", "'").replace(",", "COMMA")

        order = {i: n + 1 for n, i in enumerate(sorted(lab))}
        want.append((f"[{plain(r['lhs'])}]", " ".join(f"[{plain(s[1])}]" if s[0] == "n" else s[1] for s in r["src"]),
                     " ".join(f"[{order[s[1]]}]" if s[0] == "n" else s[1] for s in r["trg"]),
                     dict(zip(["FgivenE", "EgivenF", "Joint", "LexFgivenE", "LexEgivenF", "Other"], map(math.log, v)))))
    _, out, _ = tool(ctx, "moses-scfg-to-cdec.pl", [], text(lines))
    got = split_lines(out)
    check_that(len(got) == len(want), lambda: f"{len(want)} rules become {len(got)}: {got!r}")
    for l, w in zip(got, want):
        f = l.split(" ||| ")
        check_that(tuple(f[:3]) == w[:3] and len(f) == 4, lambda: f"rule {l!r}, expected {w}")
        fs = dict(x.split("=") for x in f[3].split())
        check_that(fs.pop("RuleCount", None) == "1" and set(fs) == set(w[3]) and
                   all(near(float(fs[k]), w[3][k], 2e-5) for k in fs), lambda: f"features {f[3]!r}, expected {w[3]}")
    nontrivial(ctx, got)


if __name__ == "__main__":
    run_check("C01", RULE, py=[
        Suite("fields", gen_fields, check_fields), Suite("length", gen_length, check_length, 1.5),
        Suite("markers", gen_markers, check_markers), Suite("self", gen_self, check_self, 0.7),
        Suite("conll", gen_conll, check_conll, 0.7), Suite("escape", gen_escape, check_escape, 0.7),
        Suite("scfg", gen_scfg, check_scfg)], quick=12, thorough=240)
