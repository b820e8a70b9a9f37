"""C02: tokenization and its inverse."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa

RULE = "a case is non-trivial when one of its lines is split into more tokens than it has words"
CORPUS = os.path.join(vbuild.REPO, "corpus")
LATIN = ["qabo", "wilo", "dekum", "zorpla", "Tuvi", "QEMA", "m\u00fcrl", "na\u00efvu", "qs"]
OTHER = ["\u041c\u043e\u0441\u043a\u0432\u0430", "\u03bb\u03cc\u03b3\u03bf\u03c2", "\u6771\u4eac", "\u05e9\u05dc\u05d5\u05dd", "\u0645\u0631\u062d\u0628\u0627"]
DEV = ["\u0928\u092e\u0938\u094d\u0924\u0947", "\u0926\u0941\u0928\u093f\u092f\u093e", "\u0939\u0948"]
LD, RD = "\u201c", "\u201d"


def tokenize(ctx, lines, args=(), last=True):
    t = "\n".join(lines) + ("\n" if last and lines else "")
    _, out, err = ctx.run(os.path.join(CORPUS, "tokenize-anything.sh"), args, t, cpu=60)
    got = out.split("\n")
    if got[-1] == "":
        got.pop()
    n = t.count("\n") + (0 if t.endswith("\n") or not t else 1)
    check_that(len(got) == n, lambda: f"{n} lines become {len(got)}: {lines!r} -> {got!r}\n{err[-300:]}")
    return got


# ------------------------------------------------ what the pieces of a line become

# signs standing alone, and what is documented to become of them (nothing, for spaces)
SIGNS = {"": "\u00ad \u200c \u2009 \u2028 \u2029 \u202a \u202b \u202c \u202d \u202e \u0085 \ufffd \ufeff \u0640",
         "'": "\u02c7 \u00b4 ` \u02c9 \u0092 \u2019 \u2018 \u201a &apos; &squot;", "*": "\u0095 \u2022", "\u2122": "\u0099", "\u20ac": "\u0080",
         '"': "\u300c \u300d \u3003 \u0093 \u201c \u0094 \u201d \u201e \u0084 \u201f \u00ab \u00bb \u203a \u2039 ,, '' `` &quot; &QUOT;",
         "0": "\u0966 \u0c66 \u0ce6 \u0d66 \uff10", "5": "\u096b \u0c6b \u0ceb \u0d6b \uff15", "9": "\u096f \u0c6f \u0cef \u0d6f",
         "!": "\uff01", "~": "\uff5e", "A": "\uff21", ",": "\u3001 \u060c \uff0c", "...": "\u2026", "--": "\u2015 \u2013 \u2500 \u2014 \u0097 &#45;&#45; &#45;",
         "?": "\u061f", ";": "\u061b", "oe": "\u009c \u0153", "Oe": "\u008c \u0152", "ff": "\ufb00", "fi": "\ufb01", "fl": "\ufb02", "ffi": "\ufb03",
         "ffl": "\ufb04", "2": "\u00b2", "GBP": "\u00a3", "[": "-LSB-", "]": "-RSB-", "{": "-LCB-", "}": "-RCB-", "(": "-LRB-", ")": "-RRB-",
         "<": "&lt; &LT;", ">": "&gt;", "&": "&amp; &AMP;", "\u00e4": "\u00c3\u00a4 &#228; &#xe4; a\u0308", "\u00f6": "\u00c3\u00b6",
         "\u00d6": "\u00c3\u0096", "\u00c4": "\u00c3\u0084", "USD 5": "USD5", "EUR 12.50": "EUR12.50 euro12.50", "\u00df": "\u03b2 \u00c3\u009f"}
SIGN = sorted((x, w) for w, xs in SIGNS.items() for x in xs.split(" "))


MORE = [lambda a, b: (a + "\u200c" + b, [a + b]), lambda a, b: (a + "\u00ad" + b, [a + b]), lambda a, b: ("&amp;lt;" + " " + a, ["&lt", ";", a]),
        lambda a, b: (a + ",,", [a, ",", ","]), lambda a, b: (a + "n't.", [a, "n't", "."]), lambda a, b: (a + "'re.", [a, "'re", "."]),
        lambda a, b: (a.upper() + "'RE", [a.upper(), "'RE"]), lambda a, b: (a.upper() + "N'T", [a.upper(), "N'T"]),
        lambda a, b: (a.upper() + "'LL", [a.upper(), "'LL"]), lambda a, b: (a.upper() + "'M " + b, [a.upper(), "'M", b]), lambda a, b: (a + "'s.", [a, "'s", "."]),
        lambda a, b: (a + "'ll.", [a, "'ll", "."]), lambda a, b: (a + "'d.", [a, "'d", "."]), lambda a, b: (a + "'ve.", [a, "'ve", "."]), lambda a, b: (a + "'m.", [a, "'m", "."]),
        lambda a, b: (a + "!?", [a, "!", "?"]), lambda a, b: (a + ".)", [a, ".", ")"]),
        lambda a, b: ('"' + a + " " + b + '"', [LD, a, b, RD]), lambda a, b: ("(" + a + ' "' + b + '")', ["(", a, LD, b, RD, ")"]),
        lambda a, b: ("100%-" + a, ["100", "%", "-", a]), lambda a, b: ("#5 " + a + "#" + b, ["#5", a, "#", b]), lambda a, b: ("7. 12. 123. " + a, ["7.", "12.", "123.", a]),
        lambda a, b: ("1234. " + a, ["1234", ".", a]), lambda a, b: (a + "@" + b, [a + "@" + b]), lambda a, b: ("1950's " + a, ["1950", "'s", a]),
        lambda a, b: ("US$120 " + a, ["US$", "120", a]), lambda a, b: (a + "s' " + b, [a + "s", "'", b]), lambda a, b: ("it " + a + " ' s " + b, ["it", a, "'s", b]),
        lambda a, b: (a + " gon na " + b, [a, "gonna", b]), lambda a, b: (a + " 12: 30 " + b, [a, "12:30", b]), lambda a, b: (a + " al - " + b, [a, "al-" + b]),
        lambda a, b: (a + ":" + b + " " + b, [a + ":" + b, b]), lambda a, b: (a + ":5 " + b, [a, ":", "5", b]), lambda a, b: (a + ": " + b, [a, ":", b]),
        lambda a, b: (a + "*" + b, [a, "*", b]), lambda a, b: (a + "_" + b + "/" + a, [a + "_" + b, "/", a]),
        lambda a, b: (a + "&" + b, [a, "&", b]), lambda a, b: ("--" + a + "--", ["--", a, "--"]),
        lambda a, b: (a + "....", [a, "...."]), lambda a, b: ("5.... " + a, ["5", "....", a]),
        lambda a, b: (a + "-" + b + "-" + a, [a, "-", b, "-", a]), lambda a, b: ("e-" + a, ["e-" + a]), lambda a, b: ("\u05d9\u05d5\u05dd, " + a, ["\u05d9\u05d5\u05dd", ",", a])]


def number(g):
    return g.pick([str(g.int(0, 9)), str(g.int(10, 2999)), "3.14", "1,234,567", "1,234.50", "12.5", "0.25", "1,234,567.50", "1.234,50", "12,5"])


def name(g):
    return g.pick(["qabo", "wilo", "dekum", "zorpla"])


def fragment(g):
    """What is written, and its tokens."""
    k = g.draw(48)
    w = g.pick(LATIN + OTHER) if g.flip() else "qx" + "".join(g.pick("bdgkmpqtv") + g.pick("aiou") for _ in range(g.int(1, 4)))
    n = number(g)
    if k <= 4:
        return w, [w]
    if k <= 8:
        p = g.pick([",", ";", "!", "?", ")", "]", "}", "...", "!!", "."])
        return w + p, [w, p]
    if k == 9:
        p = g.pick(["(", "[", "{", "<", "="])
        return p + w, [p, w]
    if k == 10:
        return f'"{w}"', [LD, w, RD]
    if k == 11:
        c = g.pick(["'s", "'re", "'ve", "'ll", "'d", "'m", "n't"])
        b = name(g)
        return b + c, [b, c]
    if k == 12:
        return n, [n]
    if k == 13:
        return "$" + n, ["$", n]
    if k == 14:
        return n + "%", [n, "%"]
    if k == 15:
        a, b = str(g.int(1, 3000)), str(g.int(1, 3000))
        return f"{a}-{b}", [a, "-", b]
    if k == 16:
        a, b = name(g), name(g)
        s = g.pick(["-", "/", "=", "+", "--", "(", "?", ";", "^", "~"])
        return a + s + b, [a, s, b]
    if k == 17:
        a, b = str(g.int(1, 99)), str(g.int(1, 99))
        s = g.pick([":", "/", "~", "^"])
        return a + s + b, [a + s + b]
    if k == 18:
        u = g.pick(["www.qabo.com", "http://wilo.org/dekum", "me@qabo.net", "#qabo", "@wilo", "qabo.com", "/usr/lib/qabo", "(914)244-4567"])
        p = g.pick(["", ",", "!"]) if u[0] != "/" and u != "qabo.com" else ""
        return u + p, [u] + ([p] if p else [])
    if k == 19:
        u = g.pick(["I.B.M.", "U.S.", "so-called", "vis-\u00e0-vis", "AT&T", "Q&A", "qabo_wilo", "qabo\\wilo", "al-qabo", "el-wilo"])
        return u, [u]
    if k == 20:
        e, c = g.pick([("&amp;", "&"), ("&quot;", None), ("&#36;", "$"), ("&#x25;", "%"), ("&lt;", "<"), ("&gt;", ">"), ("& amp ;", "&")])
        return (e, [c]) if c else (f"{e}{w}{e}", [LD, w, RD])
    if k == 21:
        b = name(g)
        return b + "\u2019s", [b, "'s"]
    if k == 22:
        return g.pick([("\u201c" + w + "\u201d", [LD, w, RD]), ("\u00ab" + w + "\u00bb", [LD, w, RD]), ("\u201e" + w + "\u201c", [LD, w, RD])])
    if k == 23:
        a, b = name(g), name(g)
        return g.pick([(a + "\u2026", [a, "..."]), (a + "\u2014" + b, [a, "--", b]), (a + "\u00a0" + b, [a, b]), (a + "\uff0c", [a, ","]),
                       ("\ufb01n" + a, ["fin" + a]), (a + "\u00ad" + b, [a + b]), (a + "\u3001", [a, ","])])
    if k == 24:
        return g.pick([("-LRB-", ["("]), ("-RRB-", [")"]), ("\u00bf" + w + "?", ["\u00bf", w, "?"]), ("\u00a1" + w + "!", ["\u00a1", w, "!"]),
                       ("\u00a35", ["GBP", "5"]), ("*", ["*"])])
    if k == 25:
        b = name(g)
        return f"({b}).", ["(", b, ")", "."]
    if k == 26:
        return "\u0928\u092e\u0938\u094d\u0924\u0947", ["\u0928\u092e\u0938\u094d\u0924\u0947"]
    if k == 27:
        b = name(g)
        return b + "-", [b, "-"]
    if k == 28:
        x = g.pick(["&#1114112;", "&#xD800;", "&#99999999999999999999;", "&#xFFFFFFFFFFFFFFFFFF;"])
        return x, [None]  # no character has this number: whatever it becomes, the rest is not touched
    if k == 29:
        return "|||", ["|||"]
    if k >= 36:
        a, b = name(g), name(g)
        return g.pick(MORE)(a, b)
    x, t = g.pick(SIGN)
    a, b = name(g), name(g)
    return f"{a} {x} {b}", [a] + t.split() + [b]


def gen_gold(g):
    lines = []
    for _ in range(g.int(1, 40)):
        if g.chance(1, 12):  # Devanagari sentences end with a danda
            n = g.int(1, 3)
            lines.append([" ".join(DEV[:n]) + g.pick([".", " .", ". ||| qabo."]), DEV[:n] + ["\u0964"]])
            if "|||" in lines[-1][0]:
                lines[-1][1] += ["|||", "qabo", "."]
            continue
        fr = [fragment(g) for _ in range(g.count(0, 8))]
        s, t = "", []
        for i, (a, b) in enumerate(fr):
            s += (g.weighted([(8, " "), (1, "  "), (1, "\t"), (1, "\u00a0")]) if i else g.weighted([(6, ""), (1, " ")])) + a
            t += b
        s += g.weighted([(6, ""), (1, " "), (1, ' "' if t else "")])
        if s.endswith(' "'):
            t.append(RD)
        lines.append([s, t])
    return {"lines": lines, "last": g.flip()}


def matches(got, want):
    """None in want stands for any number of tokens."""
    if not want:
        return not got
    if want[0] is None:
        return any(matches(got[i:], want[1:]) for i in range(len(got) + 1))
    return bool(got) and got[0] == want[0] and matches(got[1:], want[1:])


def check_gold(c, ctx):
    last = c["last"] or c["lines"][-1][0] == ""
    got = tokenize(ctx, [s for s, _ in c["lines"]], last=last)
    for (s, t), o in zip(c["lines"], got):
        w = o.split(" ") if o else []
        if "\u0928" in s and "\u0964" not in t:  # a Devanagari sentence ends with a danda
            w = ["." if x == "\u0964" else x for x in w]
        if "|||" in t:  # a period ends each of the fields
            ctx.count("fields")
        check_that(matches(w, t), lambda: f"{s!r} becomes {w}, expected {t}")
        ctx.nontrivial(len(t) > len(s.split()))
    ctx.count("lines", len(got))


# ------------------------------------------------ any text

BITS = (["a", "B", "7", "42", "qabo", " ", "  ", "\t", "\u00e4", "\u0436", "\u6771", "\u3042", "\u0e01", "\u0928\u092e", "\U0001f600", "\u0301", "\u200c", "\u2028",
         "\x0b", "\x0c", "\x01", "\x7f", "\u0085", "\u00a0", "\ufeff", "\ufffd", "\u0964", "\u0970", "e"]
        + list("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")
        + ["&#", "&#x", ";", "&amp;", "&lt;", "http://", "www.", ".com", "'s", "n't", "...", "--", "''", "``", " |||", "-LRB-", "euro", "USD", "al - ",
           "<seg id=1>", "</seg>", "<DOC", "[b ", "]f", "\u20ac", "\u00a3", "\u00ef\u00bf\u00bd", "\u00e2\u20ac\u2122", "\u00c3\u00a4", "\uff01", "0", "1", "9"])


def gen_any(g):
    lines = []
    for _ in range(g.int(1, 30)):
        k = g.count(0, 24)
        b = "".join(g.pick(BITS) if g.chance(14, 15) else chr(g.pick([g.int(32, 0x24f), g.int(0x250, 0x2fff), g.int(0xa000, 0xd7ff), g.int(0x10000, 0x1f9ff)]))
                    for _ in range(k))
        if g.chance(1, 30):
            b += "\udcff"  # a byte that is not UTF-8
        if g.chance(1, 40):
            b += g.pick(["7", "a.", "-", "(", "\u0e01", "q,", "|"]) * g.int(50, 400)
        lines.append(b)
    return {"lines": lines, "last": g.flip(), "order": g.shuffle(range(len(lines))), "u": g.chance(1, 4)}


def check_any(c, ctx):
    lines = c["lines"]
    a = tokenize(ctx, lines, last=c["last"] or not lines[-1].strip("\udcff"))
    b = tokenize(ctx, [lines[i] for i in c["order"]])
    for k, i in enumerate(c["order"]):
        check_that(a[i] == b[k], lambda: f"{lines[i]!r} becomes {a[i]!r} or {b[k]!r}, depending on its place in the file")
    for l, o in zip(lines, a):
        check_that(not any("\udc80" <= x <= "\udcff" for x in o), lambda: f"{l!r} becomes {o!r}, which is not UTF-8")
        check_that(l.isspace() or not l or o != "" or not any(x.isalnum() for x in l), lambda: f"nothing is left of {l!r}")
        ctx.nontrivial(len(o.split()) > len(l.split()))
    if c["u"] and all("\u2028" not in l for l in lines):
        u = tokenize(ctx, lines, ["-u"])
        for l, x, y in zip(lines, a, u):
            check_that(x == y, lambda: f"{l!r} becomes {x!r}, and {y!r} with -u")
        ctx.count("unbuffered")
    ctx.count("lines", len(a))


# ------------------------------------------------ nothing is added or lost

def gen_keep(g):
    sig = list("abcdeqzABQ0159") + list("!#$%()*+,-./:;=?@[\\]^_{|}~<>&'") + ["\u00e4", "\u0436", "\u6771", "\u05e9", "\u3042", "."]
    return {"lines": [" ".join("".join(g.pick(sig) for _ in range(g.int(1, 9))) for _ in range(g.count(0, 8))) for _ in range(g.int(1, 40))]}


def check_keep(c, ctx):
    got = tokenize(ctx, c["lines"])
    for l, o in zip(c["lines"], got):
        x = "".join(l.split())
        if any(b in x for b in (",,", "''", "``", "&#", "-LRB-", "-RRB-", "-LSB-", "-RSB-", "-LCB-", "-RCB-")):
            continue
        y = "".join(o.split())
        import re
        z = re.sub(r"(\d)\.+$", r"\1.", x)  # a final period after a number stands for all of them
        check_that(y in (x, z), lambda: f"{l!r} becomes {o!r}")
        check_that(o == " ".join(o.split(" ")) and o == o.strip() and "  " not in o, lambda: f"{l!r} becomes {o!r} with stray spaces")
        # no token joins what was apart
        ends, n = set(), 0
        for w in o.split():
            n += len(w)
            ends.add(n)
        n = 0
        for w in l.split():
            n += len(w)
            check_that(n in ends or n >= len(y) or " al -" in l or l.startswith("al -") or "n ' t" in o or " '" in l or "' " in l or "'" in l,
                       lambda: f"{l!r} becomes {o!r}: words are joined")
        ctx.nontrivial(len(o.split()) > len(l.split()))


# ------------------------------------------------ there and back

def gen_untok(g):
    def piece():
        a, b = name(g), name(g)
        return g.weighted([(6, [a]), (2, [a, ","]), (1, [a, ";"]), (1, ["(", a, ")"]), (1, ["[", a, b, "]"]), (1, [a, g.pick(["'s", "'ll", "'re", "'ve", "'d", "n't"])]),
                           (1, ["$", str(g.int(1, 99))]), (1, [str(g.int(1, 99)), "%"]), (1, [a, "-", b]), (1, [a, "/", b]), (1, [str(g.int(1, 999))])])
    rows = []
    for _ in range(g.int(1, 20)):
        r = []
        for _ in range(g.int(1, 7)):
            r += piece()
        if r[-1].isalpha() and g.flip():
            r.append(g.pick([".", "?", "!"]))
        rows.append(r)
    return {"rows": rows, "any": [[g.pick(["a", "5", "'", "s", '"', "-", ".", ",", "(", ")", "$", "/", "'s", "n't", "%", "]", "[", "7", "b-", "5b", "b5", "\"", "As", "n'", "'ve"])
                                   for _ in range(g.count(0, 12))] for _ in range(g.int(0, 20))]}


def glue(t):
    """The documented rules of joining."""
    import re
    out, space, quote = "", False, False
    for i, w in enumerate(t):
        p = t[i - 1] if i else ""
        n = t[i + 1] if i + 1 < len(t) else ""
        left, right = space, True
        if re.fullmatch(r"n't|'(s|m|re|ll|ve|d)", w) or (w == "'" and p.endswith("s")):
            left = False
        elif w == "-" and re.search(r"[A-Za-z0-9]$", p) and re.match(r"[A-Za-z0-9]", n):
            left = right = False
        elif w == '"':
            if quote:
                left = False
            else:
                right = False
            quote = not quote
        elif w == "." and p[-1:].isdigit() and n[:1].isdigit() and re.search(r"\d$", p) and re.match(r"\d", n):
            left = right = False
        elif w in tuple(".,:;?!%)]"):
            left = False
        elif w in tuple("$(["):
            right = False
        elif w == "/":
            left = right = False
        out += (" " if left else "") + w
        space = right
    return out


def check_untok(c, ctx):
    rows = c["rows"] + c["any"]
    _, out, _ = ctx.run(os.path.join(CORPUS, "untok.pl"), [], "".join(" ".join(r) + "\n" for r in rows))
    got = out.split("\n")[:-1]
    check_that(len(got) == len(rows), "wrong number of lines")
    for r, o in zip(rows, got):
        if any(y == "." and x[-1].isdigit() and z in ("5b", "b5") for x, y, z in zip(r, r[1:], r[2:])):
            continue  # a decimal point or not
        check_that(o == glue(r), lambda: f"{r} is joined as {o!r}, expected {glue(r)!r}")
    back = tokenize(ctx, got[:len(c["rows"])])
    for r, o, b in zip(c["rows"], got, back):
        check_that(b == " ".join(r), lambda: f"{r} is joined as {o!r}, which is tokenized as {b!r}")
        ctx.nontrivial(len(o.split()) < len(r))
    low = "\n".join(got).replace("a", "\u00c4").replace("q", "Q\u0416\u03a9") + "\n"
    _, lc, _ = ctx.run(os.path.join(CORPUS, "lowercase.pl"), [], low)
    check_that(lc == low.lower(), lambda: f"{low!r} is lowercased as {lc!r}")


if __name__ == "__main__":
    run_check("C02", RULE, py=[Suite("gold", gen_gold, check_gold, 2), Suite("any", gen_any, check_any, 2), Suite("keep", gen_keep, check_keep, 1.5),
                               Suite("untok", gen_untok, check_untok, 1)], quick=16, thorough=300)
