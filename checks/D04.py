"""D04: decoding towards a reference (constrained forests, likelihood, gradients, alignments)."""
import base64
import math
import os
import re
import struct
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *  # noqa
from scfg import *  # noqa
from D01 import check_kbest, parse_kbest, TOL, grammar_file, pass_rules
from D02 import quote


def plf_text(lat):
    out = []
    for x in lat:
        arcs = "".join("(%s,{%s},%d)," % (quote(a[0]), ",".join("%s:%s" % (quote(k), num(v)) for k, v in (a[1] or {}).items()), a[2]) for a in x)
        out.append("(" + arcs + "),")
    return "(" + "".join(out) + ")"


def is_plain(lat):
    return all(len(x) == 1 and x[0][2] == 1 and not x[0][1] for x in lat)


def gen_lat(g, words, vocab):
    """A lattice around a word sequence."""
    n = len(words)
    lat = []
    for i, w in enumerate(words):
        arcs = [[w, gen_feats(g, 1, ["rf", "f"]), 1]]
        for _ in range(g.weighted([(4, 0), (3, 1), (1, 2)])):
            arcs.append([g.pick(vocab), gen_feats(g, 1, ["rf", "f"]), min(g.weighted([(3, 1), (1, 2)]), n - i)])
        lat.append(g.shuffle(arcs))
    return lat


def grammars(case, s):
    gs = [(case["rules"], 10)]
    if case["glue"]:
        gs.append((glue_rules(), "glue"))
    if case["pass"]:
        gs.append((pass_rules([a[0] for x in s["lat"] for a in x], "X", 0), "pass"))
    return gs


def gen(g):
    cats = ["X"] + g.weighted([(4, []), (3, ["Y"]), (2, ["Y", "Z"])])
    vocab = SRC[:g.int(1, 4)]
    trg = TRG[:g.int(1, 5)]
    sents = []
    for _ in range(g.weighted([(4, 1), (3, 2), (2, 3)])):
        src = [g.pick(vocab) for _ in range(g.weighted([(4, 3), (3, 2), (2, 4), (2, 1), (1, 5)]))]
        sents.append({"lat": gen_lat(g, src, vocab) if g.chance(1, 6) else text_lattice(src)})
    rules = gen_grammar(g, cats, vocab, 1, 8, trg=trg, src=vocab)
    if g.chance(1, 3):
        # long phrases
        r = g.pick(rules)
        at = g.draw(len(r["t"]) + 1)
        r["t"][at:at] = [g.pick(trg) for _ in range(g.int(2, 6))]
    case = {"rules": rules, "glue": not g.chance(1, 4), "pass": g.chance(1, 4), "sents": sents, "w": gen_weights(g, ["rf", "WordPenalty"])}
    for s in sents:
        try:
            ds = Forest(s["lat"], grammars(case, s), "S" if case["glue"] else "X", dist=None if is_plain(s["lat"]) else Dist(s["lat"]), cap=300).all()
        except Discard:
            ds = []
        ref = list(g.pick(ds)[0]) if ds else []
        if not ref or g.chance(1, 8):
            ref = [g.pick(trg) for _ in range(g.int(1, 4))]
        s["ref"] = gen_lat(g, ref, trg) if g.chance(1, 4) else text_lattice(ref)
    case.update({"mode": g.weighted([(3, "kbest"), (2, "cond"), (3, "grad"), (2, "exp"), (3, "align"), (2, "alignk")]),
                 "k": g.weighted([(3, 1000), (1, 3), (1, 1)]), "combine": g.weighted([(2, 1), (1, 2), (1, 5)]),
                 "b64": g.flip(), "wp": g.chance(1, 4), "unique": g.chance(1, 4)})
    if case["unique"]:
        case["unique"] = case["mode"] == "kbest"
    return case


class Dist:
    def __init__(self, lat):
        self.d = distances(lat)

    def __call__(self, i, j):
        return self.d[i][j]


def source_of(tree):
    r, i, j, kids = tree
    out, n = [], 0
    for x in r["s"]:
        if isinstance(x, list):
            out += source_of(kids[n])
            n += 1
        else:
            out.append(x)
    return out


def ref_paths(lat):
    """word sequence -> list of feature vectors of the paths that spell it."""
    memo = {len(lat): [((), {})]}
    for i in range(len(lat) - 1, -1, -1):
        memo[i] = [((a[0],) + y, add(f, a[1])) for a in lat[i] for y, f in memo[i + a[2]]]
    out = {}
    for y, f in memo[0]:
        out.setdefault(y, []).append(f)
    return out


def links_of(tree):
    """Pairs (source position, target position) of words that the same rule produces, along the derivation."""
    pairs = []

    def src(t, pos, at):
        r, i, j, kids = t
        n = 0
        mine = []
        for x in r["s"]:
            if isinstance(x, list):
                pos = src(kids[n], pos, at)
                n += 1
            else:
                mine.append(pos)
                pos += 1
        at[id(t)] = mine
        return pos

    def trg(t, pos, at):
        r, i, j, kids = t
        mine = []
        for x in r["t"]:
            if isinstance(x, int):
                pos = trg(kids[x - 1], pos, at)
            else:
                mine.append(pos)
                pos += 1
        for a in at[id(t)]:
            for b in mine:
                pairs.append((a, b))
        return pos

    def copy(t):  # shared subderivations get identities of their own
        return (t[0], t[1], t[2], tuple(copy(k) for k in t[3]))
    t = copy(tree)
    at = {}
    src(t, 0, at)
    trg(t, 0, at)
    return pairs


def expectations(ds, w):
    sc = [dot(f, w) for _, f, _ in ds]
    z = logsumexp(sc)
    e = {}
    for s, (_, f, _) in zip(sc, ds):
        p = math.exp(s - z)
        for k, v in f.items():
            e[k] = e.get(k, 0.0) + p * v
    return z, e


def parse_vector(line, b64):
    check_that(line.startswith("0\t"), f"not a vector line: {line!r}")
    line = line[2:]
    if not b64:
        check_that(line.startswith("**OBJ**="), f"not a vector line: {line!r}")
        obj, rest = line[8:].split(";", 1)
        f = {}
        for x in rest.split():
            k, v = x.rsplit("=", 1)
            sign = 1
            if v.startswith("(-)"):
                sign, v = -1, v[3:]
            f[k] = sign * math.exp(float(v))
        return float(obj), f
    d = base64.b64decode(line)
    obj, n = struct.unpack_from("<di", d, 0)
    off = 12
    f = {}
    for _ in range(n):
        ln = d[off]
        name = d[off + 1:off + 1 + ln].decode()
        off += 1 + ln
        f[name] = struct.unpack_from("<d", d, off)[0]
        off += 8
    check_that(d[off:off + 4] == struct.pack("<I", 0xBAABABBA), "vector without its end mark")
    return obj, f


def same_vector(got, want, b64, what):
    tol = 1e-6 if b64 else TOL
    scale = 1 + max([abs(v) for v in want.values()] + [0])
    for k in set(got) | set(want):
        a, b = got.get(k, 0.0), want.get(k, 0.0)
        check_that(abs(a - b) <= tol * scale, lambda: f"{what}: feature {k} has {a}, the derivations give {b}")


def check(case, ctx):
    w, mode = case["w"], case["mode"]
    args = ["-f", "scfg", "-w", ctx.write("w", weights_text(w)), "-g", grammar_file(ctx, "g", case["rules"], False), "-z"]
    if not case["glue"]:
        args += ["-n", "--goal", "X"]
    if case["pass"]:
        args.append("-P")
    if case["wp"]:
        args += ["-F", "WordPenalty"]
    if mode in ("kbest", "alignk"):
        args += ["-k", case["k"]] + (["-r"] if case["unique"] else [])
    if mode == "cond":
        args.append("--show_conditional_prob")
    if mode in ("grad", "exp"):
        args += ["--cll_gradient" if mode == "grad" else "--feature_expectations", "--vector_format", "b64" if case["b64"] else "text",
                 "--combine_size", case["combine"]]
    if mode in ("align", "alignk"):
        args.append("--aligner")
    if mode == "alignk":
        args.append("--aligner_use_viterbi")
    text, models = "", []
    for s in case["sents"]:
        lines = []
        for lat in (s["lat"], s["ref"]):
            lines.append(" ".join(x[0][0] for x in lat) if is_plain(lat) else plf_text(lat))
        text += " ||| ".join(lines) + "\n"
        ds = Forest(s["lat"], grammars(case, s), "S" if case["glue"] else "X", dist=None if is_plain(s["lat"]) else Dist(s["lat"])).all()
        if case["wp"]:
            ds = [(y, add(f, {"WordPenalty": -len(y) / math.log(10)}), t) for y, f, t in ds]
        paths = ref_paths(s["ref"])
        cs = [(tuple(source_of(t)), add(f, rf), (frozenset(links_of(t)), y)) for y, f, t in ds for rf in paths.get(y, ())]
        if len(cs) > 3000:
            raise Discard("too many derivations")
        if mode == "grad" and cs and logsumexp([dot(f, w) for _, f, _ in cs]) > logsumexp([dot(f, w) for _, f, _ in ds]) + 1e-12:
            raise Discard("not a likelihood: the arcs of the reference add to the scores")
        models.append((ds, cs, all(len(x) == 1 for x in s["lat"] + s["ref"]), [x[0][0] for x in s["lat"]]))
    judge(case, ctx, args, text, models)


def judge(case, ctx, args, text, models):
    """models: per sentence the derivations (yield, features, ...), those of the reference (source yield, features,
    (links, reference)) and whether alignments are posteriors."""
    w, mode = case["w"], case["mode"]
    rc, out, err = ctx.run("cdec", args, text)
    blocks = err.split("INPUT: ")[1:]
    check_that(len(blocks) == len(models), f"{len(blocks)} inputs decoded, {len(models)} given\n{err[-500:]}")
    lines = out.split("\n")[:-1]
    kb = parse_kbest(out) if mode == "kbest" else {}
    li, acc, obj, count = 0, {}, 0.0, 0

    def take():
        nonlocal li
        check_that(li < len(lines), lambda: f"output ends after {li} lines:\n{out}")
        li += 1
        return lines[li - 1]

    for i, (ds, cs, plain, src) in enumerate(models):
        b = blocks[i]
        what = f"sentence {i} ({text.splitlines()[i]})"
        check_that(("NO PARSE FOUND" in b) == (not ds), lambda: f"{what}: {len(ds)} derivations, the decoder disagrees:\n{b}")
        if not ds:
            ctx.count("no parse")
            check_that(take() == ("-Inf" if mode == "cond" else ""), f"{what}: wrong output for a sentence without derivations")
            continue
        check_that(("REFERENCE UNREACHABLE" in b) == (not cs), lambda: f"{what}: {len(cs)} derivations of the reference, the decoder disagrees:\n{b}")
        if not cs:
            ctx.count("unreachable")
            if mode == "cond":
                check_that(take() == "-Inf", f"{what}: probability of an unreachable reference")
            if mode == "grad":
                check_that(take() == "", f"{what}: gradient of an unreachable reference")
            continue
        sc = [dot(f, w) for _, f, _ in cs]
        m = re.search(r"Constr\. forest\s+\(paths\): (\S+)", b)
        check_that(m and near(float(m.group(1)), len(cs), TOL), lambda: f"{what}: the constrained forest has {m and m.group(1)} derivations, {len(cs)} derive the reference")
        m = re.search(r"Constr\. forest\s+Viterbi logp: (\S+)", b)
        check_that(m and near(float(m.group(1)), max(sc), TOL), lambda: f"{what}: best derivation of the reference {m and m.group(1)}, {max(sc)} expected")
        zr, er = expectations(cs, w)
        z, e = expectations(ds, w)
        m = re.search(r"Contst\. partition\s+log\(Z\): (\S+)", b)
        check_that(m and near(float(m.group(1)), zr, TOL), lambda: f"{what}: log Z of the reference {m and m.group(1)}, {zr} expected")
        if len(cs) > 1:
            ctx.nontrivial()
        ctx.count("reference derivations<=%d" % next(x for x in (1, 3, 10, 100, 10 ** 9) if len(cs) <= x))
        ctx.count(mode)
        if mode == "kbest":
            check_kbest(kb.get(i, []), cs, w, case["k"], case["unique"], ctx)
            li += len(kb.get(i, []))
        elif mode == "cond":
            v = float(take())
            check_that(abs(v - (zr - z)) < TOL * (1 + abs(z) + abs(zr)), lambda: f"{what}: conditional log probability {v}, {zr - z} expected")
        elif mode in ("grad", "exp"):
            count += 1
            if mode == "grad":
                obj += z - zr
                acc = add(add(acc, er), {k: -v for k, v in e.items()})
            else:
                obj += zr
                acc = add(acc, er)
            if count % case["combine"] == 0:
                o, f = parse_vector(take(), case["b64"])
                check_that(abs(o - obj) <= TOL * (1 + abs(obj)) * (1 if not case["b64"] else 0.01) + 1e-9 * (abs(z) + abs(zr)),
                           lambda: f"{what}: objective {o}, {obj} expected")
                same_vector(f, acc, case["b64"], what)
                acc, obj = {}, 0.0
        elif mode == "align":
            got = take()
            if plain:
                check_map(src, cs, sc, zr, got, b, ctx, what)
            else:
                check_best(cs, sc, [got], 1, what, False)
        else:
            n = min(case["k"], len(cs))
            check_best(cs, sc, [take() for _ in range(n)], case["k"], what, True)
            check_kbest(parse_kbest("\n".join(take() for _ in range(n))).get(i, []), cs, w, case["k"], False, ctx)
    if mode in ("grad", "exp") and acc and li < len(lines):
        o, f = parse_vector(take(), case["b64"])
        check_that(abs(o - obj) <= TOL * (1 + abs(obj)), lambda: f"last objective {o}, {obj} expected")
        same_vector(f, acc, case["b64"], "last vector")
    elif mode in ("grad", "exp"):
        check_that(all(abs(v) < 1e-6 for v in acc.values()), lambda: f"the vector of the last sentences is missing: {acc}")
    check_that(li == len(lines), lambda: f"{len(lines) - li} surplus output lines:\n{out}")


def check_map(src, cs, sc, zr, got, b, ctx, what):
    ref = list(cs[0][2][1])
    p = got.split(" ||| ")
    check_that(len(p) == 3 and p[0].split() == src and p[1].split() == ref, lambda: f"{what}: aligned {got!r}")
    post = {}
    for x, (_, _, t) in zip(sc, cs):
        for l in t[0]:
            post[l] = post.get(l, 0.0) + math.exp(x - zr)
    links = {tuple(map(int, x.split("-"))) for x in p[2].split()}
    for j in range(len(ref)):
        col = [post.get((i, j), 0.0) for i in range(len(src))] + [post.get((-1, j), 0.0)]
        for i in range(len(src)):
            if (i, j) in links:
                check_that(col[i] > 0 and near(col[i], max(col), 1e-6), lambda: f"{what}: link {i}-{j} with posterior {col[i]}, the highest of the word is {max(col)}")
            else:
                check_that(col[i] == 0 or not near(col[i], max(col), 1e-6) or near(col[-1], max(col), 1e-6)
                           or any((k, j) in links for k in range(len(src))), lambda: f"{what}: no link {i}-{j}, its posterior {col[i]} is the highest of the word {col}")
    rows = re.findall(r"^((?:\t(?:---X---|[0-9.e+-]+))+)$", b, re.M)
    if rows:
        rows = [r.split("\t")[1:] for r in rows]
        check_that(len(rows) == len(src) + 1, f"{what}: {len(rows)} rows of posteriors")
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                v = 0.0 if x == "---X---" else float(x)
                check_that(abs(v - post.get((i - 1, j), 0.0)) < 2e-5, lambda: f"{what}: posterior of link {i - 1}-{j} {v}, {post.get((i - 1, j), 0.0)} expected")
        ctx.count("posterior grids")


def check_best(cs, sc, got, k, what, exact):
    """got: the alignments of the k best derivations."""
    order = sorted(range(len(cs)), key=lambda i: -sc[i])
    left = {}
    for n, i in enumerate(order):
        left.setdefault(i, None)
    pool = [(sc[i], " ".join(cs[i][2][2] if len(cs[i][2]) > 2 else cs[i][0]), " ".join(cs[i][2][1]), frozenset(x for x in cs[i][2][0] if x[0] >= 0)) for i in order]
    used = [False] * len(pool)
    for n, g in enumerate(got):
        p = g.split(" ||| ")
        check_that(len(p) == 3, lambda: f"{what}: alignment {g!r}")
        links = frozenset(tuple(map(int, x.split("-"))) for x in p[2].split())
        want = pool[n][0]
        hit = next((i for i, x in enumerate(pool) if not used[i] and near(x[0], want, 1e-7) and x[1] == p[0] and x[2] == p[1] and x[3] == links), None)
        check_that(hit is not None, lambda: f"{what}: alignment {n} is {g!r}, no derivation scored {want} has it: {[(x[1], x[2], sorted(x[3])) for x in pool if near(x[0], want, 1e-7)][:5]}")
        used[hit] = True


if __name__ == "__main__":
    run_check("D04", "Random grammars, sentences or lattices with reference sentences or lattices (mostly reachable), weights; all derivations are "
              "enumerated. Non-trivial: at least two derivations of a reference.",
              py=[Suite("reference", gen, check)], programs=["cdec"], quick=25, thorough=900)
