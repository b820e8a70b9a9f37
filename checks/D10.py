"""D10: summaries, dumps and samples of the search space agree with its derivations."""
import collections
import gzip
import math
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
from scfg import *  # noqa
from D01 import TOL, check_kbest, feq, parse_kbest

MODES = ["length", "cond", "summary", "beam", "sample", "cfg", "target", "rules", "derivs", "tree", "joshua", "graphviz"]


def gen_case(g):
    cats = g.weighted([(3, ["X"]), (2, ["X", "Y"]), (1, ["X", "Y", "Z"])])
    vocab = SRC[:g.int(1, 3)]
    src = [g.pick(vocab) for _ in range(g.weighted([(3, 3), (3, 4), (2, 2), (2, 5), (1, 1)]))]
    rules = gen_grammar(g, cats, src if g.chance(3, 4) else vocab, 0, 6)
    for _ in range(g.weighted([(3, 0), (2, 1)])):  # reorderings of three parts
        s = [[g.pick(cats)] for _ in range(3)]
        s.insert(g.draw(4), g.pick(vocab))
        t = g.shuffle([1, 2, 3])
        if g.flip():
            t.insert(g.draw(4), g.pick(TRG))
        rules.append({"l": g.pick(cats), "s": s, "t": t, "f": gen_feats(g)})
    seen, out = set(), []
    for r in rules:
        k = rule_text(dict(r, f={}))
        if k not in seen:
            seen.add(k)
            out.append(r)
    glue = not g.chance(1, 4)
    if not glue:
        out.append({"l": "S", "s": [[cats[0]]], "t": [1], "f": gen_feats(g)})
        if g.flip():
            out.append({"l": "S", "s": [["S"], [cats[0]]], "t": g.pick([[1, 2], [2, 1]]), "f": gen_feats(g)})
    return {"rules": out, "src": src, "w": gen_weights(g), "glue": glue}


def gen(g):
    c = gen_case(g)
    c["mode"] = g.pick(MODES)
    c["type"] = g.pick(["node_risk", "edge_risk", "edge_prob"])
    c["n"] = g.pick([1, 5, 40, 400])
    c["k"] = g.pick([0, 1, 3, 50])
    c["w2"] = dict(gen_weights(g), SumFeat=g.grid(16))
    c["ref"] = g.draw(1000)
    c["mask"] = g.flip()
    return c


def model(c, rules=None):
    gs = [(c["rules"] if rules is None else rules, 10)]
    if c["glue"]:
        gs.append((glue_rules(), "glue"))
    return Forest(text_lattice(c["src"]), gs, cap=800).all()


def base_args(c, ctx, name="g"):
    args = ["-f", "scfg", "-g", ctx.write(name, "".join(rule_text(r) + "\n" for r in c["rules"])), "-w", ctx.write("w", weights_text(c["w"]))]
    if not c["glue"]:
        args.append("-n")
    return args


def etree(t):
    r, i, j, kids = t
    return "(%s %s)" % (r["l"], " ".join(etree(kids[x - 1]) if isinstance(x, int) else x for x in r["t"]))


def joshua(t):
    r, i, j, kids = t
    return "(%s{%d-%d} %s)" % (r["l"], i, j, " ".join(joshua(kids[x - 1]) if isinstance(x, int) else x for x in r["t"]))


def squeeze(s):
    return " ".join(s.split())


def shape(r):
    return (r["l"], tuple(x[0] if isinstance(x, list) else x for x in r["s"]), tuple("[%d]" % x if isinstance(x, int) else x for x in r["t"]))


def node_key(t):
    return (t[0]["l"], t[1], t[2])


def edge_key(t):
    return (shape(t[0]), t[1], t[2], tuple(node_key(k) for k in t[3]))


def nodes_of(t):
    yield t
    for k in t[3]:
        yield from nodes_of(k)


def canon(t):
    return (shape(t[0]), t[1], t[2], tuple(canon(k) for k in t[3]))


def read_rule(s):
    """A printed rule, as shape() gives it, and its features."""
    p = [x.strip() for x in s.strip().split("|||")]
    check_that(len(p) >= 3 and re.fullmatch(r"\[[^\[\]]*\]", p[0]), f"not a rule: {s!r}")
    src = tuple(re.sub(r"^\[(.*?)(,\d+)?\]$", r"\1", x) if re.fullmatch(r"\[.+\]", x) else x for x in p[1].split())
    f = {}
    for x in (p[3].split() if len(p) > 3 else ()):
        k, v = x.rsplit("=", 1)
        f[k] = float(v)
    return (p[0][1:-1], src, tuple(p[2].split())), f


def check(c, ctx):
    mode = c["mode"]
    w = c["w"]
    ds = model(c)
    if not ds:
        raise Discard("no derivation")
    ctx.count(mode)
    if len(ds) > 1:
        ctx.nontrivial()
    args = base_args(c, ctx)
    inp = " ".join(c["src"])
    sc = [dot(f, w) for _, f, _ in ds]
    lz, top = logsumexp(sc), max(sc)
    post = [math.exp(s - lz) for s in sc]
    best = [d for d, s in zip(ds, sc) if s > top - 1e-9 * (1 + abs(top))]
    if mode == "length":
        rc, out, err = ctx.run("cdec", args + ["--show_expected_length"], inp + "\n")
        m = re.search(r"Expected length  \(words\): (\S+)", err)
        want = sum(p * len(d[0]) for p, d in zip(post, ds))
        check_that(m and near(float(m.group(1)), want, TOL), lambda: f"expected length {m and m.group(1)}, it is {want}")
    elif mode == "cond":
        y = ds[c["ref"] % len(ds)][0]
        if not y:
            raise Discard("empty reference")
        rc, out, err = ctx.run("cdec", args + ["--show_conditional_prob"], inp + " ||| " + " ".join(y) + "\n")
        want = logsumexp([s for s, d in zip(sc, ds) if d[0] == y]) - lz
        check_that(near(float(out.split("\n")[-2]), want, TOL), lambda: f"log p({' '.join(y)}) is printed as {out!r}, it is {want}")
        rc, out, err = ctx.run("cdec", args + ["--show_conditional_prob"], inp + " ||| nothing like that\n")
        check_that(out.split("\n")[-2] == "-Inf", lambda: f"log probability of an impossible reference: {out!r}")
    elif mode == "summary":
        # SumFeat is computed with the first weights, and used by the second pass
        rc, out, err = ctx.run("cdec", args + ["-F", "WordPenalty", "--summary_feature", "SumFeat", "--summary_feature_type", c["type"], "-k", 100000,
                                               "--weights2", ctx.write("w2", weights_text(c["w2"]))], inp + "\n")
        nodes, edges = collections.Counter(), collections.Counter()
        for p, d in zip(post, ds):
            for t in nodes_of(d[2]):
                nodes[node_key(t)] += p
                edges[edge_key(t)] += p
        new = []
        for (y, f, t), s in zip(ds, sc):
            f = dict(f)
            f["WordPenalty"] = -len(y) / math.log(10)
            # the goal node is a node with one edge above the root
            if c["type"] == "node_risk":
                f["SumFeat"] = 1 + sum(nodes[node_key(x)] for x in nodes_of(t))
            elif c["type"] == "edge_risk":
                f["SumFeat"] = 1 + sum(edges[edge_key(x)] for x in nodes_of(t))
            else:
                f["SumFeat"] = s - lz
            new.append((y, f, t))
        check_kbest(parse_kbest(out).get(0, []), new, c["w2"], 100000, False, ctx)
        ctx.count(c["type"])
    elif mode == "beam":
        rc, out, err = ctx.run("cdec", args + ["-x", 1000000], inp + "\n")
        tot = collections.defaultdict(float)
        for p, d in zip(post, ds):
            tot[d[0]] += p
        lines = out.split("\n")
        check_that(len(lines) == 3, f"output {out!r}")
        y = tuple(lines[1].split())
        check_that(y in tot and tot[y] >= max(tot.values()) * (1 - 1e-9), lambda: f"most probable translation: {' '.join(y)} with {tot.get(y)}; the best has {max(tot.values())}")
        m = re.search(r"Best path: (\S+)", err)
        check_that(m and near(float(m.group(1)), math.log(max(tot.values())) + lz, TOL), lambda: f"its probability is given as {m and m.group(1)}, it is {math.log(max(tot.values())) + lz}")
        if tot[y] > max(post) * 1.0001:
            ctx.count("translation with several derivations")
    elif mode == "sample":
        n = c["n"] * 5
        k = c["k"]
        rc, out, err = ctx.run("cdec", args + ["-X", n] + (["-k", k] if k else []), inp + "\n")
        tot = collections.defaultdict(float)
        for p, d in zip(post, ds):
            tot[" ".join(d[0])] += p
        lines = out.split("\n")[:-1]
        if not k:
            check_that(len(lines) == 1 and lines[0] in tot, lambda: f"sampled translation {out!r} does not exist")
            return
        got = []
        for l in lines:
            cnt, y = l.split(" ||| ") if " ||| " in l else ("?", l)
            check_that(cnt.isdigit() and y in tot, lambda: f"sampled translation {l!r} does not exist")
            got.append((int(cnt), y))
        check_that(len(set(y for _, y in got)) == len(got), lambda: f"translations repeated in {out!r}")
        check_that([x for x, _ in got] == sorted((x for x, _ in got), reverse=True), lambda: f"samples not in order of frequency: {out!r}")
        s = sum(x for x, _ in got)
        check_that(len(got) <= k and (s == n or (len(got) == k and s < n)), lambda: f"{s} of {n} samples in a list of {len(got)} for {k}")
        freq = dict((y, x) for x, y in got)
        for y, p in tot.items():
            if y in freq or (s == n):
                x = freq.get(y, 0)
                sd = math.sqrt(max(0.0, n * p * (1 - p)))
                check_that(abs(x - n * p) <= 7.5 * sd + 12, lambda: f"{y!r} has probability {p}, and {x} of {n} samples")
    elif mode == "cfg":
        rc, out, err = ctx.run("cdec", args + ["--show_cfg_search_space"], inp + "\n")
        lines = out.split("\n")[1:-1]
        rules, goal = collections.defaultdict(list), None
        for l in lines:
            p = [x.strip() for x in l.split("|||")]
            rules[p[0]].append((p[1].split(), p[2].split(), read_rule(l)[1]))
            if p[0].startswith("[Goal_"):
                goal = p[0]
        check_that(goal, "no goal category")
        memo = {}

        def derive(cat):
            if cat not in memo:
                memo[cat] = res = []
                for f, e, feats in rules[cat]:
                    combos = [([], {}, [])]
                    for x in f:
                        if x in rules:
                            combos = [(y + y2, add(fv, fv2), kids + [s2]) for y, fv, kids in combos for y2, fv2, s2 in derive(x)]
                        else:
                            combos = [(y + [x], fv, kids) for y, fv, kids in combos]
                        if len(combos) > 1000:
                            raise Violation("the printed grammar has more derivations than the forest")
                    for y, fv, kids in combos:
                        s = []
                        for x in e:
                            m = re.fullmatch(r"\[(\d+)\]", x)
                            s += kids[int(m.group(1)) - 1] if m else [x]
                        res.append((y, add(fv, feats), s))
            return memo[cat]
        got = derive(goal)
        pool = collections.defaultdict(list)
        for y, f, t in ds:
            pool[y].append(f)
        check_that(len(got) == len(ds), lambda: f"the printed grammar has {len(got)} derivations, the forest {len(ds)}")
        for y, f, s in got:
            check_that(s == c["src"], lambda: f"a derivation of the printed grammar has the source {' '.join(s)}\n{out}")
            hit = next((i for i, x in enumerate(pool[tuple(y)]) if feq(x, f)), None)
            check_that(hit is not None, lambda: f"the printed grammar derives {' '.join(y)} with {f}\n{out}")
            pool[tuple(y)].pop(hit)
    elif mode == "target":
        d = ctx.path("tg")
        os.makedirs(d, exist_ok=True)
        ctx.run("cdec", args + ["--show_target_graph", d], inp + "\n")
        lines = open(os.path.join(d, "0")).read().split("\n")
        nn, ne = map(int, lines[0].split())
        at, table, total = 1, [], 0
        for v in range(nn):
            k = int(lines[at])
            at += 1
            res = []
            for _ in range(k):
                body, fs = lines[at].split("|||")
                at += 1
                total += 1
                combos = [([], {x.rsplit("=", 1)[0]: float(x.rsplit("=", 1)[1]) for x in fs.split()})]
                for x in body.split():
                    m = re.fullmatch(r"\[(\d+)\]", x)
                    if m:
                        check_that(int(m.group(1)) < v, f"vertex {v} refers to vertex {m.group(1)}")
                        combos = [(y + y2, add(fv, fv2)) for y, fv in combos for y2, fv2 in table[int(m.group(1))]]
                    else:
                        combos = [(y + [x], fv) for y, fv in combos]
                    check_that(len(combos) <= 1000, "the target graph has more derivations than the forest")
                res += combos
            table.append(res)
        check_that(total == ne, f"{total} edges in the target graph, {ne} announced")
        check_that(lines[at:] == [""], "surplus lines in the target graph")
        pool = collections.defaultdict(list)
        for y, f, t in ds:
            pool[y].append(f)
        check_that(len(table[-1]) == len(ds), lambda: f"the target graph has {len(table[-1])} derivations, the forest {len(ds)}")
        for y, f in table[-1]:
            hit = next((i for i, x in enumerate(pool[tuple(y)]) if feq(x, f)), None)
            check_that(hit is not None, lambda: f"the target graph derives {' '.join(y)} with {f}")
            pool[tuple(y)].pop(hit)
    elif mode == "rules":
        d = ctx.path("rules")
        os.makedirs(d, exist_ok=True)
        rc, out, err = ctx.run("cdec", args + ["--extract_rules", d, "-F", "WordPenalty"], '<seg id="7"> %s </seg>\n' % inp)
        text = gzip.open(os.path.join(d, "7.gz")).read().decode()
        got = sorted(read_rule(l)[0] for l in text.split("\n") if l)
        want = [sorted([("Goal", ("S",), ("[1]",))] + [shape(t[0]) for t in nodes_of(b[2])]) for b in best]
        check_that(got in want, lambda: f"the rules of the best translation are given as {got}; they are {want[0]}")
        y = tuple(out.split("\n")[0].split())
        check_that(any(b[0] == y and x == got for b, x in zip(best, want)), lambda: f"rules {got} for the output {' '.join(y)}")
    elif mode == "derivs":
        d = ctx.path("derivs")
        os.makedirs(d, exist_ok=True)
        k = c["k"] or 7
        rc, out, err = ctx.run("cdec", args + ["-k", k, "--show_derivations", d], '<seg id="3"> %s </seg>\n' % inp)
        kb = parse_kbest(out).get(3, [])
        text = open(os.path.join(d, "derivs.3")).read()
        parts = re.split(r"(?m)^sent_id=", text)[1:]
        check_that(len(parts) == len(kb), lambda: f"{len(parts)} derivations shown, {len(kb)} translations listed")
        pool = collections.Counter(canon(x[2]) for x in ds)
        for i, (p, (y, f, s)) in enumerate(zip(parts, kb)):
            head, _, body = p.partition("\n")
            check_that(head.split(" ||| ")[0] == "3.%d" % i and near(float(head.split(" ||| ")[1]), s, TOL), lambda: f"derivation {i} is announced as {head!r}")
            stack = [[]]
            for l in body.split("\n"):
                l = l.strip()
                if l.startswith("("):
                    m = re.fullmatch(r"\(\{<(\d+),(\d+)> (.*)\}", l)
                    check_that(m, f"derivation: {l!r}")
                    stack.append([read_rule(m.group(3))[0], int(m.group(1)), int(m.group(2))])
                elif l == ")":
                    x = stack.pop()
                    stack[-1].append((x[0], x[1], x[2], tuple(x[3:])))
            check_that(len(stack) == 1 and len(stack[0]) == 1, f"parentheses of {body!r}")
            goal = stack[0][0]
            check_that(goal[0] == ("Goal", ("S",), ("[1]",)) and goal[1:3] == (0, len(c["src"])) and len(goal[3]) == 1, lambda: f"top of the derivation: {goal}")
            t = goal[3][0]
            check_that(pool[t] > 0, lambda: f"derivation {i} is not (any more) one of the grammar: {body}")
            pool[t] -= 1
            check_that(any(canon(x[2]) == t and x[0] == y and near(dot(x[1], w), s, TOL) for x in ds), lambda: f"derivation {i} belongs to another translation: {body}")
    elif mode == "tree":
        rc, out, err = ctx.run("cdec", args + ["--show_tree_structure"], inp + "\n")
        m = re.search(r"(?m)^  Init\. forest          tree: (.*)$", err)
        want = {squeeze(etree(b[2])) for b in best}
        check_that(m and squeeze(m.group(1)) in want, lambda: f"tree {m and m.group(1)}, expected {sorted(want)}")
    elif mode == "joshua":
        rc, out, err = ctx.run("cdec", args + ["-J"], '<seg id="5"> %s </seg>\n' % inp)
        p = out.split("\n")[0].split(" ||| ")
        want = {squeeze(joshua(b[2])) for b in best}
        check_that(p[0] == "5" and squeeze(p[1]) in want, lambda: f"{out!r}, expected one of {sorted(want)}")
    elif mode == "graphviz":
        rc, out, err = ctx.run("cdec", args + ["--graphviz"], inp + "\n")
        m = re.search(r"Init\. forest \(nodes/edges\): (\d+)/(\d+)", err)
        nn, ne = len({node_key(t) for d in ds for t in nodes_of(d[2])}) + 1, len({edge_key(t) for d in ds for t in nodes_of(d[2])}) + 1
        check_that(m and (int(m.group(1)), int(m.group(2))) == (nn, ne), lambda: f"the forest has {m and m.group(0)}, expected {nn}/{ne}")
        out = err[err.index("digraph"):]
        arcs = re.findall(r"(\w+) -> (\w+)", out)
        want = sum(len(k[3]) for k in {edge_key(t) for d in ds for t in nodes_of(d[2])}) + 1 + ne
        check_that(len(arcs) == want, lambda: f"{len(arcs)} arcs drawn, expected {want}\n{out}")


if __name__ == "__main__":
    run_check("D10", "Small random grammars with reorderings of up to three parts; one view or summary of the forest per case, against the "
              "list of all derivations. Non-trivial: at least two derivations.", py=[Suite("views", gen, check)], programs=["cdec"], quick=25, thorough=500)
