"""P22 HMM training: the model file against estimates computed independently."""
import itertools
from .. import tag
from ..core import *

TECHNIQUE = "property-based testing: generated tag sets, dictionaries and corpora, model file against independently computed estimates (re-estimation by enumeration of all paths)"
NOTE = ("Search over generated tag sets, dictionaries and corpora, not a proof. Oracle: counts for the supervised and initial estimates; for re-estimation the expected counts "
        "are summed over an explicit enumeration of every tag path of a stretch (not forward-backward). Probabilities are compared with a relative tolerance of 1e-7. "
        "Corpora only contain ambiguity classes of the dictionary, and stretches of at most 4000 paths.")
TOOLS = ["apertium-tagger", "apertium-tagger-apply-new-rules"]
LIB = []
RULE = ("tag sets with forbid and enforce rules, dictionaries of three to nine entries, corpora of one to fourteen words, up to three iterations, followed by retraining and "
        "by new rules; non-trivial: the corpus has an ambiguous word and, for re-estimation, a stretch of several paths")


def estimate_supervised(ts, classes, tagged, untagged):
    n, m = ts.n, len(classes)
    pairs = [[0] * n for _ in range(n)]
    emis = {}
    prev = tag.SENT
    for wt, wu in zip(tagged, untagged):
        cur = next(iter(wt.lf)) if wt.lf else -1
        if cur >= 0 and prev >= 0:
            pairs[prev][cur] += 1
        k = classes.index(wu.tags or ts.open)
        if cur >= 0:
            emis[cur, k] = emis.get((cur, k), 0) + 1
        prev = cur
    a = [[(x + 1.0) / (sum(row) + n) for x in row] for row in pairs]
    b = {}
    for i in range(n):
        ks = [k for k in range(m) if i in classes[k]]
        tot = sum(emis.get((i, k), 0) for k in ks)
        for k in ks:
            b[i, k] = (emis.get((i, k), 0) + 1.0 / len(ks)) / (tot + 1.0)
    return a, b


def estimate_kupiec(ts, classes, ws):
    n, m = ts.n, len(classes)
    seq = [classes.index(w.tags or ts.open) for w in ws]
    pred = [classes.index(frozenset([tag.SENT]))] + seq
    occ = [1.0 + pred[:-1].count(k) for k in range(m)]
    pair = [[1.0] * m for _ in range(m)]
    for x, y in zip(pred, seq):
        pair[x][y] += 1
    est = [sum(occ[k] / len(classes[k]) for k in range(m) if i in classes[k]) for i in range(n)]
    pe = [[0.0] * n for _ in range(n)]
    for x in range(m):
        for y in range(m):
            v = pair[x][y] / (len(classes[x]) * len(classes[y]))
            for i in classes[x]:
                for j in classes[y]:
                    pe[i][j] += v
    a = [[x / sum(row) for x in row] for row in pe]
    b = {(i, k): occ[k] / len(classes[k]) / est[i] for i in range(n) for k in range(m) if i in classes[k]}
    return a, b


class TooBig(Exception):
    pass


def reestimate(ts, classes, ws, a, b):
    """one iteration over the words; returns (a, b, largest number of paths)"""
    n = ts.n
    xsi, gamma, phi = {}, {}, {}
    start, seg, most = tag.SENT, [], 0
    for w in ws:
        tags = w.tags or ts.open
        seg.append((sorted(tags), classes.index(tags)))
        if len(tags) > 1:
            continue
        np = 1
        for t, _ in seg:
            np *= len(t)
        if np > 4000:
            raise TooBig
        most = max(most, np)
        paths, total = [], 0.0
        for path in itertools.product(*[t for t, _ in seg]):
            p, j = 1.0, start
            for i, (_, k) in zip(path, seg):
                p *= a[j][i] * b[i, k]
                j = i
            if p < 1e-200:
                raise TooBig  # the outcome depends on how products are rounded
            paths.append((path, p))
            total += p
        for path, p in paths:
            p /= total
            j = start
            for i, (_, k) in zip(path, seg):
                xsi[j, i] = xsi.get((j, i), 0) + p
                gamma[i] = gamma.get(i, 0) + p
                phi[i, k] = phi.get((i, k), 0) + p
                j = i
        start, seg = next(iter(tags)), []
    na = []
    for i in range(n):
        row = [xsi[i, j] / gamma.get(i, 2.2250738585072014e-308) if xsi.get((i, j), 0) > 0 else tag.ZERO for j in range(n)]
        s = sum(row)
        na.append([x / s for x in row])
    nb = {}
    for i in range(n):
        ks = [k for k in range(len(classes)) if i in classes[k]]
        col = [phi[i, k] / gamma[i] if phi.get((i, k), 0) > 0 else tag.ZERO for k in ks]
        s = sum(col)
        for k, x in zip(ks, col):
            nb[i, k] = x / s
    return na, nb, most


def apply_rules(ts, a):
    a = [list(r) for r in a]
    for i, j in ts.forbid:
        a[i][j] = tag.ZERO
    for i, js in ts.enforce:
        for j in range(ts.n):
            if j not in js:
                a[i][j] = tag.ZERO
    return [[x / sum(r) for x in r] if sum(r) > 0 else r for r in a]


def near(x, y):
    return abs(x - y) <= 1e-7 * max(abs(x), abs(y)) + 1e-13


def compare(p, a, b, what):
    for i in range(p.n):
        s = sum(p.a[i])
        need(abs(s - 1) < 1e-9, "%s: row %d of the transition matrix sums to %.12g", what, i, s)
        for j in range(p.n):
            need(near(p.a[i][j], a[i][j]), "%s: transition %s -> %s is %.12g, expected %.12g", what, p.array[i], p.array[j], p.a[i][j], a[i][j])
        s = sum(x for (q, k), x in p.b.items() if q == i)
        need(abs(s - 1) < 1e-9, "%s: emission row %d sums to %.12g", what, i, s)
    need(set(p.b) == set(b), "%s: emission entries differ in %r", what, sorted(set(p.b) ^ set(b))[:5])
    for ik in sorted(b):
        need(near(p.b[ik], b[ik]), "%s: emission %s of class %r is %.12g, expected %.12g", what, p.array[ik[0]], sorted(p.classes[ik[1]]), p.b[ik], b[ik])


def classes_of(ts, lex):
    out = []

    def add(c):
        if c and c not in out:
            out.append(c)
    for w in tag.words(ts, lex, ["\n"] * (len(lex) + 1)):
        add(w.tags)
    add(ts.open)
    for i in range(ts.n):
        add(frozenset([i]))
    return out


def case(d):
    t = tag.gen_tsx(d)
    ts = tag.Tagset(t)
    lex = tag.lexicon(d, t, ts)
    c = {"t": t, "lex": lex, "mode": d.weighted([(4, "s"), (4, "t")]), "n": d.weighted([(3, 0), (3, 1), (2, 2), (1, 3)]), "b": d.pick([" ", "\n", " [\\^] "])}
    pool = lex + [lex[-1]] * 2
    c["crp"] = tag.text(d, pool, 0, 14, 88, 10)[0]
    if c["mode"] == "s":
        us = tag.text(d, pool, 0, 14, 88, 10)[0]
        tg = []
        for sf, an in us:
            tg.append([sf, [d.pick(an)] if an else [] if d.chance(50) else [d.pick([x for e in lex for x in e[1]])]])
        c["un"], c["tg"] = us, tg
        c["five"] = c["n"] == 0 and d.bool()
    c["r"] = d.weighted([(3, None), (2, 0), (2, 1), (1, 2)])
    if c["r"] is not None:
        c["rcrp"] = tag.text(d, pool, 0, 14, 88, 10)[0]
    if d.chance(30):
        x = tag.gen_tsx(d, False, True)
        names = [l[0] for l in t["labels"]] + [m[0] for m in t["mults"]] + ["SENT", "CM"]
        c["new"] = {"forbid": [[d.pick(names), d.pick(names)] for _ in x["forbid"]], "enforce": [[d.pick(names), [d.pick(names) for _ in b]] for _, b in x["enforce"]],
                    "prefer": x["prefer"]}
    return c


def text(c, us):
    return tag.stream(us, [c["b"]] * (len(us) + 1))


def words(ts, c, us):
    return tag.words(ts, us, [c["b"]] * (len(us) + 1))


def check(c):
    ts = tag.Tagset(c["t"])
    classes = classes_of(ts, c["lex"])
    crp = words(ts, c, c["crp"])
    cl = {"supervised" if c["mode"] == "s" else "unsupervised", "%d iterations" % c["n"]}
    paths = 1
    try:
        if c["mode"] == "s":
            un = words(ts, c, c["un"])
            tgw = words(ts, c, c["tg"])
            if [w.sf for w in un] != [w.sf for w in tgw]:
                return False, {"tagged analysis splits differently"}
            a, b = estimate_supervised(ts, classes, tgw, un)
            a = apply_rules(ts, a)
        else:
            un = crp
            a, b = estimate_kupiec(ts, classes, crp)
            a = apply_rules(ts, a)
        for _ in range(c["n"]):
            a, b, x = reestimate(ts, classes, crp, a, b)
            paths = max(paths, x)
        if not c.get("five"):
            a = apply_rules(ts, a)
    except TooBig:
        return False, {"too many paths"}
    dr = scratch_dir()
    try:
        wfile(dr, "x.tsx", tag.tsx(c["t"]))
        wfile(dr, "dic", tag.stream(c["lex"], ["\n"] * (len(c["lex"]) + 1)))
        wfile(dr, "crp", text(c, c["crp"]))
        pr = dr + "/x.prob"
        if c["mode"] == "s":
            wfile(dr, "un", text(c, c["un"]))
            wfile(dr, "tg", text(c, c["tg"]))
            args = ["-s", str(c["n"]), dr + "/dic"] + ([] if c["five"] else [dr + "/crp"]) + [dr + "/x.tsx", pr, dr + "/tg", dr + "/un"]
        else:
            args = ["-t", str(c["n"]), dr + "/dic", dr + "/crp", dr + "/x.tsx", pr]
        ok(run(["apertium-tagger"] + args))
        data = open(pr, "rb").read()
        p = tag.Prob(data)
        need(p.classes == classes, "ambiguity classes %r, expected %r", p.classes, classes)
        need(p.forbid == ts.forbid and p.enforce == ts.enforce, "rules of the tag set: %r %r, expected %r %r", p.forbid, p.enforce, ts.forbid, ts.enforce)
        need(frozenset(p.open) == ts.open, "open class %r, expected %r", p.open, sorted(ts.open))
        compare(p, a, b, "training")
        if c["r"] is not None:
            cl.add("retrained")
            wfile(dr, "rcrp", text(c, c["rcrp"]))
            a, b = p.a, p.b
            try:
                for _ in range(c["r"]):
                    a, b, x = reestimate(ts, classes, words(ts, c, c["rcrp"]), a, b)
                    paths = max(paths, x)
            except TooBig:
                return False, {"degenerate probabilities"}
            ok(run(["apertium-tagger", "-r", str(c["r"]), dr + "/rcrp", pr]))
            q = tag.Prob(open(pr, "rb").read())
            compare(q, apply_rules(ts, a), b, "retraining")
            unchanged(p, q)
            p = q
        if "new" in c:
            cl.add("new rules")
            nt = dict(c["t"], **c["new"])
            ns = tag.Tagset(nt)
            wfile(dr, "new.tsx", tag.tsx(nt))
            ok(run(["apertium-tagger-apply-new-rules", "-i", pr, "-o", dr + "/new.prob", "-x", dr + "/new.tsx"]))
            q = tag.Prob(open(dr + "/new.prob", "rb").read())
            need(q.forbid == ns.forbid and q.enforce == ns.enforce, "rules after new rules: %r %r, expected %r %r", q.forbid, q.enforce, ns.forbid, ns.enforce)
            compare(q, apply_rules(ns, p.a), p.b, "new rules")
            unchanged(p, q, False)
    finally:
        shutil.rmtree(dr)
    if ts.forbid or ts.enforce:
        cl.add("rules")
    if paths > 1:
        cl.add("several paths")
    return any(len(w.lf) > 1 for w in un) and (not c["n"] or paths > 1), cl


def unchanged(p, q, rules=True):
    for f in ["open", "array", "index", "constants", "classes", "n", "m", "tail"] + (["forbid", "enforce", "prefer"] if rules else []):
        need(getattr(p, f) == getattr(q, f), "%s changed: %r to %r", f, getattr(p, f), getattr(q, f))


SUBS = {"main": {"gen": case, "check": check}}
