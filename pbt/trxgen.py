"""Generators of structural transfer rule files (see trx.py for their shape) and of input streams that exercise them."""
from . import gen

LEMS = ["a", "b", "ab", "casa", "Casa", "CASA", "x y", "é", "É", "take# out", "aB", "l'", "日"]
CATLEM = ["", "", "", "a", "b", "ab", "a*", "*a", "*b*", "casa", "c*a", "*", "x y", "é", "take*", "take# out"]
POS = ["n", "vblex", "adj", "det"]
SUB = ["sg", "pl", "m", "f", "p3", "ND", "pri"]
CATTAGS = ["n.*", "n", "n.sg", "*", "n.*.sg", "*.sg", "vblex.*", "vblex", "adj", "adj.*", "n.m.*", "*.m.*", "det.*", "det", "vblex.pri.*", "zzz"]
ATTRS = [["gen", ["m", "f", "mf", "GD"]], ["num", ["sg", "pl", "sp", "ND"]], ["cat", ["n", "n.m", "vblex", "adj", "n.m.sg", "det"]],
         ["per", ["p1", "p2", "p3", "p3.sg"]], ["odd", ["x-y", "x-", "a+b", "é", "p", "pr", "pri", "q*", "sg", "[", "-", "m", "f|n", "^", "(m)", "a/b"]]]
TAGPOOL = POS + SUB + ["mf", "GD", "sp", "p1", "p2", "x-y", "x-", "a+b", "pr", "q*", "-", "f|n", "(m)", "a/b"]
VARS = ["v1", "v2", "case"]
ITEMS = ["a", "casa", "Casa", "x y", "<sg>", "b", "É", "<n>", "c", "CA", "aS", "SA", "B", "sa", "<n><sg>", "é", "Y", "n", "L'", "AA", "Aa", "aa"]
LITS = ["a", "b", "casa", "Casa", "CASA", "", "x y", "é", "+", "# out", "AA", "Aa", "aa", "<n>", "sg", "A", "ab<n><sg>", "aB", "ab<n># out", "a<n>b", "cASa", "# OuT", "a\\/b", "CASA<n>", "\\@x", "sa", "É"]


def lemma(d):
    k = d.weighted([(10, 0), (2, 1), (2, 2)])
    if k == 0:
        return d.pick(LEMS)
    if k == 1:
        return gen.lemma(d, 1, 3)
    return d.str("abAcé# ", 1, 4).strip() or "a" if d.chance(80) else d.pick(["\\Aa", "c\\ASA", "\\É", "a\\B"])


def fill(d, lem, tags):
    """a word that a category item matches"""
    o = ""
    for c in lem or "*":
        o += d.str("abcé A", 1, 3, 40) if c == "*" else c.upper() if d.chance(10) and len(c.upper()) == 1 else c
    t = []
    for x in tags.split(".") if tags else []:
        t += d.list(lambda d: d.pick(SUB), 1, 3, 40) if x == "*" else [x]
    return o + gen.tagstr(t)


def fill_rule(d, r):
    """words that a rule of r matches"""
    cats = dict(r["cats"])
    pat = d.pick(r["rules"])[0]
    return [fill(d, *d.pick(cats[c])) for c in pat]


def wtags(d):
    k = d.n(9)
    if k == 0:
        return d.list(lambda d: d.pick(TAGPOOL), 0, 5, 60)
    return [d.pick(POS)] + d.list(lambda d: d.pick(SUB if d.chance(80) else TAGPOOL), 0, 3, 65)


def form(d, lem=None, tags=None):
    return (lemma(d) if lem is None else lem) + gen.tagstr(wtags(d) if tags is None else tags)


class Ctx:
    """what is in scope: number of words, kind of stage"""

    queue = False

    def __init__(self, stage, n, lo=1, parts=(), sides=("sl", "tl"), npar0=False, out_kind="lu", macros=(), depth=0, lists=True):
        self.stage, self.n, self.lo, self.parts, self.sides = stage, n, lo, parts, sides
        self.out_kind, self.macros, self.lists = out_kind, macros, lists


def pos(d, c):
    return d.int(c.lo, max(c.lo, c.n))


def clip(d, c, write=False):
    a = {"pos": str(pos(d, c))}
    if c.stage == "transfer":
        a["side"] = d.pick(c.sides)
    part = d.pick(c.parts)
    a["part"] = part
    if c.stage == "transfer" and not write and d.chance(8):
        a["link-to"] = d.pick(["3", "2", "sg"])
    if c.queue and d.chance(25):
        a["queue"] = d.pick(["no", "no", "yes"])
    return ["clip", a, []]


def value(d, c, depth=0, b=True):
    """an expression"""
    k = d.weighted([(9 if c.n >= c.lo else 0, 0), (4, 1), (2, 2), (4, 3), (2 if c.n >= max(1, c.lo) else 0, 4), (2 if c.n >= c.lo else 0, 5),
                    (2 if depth < 2 else 0, 6), (1 if b else 0, 7), (1 if c.stage == "postchunk" else 0, 8),
                    (1 if depth == 0 and c.stage != "interchunk" and c.out_kind == "lu" else 0, 9)])
    if k == 0:
        return clip(d, c)
    if k == 1:
        return ["lit", {"v": d.pick(LITS)}, []]
    if k == 2:
        return ["lit-tag", {"v": d.pick(["n", "sg", "n.sg", "pl", "m", "2"])}, []]
    if k == 3:
        return ["var", {"n": d.pick(VARS)}, []]
    if k == 4:
        return ["get-case-from", {"pos": str(d.int(max(1, c.lo), max(1, c.n)))}, [d.pick([clip, lambda d, c: ["lit", {"v": d.pick(LITS)}, []],
                                                                                       lambda d, c: ["var", {"n": d.pick(VARS)}, []]])(d, c)]]
    if k == 5:
        a = {"pos": str(pos(d, c))}
        if c.stage == "transfer":
            a["side"] = d.pick(["sl", "tl", "ref"])
        a["part"] = d.pick(c.parts)
        return ["case-of", a, []]
    if k == 6:
        return ["concat", {}, d.list(lambda d: value(d, c, depth + 1, b), 1, 3, 60)]
    if k == 7:
        return ["b", {"pos": str(d.int(1, 3))} if d.chance(40) else {}, []]
    if k == 8:
        return ["lu-count", {}, []]
    return lu(d, c)


def simple(d, c):
    while True:
        v = value(d, c, 2, False)
        return v


def caseless(d):
    return {"caseless": "yes"} if d.chance(35) else {}


def test(d, c, depth=0):
    k = d.weighted([(10, 0), (3, 1), (2, 2), (2, 3), (3 if c.lists else 0, 4), (1 if c.lists else 0, 5), (1 if c.lists else 0, 6),
                    (2 if depth < 2 else 0, 7), (2 if depth < 2 else 0, 8), (2 if depth < 2 else 0, 9)])
    t = ["equal", "begins-with", "ends-with", "contains-substring", "in", "begins-with-list", "ends-with-list", "and", "or", "not"][k]
    if k < 7 and d.chance(50):
        # a test that words of the vocabulary decide
        x = ["lit", {"v": d.pick(LITS)}, []] if c.n < c.lo or d.chance(15) else ["var", {"n": d.pick(VARS)}, []] if d.chance(25) else clip(d, c)
        if x[0] == "clip" and x[1]["part"] not in ("content", "chcontent") and d.chance(60):
            x[1]["part"] = d.pick(["lem", "lem", "lemh" if c.stage != "interchunk" else "lem", "tags", "whole"])
        if k >= 4:
            return [t, caseless(d), [x, ["list", {"n": d.pick(["L", "M"])}, []]]]
        y = d.pick(ITEMS)
        return [t, caseless(d), [x, ["lit", {"v": y}, []]]]
    if k < 4:
        return [t, caseless(d), [value(d, c, 1, False), value(d, c, 1, False)]]
    if k < 7:
        return [t, caseless(d), [value(d, c, 1, False), ["list", {"n": d.pick(["L", "M"])}, []]]]
    if k == 9:
        return [t, {}, [test(d, c, depth + 1)]]
    return [t, {}, d.list(lambda d: test(d, c, depth + 1), 2, 3, 30)]


def lu(d, c):
    if c.n >= max(1, c.lo) and d.chance(45):
        p = str(d.int(max(1, c.lo), max(1, c.n)))
        a = {"pos": p, "part": "whole"}
        if c.stage == "transfer":
            a["side"] = d.pick(["tl", "tl", "sl"])
        return ["lu", {}, [["clip", a, []]]]
    return ["lu", {}, d.list(lambda d: value(d, c, 1), 1, 4, 65)]


def chunk(d, c):
    if c.stage == "interchunk":
        if c.n < c.lo:
            return ["chunk", {}, [["lit", {"v": d.pick(["np", "NP", "a"])}, []], ["lit-tag", {"v": d.pick(["np", "vp.sg"])}, []], ["lit", {"v": "{"}, []],
                                  ["var", {"n": d.pick(VARS)}, []], ["lit", {"v": "}"}, []]]]
        p = str(pos(d, c))
        if d.chance(60):
            return ["chunk", {}, [["clip", {"pos": p, "part": "lem"}, []]] + d.list(lambda d: value(d, c, 1, False), 0, 2, 50) +
                    [["clip", {"pos": p, "part": d.pick(["tags", "tags", "gen", "num"])}, []], ["clip", {"pos": p, "part": "chcontent"}, []]]]
        return ["chunk", {}, [["lit", {"v": d.pick(["np", "NP", "a"])}, []]] + d.list(lambda d: value(d, c, 1, False), 0, 2, 50) +
                [["lit-tag", {"v": d.pick(["np", "vp.sg"])}, []], ["lit", {"v": "{"}, []]] +
                d.list(lambda d: d.pick([["clip", {"pos": str(pos(d, c)), "part": "content"}, []], ["b", {}, []]]), 1, 3, 60) + [["lit", {"v": "}"}, []]]]
    a = {"name": d.pick(["np", "Np", "x_y"])} if d.chance(70) else {"namefrom": d.pick(["v1", "v2"])}
    if d.chance(50):
        a["case"] = d.pick(["case", "v1", "aa"])
    ch = [["tags", {}, [["tag", {}, [value(d, c, 1, False)]] for _ in range(d.int(1, 2))]]]
    ch += d.list(lambda d: d.pick([lu, lu, lu, mlu, lambda d, c: ["b", {}, []], lambda d, c: ["var", {"n": d.pick(VARS)}, []]])(d, c), 1, 4, 65)
    return ["chunk", a, ch]


def mlu(d, c):
    return ["mlu", {}, d.list(lambda d: ["lu", {}, d.list(lambda d: value(d, c, 1), 1, 3, 50)], 1, 3, 60)]


def out(d, c):
    def item(d):
        if c.out_kind == "chunk" or c.stage == "interchunk":
            k = d.weighted([(8, 0), (3, 1), (1, 2)])
            return chunk(d, c) if k == 0 else ["b", {"pos": "1"} if d.chance(30) else {}, []] if k == 1 else ["var", {"n": d.pick(VARS)}, []]
        k = d.weighted([(8, 0), (4, 1), (2, 2), (1, 3), (1 if c.stage == "transfer" else 0, 4)])
        if k == 0:
            return lu(d, c)
        if k == 1:
            return ["b", {"pos": "1"} if d.chance(30) else {}, []]
        if k == 2:
            return mlu(d, c)
        if k == 3:
            return ["var", {"n": d.pick(VARS)}, []]
        return chunk(d, c)
    return ["out", {}, d.list(item, 1, 5, 65)]


def instr(d, c, depth=0, reject=False):
    can = c.n >= c.lo
    k = d.weighted([(8, 0), (6, 1), (3, 2), (2, 3), (3 if depth < 2 else 0, 4), (3 if c.macros else 0, 5), (1 if reject else 0, 6)])
    if k == 0:
        return out(d, c)
    if k == 1:
        if can and d.chance(60):
            return ["let", {}, [clip(d, c, True), value(d, c)]]
        return ["let", {}, [["var", {"n": d.pick(VARS)}, []], value(d, c)]]
    if k == 2:
        left = clip(d, c, True) if can and d.bool() else ["var", {"n": d.pick(VARS)}, []]
        if c.stage == "interchunk" and left[0] == "clip" and left[1]["part"] == "whole":
            left[1]["part"] = "lem"
        kk = d.n(3)
        right = [["lit", {"v": d.pick(["aa", "Aa", "AA"])}, []], clip(d, c) if can else ["lit", {"v": "Aa"}, []],
                 ["var", {"n": "case"}, []], simple(d, c)][kk]
        return ["modify-case", {}, [left, right]]
    if k == 3:
        return ["append", {"n": d.pick(VARS)}, d.list(lambda d: value(d, c), 1, 2, 40)]
    if k == 4:
        whens = d.list(lambda d: ["when", {}, [["test", {}, [test(d, c)]]] + block(d, c, depth + 1, reject, 0)], 1, 3, 40)
        if d.chance(60):
            whens.append(["otherwise", {}, block(d, c, depth + 1, reject, 1)])
        return ["choose", {}, whens]
    if k == 5:
        name, npar = d.pick(c.macros)
        if npar and c.n < max(1, c.lo):
            return out(d, c)
        return ["call-macro", {"n": name}, [["with-param", {"pos": str(d.int(max(1, c.lo), max(1, c.n)))}, []] for _ in range(npar)]]
    return ["reject-current-rule", {"shifting": d.pick(["no", "no", "yes", "1", str(max(1, c.n)) if c.stage != "postchunk" else "no", "0"])}, []]


def keep_instr(d, c):
    """instructions about variables that keep words with their word-bound blanks, set and used in any order"""
    v = ["var", {"n": d.pick(VARS[:2])}, []]

    def src(d):
        a = {"pos": str(d.int(max(1, c.lo), max(1, c.n))), "part": d.pick(["lem", "lem", "lemh", "tags", "whole"] if c.stage != "interchunk" else ["lem", "tags"])}
        if c.stage == "transfer":
            a["side"] = d.pick(["tl", "tl", "sl"])
        return ["clip", a, []] if not d.chance(20) else ["lit", {"v": d.pick(["a", "+", ""])}, []] if d.bool() else ["var", {"n": d.pick(VARS[:2])}, []]
    if c.n < max(1, c.lo):
        return ["let", {}, [v, ["lit", {"v": d.pick(LITS)}, []]]]
    k = d.n(5)
    if k <= 1:
        return ["let", {}, [v, ["concat", {}, d.list(src, 1, 2, 60)] if d.chance(25) else src(d)]]
    if k == 2:
        return ["append", {"n": v[1]["n"]}, d.list(src, 1, 2, 40)]
    if k == 3 and d.bool():
        return ["choose", {}, [["when", {}, [["test", {}, [["equal", {}, [v, ["lit", {"v": d.pick(["", "a", "b"])}, []]]]]], keep_instr(d, c)]]]]
    lus = d.list(lambda d: ["lu", {}, d.list(lambda d: v if d.chance(50) else src(d), 1, 3, 50) + [["lit-tag", {"v": "x"}, []]]], 1, 2, 40)
    if c.out_kind == "chunk":
        return ["out", {}, [["chunk", {"name": "k"}, [["tags", {}, [["tag", {}, [["lit-tag", {"v": "K"}, []]]]]]] + lus]]]
    return ["out", {}, lus]


def block(d, c, depth=0, reject=False, lo=1):
    return d.list(lambda d: instr(d, c, depth, reject), lo, 3, 55)


TPARTS = ["lem", "lemh", "lemq", "whole", "tags", "gen", "num", "cat", "per", "odd", "tags", "lem", "gen", "num"]
IPARTS = ["lem", "tags", "gen", "num", "cat", "content", "chcontent", "whole", "lem", "tags", "gen", "lemh"]


def rules(d, stage, reject=True, outkind=None, pattern_only=False, nwords=0, queue=False):
    cats = []
    for i in range(d.int(1, 4)):
        if stage == "postchunk":
            items = d.list(lambda d: [d.pick(["np", "vp", "n*", "*", "x y", "punt", "é", "*p"]), ""], 1, 2, 30)
        else:
            pool = CATTAGS if stage == "transfer" else ["np.*", "np", "np.*.sg", "vp.*", "*", "vp.pl", "np.m.*", "*.sg"]
            items = d.list(lambda d: [d.pick(CATLEM if stage == "transfer" else ["", "", "", "a", "np", "n*", "a*", "*"]), d.pick(pool)], 1, 3, 40)
        cats.append(["c%d" % i, items])
    r = {"stage": stage, "default": outkind or ("chunk" if stage == "transfer" and d.chance(30) else "lu"), "cats": cats,
         "attrs": ATTRS, "vars": [[v, d.pick(LITS)] for v in VARS], "lists": [[n, d.list(lambda d: d.pick(ITEMS), 2, 6, 70)] for n in "LM"], "macros": [], "rules": []}
    kind = r["default"]
    if stage == "postchunk":
        parts, lo = TPARTS, 0
    else:
        parts, lo = (TPARTS if stage == "transfer" else IPARTS), 1
    if not pattern_only:
        for i in range(d.weighted([(4, 0), (3, 1), (2, 2)])):
            npar = d.int(1 if stage == "postchunk" else 0, 4)
            c = Ctx(stage, npar, lo, parts, ("sl", "tl", "tl", "ref"), out_kind=kind)
            c.queue = queue
            r["macros"].append(["m%d" % i, npar, block(d, c)])
    ms = [(m[0], m[1]) for m in r["macros"]]
    for i in range(d.int(1, 5)):
        n = 1 if stage == "postchunk" else d.weighted([(5, 1), (5, 2), (2, 3), (1, 4)])
        pat = [d.pick(cats)[0] for _ in range(n)]
        c = Ctx(stage, nwords if stage == "postchunk" else n, lo, parts, ("sl", "tl", "tl", "ref"), out_kind=kind, macros=ms)
        c.queue = queue
        r["rules"].append([pat, None, c])
    keep = stage != "interchunk" and d.chance(15)
    for x in r["rules"]:
        c = x.pop()
        x[1] = d.list(lambda d: keep_instr(d, c), 1, 5, 75) if keep else block(d, c, 0, reject)
    return r
