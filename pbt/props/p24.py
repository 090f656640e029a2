"""P24 perceptron tagger: trained weights and tagged output against an independent implementation of the feature language, training and beam search."""
import random, struct
from .. import tag, perc
from ..core import *
from . import p21

TECHNIQUE = "property-based testing: generated feature specifications, corpora and texts, model weights and output against a reference evaluator, averaged perceptron and beam search"
NOTE = ("Search over generated specifications, corpora and texts, not a proof. Oracle: exact averaged weights of some order of the sentences and some choice among equal scores "
        "(all are enumerated; cases with too many are skipped), and every tag sequence of the beam search with some choice among equals. Loop variables in macro arguments, "
        "loops over empty arrays and order comparisons of two different values (a known finding) are not generated.")
TOOLS = ["apertium-tagger", "apertium-perceptron-trace"]
LIB = []
RULE = ("one to four features over surface forms, lemmas, tags, coarse tags, ambiguity classes and neighbouring words, with predicates, loops, sets, strings, macros and a global "
        "predicate; up to three training sentences, up to three iterations; texts of up to ten words, also with random weights; non-trivial: a weight is learnt, or random weights "
        "decide between analyses")

# ---------------------------------------------------------------- feature specifications


def I(v):
    return ["int", {"val": v}]


NEUTRAL = {"and": ["eq", {}, I(1), I(1)], "or": ["neq", {}, I(1), I(1)]}


def typed(base):
    """a method making an expression: the base expression when nested too deep"""
    def wrap(f):
        def g(self, *a):
            if self.depth > 8 and not a:
                return base()
            self.depth += 1
            try:
                return f(self, *a)
            finally:
                self.depth -= 1
        return g
    return wrap


class G:
    """generator of typed expressions; scope: names of loop variables by type"""

    def __init__(self, d, c):
        self.d, self.c, self.coarse = d, c, c["coarse"]
        self.args = None          # in a macro: list of [name, type]
        self.nest, self.defn, self.depth = 0, False, 0

    def use(self, typ):
        if self.args is None or self.nest or not self.d.chance(45):
            return None
        if len(self.args) < 3 and self.d.chance(60) or not any(t == typ for _, t in self.args):
            if len(self.args) == 3:
                return None
            self.args.append(["p%d" % len(self.args), typ])
            return ["var", {"name": self.args[-1][0]}]
        return ["var", {"name": self.d.pick([n for n, t in self.args if t == typ])}]

    def macro(self, typ):
        ms = [n for n in sorted(self.c["macros"]) if self.c["macros"][n][2] == typ]
        if self.defn or self.nest or not ms or not self.d.chance(50):
            return None
        n = self.d.pick(ms)
        return ["macro", {"name": n}] + [self.of(t) for _, t in self.c["macros"][n][3]]

    def of(self, t):
        return getattr(self, t)()

    @typed(lambda: ["tokaddr", {}])
    def int(self):
        d = self.d
        v = self.use("int") or self.macro("int")
        if v:
            return v
        k = d.weighted([(4, 0), (2, 1), (3, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7)])
        if k == 1:
            return I(d.int(-3, 3))
        if k == 2:
            return ["add", {}, ["tokaddr", {}], I(d.int(-2, 2))]
        if k == 3:
            return ["sentlen", {}]
        if k == 4:
            return ["wrdidx", {}]
        if k == 5:
            return ["toklen", {}, ["tokaddr", {}]]
        if k == 6:
            return ["strlen", {}, self.str()]
        if k == 7:
            return ["arrlen", {}, self.arr()]
        return ["tokaddr", {}]

    @typed(lambda: ["wrdaddr", {}])
    def addr(self):
        d = self.d
        v = self.use("addr")
        if v:
            return v
        k = d.weighted([(4, 0), (2, 1), (3, 2), (3, 3), (2, 4)])
        if k == 1:
            return ["addr-of-ints", {}, self.int(), self.d.pick([I(0), ["wrdidx", {}], I(1)])]
        if k == 2:
            return ["add", {}, ["wrdaddr", {}], ["addr-of-ints", {}, I(d.int(-2, 1)), I(d.int(-1, 1))]]
        if k == 3:
            return ["adjust", {}, ["add", {}, ["wrdaddr", {}], ["addr-of-ints", {}, I(d.int(-1, 0)), I(d.int(-3, 2))]]]
        if k == 4:
            return ["clamp", {}, self.addr()]
        return ["wrdaddr", {}]

    @typed(lambda: ["ex-wordoid", {}, ["wrdaddr", {}]])
    def wrd(self):
        v = self.use("wrd") or self.macro("wrd")
        if v:
            return v
        if self.d.chance(15):
            return ["subscript", {"idx": self.d.int(0, 2)}, self.wrds()]
        return ["ex-wordoid", {}, self.addr()]

    @typed(lambda: ["ex-wordoids", {}, ["tokaddr", {}]])
    def wrds(self):
        v = self.use("wrds")
        if v:
            return v
        if self.d.chance(15):
            return ["slice", self.cut(), ["ex-wordoids", {}, self.int()]]
        return ["ex-wordoids", {}, self.d.pick([["tokaddr", {}], ["add", {}, ["tokaddr", {}], I(-1)], ["add", {}, ["tokaddr", {}], I(self.d.int(-2, 1))]])]

    def cut(self):
        """bounds that leave something of whatever is not empty"""
        d = self.d
        return d.pick([{"start": 0, "end": d.int(1, 3)}, {"end": d.int(1, 4)}, {"start": -d.int(1, 3)}, {"start": 1}, {"start": d.int(0, 2)}])

    @typed(lambda: ["ex-surf", {}, ["tokaddr", {}]])
    def str(self, var=None):
        d = self.d
        if var:
            k = d.pick([0, 1, 2]) if self.coarse else d.pick([0, 2])
            return [["ex-lemma", {}, var], ["ex-coarse", {}, var], ["join", {}, ["ex-tags", {}, var]]][k]
        v = self.use("str") or self.macro("str")
        if v:
            return v
        k = d.weighted([(4, 0), (4, 1), (3, 2), (2, 3), (1, 4), (1, 5)])
        if k == 0:
            return ["ex-surf", {}, self.int()]
        if k == 1 or k == 2 and not self.coarse:
            return ["ex-lemma", {}, self.wrd()]
        if k == 2:
            return ["ex-coarse", {}, self.wrd()]
        if k == 3:
            a = d.pick([{}, {"val": d.pick(["-", "é", "::"])}] + ([{"name": d.pick(sorted(self.c["strs"]))}] if self.c["strs"] else []))
            return ["join", a, self.arr()]
        if k == 4:
            return ["slice", d.pick([self.cut(), {"start": 0, "end": -1}, {"start": 1, "end": 2}]), ["ex-surf" if d.bool() else "ex-lemma", {}, None]]
        return ["subscript", {"idx": d.int(0, 2)}, self.tags()]

    def tags(self):
        return ["ex-tags", {}, self.wrd()]

    @typed(lambda: ["ex-tags", {}, ["ex-wordoid", {}, ["wrdaddr", {}]]])
    def arr(self):
        d = self.d
        v = self.use("arr") or self.macro("arr")
        if v:
            return v
        k = d.weighted([(6, 0), (2, 1), (2, 2), (2, 3), (1, 4)])
        if k == 1 and self.coarse:
            return ["ex-ambgset", {}, self.int()]
        if k == 2 and self.nest < 2:
            return self.loop()
        if k == 3:
            return ["slice", self.cut(), self.tags()]
        return self.tags()

    def loop(self):
        d = self.d
        self.nest += 2
        n = "w%d" % d.n(3)
        try:
            if d.chance(65):
                return ["for-each", {"as": n}, ["ex-wordoids", {}, d.pick([["tokaddr", {}], ["add", {}, ["tokaddr", {}], I(-1)]])], self.str(["var", {"name": n}])]
            v = ["var", {"name": n}]
            return ["for-each", {"as": n}, self.tags(), d.pick([v, ["slice", {"start": 0, "end": 1}, v]])]
        finally:
            self.nest -= 2

    @typed(lambda: ["eq", {}, ["tokaddr", {}], ["wrdidx", {}]])
    def bool(self):
        d = self.d
        v = self.use("bool") or self.macro("bool")
        if v:
            return v
        k = d.weighted([(4, 0), (4, 1), (4, 2), (2, 3), (2, 4), (2, 5), (3, 6), (2, 7)])
        if self.depth > 3 and k > 4:
            k = 0
        if k == 0:
            return ["streq", {"name": d.pick(sorted(self.c["strs"]))} if self.c["strs"] and d.chance(40) else {"val": self.word()}, self.str()]
        if k == 1:
            return ["strin", self.setref(), self.str()]
        if k == 2:
            return ["sethasany", self.setref(), self.arr()]
        if k == 3:
            return ["sethasall", self.setref(), self.arr()]
        if k == 4:
            # known finding order-comparison-reversed: no order comparisons but with itself
            if d.chance(20):
                x = self.int()
                return [d.pick(["lt", "lte", "gt", "gte"]), {}, x, x]
            return [d.pick(["eq", "neq"]), {}, self.int(), self.int()]
        if k == 5:
            return ["not", {}, self.bool()]
        # known finding and-or-stack: operands after the first must not decide
        op = ["and", "or"][k - 6]
        return [op, {}, self.bool()] + [NEUTRAL[op]] * d.n(3)

    def word(self):
        return self.d.pick(["a", "b", "n", "sg", "v", "1", "n.sg", "cd", "!TUF!", "É", "N", "TAG_kUNDEF", "日"])

    def setref(self):
        if self.c["sets"] and self.d.chance(50):
            return {"name": self.d.pick(sorted(self.c["sets"]))}
        return {"val": " ".join(self.d.list(lambda d: self.word(), 1, 4, 60))}


def fill(e, d):
    """close the None holes left in slices of strings"""
    for i in range(2, len(e)):
        if e[i] is None:
            e[i] = ["tokaddr", {}] if e[0] == "ex-surf" else ["ex-wordoid", {}, ["wrdaddr", {}]]
        else:
            fill(e[i], d)
    return e


def spec(d):
    c = {"coarse": d.chance(45), "beam": d.weighted([(4, None), (2, 1), (2, 2), (1, 3), (1, 8)]), "sets": {}, "strs": {}, "macros": {}, "pred": None}
    g = G(d, c)
    if d.chance(30):
        c["sets"] = {"s%d" % i: sorted(set(d.list(lambda d: g.word(), 1, 4, 60))) for i in range(d.int(1, 2))}
    if d.chance(30):
        c["strs"] = {"t%d" % i: g.word() for i in range(d.int(1, 2))}
    if d.chance(35):
        for i in range(d.int(1, 2)):
            g.args = [] if d.chance(75) else None
            g.defn = True
            if g.args is None:
                t = d.pick(["str", "arr", "bool", "int"])
                body = fill(g.of(t), d)
                if body[0] in ("slice", "subscript", "macro"):
                    t, body = "str", ["ex-surf", {}, ["tokaddr", {}]]
            else:
                t = d.pick(["str", "str", "bool", "arr", "wrd", "int"])
                body = fill(g.of(t), d)
                if body[0] in ("slice", "subscript", "var"):
                    t, body = "str", ["ex-surf", {}, ["tokaddr", {}]]
                    g.args = []
            args = g.args or []
            g.defn = False
            g.args = None
            c["macros"]["m%d" % i] = [[n for n, _ in args], body, t, args]
    if d.chance(20):
        g.defn = True       # known finding macro-in-global-predicate: no macros here
        c["pred"] = fill(g.bool(), d)
        g.defn = False

    def feat(d):
        f = []
        if d.chance(35):
            f.append(["pred", {}, g.bool()])
        for _ in range(d.weighted([(5, 1), (3, 2), (1, 3), (1, 0)])):
            k = d.weighted([(6, 0), (3, 1), (1, 2), (1, 3)])
            if k == 0:
                f.append(["out", {}, g.str()])
            elif k == 1:
                f.append(["out-many", {}, g.arr()])
            elif k == 2:
                e = g.bool()
                f.append(["out", {}, e] if e[0] != "macro" else ["pred", {}, e])
            else:
                e = g.int()
                f.append(["out", {}, e if e[0] != "macro" else ["tokaddr", {}]])
        return [fill(e, d) for e in f]
    c["feats"] = d.list(feat, 1, 4, 65)
    return c


# ---------------------------------------------------------------- corpora

LEM = ["a", "b", "É", "x y", "日", "q\\/"]


def analyses(d, t, hi=4):
    def one(d):
        if t is not None and d.chance(60):
            return tag.analysis(d, t)
        return "+".join(d.pick(LEM) + tag.tagstr([d.pick(["n", "v", "adj"])] + d.list(lambda d: d.pick(["sg", "pl", "m"]), 0, 2, 40))
                        for _ in range(d.weighted([(8, 1), (3, 2), (1, 3)])))
    out = []
    for x in d.list(one, 1, hi, 60):
        if x not in out:
            out.append(x)
    return out


def lexicon(d, t, hi):
    return [[d.pick(["a", "b", "cd", "É", "x y", "日", "q\\$"]), analyses(d, t, hi)] for _ in range(d.int(2, 5))]


END = [".", [".<sent>"]]


def text(d, lex, lo, hi):
    return d.list(lambda d: END if d.chance(12) else ["u", []] if d.chance(5) else d.pick(lex), lo, hi, 80)


def case(d):
    c = {"spec": spec(d), "t": None}
    if c["spec"]["coarse"]:
        c["t"] = tag.gen_tsx(d, True, False)
    lex = lexicon(d, c["t"], d.pick([2, 2, 3, 4]))
    c["n"] = d.weighted([(1, 0), (4, 1), (4, 2), (2, 3)])
    sents = []
    for _ in range(d.weighted([(5, 1), (4, 2), (2, 3)])):
        s = [u for u in text(d, lex, 1, 5) if u != END]
        sents.append(s + [END])
    if sents and d.chance(25):
        sents[-1] = sents[-1][:-1] or [END]
    c["crp"] = [u for s in sents for u in s]
    c["gold"] = []
    for sf, an in c["crp"]:
        x = d.pick(an) if an and not d.chance(4) else None
        if d.chance(3):
            x = d.pick(LEM) + "<n>"
        c["gold"].append(x)
    c["e"] = d.chance(35)
    c["move"] = d.n(len(c["crp"])) if c["e"] and d.chance(40) else None
    c["seg"] = d.chance(20)
    gap = lambda d: d.pick([" ", "", "\n", " [<b>] ", "\n\n"]) if c["seg"] else d.pick([" ", "", "\n", " [<b>] ", ". "])
    c["bs"] = [gap(d) for _ in range(len(c["crp"]) + 1)]
    c["us"] = text(d, lex + [[d.pick(["a", "z"]), analyses(d, c["t"])]], 1, 10)
    c["us_b"] = [gap(d) for _ in range(len(c["us"]) + 1)]
    c["rnd"] = d.chance(45)
    c["seed"] = d.n(1 << 30)
    return c


def split_gold(c):
    """training sentences: cut after each word whose hand-tagged reading ends a sentence"""
    return perc.sentences(list(zip(c["crp"], c["gold"])), [[g] if g else [] for g in c["gold"]], c["bs"] if c["seg"] else None)


def training(c):
    """(units, gold) of each sentence that takes part, and whether one was skipped over its first words"""
    if c["move"] is None:
        ss = split_gold(c)
    else:
        # the word at "move" has another surface form in the tagged file: its sentence is left out
        ss, i = [], 0
        for s in split_gold(c):
            if not i <= c["move"] < i + len(s):
                ss.append(s)
            i += len(s)
    return [[u for u, _ in s] for s in ss], [[g for _, g in s] for s in ss]


def has(e, names):
    return e and (e[0] in names or any(has(x, names) for x in e[2:]))


def left(e):
    """an and/or that may leave a value on the stack"""
    return e[0] in NEUTRAL and any(x != NEUTRAL[e[0]] for x in e[3:]) or any(left(x) for x in e[2:])


def unequal(e):
    """an order comparison of two different operands"""
    return e[0] in ("lt", "lte", "gt", "gte") and e[2] != e[3] or any(unequal(x) for x in e[2:])


def shape(c):
    """the recorded finding a case runs into; none of these is generated"""
    s = c["spec"]
    if c.get("memory"):
        return "loop-variable-uninitialised"
    if has(s["pred"], ["macro"]):
        return "macro-in-global-predicate"
    if any(left(e) for e in [e for f in s["feats"] for e in f] + [m[1] for m in s["macros"].values()] + ([s["pred"]] if s["pred"] else [])):
        return "and-or-stack"
    if any(unequal(e) for e in [e for f in s["feats"] for e in f] + [m[1] for m in s["macros"].values()] + ([s["pred"]] if s["pred"] else [])):
        return "order-comparison-reversed"


def check(c):
    try:
        # known finding loop-variable-uninitialised: with zeros in fresh memory it does no harm
        with memory(None if c.get("memory") == "as is" else 0):
            return judge(c)
    except Violation as v:
        v.sig = shape(c)
        raise


def judge(c):
    s, cl = c["spec"], set()
    perc.WORK[0] = 40000
    ts = tag.Tagset(c["t"]) if c["t"] else None
    beam = s["beam"] or 4
    # a sentence end the two files do not share makes them drift apart after a skipped sentence
    if c["move"] is not None:
        for (sf, an), g in zip(c["crp"], c["gold"]):
            if (an == END[1]) != (g == END[1][0]):
                c = dict(c, move=None)
                break
    sents, golds = training(c)
    try:
        models, refused = perc.train(s, ts, sents, golds, c["n"], beam, c["e"]) if sents and c["n"] else ({()}, False)
    except perc.TooMany:
        return False, {"too many ties"}
    dr = scratch_dir()
    try:
        if c["t"]:
            wfile(dr, "x.tsx", tag.tsx(c["t"]))
        mtx = wfile(dr, "x.mtx", perc.mtx(s))
        bl = c["bs"]
        seg = ["-b"] if c["seg"] else []
        un = wfile(dr, "un", tag.stream(c["crp"], bl))
        tg = wfile(dr, "tg", tag.stream([[("zz" if i == c["move"] else u[0]), [g] if g else []] for i, (u, g) in enumerate(zip(c["crp"], c["gold"]))], bl))
        pr = dr + "/x.prob"
        r = run(["apertium-tagger"] + seg + (["-e"] if c["e"] else []) + ["-x", "-s", str(c["n"]), pr, tg, un, mtx])
        if refused and (not models or r.rc != 0):
            need(r.rc == 1 or b"unavailable" in r.err, "training with a reading that is not among the analyses: exit %r, %r", r.rc, r.err[-300:])
            return False, {"refused"}
        ok(r)
        data = open(pr, "rb").read()
        cand = weights(data, c, s, ts)
        fit = [g for g in cand if any(near(g, dict(m)) for m in models)]
        need(fit, "the weights are %r, which no order of sentences and choice among equals gives; one of the %d expected: %r\n  spec: %s",
             cand[-1:], len(models), dict(sorted(models)[0]), perc.mtx(s))
        got = fit[-1]
        cl.add("%d models" % min(len(models), 3))
        nt = bool(got)
        if got:
            cl.add("learnt")
        w = got
        if c["rnd"]:
            w = randomw(c, s, ts)
            old = perc.dump(got)
            need(data.endswith(old), "harness: unexpected end of the model")
            wfile(dr, "x.prob", data[:-len(old)] + perc.dump(w))
            cl.add("random weights")
        out = ok(run(["apertium-tagger"] + seg + ["-x", "-g", pr], tag.stream(c["us"], c["us_b"]))).text
    finally:
        shutil.rmtree(dr)
    bs = c["us_b"]
    i, pos, differ = 0, len(bs[0]), False
    perc.WORK[0] = 40000
    need(out.startswith(bs[0]), "output %r does not begin with the blank %r", out, bs[0])
    try:
        for sent in perc.sentences(c["us"], [u[1] for u in c["us"]], bs if c["seg"] else None):
            opts = perc.tag_sentence(s, ts, w, sent, beam)
            txt = {"".join("^%s$%s" % (x if x is not None else "*" + u[0], b) for u, x, b in zip(sent, q, bs[i + 1:])) for q in opts}
            fit = [x for x in txt if out.startswith(x, pos)]
            need(fit, "output %r does not continue at %d with a best sequence, one of %r\n  weights %r\n  spec %s", out, pos, sorted(txt)[:5], w, perc.mtx(s))
            pos += max(map(len, fit))
            i += len(sent)
            n = 1
            for u in sent:
                n *= max(1, len(u[1]))
            differ = differ or len(opts) < n
    except perc.TooMany:
        return False, cl | {"too many ties"}
    need(pos == len(out), "output %r goes on after the text at %d", out, pos)
    for k in ("pred", "coarse", "sets", "strs", "macros"):
        if s[k]:
            cl.add(k)
    if c["move"] is not None:
        cl.add("skipped sentence")
    if c["seg"]:
        cl.add("segmentation")
    return nt or (differ and c["rnd"]), cl


def near(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= 1e-9 * (1 + abs(b[k])) for k in a)


def weights(data, c, s, ts):
    m = perc.Model(data, s["coarse"])
    need(m.beam == (s["beam"] or 4), "the model has beam width %d", m.beam)
    need(m.coarse == (1 if s["coarse"] else 0), "the model says %d for coarse tags", m.coarse)
    if not s["coarse"]:
        w = m.weights(m.head)
        need(m.p == len(data), "the model goes on after the weights")
        return [w]
    # the length of the pattern list before the weights is not known
    cand = []
    for at in range(m.head, len(data)):
        try:
            w = m.weights(at)
        except (IndexError, OverflowError, struct.error, ValueError):
            continue
        if m.p == len(data) and data[at:] == perc.dump(w) and all(k and len(k[0]) == 1 and k[0][0] < len(m.feats) for k in w):
            cand.append(w)
    need(cand, "no weights found at the end of the model")
    return cand


def randomw(c, s, ts):
    r = random.Random(c["seed"])
    keys = set()
    for sent in perc.sentences(c["us"], [u[1] for u in c["us"]]):
        paths = [()]
        for i, (sf, an) in enumerate(sent):
            nxt = [p + (x,) for p in paths for x in (an or [None])]
            r.shuffle(nxt)
            paths = nxt[:12]
            if len(an) > 1:
                for p in paths:
                    keys |= set(perc.features(s, ts, p, sent, i))
    return {k: r.choice([-1, 1]) * (r.random() + 1e-3) for k in sorted(keys) if r.random() < 0.8}


# ---------------------------------------------------------------- the features of every analysis (apertium-perceptron-trace path)


def feat_case(d):
    c = {"spec": spec(d), "t": None}
    if c["spec"]["coarse"]:
        c["t"] = tag.gen_tsx(d, True, False)
    lex = lexicon(d, c["t"], 4)
    c["us"] = [u for u in text(d, lex, 1, 7)]
    c["gold"] = [d.pick(an) if an and not d.chance(8) else None for sf, an in c["us"]]
    for i, (sf, an) in enumerate(c["us"]):
        if an == END[1]:
            c["gold"][i] = an[0]
    c["b"] = d.pick([" ", "", "\n", " [<b>] "])
    return c


def feat_check(c):
    try:
        with memory(None if c.get("memory") == "as is" else 0):
            return feat_judge(c)
    except Violation as v:
        v.sig = shape(c)
        raise


def feat_judge(c):
    s = c["spec"]
    ts = tag.Tagset(c["t"]) if c["t"] else None
    bs = [c["b"]] * (len(c["us"]) + 1)
    dr = scratch_dir()
    try:
        if c["t"]:
            wfile(dr, "x.tsx", tag.tsx(c["t"]))
        mtx = wfile(dr, "x.mtx", perc.mtx(s))
        un = wfile(dr, "un", tag.stream(c["us"], bs))
        tg = wfile(dr, "tg", tag.stream([[u[0], [g] if g else []] for u, g in zip(c["us"], c["gold"])], bs))
        out = ok(run(["apertium-perceptron-trace", "path", mtx, un, tg])).out
    finally:
        shutil.rmtree(dr)
    # training sentences end where the hand-tagged reading does
    sents = perc.sentences(list(zip(c["us"], c["gold"])), [[g] if g else [] for g in c["gold"]])
    want, n = b"", 0
    for si, st in enumerate(sents):
        sent = [u for u, _ in st]
        for t, (sf, an) in enumerate(sent):
            for ai, x in enumerate(an):
                tagged = [g for _, g in st]
                tagged[t] = x
                ws = perc.parse(x)
                for w in range(len(ws)):
                    keys = perc.features_at(s, ts, tagged, sent, t, w)
                    n += len(keys)
                    want += b"Sentence %d of %d\t\tToken %d of %d\t\tAnalysis %d of %d\t\tWordoid %d of %d\n" % (
                        si, len(sents), t, len(sent), ai, len(an), w, len(ws))
                    want += (ws[w][0].replace("\\", "") + "".join("<%s>" % g for g in ws[w][1])).encode() + b"\n"
                    for k in sorted(set(keys)):
                        want += b"%d; %s: 1\n" % (k[0][0], b", ".join(k[1:]))
                    want += b"\n\n"
    # the line before each analysis shows only that there is one
    out = b"".join(x for x in out.splitlines(True) if not x.startswith(b"LU:"))
    if out.replace(b"\\", b"") != want.replace(b"\\", b""):
        a, b = out.replace(b"\\", b"").splitlines(), want.replace(b"\\", b"").splitlines()
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        raise Violation("the features differ at line %d: %r, expected %r\n  before: %r\n  spec: %s" % (i, a[i:i + 2], b[i:i + 2], a[max(0, i - 4):i], perc.mtx(s)))
    return n > 3, {"%d sentences" % min(len(sents), 3)}


SUBS = {"main": {"gen": case, "check": check, "weight": 2}, "features": {"gen": feat_case, "check": feat_check, "weight": 2}}
