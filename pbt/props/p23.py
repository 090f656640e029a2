"""P23 unigram taggers: the chosen analysis has the highest score, computed independently from the training corpus."""
import re
from fractions import Fraction
from .. import tag
from ..core import *

TECHNIQUE = "property-based testing: generated hand-tagged corpora and texts, output against a reference implementation of the three models with exact arithmetic"
NOTE = ("Search over generated corpora and texts, not a proof. Oracle: counts and scores as exact fractions, first best among equals. Readings with a lemma "
        "queue are left to P20.")
TOOLS = ["apertium-tagger"]
LIB = []
RULE = ("corpora of up to 14 words with one to five analyses each (multi-part ones included) from a pool of few lemmas and tags, texts of up to ten words with analyses seen "
        "and unseen; non-trivial: some word of two or more analyses has scores that differ")

LEM = ["a", "b", "É", "x y", "q\\/", "日", "\\<t\\>"]
TAGS = ["<n>", "<n><sg>", "<v>", "<v><inf>", "<adj>", "<n><pl>"]


def morph(d, k):
    return d.pick(LEM[:k]) + d.pick(TAGS[:k + 1])


def analysis(d, k):
    return "+".join(morph(d, k) for _ in range(d.weighted([(10, 1), (5, 2), (2, 3)])))


def unit(d, k, pool, unk=0):
    if unk and d.chance(unk):
        return ["u", []]
    an = d.list(lambda d: d.pick(pool) if pool and d.chance(75) else analysis(d, k), 1, 5, 45)
    return [d.pick(["a", "B", "x\\$", "日"]), an]


def case(d):
    k = d.int(2, 5)
    pool = [analysis(d, k) for _ in range(d.int(1, 6))]
    return {"m": d.int(1, 3), "crp": d.list(lambda d: unit(d, k, pool), 0, 14, 85), "b": d.pick([" ", "", "\n", " [<b>] "]),
            "us": d.list(lambda d: unit(d, k, pool, 5), 1, 10, 80)}


def parts(an):
    """[(lemma, tags)]"""
    out = []
    for p in re.findall(r"((?:[^<\\+]|\\.)+)((?:<[^>]*>)+)(?:\+|$)", an, re.S):
        out.append(p)
    return out


class Model:
    def __init__(self, m, corpus):
        self.m, self.tabs = m, [{}, {}, {}]
        # every word counts 1, spread evenly; counts are kept as multiples of the least unit the training reaches
        unit = 1
        for _, an in corpus:
            if unit % len(an):
                unit *= len(an)
        for _, an in corpus:
            for x in an:
                for t, key, val in self.events(parts(x)):
                    row = self.tabs[t].setdefault(key, {})
                    row[val] = row.get(val, 0) + unit // len(an)

    def events(self, p):
        if self.m == 1:
            return [(0, "", tuple(p))]
        if self.m == 2:
            return [(0, (p[0][1],) + tuple(p[1:]), p[0][0])]
        out = [(0, p[0][1], p[0][0])]
        for x, y in zip(p, p[1:]):
            out += [(1, x[1], y[0]), (2, y[0], y[1])]
        return out

    def score(self, an):
        s = Fraction(1)
        if self.m == 1:
            return 1 + self.tabs[0].get("", {}).get(tuple(parts(an)), 0)
        for t, key, val in self.events(parts(an)):
            row = self.tabs[t].get(key, {})
            n = 1 + sum(row.values())
            types = len(row) + (val not in row) if row else 1
            s *= Fraction((1 + row.get(val, 0)) * (n if t == 0 else 1), n + types)
        return s


def check(c):
    model = Model(c["m"], c["crp"])
    dr = scratch_dir()
    try:
        f = wfile(dr, "tagged", tag.stream(c["crp"], [c["b"]] * (len(c["crp"]) + 1)))
        ok(run(["apertium-tagger", "-s", "0", "-u", str(c["m"]), dr + "/x.prob", f]))
        out = ok(run(["apertium-tagger", "-u", str(c["m"]), "-g", dr + "/x.prob"], tag.stream(c["us"], [c["b"]] * (len(c["us"]) + 1)))).text
    finally:
        shutil.rmtree(dr)
    exp, differ, cl = c["b"], False, {"model %d" % c["m"]}
    for sf, an in c["us"]:
        if not an:
            exp += "^*%s$" % sf + c["b"]
            cl.add("unknown")
            continue
        sc = [model.score(x) for x in an]
        exp += "^" + an[sc.index(max(sc))] + "$" + c["b"]
        if len(set(sc)) > 1:
            differ = True
            if sc[0] != max(sc):
                cl.add("not the first")
        elif len(set(an)) > 1:
            cl.add("tie")
    same(out, exp, "output for %r after training model %d on %r" % (c["us"], c["m"], c["crp"]))
    return differ, cl


SUBS = {"main": {"gen": case, "check": check}}
