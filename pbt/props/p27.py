"""P27 multiple translations: every combination of the words of a matched stretch, once and in order."""
import itertools, os, re
from .. import build, gen, trx, trxgen
from ..core import *

TECHNIQUE = "property-based testing: generated bilingual dictionaries, patterns and streams against a reference longest-match combination model"
NOTE = ("Search over generated dictionaries, patterns and streams, not a proof. Oracle: translations looked up in a table that stands in for the compiled dictionary (the tool is linked with shims/bil.cc, as the bilingual lookup of the lttoolbox installed here is broken), regular expressions per category, longest match, "
        "and the cartesian product. Lemmas are in lower case (case transfer is lttoolbox's).")
TOOLS = ["apertium-preprocess-transfer"]
LIB = None
EXTRA = {"multiple-translations-table": [os.path.join(build.A, "apertium-multiple-translations.cc"), os.path.join(build.VERIF, "pbt", "shims", "bil.cc")]}
RULE = ("dictionaries of up to seven words with up to four translations, some marked as default or with senses, words whose tags go beyond the entry and words not in the dictionary; "
        "patterns of one to four words; streams of up to nine words with blanks, superblanks and escapes, as input or files; non-trivial: a stretch of two or more words with two or more "
        "combinations")

LEM = ["a", "b", "ab", "cd", "é", "日", "x y", "ñu", "q"]
TAGS = ["n", "vblex", "adj", "sg", "pl", "m"]
BLANKS = [" ", " ", "", "[a]", " [<b>\\]] ", ". ", "\n", "\\^", "\\[x", "é"]


def table(es):
    """the stand-in dictionary (see shims/bil.cc)"""
    f = lambda t: t[0] + "".join("<%s>" % x for x in t[1])
    return "".join("%s\t%s\n" % (f(l), "/".join(map(f, rs))) for l, rs in es)


def translate(es, w):
    best = None
    for l, rs in es:
        k = l[0] + "".join("<%s>" % x for x in l[1])
        if w.startswith(k) and w[len(k):len(k) + 1] in ("", "<", "#") and (best is None or len(k) > len(best[0])):
            best = (k, rs)
    if best is None:
        return [w]
    return [r[0] + "".join("<%s>" % x for x in r[1]) + w[len(best[0]):] for r in best[1]]


def target(d):
    lem = d.pick(["A1", "b2", "c", "é", "d e", "f__1", "f__2", "g__x y", "j\\/k", "l\\\\"] if d.chance(70) else ["h D", "i"])
    return [lem, [] if d.chance(8) else [d.pick(TAGS[:3])] + d.list(lambda d: d.pick(TAGS[3:]), 0, 2, 30)]


def targets(d):
    rs = d.list(target, 1, 4, 55)
    return [x for i, x in enumerate(rs) if x not in rs[:i]]


def case(d):
    cats = []
    for i in range(d.int(1, 4)):
        cats.append(["c%d" % i, d.list(lambda d: [d.pick(["", "", "", "a", "b", "ab", "a*", "*b", "é", "x y"]), d.pick(["n", "n.*", "vblex", "adj.*", "*", "n.sg", "*.pl", "vblex.*"])], 1, 3, 40)])
    r = {"stage": "transfer", "default": "lu", "cats": cats, "attrs": [["x", ["n"]]], "vars": [["v", ""]], "lists": [], "macros": [],
         "rules": d.list(lambda d: [[d.pick(cats)[0] for _ in range(d.weighted([(3, 1), (5, 2), (3, 3), (1, 4)]))], [["out", {}, [["b", {}, []]]]]], 1, 5, 70)}
    es, seen = [], set()
    for _ in range(d.int(1, 7)):
        l = [d.pick(LEM), [d.pick(TAGS[:3])] + d.list(lambda d: d.pick(TAGS[3:]), 0, 1, 40)]
        k = l[0] + "".join("<%s>" % x for x in l[1])
        if k in seen:
            continue
        seen.add(k)
        es.append([l, targets(d)])

    def word(d):
        k = d.n(9)
        if k == 0:
            return d.pick(["zz", "z\\/w", "é\\^", "a\\<b"]) + "<n>"
        if k == 1:
            return "*" + d.pick(["u", "vw"])
        lem, tags = d.pick(es)[0]
        return lem + "".join("<%s>" % t for t in tags + (d.list(lambda d: d.pick(TAGS[3:]), 1, 2, 30) if d.chance(40) else [])) + ("# up" if d.chance(6) else "")

    words = []
    while len(words) < 9 and (not words or d.chance(75)):
        if d.chance(45):
            for c in d.pick(r["rules"])[0]:
                x = trxgen.fill(d, *d.pick(dict(cats)[c])).lower()
                words.append(x)
                l = [x[:x.index("<")], re.findall(r"<([^>]*)>", x)]
                if x not in seen and d.chance(70):
                    seen.add(x)
                    es.append([l, targets(d)])
        else:
            words.append(word(d))
    return {"r": r, "e": es, "w": words, "b": [d.pick(BLANKS) for _ in range(len(words) + 1)], "io": d.weighted([(8, 0), (1, 1), (1, 2)]), "rep": d.weighted([(80, 1), (1, 600)])}


def check(c):
    dr = scratch_dir()
    try:
        t = wfile(dr, "r.xml", trx.xml(c["r"]))
        ok(run(["apertium-preprocess-transfer", t, dr + "/r.bin"]))
        wfile(dr, "b.bin", table(c["e"]))
        w, b = c["w"], c["b"]
        if c["rep"] > 1:
            w, b = w * c["rep"], [b[0]] + (b[1:-1] + [b[-1] + b[0]]) * c["rep"]
            b[-1] = c["b"][-1]
        src = "".join(x + "^" + y + "$" for x, y in zip(b, w)) + b[len(w)]
        cmd = ["multiple-translations-table", dr + "/r.bin", dr + "/b.bin"]
        if c["io"]:
            f = wfile(dr, "in", src)
            p = ok(run(cmd + [f] + ([dr + "/out"] if c["io"] == 2 else [])))
            got = open(dr + "/out", "rb").read().decode("utf8") if c["io"] == 2 else p.text
        else:
            got = ok(run(cmd, src)).text
    finally:
        shutil.rmtree(dr)
    trans = {x: order(translate(c["e"], x)) for x in set(c["w"])}
    m = trx.Interp(c["r"])
    keys = [trx.enc(trx.wkey(x)) for x in w]
    o, i, nt, cl = b[0], 0, False, set()
    while i < len(w):
        k = m.best(keys[i:i + 6], ())
        n = 1 if k is None else len(c["r"]["rules"][k][0])
        combos = []
        for xs in itertools.product(*[trans[x] for x in w[i:i + n]]):
            s = ""
            for j, x in enumerate(xs):
                s += ("" if j == 0 else b[i + j]) + "^" + x + "$"
            combos.append(s)
        o += "[{]" + "[|]".join(combos) + ".[][}]" if len(combos) > 1 else combos[0]
        if n > 1 and len(combos) > 1:
            nt = True
            cl.add("combinations")
        cl.add("stretch of %d" % min(n, 3) if k is not None else "no pattern")
        i += n
        o += b[i]
    same(got, o, "output for %r" % src[:400])
    return nt, cl


def order(xs):
    """the translations as the tool orders them: a default first, and only those marked with a sense if several are"""
    res = []
    for x in xs:
        if res and " D<" in x:
            res = [x] + res[1:] + res[:1]
        else:
            res.append(x)
    sense = [x for x in res if "__" in x]
    return sense if len(sense) > 1 else res


SUBS = {"main": {"gen": case, "check": check}}
