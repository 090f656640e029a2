"""P17 postchunk: generated rule programs and chunks against a reference interpreter."""
from .. import gen, trx, trxgen
from ..core import *
from .p14 import runner, BLANKS

TECHNIQUE = "property-based testing: generated postchunk rule programs and chunk streams against a reference interpreter"
NOTE = ("Search over generated programs, not a proof. Oracle: an interpreter of the rule language over the words of a chunk, and a reference "
        "unwrapping of chunks no rule names. Every chunk has at least as many words as the positions the rules use.")
TOOLS = ["apertium-preprocess-transfer", "apertium-postchunk"]
LIB = []
RULE = ("postchunk rule files with up to two macros and five rules over words, chunk head, lu-count and variables; chunks of zero to five words "
        "with numbered tag references (in and out of range), lower, title and upper case names, word-bound blanks, superblanks before, between "
        "and after the words, escapes; non-trivial: a rule applies, or a chunk with a reference and a name not in lower case is unwrapped")
NAMES = ["np", "Np", "NP", "vp", "Vp", "n", "N", "nx", "punt", "x y", "X y", "é", "É", "ap", "a\\/p", "ép"]


def content(d, lo, hi):
    n = d.int(lo, hi)
    o = d.weighted([(8, ""), (1, " "), (2, "[x]"), (1, "[<i>] ")])
    for i in range(n):
        if i:
            o += d.pick([" ", " ", "[<b>]", " [] ", "", "[\\]]", ". "])
        if d.chance(25):
            o += "[[%s]]" % gen.wblank(d)
        o += "^" + trxgen.form(d) + d.pick(["", "<1>", "<2><3>", "<4>", "<sg><1>", "<12>"]) + d.pick(["", "", "", "# out"]) + "$"
    return o + d.weighted([(8, ""), (1, " "), (2, "[y]")])


def chunk(d, lo, head=None):
    if head is None or d.chance(20):
        head = d.pick(NAMES)
    elif d.chance(40):
        head = d.pick([head.capitalize(), head.upper()])
    head += gen.tagstr(d.list(lambda d: d.pick(["np", "vp", "sg", "pl", "m", "f", "n", "p3", "GD"]), 1, 4, 65))
    return head + "{" + content(d, lo, max(lo, 5)) + "}"


def case(d):
    k = d.weighted([(2, 0), (4, 1), (3, 2), (2, 3)])
    r = trxgen.rules(d, "postchunk", nwords=k, reject=True)
    words = []
    while len(words) < 5 and (not words or d.chance(55)):
        if d.chance(80):
            words += [chunk(d, k, x.split("<")[0]) for x in trxgen.fill_rule(d, r)]
        else:
            words.append(chunk(d, k))
    words = words * d.weighted([(8, 1), (3, 2), (2, 3)])     # the interpreter remembers what it has evaluated once
    return {"r": r, "w": words, "b": [d.pick(BLANKS) for _ in range(len(words) + 1)], "dc": d.chance(10)}


def check(c):
    got, words, blanks, s = runner(c, ["-w"] if c["dc"] else [])
    m = trx.Postchunk(c["r"], c["dc"])
    want = m.run(blanks, words)
    if got != want:
        if m.undefined:
            return False, {"undefined, not compared"}
        m2 = trx.Postchunk(c["r"], c["dc"])
        m2.lost_rules = True
        sig = "rule-lost-after-rejection" if m2.run(blanks, words) == got and m2.lost_hit else None
        same(got, want, "output for stream %r" % s[:300], sig=sig)
    st = m.stats
    cl = {k for k in ("lets", "macros", "tests", "rejects", "defaults", "rules") if st[k]}
    opened = st["defaults"] and any("<1>" in w and w[0].isupper() for w in words)
    return bool(st["rules"] > 0 or opened), cl


SUBS = {"rules": {"gen": case, "check": check}}
