"""P16 interchunk: generated rule programs against a reference interpreter."""
from .. import gen, trx, trxgen
from ..core import *
from .p14 import runner, BLANKS

TECHNIQUE = "property-based testing: generated interchunk rule programs and chunk streams against a reference interpreter"
NOTE = ("Search over generated programs, not a proof. Oracle: an interpreter of the rule language over chunks (pseudo-lemma and tags, content). "
        "Contents are arbitrary text between braces. modify-case of part=\"whole\" is not generated.")
TOOLS = ["apertium-preprocess-transfer", "apertium-interchunk"]
LIB = []
RULE = ("interchunk rule files with up to two macros and five rules whose actions nest choose, let, append, modify-case, out, call-macro and "
        "rejection over pseudo-lemmas, tags, attributes and contents; streams of chunks filled from the rules' categories whose contents hold "
        "words, references, superblanks, word-bound blanks and escapes; non-trivial: a rule applies whose actions run a let, test or macro")


def content(d):
    o = d.pick(["", "", " ", "[x]"])
    for i in range(d.int(1, 3)):
        if i:
            o += d.pick([" ", "[<b>]", " [] ", ""])
        if d.chance(20):
            o += "[[%s]]" % gen.wblank(d)
        o += "^" + trxgen.form(d) + d.pick(["", "<1>", "<2><3>"]) + d.pick(["", "", "# out"]) + "$"
    return o + d.pick(["", "", " ", "[y]"])


def chunk(d, head=None):
    if head is None:
        name = d.pick(["np", "Np", "vp", "a", "np_vp", "é", "x y", "NP", "a\\/b", "n\\<p", "n#p", "\\^", "\\{", "n\\{p"])
        head = name + gen.tagstr(d.list(lambda d: d.pick(["np", "vp", "sg", "pl", "m", "f", "n", "p3"]), 1, 3, 60))
    elif "<" not in head:
        head += "<sg>"
    return head + "{" + content(d) + "}"


def case(d):
    r = trxgen.rules(d, "interchunk")
    words = []
    while len(words) < 6 and (not words or d.chance(55)):
        if d.chance(75):
            words += [chunk(d, x) for x in trxgen.fill_rule(d, r)]
        else:
            words.append(chunk(d))
    words = words * d.weighted([(8, 1), (3, 2), (2, 3)])     # the interpreter remembers what it has evaluated once
    return {"r": r, "w": words, "b": [d.pick(BLANKS) for _ in range(len(words) + 1)], "dc": d.chance(8)}


def check(c):
    got, words, blanks, s = runner(c, ["-w"] if c["dc"] else [])
    m = trx.Interchunk(c["r"], c["dc"])
    want = m.run(blanks, words)
    if got != want:
        if m.undefined:
            return False, {"undefined, not compared"}
        sig = None
        for lost, bare in ((1, 0), (0, 1), (1, 1)):
            m2 = trx.Interchunk(c["r"], c["dc"])
            m2.lost_rules, m2.bare_chunks = bool(lost), bool(bare)
            ok2 = m2.run(blanks, words) == got
            if m2.undefined and m2.bare_hit:
                return False, {"undefined, not compared"}
            if ok2 and (m2.lost_hit or not lost) and (m2.bare_hit or not bare):
                sig = "chunk-without-lemma-or-tags" if bare else "rule-lost-after-rejection"
                break
        same(got, want, "output for stream %r" % s[:300], sig=sig)
    st = m.stats
    cl = {k for k in ("lets", "macros", "tests", "rejects", "longer") if st[k]}
    return st["rules"] > 0 and (st["lets"] or st["macros"] or st["tests"]) > 0, cl


SUBS = {"rules": {"gen": case, "check": check}}
