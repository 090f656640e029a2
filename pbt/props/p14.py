"""P14 transfer matching: generated categories and patterns against a reference matcher."""
from .. import gen, trx, trxgen
from ..core import *

TECHNIQUE = "property-based testing: generated rule files and streams against a reference longest-match interpreter"
NOTE = ("Search over generated categories, patterns and streams for the three transfer stages, not a proof. Oracle: regular expressions per "
        "category item, longest match, earliest rule. Category lemmas are given in lower case (the automaton lowers the input only). "
        "One genuine defect is listed as a known finding: after a rejection a rule with the same automaton path is not tried.")
TOOLS = ["apertium-preprocess-transfer", "apertium-transfer", "apertium-interchunk", "apertium-postchunk"]
LIB = []
RULE = ("rule files of one to seven rules with overlapping categories (lemma literals, lemma wildcards, tag wildcards) and patterns of one to "
        "four words, with and without rejecting rules; streams of one to nine words over the same vocabulary with blanks, superblanks and "
        "word-bound blanks, some repeated beyond 2048 tokens; non-trivial: some rule of two or more words applies, or a rule rejects itself")

BLANKS = [" ", " ", " ", "", "[a]", " [<b>] ", ". ", "[\\]x]", "\n"]


def tword(d, sl=None):
    sl = sl or trxgen.form(d)
    tl = d.weighted([(6, None), (1, "*"), (1, "")])
    tl = trxgen.form(d) if tl is None else "*" + sl if tl == "*" else ""
    return [sl, tl, "/".join(trxgen.form(d) for _ in range(d.weighted([(5, 1), (2, 2), (1, 3)]))) if d.chance(15) else "", "[[%s]]" % gen.wblank(d) if d.chance(20) else ""]


def iword(d, head=None):
    if head:
        return head + ("" if "<" in head else gen.tagstr(["sg"])) + "{^a<n><2>$[b]^b$}"
    name = d.pick(["np", "Np", "vp", "a", "np_vp", "é", "x y", "NP"])
    tags = d.list(lambda d: d.pick(["np", "vp", "sg", "pl", "m", "f"]), 1, 3, 60)
    return name + gen.tagstr(tags) + "{^a<n><2>$[b]^b$}"


def rep(d):
    return d.weighted([(60, 1), (1, 40), (1, 700)])


def case(d, stage="transfer"):
    r = trxgen.rules(d, stage, pattern_only=True)
    r["default"] = "lu"
    rej = d.chance(45)
    for k, x in enumerate(r["rules"]):
        n = 0 if stage == "postchunk" else len(x[0])
        if stage == "interchunk":
            o = ["out", {}, [["chunk", {}, [["lit", {"v": "R%d" % k}, []]] + [["clip", {"pos": str(i + 1), "part": "whole"}, []] for i in range(n)]]]]
        elif stage == "postchunk":
            o = ["out", {}, [["lu", {}, [["lit", {"v": "R%d" % k}, []], ["clip", {"pos": "0", "part": "whole"}, []]]]]]
        else:
            o = ["out", {}, [["lu", {}, [["lit", {"v": "R%d" % k}, []]] + [["clip", {"pos": str(i + 1), "part": "whole", "side": "sl"}, []] for i in range(n)]]]]
        body = [o]
        if rej and stage != "postchunk" and d.chance(55):
            body = [["reject-current-rule", {"shifting": d.pick(["no", "no", "no", "0", "yes", "1", str(n)])}, []]]
            if d.bool():
                p = {"pos": str(d.int(1, n)), "part": "lem"}
                if stage == "transfer":
                    p["side"] = "sl"
                body = [["choose", {}, [["when", {}, [["test", {}, [["equal", {"caseless": "yes"}, [["clip", p, []], ["lit", {"v": d.pick(["a", "casa", "np"])}, []]]]]]] + body],
                                        ["otherwise", {}, [o]]]]]
        x[1] = body
    w = {"transfer": tword, "interchunk": iword, "postchunk": iword}[stage]
    words = []
    if rej and stage != "postchunk" and d.chance(50):
        # few categories and words, so that rules compete at every word
        tags = ["n", "vblex"] if stage == "transfer" else ["np", "vp"]
        r["cats"] = [["c%d" % i, [[d.pick(["", "", "a", "a*"]), t] for t in d.subset(tags, 70) or tags[:1]]] for i in range(len(r["cats"]))]
        for _ in range(d.int(2, 8)):
            words.append(w(d, "%s<%s>" % (d.pick(["a", "b", "casa", "np"]), d.pick(tags))))
    while len(words) < 9 and (not words or d.chance(60)):
        if d.chance(70):
            words += [w(d, x) for x in trxgen.fill_rule(d, r)]
        else:
            words.append(w(d))
    return {"r": r, "w": words, "b": [d.pick(BLANKS) for _ in range(len(words) + 1)], "rep": rep(d), "n": stage == "transfer" and d.chance(15)}


def build_stream(c):
    r = c["r"]
    words, blanks = c["w"], c["b"]
    k = c.get("rep", 1)
    if k > 1:
        words = words * k
        blanks = [c["b"][0]] + (c["b"][1:-1] + [c["b"][-1] + c["b"][0]]) * k
        blanks[-1] = c["b"][-1]
    if r["stage"] == "transfer":
        if c.get("n"):
            words = [[w[0], w[0], "", ""] for w in words]
            txt = ["^%s$" % w[0] for w in words]
        else:
            txt = [w[3] + "^" + w[0] + "/" + w[1] + ("/" + w[2] if w[2] else "") + "$" for w in words]
    else:
        txt = ["^%s$" % w for w in words]
    return words, blanks, "".join(b + t for b, t in zip(blanks, txt)) + blanks[-1]


def runner(c, args=()):
    """(output of the real tool, interpreter class, words, blanks, stream)"""
    r = c["r"]
    dr = scratch_dir()
    try:
        t = wfile(dr, "r.xml", trx.xml(r))
        p = run(["apertium-preprocess-transfer", t, dr + "/r.bin"])
        ok(p)
        words, blanks, s = build_stream(c)
        i = wfile(dr, "in", s)
        cmd = ["apertium-" + r["stage"]] + (["-n" if c.get("n") else "-b"] if r["stage"] == "transfer" else []) + list(args) + [t, dr + "/r.bin", i]
        o = ok(run(cmd)).out.decode("utf8", "surrogateescape")
    finally:
        shutil.rmtree(dr)
    return o, words, blanks, s


CLS = {"transfer": trx.Transfer, "interchunk": trx.Interchunk, "postchunk": trx.Postchunk}


def check(c):
    got, words, blanks, s = runner(c)
    m = CLS[c["r"]["stage"]](c["r"])
    want = m.run(blanks, words)
    if got != want:
        m2 = CLS[c["r"]["stage"]](c["r"])
        m2.lost_rules = True
        sig = "rule-lost-after-rejection" if m2.run(blanks, words) == got and m2.lost_hit else None
        same(got, want, "output for stream %r" % s[:300], sig=sig)
    cl = set()
    st = m.stats
    if st["longer"]:
        cl.add("rule of several words applied")
    if st["rejects"]:
        cl.add("rejection")
    if st["defaults"]:
        cl.add("default rule")
    if c["rep"] > 1:
        cl.add("long stream")
    return st["longer"] > 0 or st["rejects"] > 0, cl


SUBS = {
    "transfer": {"gen": case, "check": check, "weight": 5},
    "interchunk": {"gen": lambda d: case(d, "interchunk"), "check": check, "weight": 2},
    "postchunk": {"gen": lambda d: case(d, "postchunk"), "check": check, "weight": 1},
}
