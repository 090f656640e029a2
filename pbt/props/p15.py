"""P15 transfer rule actions: generated rule programs against a reference interpreter."""
import os
from .. import build, gen, trx, trxgen
from ..core import *
from .p14 import tword, runner, BLANKS

TECHNIQUE = "property-based testing: generated rule programs and streams against a reference interpreter of the rule language"
NOTE = ("Search over generated programs, not a proof. Oracle: an interpreter of the rule language over the same syntax tree. Case mapping is "
        "ICU's and the case pattern of a string is that of its first and last character. Attributes have no two items that differ in case only. With a dictionary the tool is linked with shims/bil.cc, a table in place of the compiled dictionary (the bilingual lookup of the lttoolbox installed here is broken).")
TOOLS = ["apertium-preprocess-transfer", "apertium-transfer"]
LIB = None
EXTRA = {"apertium-transfer-table": [os.path.join(build.A, "apertium_transfer.cc"), os.path.join(build.VERIF, "pbt", "shims", "bil.cc")]}
RULE = ("rule files with up to two macros and five rules whose actions nest choose, let, append, modify-case, out, call-macro and rejection "
        "over clips of every part and side, literals, variables, lists, case functions and every test, in lu and chunk mode; streams of words "
        "filled from the rules' categories with escapes, queues, word-bound blanks and blanks, translated in the stream, not at all, or by a table (with untranslated tags, queue=\"no\" "
        "and an extended dictionary); non-trivial: a rule applies whose actions "
        "run at least one let, test or macro")


def case(d):
    r = trxgen.rules(d, "transfer")
    words = []
    while len(words) < 6 and (not words or d.chance(55)):
        if d.chance(75):
            words += [tword(d, x) for x in trxgen.fill_rule(d, r)]
        else:
            words.append(tword(d))
    words = words * d.weighted([(8, 1), (3, 2), (2, 3)])     # the interpreter remembers what it has evaluated once
    return {"r": r, "w": words, "b": [d.pick(BLANKS) for _ in range(len(words) + 1)], "n": d.chance(8), "dc": d.chance(8)}


def check(c):
    got, words, blanks, s = runner(c, ["-w"] if c["dc"] else [])
    m = trx.Transfer(c["r"], c["dc"])
    want = m.run(blanks, words)
    if got != want:
        if m.undefined:
            return False, {"undefined, not compared"}
        m2 = trx.Transfer(c["r"], c["dc"])
        m2.lost_rules = True
        sig = "rule-lost-after-rejection" if m2.run(blanks, words) == got and m2.lost_hit else None
        same(got, want, "output for stream %r" % s[:300], sig=sig)
    st = m.stats
    cl = {k for k in ("lets", "macros", "tests", "rejects", "longer") if st[k]}
    cl.add(c["r"]["default"])
    return st["rules"] > 0 and (st["lets"] or st["macros"] or st["tests"]) > 0, cl


def entry(d, w):
    """a dictionary entry for a word, perhaps for its lemma and first tags only"""
    i = [k for k in trx.scan(w) if w[k] in "<#" and k]
    return [w[:d.pick(i)] if i and d.chance(60) else w, trxgen.form(d).replace("<a/b>", "<m>") if d.chance(90) else ""]


def bil_case(d):
    r = trxgen.rules(d, "transfer", queue=True)
    words = []
    while len(words) < 6 and (not words or d.chance(55)):
        ws = trxgen.fill_rule(d, r) if d.chance(80) else [trxgen.form(d)]
        words += [w for w in ws if w[:1] != "*"] + (["*" + d.pick(["u", "vw", "casa", "\\^x"])] if d.chance(15) else [])
    ents = {}
    for w in words:
        if d.chance(85):
            k, v = entry(d, w)
            ents[k] = v
    words = words * d.weighted([(6, 1), (3, 2), (2, 3)])
    ext = None
    if d.chance(25):
        ext = [[w[1:], entry(d, w)[1]] for w in sorted(set(words)) if w[0] == "*" and d.chance(70)]
    return {"r": r, "w": words, "b": [d.pick(BLANKS) for _ in range(len(words) + 1)], "e": sorted(map(list, ents.items())), "ext": ext, "dc": d.chance(8)}


def look(es, w):
    """(translation, length of what was not translated), as the stand-in dictionary gives it"""
    best = None
    for k, v in es:
        if w.startswith(k) and w[len(k):len(k) + 1] in ("", "<", "#") and (best is None or len(k) > len(best[0])):
            best = (k, v)
    if best is None:
        return "@" + w, 0
    return best[1] + w[len(best[0]):], len(w) - len(best[0])


def bil_check(c):
    words = []
    for w in c["w"]:
        t, q = look(c["e"], w)
        dt = t
        if c["ext"] is not None and w[0] == "*":
            dt = look(c["ext"], w[1:])[0]
            dt = "*" + dt[1:] if dt[:1] == "@" else "%" + dt
        words.append([w, t, "", "", q, dt])
    m = trx.Transfer(c["r"], c["dc"])
    want = m.run(c["b"], words)
    if m.undefined:
        return False, {"undefined, not compared"}
    dr = scratch_dir()
    try:
        t = wfile(dr, "r.xml", trx.xml(c["r"]))
        ok(run(["apertium-preprocess-transfer", t, dr + "/r.bin"]))
        tab = lambda es: "".join("%s\t%s\n" % (k, v) for k, v in es)
        wfile(dr, "b.bin", tab(c["e"]))
        args = ["-w"] if c["dc"] else []
        if c["ext"] is not None:
            args += ["-x", wfile(dr, "x.bin", tab(c["ext"]))]
        s = "".join("%s^%s$" % x for x in zip(c["b"], c["w"])) + c["b"][-1]
        got = ok(run(["apertium-transfer-table"] + args + [t, dr + "/r.bin", dr + "/b.bin", wfile(dr, "in", s)])).text
    finally:
        shutil.rmtree(dr)
    if got != want:
        m2 = trx.Transfer(c["r"], c["dc"])
        m2.lost_rules = True
        sig = "rule-lost-after-rejection" if m2.run(c["b"], words) == got and m2.lost_hit else None
        same(got, want, "output for stream %r with the dictionary %r" % (s[:300], c["e"]), sig=sig)
    st = m.stats
    cl = {"bil " + k for k in ("lets", "macros", "tests", "rejects") if st[k]} | {"untranslated tags" for w in words if w[4]}
    if c["ext"]:
        cl.add("extended dictionary")
    return st["rules"] > 0 and (st["lets"] or st["macros"] or st["tests"]) > 0, cl


SUBS = {"rules": {"gen": case, "check": check, "weight": 2}, "dictionary": {"gen": bil_case, "check": bil_check}}
