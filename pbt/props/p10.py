"""P10 apertium-extract-caps / apertium-restore-caps without rules: exact reference models."""
from .. import gen, caps
from ..core import *

TECHNIQUE = "property-based testing: generated streams against reference models of extraction and of restoration without applicable rules"
NOTE = ("Search over generated streams, not a proof. Oracle: reference models; Unicode case mapping and categories are taken from ICU "
        "and the Unicode database.")
TOOLS = ["apertium-extract-caps", "apertium-restore-caps", "apertium-compile-caps"]
LIB = []
RULE = ("streams of words in every case mix and several scripts, joined units, several readings, unknown words, escapes, superblanks, "
        "word-bound blanks with one or more parts, some without a word, NULs, with -s, -z, -k and file arguments; non-trivial: at least two units, one of "
        "which has an upper-case letter or a word-bound blank")
LET = "aAbBxéÉжЖßÑ漢1'-"


def word(d, hi=5, sp=True):
    def a(d):
        k = d.weighted([(40, 0), (6, 1), (4 if sp else 0, 2), (2, 3)])
        return d.pick(LET) if k == 0 else "\\" + d.pick("^$/[]{}<>@\\") if k == 1 else " " if k == 2 else d.pick("𐐀𐐨😀")
    return "".join(d.list(a, 1, hi, 60))


def wblank(d, caps_mark=False):
    if d.chance(55):
        return []
    ps = d.list(lambda d: d.pick(["t:b:x", "t:i:abc", "t:a:1Z", "t:q:\\[\\]", "x"]), 1, 3, 40)
    if caps_mark and d.chance(80):
        for _ in range(d.weighted([(8, 1), (2, 2)])):
            ps.insert(d.int(0, len(ps)), "c:%s/%s" % (d.pick(["aa", "Aa", "AA"]), d.pick(["aa", "Aa", "AA"])))
    return ps


def wb(ps):
    return "[[" + "; ".join(ps) + "]]" if ps else ""


def blank(d):
    s = ""
    for _ in range(d.int(0, 2)):
        k = d.weighted([(12, 0), (6, 1), (4, 2), (1, 3)])
        if k == 3:  # a word-bound blank no word follows
            s += wb(wblank(d) or ["t:z"]) + d.pick([" ", "a", "[x]", "[]", "\\^", "[[t:y:2]] "])
            continue
        s += " " if k == 0 else "[" + gen.super_content(d) + "]" if k == 1 else d.pick(["a", "Bc", ".", "\\^", "\\[", "\n", ", "])
    return s


def lu(d):
    surf = word(d)

    def reading(d):
        if d.chance(10):
            return "*" + surf
        parts = ["%s%s" % (word(d), gen.tagstr(gen.tags(d, 1, 3))) for _ in range(d.weighted([(8, 1), (2, 2), (1, 3)]))]
        r = "+".join(parts)
        if d.chance(15):
            r += "# " + word(d, 3)
        return r
    return {"b": blank(d), "w": wblank(d), "s": surf, "r": d.list(reading, 1, 3, 35), "nul": d.chance(5)}


def case_x(d):
    return {"us": d.list(lu, 0, 5, 80), "tail": blank(d), "s": d.chance(35), "z": d.chance(40), "files": d.weighted([(8, 0), (1, 1), (1, 2)])}


def lemma_end(r):
    """case pattern of the lemma: from the first character to the end of the last part's lemma"""
    t = caps.toks(r)
    end = len(t)
    start = 0
    for i in range(len(t) - 1):
        if t[i][0] == "<" and t[i + 1] == "+":
            start = i + 1
    for i in range(start, len(t)):
        if t[i][0] == "<" and len(t[i]) > 1:
            end = i
            break
    return "".join(t[:end])


def drive(tool, opts, pre, stream, files):
    argv = [tool] + opts + pre
    if files == 0:
        return ok(run(argv, stream)).out
    d = scratch_dir()
    try:
        argv.append(wfile(d, "in", stream))
        if files == 1:
            return ok(run(argv)).out
        r = ok(run(argv + [d + "/out"]))
        need(r.out == b"", "%s wrote to stdout with an output file given", tool)
        return open(d + "/out", "rb").read()
    finally:
        shutil.rmtree(d)


def check_x(c):
    inp = out = ""
    for u in c["us"]:
        inp += u["b"] + wb(u["w"]) + "^" + u["s"] + "/" + "/".join(u["r"]) + "$" + ("\0" if u["nul"] else "")
        mark = "c:%s/%s" % (caps.pattern(u["s"]), caps.pattern(lemma_end(u["r"][0])))
        out += u["b"] + wb(u["w"] + [mark]) + "^" + (u["s"] + "/" if c["s"] else "") + u["r"][0] + "$" + ("\0" if u["nul"] else "")
    inp += c["tail"]
    out += c["tail"]
    got = drive("apertium-extract-caps", (["-s"] if c["s"] else []) + (["-z"] if c["z"] else []), [], inp, c["files"])
    same(got, out, "apertium-extract-caps on %r" % inp)
    cl = set()
    if any(len(u["r"]) > 1 for u in c["us"]):
        cl.add("several readings")
    if any("+" in u["r"][0] for u in c["us"]):
        cl.add("joined")
    if any(u["nul"] for u in c["us"]):
        cl.add("nul")
    return len(c["us"]) > 1 and any(u["w"] or u["s"] != u["s"].lower() for u in c["us"]), cl


def case_r(d):
    def u(d):
        t = word(d)
        if d.chance(20):
            t = d.pick("#@*") + t
        return {"b": blank(d), "w": wblank(d, True), "f": word(d) + gen.tagstr(gen.tags(d, 0, 3)) if d.chance(85) else None,
                "t": t, "nul": d.chance(5)}
    return {"us": d.list(u, 0, 5, 80), "tail": blank(d), "k": d.bool(), "z": d.chance(40), "rules": d.int(0, 3), "files": d.weighted([(8, 0), (1, 1), (1, 2)])}


RULES = ["<rules/>", '<rules><rule><match lemma="nosuchlemma" select="AA"/></rule></rules>',
         '<rules><rule><match tags="nosuchtag.*" select="AA"/><match select="aa"/></rule></rules>',
         '<rules><rule><match srcsurf="Aa" srclem="AAaA" select="AA"/></rule></rules>']


def setup():
    d = ENV.scratch
    for i, r in enumerate(RULES):
        p = wfile(d, "r%d.crx" % i, "<?xml version=\"1.0\"?>\n<capitalization>%s</capitalization>" % r)
        ok(run(["apertium-compile-caps", p, d + "/r%d.bin" % i]))
    global BIN
    BIN = d


def check_r(c):
    inp = out = ""
    for u in c["us"]:
        nul = "\0" if u["nul"] else ""
        inp += u["b"] + wb(u["w"]) + "^" + (u["f"] + "/" if u["f"] is not None else "") + u["t"] + "$" + nul
        ps = u["w"] if c["k"] else [p for p in u["w"] if not p.startswith("c:")]
        out += u["b"] + wb(ps) + u["t"] + ("[[/]]" if ps else "") + nul
    inp += c["tail"]
    out += c["tail"]
    got = drive("apertium-restore-caps", (["-k"] if c["k"] else []) + (["-z"] if c["z"] else []), ["%s/r%d.bin" % (BIN, c["rules"])], inp, c["files"])
    same(got, out, "apertium-restore-caps with no applicable rule on %r" % inp)
    cl = set()
    if any(sum(p.startswith("c:") for p in u["w"]) > 1 for u in c["us"]):
        cl.add("two capitalisation marks")
    return len(c["us"]) > 1 and any(u["w"] or u["t"] != u["t"].lower() for u in c["us"]), cl


SUBS = {"extract": {"gen": case_x, "check": check_x}, "restore": {"gen": case_r, "check": check_r}}
