"""P07 cleanstream, posttransfer, wblank-detach: exact output models."""
import re
from .. import gen
from ..core import *

TECHNIQUE = 'property-based testing: generated streams against reference models'
NOTE = 'Search over generated streams, not a proof. Oracle: reference models of the four filters.'
TOOLS = ["apertium-cleanstream", "apertium-posttransfer", "apertium-wblank-detach"]
LIB = []
RULE = ("streams of plain text, escapes, superblanks, word-bound blanks and lexical units; non-trivial: at least two "
        "lexical units and one blank (cleanstream, detach) or a run of two spaces (posttransfer)")


def lu(d):
    s = gen.lemma(d, extra="[]*+#/<>")
    if d.chance(50):
        s += "/" + gen.lemma(d) + gen.tagstr(gen.tags(d))
    return s


def piece(d):
    k = d.weighted([(40, 0), (20, 1), (15, 2), (25, 3)])
    if k == 0:
        return ["u", lu(d), gen.wblank(d) if d.chance(40) else None]
    if k == 1:
        return ["t", d.str(" \n\t.,;abé日", 1, 3)]
    if k == 2:
        return ["t", "\\" + d.pick("[]{}^$/\\@<>*")]
    return ["s", gen.superblank(d)]


def case(d):
    return {"p": d.list(piece, 1, 9, 80), "n": d.bool(), "b": d.bool()}


def src_of(ps):
    return "".join(("[[%s]]" % p[2] if p[2] else "") + "^%s$" % p[1] if p[0] == "u" else p[1] for p in ps)


def classify(c):
    us = sum(p[0] == "u" for p in c["p"])
    cl = set(p[0] if p[0] != "u" else ("wb-unit" if p[2] else "unit") for p in c["p"])
    return us >= 2 and len(c["p"]) > us, cl


def check_clean(c):
    src = src_of(c["p"])
    ws = "\n" if c["n"] else " "
    out = []
    text = False
    for p in c["p"]:
        if p[0] == "t":
            text = True
            continue
        blank = p[1] if p[0] == "s" else ("[[%s]]" % p[2] if p[2] else None)
        if blank is not None:
            out.append(ws + (blank if c["b"] else ""))
        if p[0] == "u":
            if text or c["n"]:
                out.append(ws)
            text = False
            out.append("^%s$" % p[1])
    if c["n"]:
        out.append("\n")
    opts = (["-n"] if c["n"] else []) + (["-b"] if c["b"] else [])
    r = ok(run(["apertium-cleanstream"] + opts, src))
    same(r.out, "".join(out), "apertium-cleanstream %s on %r" % (opts, src))
    need(r.err == b"", "error message on a well-formed stream %r: %r", src, r.err)
    return classify(c)


def case_post(d):
    def p(d):
        k = d.n(3)
        if k < 2:
            return d.str("  ", 1, 4)
        return d.pick(["a", "\n", "\t", "\0", "é", "日", "\\", "[", "]", "^x<n>$", "[[t:a  b]]", "\U0001d4b3", "\u00a0", "\u2003"])
    return {"s": "a" * d.n(1) + "".join(d.list(p, 1, 10, 85)), "z": d.bool(), "in": d.n(2)}


def check_post(c):
    argv = ["apertium-posttransfer"] + (["-z"] if c["z"] else [])
    if c["in"] == 0:
        r = ok(run(argv, c["s"]))
        got = r.out
    else:
        d = scratch_dir()
        argv.append(wfile(d, "in", c["s"]))
        if c["in"] == 2:
            argv.append(os.path.join(d, "out"))
        r = ok(run(argv))
        got = open(argv[-1], "rb").read() if c["in"] == 2 else r.out
        shutil.rmtree(d)
    same(got, re.sub(" +", " ", c["s"]), "apertium-posttransfer on %r" % c["s"])
    return "  " in c["s"], {"run" if "  " in c["s"] else "no run", "io%d" % c["in"]}


def case_det(d):
    return {"z": d.bool(), "p": d.list(piece, 1, 9, 80), "nul": d.list(lambda d: d.n(8), 0, 3, 40)}


def check_det(c):
    src, want = "", ""
    for i, p in enumerate(c["p"]):
        if p[0] == "u":
            wb = "[[%s]]" % p[2] if p[2] else ""
            src += wb + "^%s$" % p[1]
            want += wb + "^%s$" % p[1] + ("[[/]]" if wb else "")
        else:
            src += p[1]
            want += p[1]
        if i in c["nul"]:
            src += "\0"
            want += "\0"
    r = ok(run(["apertium-wblank-detach"] + (["-z"] if c["z"] else []), src))
    same(r.out, want, "apertium-wblank-detach on %r" % src)
    return classify(c)


SUBS = {"clean": {"gen": case, "check": check_clean}, "post": {"gen": case_post, "check": check_post},
        "detach": {"gen": case_det, "check": check_det}}
