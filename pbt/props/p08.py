"""P08 apertium-wblank-attach: spans as a tree; oracle = stack of enclosing spans with first-occurrence dedup; apertium-wblank-detach: closes after the word."""
from .. import gen
from ..core import *

TECHNIQUE = 'property-based testing: generated span trees and message histories against a reference model'
NOTE = 'Search over generated span trees, not a proof. Oracle: the tree the stream was printed from.'
TOOLS = ["apertium-wblank-attach", "apertium-wblank-detach"]
LIB = []
RULE = ("trees of nested word-bound blank spans over lexical units, gaps and superblanks, 1-4 NUL-separated messages; "
        "non-trivial: a lexical unit inside at least two spans, or a span over at least two lexical units (detaching: some words with and some without blanks)")

IDS = ["t:a", "t:b", "t:i:1", "t:b:é", "x", "y", "t:\\]", "t:\\[q", "t: z", "t:\\;k", "<a>", "/b", "e\\;", "f\\ ", "\\\\"]


def span_entries(d):
    """raw text of a [[...]] plus its parsed entries"""
    es = d.list(lambda d: d.pick(IDS), 1, 3, 40)
    seps = [d.pick(["; ", "; ", ";", " ; ", ";; "]) for _ in es]
    raw = ""
    for i, e in enumerate(es):
        raw += (seps[i] if i else "") + e
    if raw.startswith("/"):
        raw = " " + raw
    if d.chance(10):
        raw = d.pick([" ", ";"]) + raw
    if d.chance(10):
        raw += d.pick([" ", ";"])
    return {"raw": raw, "es": es}


def lu(d):
    s = gen.lemma(d, extra="[]*+#/<>")
    if d.chance(50):
        s += "/" + gen.lemma(d) + gen.tagstr(gen.tags(d))
    return s


def nodes(d, depth):
    out = []
    for _ in range(4):
        if not d.chance(70):
            break
        k = d.weighted([(40, 0), (25, 1), (35 if depth < 4 else 0, 2)])
        if k == 0:
            out.append(["u", lu(d)])
        elif k == 1:
            g = gen.gap(d)
            if g:
                out.append(["b", g])
        else:
            out.append(["s", span_entries(d), nodes(d, depth + 1)])
    return out


def case(d):
    return {"z": d.bool(), "m": d.list(lambda d: nodes(d, 0), 1, 4, 40)}


def render(ns, ctx, info):
    src, want = [], []
    for x in ns:
        if x[0] == "b":
            src.append(x[1])
            want.append(x[1])
        elif x[0] == "u":
            l = []
            for es in ctx:
                for e in es:
                    if e not in l:
                        l.append(e)
            info.append((len(ctx), len(l), sum(len(e) for e in ctx)))
            src.append("^" + x[1] + "$")
            want.append(("[[" + "; ".join(l) + "]]" if l else "") + "^" + x[1] + "$")
        else:
            n0 = len(info)
            s, w = render(x[2], ctx + [x[1]["es"]], info)
            if len(info) - n0 >= 2:
                info.append("multi")
            src.append("[[" + x[1]["raw"] + "]]" + s + "[[/]]")
            want.append(w)
    return "".join(src), "".join(want)


def check(c):
    info = []
    rs = [render(m, [], info) for m in c["m"]]
    src = "\0".join(r[0] for r in rs)
    want = "\0".join(r[1] for r in rs)
    r = ok(run(["apertium-wblank-attach"] + (["-z"] if c["z"] else []), src))
    same(r.out, want, "apertium-wblank-attach on %r" % src)
    need(r.err == b"", "warning on a well-formed stream %r: %r", src, r.err)
    cl = set()
    nt = False
    for i in info:
        if i == "multi":
            cl.add("span over several units")
            nt = True
        elif i[0] >= 2:
            cl.add("nested")
            nt = True
            if i[1] < i[2]:
                cl.add("duplicate")
    return nt, cl


def detach_case(d):
    def item(d):
        k = d.weighted([(4, 0), (3, 1), (3, 2)])
        if k == 0:
            return ["w", "; ".join(dict.fromkeys(d.list(lambda d: d.pick(IDS[:-4] + ["e\\;", "\\\\"]).strip(), 1, 3, 30))), lu(d)]
        return ["u", lu(d)] if k == 1 else ["b", gen.gap(d)]
    return {"z": d.bool(), "m": d.list(lambda d: d.list(item, 0, 8, 80), 1, 4, 40)}


def detach_check(c):
    src = "\0".join("".join("[[%s]]^%s$" % (x[1], x[2]) if x[0] == "w" else "^%s$" % x[1] if x[0] == "u" else x[1] for x in m) for m in c["m"])
    want = "\0".join("".join("[[%s]]^%s$[[/]]" % (x[1], x[2]) if x[0] == "w" else "^%s$" % x[1] if x[0] == "u" else x[1] for x in m) for m in c["m"])
    z = ["-z"] if c["z"] else []
    same(ok(run(["apertium-wblank-detach"] + z, src)).out, want, "apertium-wblank-detach on %r" % src)
    same(ok(run(["apertium-wblank-attach"] + z, want)).out, src, "apertium-wblank-attach on %r" % want)
    k = {x[0] for m in c["m"] for x in m}
    return "w" in k and "u" in k, k


SUBS = {"tree": {"gen": case, "check": check, "weight": 2}, "detach": {"gen": detach_case, "check": detach_check}}
