"""P26 apertium-filter-ambiguity against a reference filter."""
from .. import tag
from ..core import *

TECHNIQUE = "property-based testing: generated tag sets and word lists against a reference filter over an independent coarse classification; idempotence"
NOTE = "Search over generated tag sets and lists, not a proof. Ambiguous words have no analysis that the tag set splits into several words."
TOOLS = ["apertium-filter-ambiguity", "apertium-tagger-readwords"]
LIB = []
RULE = ("tag sets of one to six labels and up to two multi-word labels with prefer rules, lists of up to 25 words with repeated classes, unknown words and split analyses, from "
        "a file or standard input, to a file or standard output; non-trivial: a word is dropped and two or more are kept")


def case(d):
    t = tag.gen_tsx(d)
    ts = tag.Tagset(t)
    lex = tag.lexicon(d, t, ts, 3, 12)
    us, bs = tag.text(d, lex, 0, 25, 92, 8, lambda d: tag.entry(d, t, ts), lambda d: d.pick(["\n", "\n", " ", "", " [\\^x]", ". "]))
    return {"t": t, "us": us, "bs": bs, "io": d.pick(["stdin", "in", "inout"])}


def check(c):
    ts = tag.Tagset(c["t"])
    ws = tag.words(ts, c["us"], c["bs"])
    seen, exp, cl, split = set(), "", {c["io"]}, False
    for w in ws:
        split = split or w.plus
        if w.lf and w.tags not in seen:
            seen.add(w.tags)
            s = w.sf + "".join("/" + w.lf[k] for k in sorted(w.lf) if w.lf[k])
            if s:
                exp += "^%s$\n" % s
    text = tag.stream(c["us"], c["bs"])
    dr = scratch_dir()
    try:
        x = wfile(dr, "x.tsx", tag.tsx(c["t"]))
        i = wfile(dr, "in", text)
        o = dr + "/out"
        a = ["apertium-filter-ambiguity", x]
        r = ok(run(a + {"stdin": [], "in": [i], "inout": [i, o]}[c["io"]], text if c["io"] == "stdin" else ""))
        out = r.text
        if c["io"] == "inout":
            need(out == "", "standard output with an output file: %r", out)
            out = open(o, encoding="utf8", newline="").read()
        same(out, exp, "output for %r" % text)
        if split:
            cl.add("split word")
        else:
            same(ok(run(a, out)).text, out, "output when filtered again")
    finally:
        shutil.rmtree(dr)
    kept = exp.count("\n")
    if any(not w.lf for w in ws):
        cl.add("unknown")
    return kept > 1 and sum(bool(w.lf) for w in ws) - 1 > kept, cl


def read_case(d):
    c = case(d)
    c["us"], c["bs"] = c["us"][:d.n(len(c["us"]))] if d.chance(20) else c["us"], c["bs"]
    c["bs"] = c["bs"][:len(c["us"])] + c["bs"][-1:]
    c["l"] = d.int(1, len(c["us"]) + 2) if d.chance(30) else None
    return c


def read_check(c):
    ts = tag.Tagset(c["t"])
    ws = tag.words(ts, c["us"], c["bs"])
    exp = ["%s {%s}" % (w.sf, ",".join(("TAG_" if k < len(tag.FIXED) else "") + ts.names[k] for k in sorted(w.lf))) for w in ws]
    if c["l"]:
        exp = exp[:c["l"]]
    dr = scratch_dir()
    try:
        x = wfile(dr, "x.tsx", tag.tsx(c["t"]))
        text = tag.stream(c["us"], c["bs"])
        r = ok(run(["apertium-tagger-readwords", "-x", x] + (["-l", str(c["l"])] if c["l"] else []), text))
    finally:
        shutil.rmtree(dr)
    same(r.text, "".join(x + "\n" for x in exp), "words read from %r" % text)
    need(r.err.decode("utf8", "replace").rstrip().endswith("%d were readed" % len(exp)), "the number of words reported: %r, expected %d", r.err[-60:], len(exp))
    return len(exp) > 2, {"limited" if c["l"] else "all"}


SUBS = {"read": {"gen": read_case, "check": read_check}, "main": {"gen": case, "check": check}}
