"""P06 pretransfer: reference model of multiword splitting and queue movement over structured lexical units."""
import os
from .. import gen
from ..core import *

TECHNIQUE = 'property-based testing: generated streams against an independent reference model'
NOTE = 'Search over generated streams, not a proof. Oracle: a reference model that works on the structured units the stream was printed from.'
TOOLS = ["apertium-pretransfer"]
LIB = ["pretransfer.cc"]
RULE = ("streams of gaps (text, escapes, superblanks) and structured lexical units (optional surface, 1-4 joined parts "
        "with + or ~, optional queue at any part, optional word-bound blank); non-trivial: at least one unit with "
        "a join or a queue")

# '+', '~', '#' are ordinary characters in the head lemma (before its tags); elsewhere they are escaped
def head(d):
    return gen.lemma(d, extra="+~*#")


def tail(d):
    return gen.lemma(d, 1, 4, escx="+~#")


def queue(d):
    return "#" + gen.lemma(d, 1, 4, extra="~", escx="+~#")


def unit(d, surf_required):
    n = d.pick([1, 1, 2, 2, 3, 4])
    parts = [[head(d), gen.tags(d, 0 if n == 1 else 1, 3), ""]]
    seps = []
    for _ in range(n - 1):
        seps.append(d.pick("++~"))
        parts.append([tail(d), gen.tags(d, 0, 3), ""])
    if parts[0][1] and d.bool():
        k = d.int(0, n - 1)
        # a queue belongs behind tags; after it the unit ends or is joined by '+'
        if parts[k][1] and (k == n - 1 or seps[k] == "+"):
            parts[k][2] = queue(d)
    return {"surf": gen.lemma(d, extra="+~#*") if surf_required or d.chance(20) else None,
            "parts": parts, "seps": seps, "wb": gen.wblank(d) if d.chance(35) else None}


def case(d):
    o = {"n": d.bool(), "e": d.bool(), "z": d.bool(), "files": 1 if d.chance(10) else 0}
    return {"o": o, "m": d.list(lambda d: gen.alternation(d, lambda d: unit(d, o["n"])), 1, 3 if o["z"] else 1)}


def render(u):
    s = "[[%s]]" % u["wb"] if u["wb"] else ""
    s += "^"
    if u["surf"] is not None:
        s += u["surf"] + "/"
    for i, (l, t, q) in enumerate(u["parts"]):
        if i:
            s += u["seps"][i - 1]
        s += l + gen.tagstr(t) + q
    return s + "$"


def model(u, o):
    wb = "[[%s]]" % u["wb"] if u["wb"] else ""
    q = "".join(p[2] for p in u["parts"])
    s = wb + "^"
    if u["surf"] is not None and not o["n"]:
        s += u["surf"] + "/"
    for i, (l, t, _) in enumerate(u["parts"]):
        if i:
            if u["seps"][i - 1] == "+":
                s += "$ " + wb + "^"
            elif o["e"]:
                s += "$" + wb + "^"
        s += l
        if i == 0:
            s += q
        s += gen.tagstr(t)
    return s + "$"


def check(c):
    o = c["o"]
    src = "\0".join("".join(v if k == "b" else render(v) for k, v in m) for m in c["m"])
    want = "\0".join("".join(v if k == "b" else model(v, o) for k, v in m) for m in c["m"])
    argv = ["apertium-pretransfer"] + ["-" + f for f in "nez" if o[f]]
    if o["files"]:
        d = scratch_dir()
        r = ok(run(argv + [wfile(d, "in", src), os.path.join(d, "out")]))
        got = open(os.path.join(d, "out"), "rb").read()
        need(r.out == b"", "output on stdout although an output file was given: %r", r.out)
        for f in ("in", "out"):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    else:
        r = ok(run(argv, src))
        got = r.out
    same(got, want, "apertium-pretransfer %s on %r" % (argv[1:], src))
    us = [v for m in c["m"] for k, v in m if k == "u"]
    cl = []
    for u in us:
        if u["seps"]:
            cl.append("join" + "".join(sorted(set(u["seps"]))))
        if any(p[2] for p in u["parts"]):
            cl.append("queue" + ("-last" if u["parts"][-1][2] and len(u["parts"]) > 1 else ""))
        if u["wb"]:
            cl.append("wblank")
        if "\\" in "".join(p[0] + p[2] for p in u["parts"]):
            cl.append("escape")
    return any(u["seps"] or any(p[2] for p in u["parts"]) for u in us), set(cl)


SUBS = {"model": {"gen": case, "check": check}}
