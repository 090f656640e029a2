"""P20 tagging only selects: the output of every tagger is the input with one of the given analyses per word."""
import itertools, re
from .. import tag, perc
from ..core import *
from . import p21, p23, p24, p25

TECHNIQUE = "property-based testing: generated models, texts and options, every tagger's output parsed against the analyses the text gives"
NOTE = ("Search over generated texts and models, not a proof. Oracle: an invariant between input and output alone (blanks byte for byte, one of the analyses of each word, only what the "
        "options announce); which analysis is right is decided by P21, P23, P24 and P25.")
TOOLS = ["apertium-tagger"]
LIB = []
RULE = ("the four kinds of tagger with trained or random models; texts of up to 12 words with unknown words, one to five analyses, repeated ones, joined words, lemma queues, escapes and "
        "blanks of all kinds; all output options and their combinations, files or streams, null flush; non-trivial: an ambiguous word and two kinds of blank")

QUEUE = ["# up", "# b c", "# \\/", "# É\\+x", "# z"]
GAPS = [" ", "", "\n", "\n\n", " [<b>] ", "[\\^x\\$\\/]", "[[t:b:1]]", ". ", "\\^", "\\\\ ", "é", "a+b <n> / ", "[]", "*", "\t"]


def wild(d, t):
    x = tag.analysis(d, t) if t is not None else p23.analysis(d, 5)
    if d.chance(18):
        x += d.pick(QUEUE)
    return x


def unit(d, t):
    if d.chance(10):
        return [d.pick(["uu", "U\\/v", "w\\[x", "É", "*".replace("*", "\\*")]), []]
    an = d.list(lambda d: wild(d, t), 1, 5, 45)
    if len(an) > 1 and d.chance(60):
        an = [x for i, x in enumerate(an) if x not in an[:i]]
    return [d.pick(["a", "b", "Cd", "É", "x y", "Z\\/w", "q\\$", "日", "don't", "\\*s", "a\\+b", "𝒳"]), an]


def case(d):
    k = d.pick(["hmm", "lsw", "uni", "perc"])
    c = {"k": k, "t": tag.gen_tsx(d), "seed": d.n(1 << 30)}
    if k == "uni":
        c["m"] = d.int(1, 3)
    if k == "perc":
        c["spec"] = p24.spec(d)
    ts = tag.Tagset(c["t"])
    c["lex"] = tag.lexicon(d, c["t"], ts)
    c["crp"] = tag.text(d, c["lex"], 1, 8)[0]
    split = d.chance(35)

    def word(d):
        if d.chance(30):
            return d.pick(c["lex"])
        u = unit(d, c["t"])
        if k in ("hmm", "lsw") and not split and len(u[1]) > 1:
            u[1] = [x for x in u[1] if len(ts.classify(x)) == 1] or u[1][:1]
        return u
    c["us"] = d.list(word, 0, 12, 85)
    c["bs"] = [d.pick(GAPS) if d.chance(70) else d.pick(GAPS) + d.pick(GAPS) for _ in range(len(c["us"]) + 1)]
    c["o"] = d.subset(["-m", "-p", "-f"], 30)
    if "-m" in c["o"] or "-f" in c["o"]:
        c["t"]["discard"] = []  # the analyses that are left is P21's business
    c["how"] = d.weighted([(6, ""), (2, "-z"), (1, "file"), (1, "files")])
    return c


def one(c, ts, u):
    """(strings the output may have for this word, weaker strings for words whose readings are split, or None)"""
    sf, an = u
    coarse = c["k"] in ("hmm", "lsw")
    f, m, p = "-f" in c["o"], "-m" in c["o"], "-p" in c["o"]
    show = sf + "/" if p or f and coarse else ""
    if not an:
        return {"^%s*%s$" % (show, sf)}, None
    uniq = list(dict.fromkeys(an))
    out = set()
    if not coarse:
        for x in uniq:
            out.add("^" + ("=" if m and len(an) != 1 else "") + show + x + ("".join("/" + y for y in an if y != x) if f else "") + "$")
        return out, None
    parts = {x: ts.classify(x) for x in uniq}
    split = any(len(v) > 1 for v in parts.values())
    # readings of one coarse tag count as one
    n = len({v[0][0] for v in parts.values()})
    for x in uniq:
        mark = ["="] if n > 1 else [""]
        for e in (mark if m else [""]):
            if not f:
                out.add("^" + e + show + x + "$")
                continue
            rest = [y for y in uniq if y != x]
            for ys in itertools.permutations(rest, min(n - 1, len(rest))):
                out.add("^" + e + show + x + "".join("/" + y for y in ys) + "$")
    weak = None
    if split and len(uniq) > 1:
        # finding parts-mixed: the parts are chosen one by one
        esc = lambda xs: "(?:%s)" % "|".join(sorted(map(re.escape, xs), key=len, reverse=True))
        ps = esc({p for v in parts.values() for _, p in v} | set(uniq))
        one_ = ps + "(?:/%s)*" % ps if f else ps
        weak = re.compile(r"\^=?%s%s(?:\+%s)*\$" % (re.escape(show), one_, one_), re.S)
    return out, weak


def walk(c, ts, out, null=False):
    """follow the output through the text; the deviations that are known findings are returned"""
    us, bs = c["us"], c["bs"]
    pos, mixed = 0, None
    states = {0}
    for u, b in zip(us, bs):
        nxt = set()
        fit, weak = one(c, ts, u)
        for q in states:
            if not out.startswith(b, q):
                continue
            q += len(b)
            nxt |= {q + len(x) for x in fit if out.startswith(x, q)}
        if not nxt and weak is not None:
            for q in states:
                if out.startswith(b, q):
                    m = weak.match(out, q + len(b))
                    if m:
                        nxt.add(m.end())
                        mixed = (u, m.group())
        need(nxt, "output %r does not continue at %r with the blank %r and the word %r (options %r, %s)", out, sorted(states), b, u, c["o"], c["k"])
        states = nxt
    need(any(out[q:] == bs[len(us)] for q in states), "output %r does not end with the last blank %r (from %r)", out, bs[len(us)], sorted(states))
    return mixed


def model(c, dr):
    pr = dr + "/x.prob"
    wfile(dr, "x.tsx", tag.tsx(c["t"]))
    wfile(dr, "dic", tag.stream(c["lex"], ["\n"] * (len(c["lex"]) + 1)))
    crp = wfile(dr, "crp", tag.stream([u for u in c["crp"] if u[1]], [" "] * (len([u for u in c["crp"] if u[1]]) + 1)))
    k, tool = c["k"], ["apertium-tagger"]
    if k == "hmm":
        ok(run(tool + ["-t", "0", dr + "/dic", crp, dr + "/x.tsx", pr]))
        wfile(dr, "x.prob", p21.randomise(tag.Prob(open(pr, "rb").read()), c["seed"], False))
        return tool
    if k == "lsw":
        ok(run(tool + ["-w", "-t", "1", dr + "/dic", crp, dr + "/x.tsx", pr]))
        return tool + ["-w"]
    if k == "uni":
        ok(run(tool + ["-s", "0", "-u", str(c["m"]), pr, crp]))
        return tool + ["-u", str(c["m"])]
    s = c["spec"]
    perc.WORK[0] = 40000
    mtx = wfile(dr, "x.mtx", perc.mtx(s))
    empty = wfile(dr, "empty", "")
    ok(run(tool + ["-x", "-s", "0", pr, empty, empty, mtx]))
    data = open(pr, "rb").read()
    w = p24.randomw({"us": c["lex"], "seed": c["seed"]}, s, tag.Tagset(c["t"]) if s["coarse"] else None)
    need(data.endswith(perc.dump({})), "harness: the model does not end with no weights")
    wfile(dr, "x.prob", data[:-len(perc.dump({}))] + perc.dump(w))
    return tool + ["-x"]


def check(c):
    with memory(0 if c["k"] == "perc" else None):       # P24's known finding loop-variable-uninitialised
        return judge(c)


def judge(c):
    ts = tag.Tagset(c["t"])
    dr = scratch_dir()
    try:
        tool = model(c, dr) + c["o"]
        src = tag.stream(c["us"], c["bs"])
        pr = dr + "/x.prob"
        if c["how"] == "-z":
            out = ok(run(tool + ["-z", "-g", pr], src + "\0")).text
            need(out.endswith("\0") and "\0" not in out[:-1], "null flush of one message gives %r", out)
            out = out[:-1]
        elif c["how"]:
            a = [wfile(dr, "in", src)] + ([dr + "/out"] if c["how"] == "files" else [])
            r = ok(run(tool + ["-g", pr] + a))
            out = open(dr + "/out", "rb").read().decode("utf8") if c["how"] == "files" else r.text
            need(c["how"] == "file" or not r.out, "output %r although a file was given", r.out)
        else:
            out = ok(run(tool + ["-g", pr], src)).text
    finally:
        shutil.rmtree(dr)
    mixed = walk(c, ts, out)
    if mixed:
        raise Violation("%s: word %r becomes %r" % (c["k"], mixed[0], mixed[1]), "parts-mixed")
    cl = {c["k"], " ".join(c["o"]) or "no option"}
    if c["how"]:
        cl.add(c["how"])
    for u in c["us"]:
        cl |= {"unknown"} if not u[1] else {"queue"} if any("# " in x for x in u[1]) else {"joined"} if any("+" in x for x in u[1]) else set()
    return any(len(u[1]) > 1 for u in c["us"]) and len(set(c["bs"])) > 1, cl


SUBS = {"main": {"gen": case, "check": check}}
