"""P25 sliding-window tagger: model file and chosen tags against an independent computation."""
import struct
from .. import tag
from ..core import *
from . import p21

TECHNIQUE = "property-based testing: generated tag sets, corpora and texts, model file and output against a reference implementation of the window model"
NOTE = ("Search over generated tag sets, corpora and texts, not a proof. Oracle: window counts and re-estimates computed from the definition (relative tolerance 1e-7); every tag of "
        "maximal summed score (relative tolerance 1e-9) is accepted. Ambiguous words have no analysis that the tag set splits into several words.")
TOOLS = ["apertium-tagger"]
LIB = []
RULE = ("tag sets of one to six labels and up to two multi-word labels with forbid, enforce and prefer rules, corpora of up to 14 words, up to three iterations, "
        "retraining, texts of up to 14 words, models with random weights; non-trivial: some word of the text has two tags whose scores differ")


class Lsw(tag.Prob):
    def __init__(self, data):
        self.d, self.p = data, 0
        n = self.mb()
        self.open, v = [], 0
        for _ in range(n):
            v += self.mb()
            self.open.append(v)
        self.forbid = [(self.mb(), self.mb()) for _ in range(self.mb())]
        self.array = [self.s() for _ in range(self.mb())]
        self.index = [(self.s(), self.mb()) for _ in range(self.mb())]
        self.enforce = [(self.mb(), [self.mb() for _ in range(self.mb())]) for _ in range(self.mb())]
        self.prefer = [self.s() for _ in range(self.mb())]
        self.constants = [(self.s(), self.mb()) for _ in range(self.mb())]
        self.classes = [frozenset(self.mb() for _ in range(self.mb())) for _ in range(self.mb())]
        self.n = self.mb()
        self.w, self.pos = {}, {}
        for _ in range(self.mb()):
            k = (self.mb(), self.mb(), self.mb())
            self.pos[k] = self.p
            self.w[k] = self.f()

    def changed(self, w):
        x = bytearray(self.d)
        for k, p in self.pos.items():
            x[p:p + 8] = struct.pack(">d", w[k])
        return bytes(x)


def valid(ts, l, m, r):
    if any((l, m) == f or (m, r) == f for f in ts.forbid):
        return False
    for t, js in ts.enforce:
        if l == t and m not in js or m == t and r not in js:
            return False
    return True


def windows(ts, ws):
    seq = [frozenset([tag.SENT])] + [w.tags or ts.open for w in ws]
    return list(zip(seq, seq[1:], seq[2:]))


def initial(ts, ws):
    D = {}
    for L, M, R in windows(ts, ws):
        v = [(l, m, r) for l in L for m in M for r in R if valid(ts, l, m, r)]
        for k in v:
            D[k] = D.get(k, 0) + 1.0 / len(v)
    return D


def again(ts, ws, D):
    if len(ws) == 1:
        return D
    N = {}
    for L, M, R in windows(ts, ws):
        v = [(l, m, r) for l in L for m in M for r in R]
        s = sum(D.get(k, 0) for k in v)
        if s > tag.ZERO:
            for k in v:
                if k in D:
                    N[k] = N.get(k, 0) + D[k] / s
    return N


def compare(ts, p, D, what):
    D = {k: v for k, v in D.items() if v > tag.ZERO}
    near = lambda a, b: abs(a - b) <= 1e-7 * max(abs(a), abs(b)) + 2e-10
    for k in sorted(set(D) | set(p.w)):
        need(near(p.w.get(k, 0), D.get(k, 0)), "%s: the weight of %r is %.12g, expected %.12g", what, [p.array[i] for i in k], p.w.get(k, 0), D.get(k, 0))
    for k, v in p.w.items():
        need(valid(ts, *k), "%s: weight %.12g for %r, which the tag set excludes", what, v, [p.array[i] for i in k])


def case(d):
    t = tag.gen_tsx(d)
    ts = tag.Tagset(t)
    lex = tag.lexicon(d, t, ts)
    pool = lex + [lex[-1]] * 2
    new = lambda d: tag.entry(d, t, ts)
    c = {"t": t, "lex": lex, "n": d.weighted([(3, 0), (3, 1), (2, 2), (1, 3)]), "b": d.pick([" ", "\n", " [\\^] "])}
    c["crp"] = tag.text(d, pool, 0, 14, 88, 8)[0]
    c["r"] = d.weighted([(4, None), (2, 1), (1, 2)])
    if c["r"] is not None:
        c["rcrp"] = tag.text(d, pool, 0, 14, 88, 8)[0]
    c["us"], c["bs"] = tag.text(d, pool, 1, 14, 88, 8, new if d.chance(40) else None, lambda d: d.pick([" ", "", "\n", " [\\^x]", ". "]))
    c["rnd"] = d.chance(40)
    c["seed"] = d.n(1 << 30)
    c["o"] = d.weighted([(6, ""), (1, "-f"), (1, "-m"), (1, "-p"), (1, "-mp"), (3, "-z")])
    # with -z, more messages
    c["more"] = [tag.text(d, pool, 0, 5, 85, 8, None, lambda d: d.pick([" ", "", "\n"])) for _ in range(d.int(0, 3))] if c["o"] == "-z" else []
    return c


def check(c):
    ts = tag.Tagset(c["t"])
    st = lambda us: tag.stream(us, [c["b"]] * (len(us) + 1))
    ws = lambda us: tag.words(ts, us, [c["b"]] * (len(us) + 1))
    dr = scratch_dir()
    try:
        wfile(dr, "x.tsx", tag.tsx(c["t"]))
        wfile(dr, "dic", tag.stream(c["lex"], ["\n"] * (len(c["lex"]) + 1)))
        wfile(dr, "crp", st(c["crp"]))
        pr = dr + "/x.prob"
        ok(run(["apertium-tagger", "-w", "-t", str(c["n"]), dr + "/dic", dr + "/crp", dr + "/x.tsx", pr]))
        p = Lsw(open(pr, "rb").read())
        need(frozenset(p.open) == ts.open and p.n == ts.n, "open class %r of %d tags, expected %r of %d", p.open, p.n, sorted(ts.open), ts.n)
        D = initial(ts, ws(c["crp"]))
        for _ in range(c["n"]):
            D = again(ts, ws(c["crp"]), D)
        compare(ts, p, D, "training")
        cl = {"%d iterations" % c["n"]}
        if c["r"] is not None:
            cl.add("retrained")
            wfile(dr, "rcrp", st(c["rcrp"]))
            ok(run(["apertium-tagger", "-w", "-r", str(c["r"]), dr + "/rcrp", pr]))
            q = Lsw(open(pr, "rb").read())
            D = p.w
            for _ in range(c["r"]):
                D = again(ts, ws(c["rcrp"]), D)
            compare(ts, q, D, "retraining")
            p = q
        if c["rnd"]:
            import random
            r = random.Random(c["seed"])
            p.w = {k: r.random() ** 3 + 1e-3 for k in p.w}
            wfile(dr, "x.prob", p.changed(p.w))
            cl.add("random weights")
        z = c["o"] == "-z"
        msgs = [(c["us"], c["bs"])] + c["more"]
        out = ok(run(["apertium-tagger", "-w"] + ([c["o"]] if c["o"] else []) + ["-g", pr], "".join(tag.stream(us, bs) + ("\0" if z else "") for us, bs in msgs))).text
    finally:
        shutil.rmtree(dr)
    differ = False
    if len(msgs) > 1:
        cl.add("several messages")
    for (us, bs), o in zip(msgs, p21.split_messages(out, len(msgs), z)):
        text = tag.words(ts, us, bs)
        chosen = p21.parse_output(text, o, c["o"])
        for (L, M, R), w, ch in zip(windows(ts, text), text, chosen):
            if not w.lf:
                cl.add("unknown")
                continue
            sc = {m: sum(p.w.get((l, m, r), 0) for l in L for r in R) for m in M}
            best = max(sc.values())
            need(max(sc[m] for m in ch) >= best * (1 - 1e-9), "word %r: chosen %r, scores %r\n  output: %r", w.sf, sorted(ch), sc, o)
            differ = differ or min(sc.values()) < best * (1 - 1e-9)
    if ts.forbid or ts.enforce:
        cl.add("rules")
    cl.add(c["o"] or "no option")
    return differ, cl


SUBS = {"main": {"gen": case, "check": check}}
