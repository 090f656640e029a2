"""P21 HMM tagging: the chosen tags are those of a most probable path, computed independently from the model file."""
import math
from .. import tag, gen
from ..core import *

TECHNIQUE = "property-based testing: generated tag sets, models (trained and with random parameters) and sentences against a reference Viterbi search and coarse classification"
NOTE = ("Search over generated tag sets, models and sentences, not a proof. Oracle: coarse classes by regular expressions over the tag set file; the output is parsed back into a "
        "tag sequence whose probability under the model file must equal the maximum found by dynamic programming (relative tolerance 1e-9, so any of several maxima is accepted). "
        "Ambiguous words have no analysis that the tag set splits into several words (see finding P20-parts-mixed).")
TOOLS = ["apertium-tagger"]
LIB = []
RULE = ("tag sets of one to six labels and up to two multi-word labels with forbid, enforce and prefer rules; models trained by the tool, half of them "
        "with all probabilities replaced by random ones; texts of several sentences with ambiguous, unknown and multi-part words and words of ambiguity classes the "
        "model has not seen; non-trivial: some stretch of two or more ambiguous words whose tag sequences differ in probability")


def case(d):
    t = tag.gen_tsx(d)
    ts = tag.Tagset(t)
    lex = tag.lexicon(d, t, ts)
    new = lambda d: tag.entry(d, t, ts)
    if d.chance(30):
        # words of the dictionary with more analyses than those of a word of the text
        an = [x for x in {tag.analysis(d, t): 0 for _ in range(9)} if len(ts.classify(x)) == 1]
        if len(an) > 3:
            sub = an[:d.int(1, 2)]
            big = [[d.pick(["n1", "É2"]), d.shuffled(sub + d.subset(an[len(sub):], 50))] for _ in range(d.int(2, 3))]
            lex = lex[:d.n(len(lex) - 1)] + big + lex[-1:]
            own = ["n0", sub]
            new = lambda d: own if d.chance(75) else tag.entry(d, t, ts)
    c = {"t": t, "lex": lex, "crp": tag.text(d, lex, 1, 8)[0]}
    c["n"] = d.pick([0, 1, 2])
    us, bs = tag.text(d, lex + lex[-1:], 1, 14, 88, 10, new if d.chance(60) else None, lambda d: d.pick([" ", "", "\n", " [\\^x]", ". "]))
    c["us"], c["bs"] = us, bs
    c["rnd"] = d.chance(60)
    c["seed"] = d.n(1 << 30)
    c["o"] = d.weighted([(6, ""), (1, "-f"), (1, "-m"), (1, "-p"), (1, "-mp"), (3, "-z")])
    # with -z, more messages
    c["more"] = [tag.text(d, lex, 0, 6, 85, 10, None, lambda d: d.pick([" ", "", "\n"])) for _ in range(d.int(0, 3))] if c["o"] == "-z" else []
    return c


def similar(p, opn, tags):
    """the ambiguity class whose emission probabilities a word of a class not in the model gets"""
    if tags in p.classes:
        return p.classes.index(tags)
    best = None
    for k, c in enumerate(p.classes):
        if len(c) < len(opn if best is None else p.classes[best]) and c >= tags:
            best = k
    return p.classes.index(opn) if best is None else best


def randomise(p, seed, sparse):
    import random
    r = random.Random(seed)
    a = []
    for i in range(p.n):
        row = [r.random() ** 3 if not (sparse and r.random() < .2) else 1e-10 for _ in range(p.n)]
        s = sum(row)
        a.append([x / s for x in row])
    b = {}
    for i in range(p.n):
        ks = [k for (j, k) in p.b if j == i]
        w = [r.random() ** 3 + 1e-6 for _ in ks]
        for k, x in zip(ks, w):
            b[i, k] = x / sum(w)
    return p.patched(a, b)


def parse_output(ws, out, o):
    """the tags chosen, from the output: one set of possible tags per word"""
    pos, res = 0, []
    for w in ws:
        opts = {}
        for t in sorted(w.lf) or [None]:
            s = tag.render(w, t, "f" in o, "m" in o, "p" in o)
            opts.setdefault(s, set()).add(t)
        fit = [s for s in opts if out.startswith(s, pos)]
        if not fit:
            raise Violation("output %r does not continue at %d with the blank and an analysis of the word %r (one of %r)" % (out, pos, w.sf, sorted(opts)))
        s = max(fit, key=len)
        res.append(opts[s])
        pos += len(s)
    need(pos == len(out), "output %r goes on after the end of the text at %d", out, pos)
    return res


def viterbi(steps, a, b, allowed=None):
    """log probability of the best path; steps: [(tags, class)] from a sentence start tag"""
    cur = {steps[0]: 0.0}
    for i, (tags, k) in enumerate(steps[1:]):
        nxt = {}
        for t in tags:
            if allowed is not None and t not in allowed[i]:
                continue
            e = b.get((t, k), tag.ZERO)
            best = max(cur.values() and [v + (math.log(a[j][t]) if a[j][t] > 0 else -math.inf) for j, v in cur.items()])
            nxt[t] = best + (math.log(e) if e > 0 else -math.inf)
        cur = nxt
    return max(cur.values())


def train(dr, c):
    """train a model as the case says; returns (path, bytes)"""
    wfile(dr, "x.tsx", tag.tsx(c["t"]))
    wfile(dr, "dic", tag.stream(c["lex"], ["\n"] * (len(c["lex"]) + 1)))
    wfile(dr, "crp", tag.stream(c["crp"], [" "] * (len(c["crp"]) + 1)))
    p = dr + "/x.prob"
    ok(run(["apertium-tagger", "-t", str(c["n"]), dr + "/dic", dr + "/crp", dr + "/x.tsx", p]))
    return p, open(p, "rb").read()


def check(c):
    ts = tag.Tagset(c["t"])
    dr = scratch_dir()
    try:
        path, data = train(dr, c)
        p = tag.Prob(data)
        need(frozenset(p.open) == ts.open, "open class %r, expected %r", p.open, sorted(ts.open))
        need(p.array[:ts.n] == ["TAG_" + x for x in tag.FIXED] + ts.names[7:], "tag names %r", p.array)
        if c["rnd"]:
            data = randomise(p, c["seed"], c["seed"] % 2)
            wfile(dr, "x.prob", data)
            p = tag.Prob(data)
        z = c["o"] == "-z"
        msgs = [(c["us"], c["bs"])] + c["more"]
        r = ok(run(["apertium-tagger"] + ([c["o"]] if c["o"] else []) + ["-g", path], "".join(tag.stream(us, bs) + ("\0" if z else "") for us, bs in msgs)))
    finally:
        shutil.rmtree(dr)
    outs = split_messages(r.text, len(msgs), z)
    nontriv, cl = False, {c["o"] or "no option", "random model" if c["rnd"] else "trained model"}
    if len(msgs) > 1:
        cl.add("several messages")
    for (us, bs), out in zip(msgs, outs):
        nontriv |= judge(ts, p, tag.words(ts, us, bs), out, c["o"], cl)
    return nontriv, cl


def split_messages(out, n, z):
    if not z:
        return [out]
    need(out.endswith("\0") and out.count("\0") == n, "null flush of %d messages gives %r", n, out)
    return out[:-1].split("\0")


def judge(ts, p, ws, out, o, cl):
    """the tags chosen for the words of one message are those of a best path"""
    chosen = parse_output(ws, out, o)
    nontriv = False
    steps, allowed, start = [tag.SENT], [], 0
    # stretches between unambiguous words
    for i, (w, ch) in enumerate(zip(ws, chosen)):
        tags = w.tags or ts.open
        k = similar(p, ts.open, tags)
        if frozenset(tags) not in p.classes:
            cl.add("unseen class")
        if not w.lf:
            cl.add("unknown")
        if w.plus:
            cl.add("split word")
        steps.append((tags, k))
        allowed.append(tags if not w.lf else ch)
        if len(tags) == 1:
            best = viterbi(steps, p.a, p.b)
            got = viterbi(steps, p.a, p.b, allowed)
            if best > -400:     # far from the limits of double precision
                if not got >= best - 1e-9 * max(1, abs(best)):
                    raise Violation("the tags chosen for %r have log probability %.12g, the best ones %.12g\n  output: %r\n  steps: %r" % (
                        [x.sf for x in ws[start:i + 1]], got, best, out, [(s if isinstance(s, int) else (sorted(s[0]), s[1])) for s in steps]))
                amb = sum(len(s[0]) > 1 for s in steps[1:])
                if amb > 1:
                    cl.add("two or more ambiguous in a row")
                    nontriv = True
                elif amb:
                    cl.add("one ambiguous")
            steps, allowed, start = [next(iter(tags))], [], i + 1
    return nontriv


SUBS = {"main": {"gen": case, "check": check}}
