"""P09 null flush: a history of messages against fresh runs on each message alone."""
import re
from .. import gen, perc, tag, trx, trxgen
from ..core import *
from . import p06, p08, p10, p11, p14, p16, p17, p18, p21, p24, p25

TECHNIQUE = "property-based testing: generated message histories, differential against a fresh run on each message, batch and interactive"
NOTE = ("Search over generated histories, not a proof. Oracle: the same tool run without null flush on each message alone. In interactive cases a "
        "message is sent only after the answer to the one before it has arrived, so an answer that is held back is seen.")
TOOLS = ["apertium-pretransfer", "apertium-posttransfer", "apertium-wblank-attach", "apertium-wblank-detach", "apertium-extract-caps",
         "apertium-restore-caps", "apertium-compile-caps", "apertium-preprocess-transfer", "apertium-transfer", "apertium-interchunk", "apertium-postchunk", "apertium-tagger"]
LIB = []
RULE = ("histories of two to five messages (some empty) per tool, with generated transfer rule files (variables, macros, mlu, rejection) capitalisation "
        "rules, and models of the four taggers; non-trivial: two or more messages with a word, and the tool changes some message")


def history(d, f):
    n = d.int(2, 5)
    return [f(d) if not d.chance(12) else d.pick(["", " ", "[x]", "a"]) for _ in range(n)]


def judge(argv, msgs, live, files=None):
    """compare the history with fresh runs; files(msg or bytes) -> extra arguments for a file run"""
    z, plain = argv
    want = []
    for m in msgs:
        r = run(plain, m)
        if r.rc != 0 or r.cpu_exceeded or b"\0" in r.out:
            return None         # not a message the tool can process: another property's business
        want.append(r.out)
    if live:
        got, rest, rc, err = dialogue(z, msgs)
        for i, m in enumerate(msgs):
            if i < len(got) and got[i] is None:
                raise Violation("no answer to message %d of %r: %r after %r" % (i + 1, msgs, rest, got[:i]))
            same(got[i], want[i], "answer to message %d of %r" % (i + 1, msgs))
        need(rest == b"", "after the answer to the last message of %r: %r", msgs, rest)
        need(rc == 0, "exit status %d after %r: %r", rc, msgs, err[-300:])
    else:
        s = "".join(m + "\0" for m in msgs)
        same(ok(run(z, s)).out, b"".join(w + b"\0" for w in want), "output for the messages %r" % msgs)
    return want


def result(msgs, want, live, extra=()):
    if want is None:
        return False, {"message rejected by the tool"}
    cl = {"interactive" if live else "batch"} | set(extra)
    if "" in msgs:
        cl.add("empty message")
    return sum("^" in m for m in msgs) > 1 and any(m.encode("utf8", "surrogateescape") != w for m, w in zip(msgs, want)), cl


def plain_text(d):
    return "".join(d.list(lambda d: d.pick(["  ", " ", "   ", "a", "\n", "\\^", "[  ]", "é", "^x<n>$", "\U0001d4b3"]), 1, 8, 80))


def m_pre(d):
    return "".join(v if k == "b" else p06.render(v) for k, v in gen.alternation(d, lambda d: p06.unit(d, True)))


def m_attach(d):
    src, _ = p08.render(p08.nodes(d, 0), [], [])
    return src + (d.pick(["[[t:open]]", "[[t:a; x]]^a$", "[[/]]"]) if d.chance(25) else "")


def m_caps(d):
    return "".join(u["b"] + p10.wb(u["w"]) + "^" + u["s"] + "/" + "/".join(u["r"]) + "$" for u in d.list(p10.lu, 1, 4, 60)) + p10.blank(d)


SIMPLE = {"apertium-pretransfer": (m_pre, ["", "-n", "-e", "-ne"]), "apertium-posttransfer": (plain_text, [""]),
          "apertium-wblank-attach": (m_attach, [""]), "apertium-wblank-detach": (m_attach, [""]), "apertium-extract-caps": (m_caps, ["", "-s"])}


def case_simple(d):
    t = d.pick(sorted(SIMPLE))
    return {"t": t, "o": d.pick(SIMPLE[t][1]), "m": history(d, SIMPLE[t][0]), "live": d.chance(35)}


def check_simple(c):
    o = [c["o"]] if c["o"] else []
    want = judge(([c["t"]] + o + ["-z"], [c["t"]] + o), c["m"], c["live"])
    return result(c["m"], want, c["live"], {c["t"]})


def words_msg(d, r, stage, k):
    words = []
    while len(words) < 5 and (not words or d.chance(55)):
        fill = d.chance(75)
        xs = trxgen.fill_rule(d, r) if fill else [None]
        if stage == "transfer":
            words += [p14.tword(d, x) for x in xs]
        elif stage == "interchunk":
            words += [p16.chunk(d, x) for x in xs]
        else:
            words += [p17.chunk(d, k, x and x.split("<")[0]) for x in xs]
    return [words, [d.pick(p14.BLANKS) for _ in range(len(words) + 1)]]


def case_tr(d, stage):
    k = d.weighted([(2, 0), (4, 1), (3, 2), (2, 3)])
    r = trxgen.rules(d, stage, nwords=k, reject=True) if stage == "postchunk" else trxgen.rules(d, stage)
    return {"r": r, "m": history(d, lambda d: words_msg(d, r, stage, k)), "live": d.chance(30), "n": stage == "transfer" and d.chance(8),
            "dc": d.chance(8)}


def check_tr(c):
    r = c["r"]
    stage = r["stage"]
    msgs, msgs_w = [], 0
    for m in c["m"]:
        if isinstance(m, str):
            msgs.append(m)
            continue
        words, blanks, s = p14.build_stream({"r": r, "w": m[0], "b": m[1], "n": c["n"]})
        msgs.append(s)
        msgs_w += 1
        model = p14.CLS[stage](r, c["dc"])
        model.run(blanks, words)
        if model.undefined:
            return False, {"undefined, not compared"}
    dr = scratch_dir()
    try:
        t = wfile(dr, "r.xml", trx.xml(r))
        ok(run(["apertium-preprocess-transfer", t, dr + "/r.bin"]))
        a = ["apertium-" + stage] + (["-n" if c["n"] else "-b"] if stage == "transfer" else []) + (["-w"] if c["dc"] else [])
        want = judge((a + ["-z", t, dr + "/r.bin"], a + [t, dr + "/r.bin"]), msgs, c["live"])
    finally:
        shutil.rmtree(dr)
    return result(msgs, want, c["live"])


def case_keep(d, chain):
    """the rule programs of P18, whose variables keep word-bound blanks"""
    c = p18.case(d, chain)
    return {"p18": c, "m": [p18.case(d, chain) if not d.chance(12) else None for _ in range(d.int(1, 3))], "live": d.chance(30)}


def check_keep(c):
    msgs = []
    for m in [c["p18"]] + c["m"]:
        msgs.append("" if m is None else m["b"][0] + "".join(p18.word_text(w) + b for w, b in zip(m["w"], m["b"][1:])))
    first = msgs
    dr = scratch_dir()
    try:
        for k, st in (("t", "transfer"), ("i", "interchunk"), ("p", "postchunk")):
            if k not in c["p18"]:
                continue
            t = wfile(dr, k + ".xml", trx.xml(c["p18"][k]))
            ok(run(["apertium-preprocess-transfer", t, dr + "/" + k + ".bin"]))
            a = ["apertium-" + st] + (["-b"] if k == "t" else [])
            want = judge((a + ["-z", t, dr + "/" + k + ".bin"], a + [t, dr + "/" + k + ".bin"]), msgs, c["live"])
            if want is None:
                break
            msgs = [w.decode("utf8", "surrogateescape") for w in want]
    finally:
        shutil.rmtree(dr)
    return result(first, want, c["live"], {"chain" if "i" in c["p18"] else "shallow"})


def case_restore(d):
    c = p11.case(d)
    return {"rules": c["rules"], "m": history(d, lambda d: [p11.case(d)["us"], d.pick(["", "\n", " [x]"])]), "k": d.bool(), "live": d.chance(35)}


def check_restore(c):
    msgs = []
    for m in c["m"]:
        if isinstance(m, str):
            msgs.append(m)
        else:
            msgs.append(p11.stream([dict(u, nul=False) for u in m[0]]) + m[1])
    dr = scratch_dir()
    try:
        p11.compile_rules(c["rules"], dr)
        a = ["apertium-restore-caps"] + (["-k"] if c["k"] else [])
        want = judge((a + ["-z", dr + "/r.bin"], a + [dr + "/r.bin"]), msgs, c["live"])
    finally:
        shutil.rmtree(dr)
    return result(msgs, want, c["live"])


def case_tagger(d):
    k = d.pick(["hmm", "lsw", "uni", "perc"])
    c = {"k": k, "t": tag.gen_tsx(d), "seed": d.n(1 << 30), "live": d.chance(30)}
    ts = tag.Tagset(c["t"])
    if k == "uni":
        c["m"] = d.int(1, 3)
    elif k == "perc":
        c["spec"] = p24.spec(d)
    c["lex"] = tag.lexicon(d, c["t"], ts)
    c["crp"] = tag.text(d, c["lex"], 1, 10)[0]
    c["o"] = d.weighted([(6, ""), (1, "-f"), (1, "-m"), (1, "-p")])

    def msg(d):
        us, bs = tag.text(d, c["lex"] + c["lex"][-1:], 1, 8, 80, 8, None, lambda d: d.pick([" ", "", "\n", " [\\^x]", ". "]))
        return tag.stream(us, bs)
    c["msgs"] = history(d, msg)
    return c


def check_tagger(c):
    dr = scratch_dir()
    pr = dr + "/x.prob"
    tool = ["apertium-tagger"]
    try:
        wfile(dr, "x.tsx", tag.tsx(c["t"]))
        wfile(dr, "dic", tag.stream(c["lex"], ["\n"] * (len(c["lex"]) + 1)))
        us = [u for u in c["crp"] if u[1]] if c["k"] == "uni" else c["crp"]
        crp = wfile(dr, "crp", tag.stream(us, [" "] * (len(us) + 1)))
        if c["k"] == "hmm":
            ok(run(tool + ["-t", "0", dr + "/dic", crp, dr + "/x.tsx", pr]))
            p = tag.Prob(open(pr, "rb").read())
            wfile(dr, "x.prob", p21.randomise(p, c["seed"], False))
        elif c["k"] == "lsw":
            ok(run(tool + ["-w", "-t", "1", dr + "/dic", crp, dr + "/x.tsx", pr]))
            tool = tool + ["-w"]
        elif c["k"] == "uni":
            ok(run(tool + ["-s", "0", "-u", str(c["m"]), pr, crp]))
            tool = tool + ["-u", str(c["m"])]
        else:
            s = c["spec"]
            perc.WORK[0] = 40000
            mtx = wfile(dr, "x.mtx", perc.mtx(s))
            empty = wfile(dr, "empty", "")
            ok(run(tool + ["-x", "-s", "0", pr, empty, empty, mtx]))
            data = open(pr, "rb").read()
            w = p24.randomw({"us": c["lex"], "seed": c["seed"]}, s, tag.Tagset(c["t"]) if s["coarse"] else None)
            need(data.endswith(perc.dump({})), "harness: the model does not end with no weights")
            wfile(dr, "x.prob", data[:-len(perc.dump({}))] + perc.dump(w))
            tool = tool + ["-x"]
        o = [c["o"]] if c["o"] else []
        want = judge((tool + o + ["-z", "-g", pr], tool + o + ["-g", pr]), c["msgs"], c["live"])
    finally:
        shutil.rmtree(dr)
    return result(c["msgs"], want, c["live"], {"tagger " + c["k"]})


def tagger(c):
    with memory(0 if c["k"] == "perc" else None):       # P24's known finding loop-variable-uninitialised
        return check_tagger(c)


SUBS = {
    "simple": {"gen": case_simple, "check": check_simple, "weight": 4},
    "transfer": {"gen": lambda d: case_tr(d, "transfer"), "check": check_tr, "weight": 3},
    "interchunk": {"gen": lambda d: case_tr(d, "interchunk"), "check": check_tr, "weight": 2},
    "postchunk": {"gen": lambda d: case_tr(d, "postchunk"), "check": check_tr, "weight": 2},
    "keep": {"gen": lambda d: case_keep(d, d.bool()), "check": check_keep, "weight": 3},
    "restore": {"gen": case_restore, "check": check_restore, "weight": 2},
    "tagger": {"gen": case_tagger, "check": tagger, "weight": 4},
}
