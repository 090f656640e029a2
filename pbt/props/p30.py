"""P30 memory safety: every stream tool, built with address and undefined-behaviour sanitizers, on damaged streams."""
import os, re
from .. import build, core, fmt, gen, perc, tag, trx, trxgen
from ..core import *
from . import p07, p09, p10, p11, p14, p16, p17, p18, p21, p24, p27, p29

TECHNIQUE = "fuzzing: structured generation of streams and of damage to them (cuts, lost, repeated and stray bytes), sanitizers and time limits as the oracle"
NOTE = ("Search over generated streams and damage, not a proof. Oracle: AddressSanitizer and UndefinedBehaviorSanitizer in the tool's own code (not in lttoolbox and other "
        "libraries), a limit on processor time and on memory. Uninitialised memory reads as zero (the property says nothing of it). An error exit or the abort of an uncaught exception is accepted.")
TOOLS = ["apertium-pretransfer", "apertium-posttransfer", "apertium-wblank-attach", "apertium-wblank-detach", "apertium-cleanstream", "apertium-extract-caps",
         "apertium-restore-caps", "apertium-compile-caps", "apertium-preprocess-transfer", "apertium-transfer", "apertium-interchunk", "apertium-postchunk",
         "apertium-tagger", "apertium-filter-ambiguity"] + build.ALL
ASAN = True
EXTRA = p27.EXTRA
RULE = ("streams of the generators of P06 to P11, P14 to P18, P20 and P27 for the stream tools and documents for the format tools, then up to four damages: cut at a byte, bytes lost, "
        "repeated, exchanged, reserved characters, NUL or invalid UTF-8 inserted, unstructured bytes; every option; non-trivial: the stream was damaged and is not empty")
QUICK_S = 40

STRAY = [b"[", b"]", b"^", b"$", b"/", b"<", b">", b"\\", b"{", b"}", b"+", b"#", b"*", b"@", b"~", b"&", b"|", b"=", b"\0", b"[[", b"]]", b"[[/]]", b"[[t:x]]", b"^$", b"^/",
         b"\xff", b"\xc3", b"\xe6\x97", b"\xf0\x9f\x98\x80", b"\xef\xbf\xbf", b" ", b"\n", b"_", b":", b".[]", b"@", b"<sent>", b"a", b"<n>"]


def damage(d, s):
    """(damaged stream, how often)"""
    n = d.weighted([(1, 0), (6, 1), (2, 2), (1, 4)])
    if d.chance(4):
        return b"".join(d.list(lambda d: d.pick(STRAY), 0, 12, 85)), 1
    for _ in range(n):
        k = d.weighted([(5, 0), (3, 1), (5, 2), (1, 3), (1, 4)])
        p = d.n(len(s))
        if k == 0:
            s = s[:p]
        elif k == 1:
            s = s[:p] + s[p + d.int(1, 4):]
        elif k == 2:
            s = s[:p] + b"".join(d.list(lambda d: d.pick(STRAY), 1, 3, 30)) + s[p:]
        elif k == 3:
            q = min(len(s), p + d.int(1, 12))
            s = s[:q] + s[p:q] * d.pick([1, 2, 50]) + s[q:]
        else:
            s = s[:p] + bytes([d.n(255)]) + s[p + 1:]
    return s[:3000], n


def enc(s):
    return s.encode("utf8", "surrogateescape")


def put(c, d, s):
    s, n = damage(d, enc(s))
    c["s"], c["n"] = s.decode("latin1"), n
    return c


def judge(argv, c):
    s = c["s"].encode("latin1")
    old, core.CPU_LIMIT = core.CPU_LIMIT, 3
    try:
        r = run(argv, s, {"ASAN_OPTIONS": BASE_ENV["ASAN_OPTIONS"] + ":hard_rss_limit_mb=1500:max_malloc_fill_size=100000000:malloc_fill_byte=0"})
    finally:
        core.CPU_LIMIT = old
    cmd = [os.path.basename(argv[0])] + argv[1:]
    need(not r.cpu_exceeded, "%r does not end on %r; output begins %r", cmd, s, r.out[:200])
    if r.rc == 99 or r.rc < 0 and r.rc != -6:
        m = re.search(rb"(SUMMARY: [^\n]*|[^\n]*runtime error: [^\n]*|hard rss limit[^\n]*)", r.err)
        fr = re.findall(rb"#\d+ 0x\w+ in ([^\n]*)", r.err)[:12]
        raise Violation("%r on %r: status %d, %s; %s" % (cmd, s, r.rc, (m.group(1) if m else r.err[:500]).decode("utf8", "replace"), b" < ".join(fr).decode("utf8", "replace")))
    return bool(c["n"] and s), {"%s: %s" % (cmd[0], "aborts" if r.rc == -6 else "error" if r.rc else "ends")}


# ---------------------------------------------------------------- tools without data


SIMPLE = dict(p09.SIMPLE)
SIMPLE["apertium-cleanstream"] = (p09.m_pre, ["", "-b"])


def case_simple(d):
    t = d.pick(sorted(SIMPLE))
    g, opts = SIMPLE[t]
    c = {"t": t, "o": ([d.pick(opts)] if d.bool() else []) + (["-z"] if d.chance(40) and t != "apertium-cleanstream" else [])}
    c["o"] = [x for x in c["o"] if x]
    s = "".join(d.list(g, 1, 2, 30))
    if "-z" in c["o"] and d.chance(40):
        s += "\0" + g(d)
    return put(c, d, s)


def check_simple(c):
    return judge([c["t"]] + c["o"], c)


# ---------------------------------------------------------------- transfer stages

def case_tr(d):
    stage = d.pick(["transfer", "interchunk", "postchunk"])
    k = d.weighted([(2, 0), (4, 1), (3, 2), (2, 3)])
    r = trxgen.rules(d, stage, nwords=k, reject=True) if stage == "postchunk" else trxgen.rules(d, stage)
    c = {"r": r, "nobil": stage == "transfer" and d.chance(15), "o": d.subset(["-z", "-w"], 25)}
    ms = []
    for i in range(d.weighted([(3, 1), (1, 2), (1, 3)])):
        # later chunks may have fewer words than rules use
        m = p09.words_msg(d, r, stage, d.n(k) if i else k)
        ms.append(p14.build_stream({"r": r, "w": m[0], "b": m[1], "n": c["nobil"]})[2])
    return put(c, d, d.pick(["\0", " "]).join(ms))


def check_tr(c):
    st = c["r"]["stage"]
    dr = scratch_dir()
    try:
        t = wfile(dr, "r.xml", trx.xml(c["r"]))
        ok(run(["apertium-preprocess-transfer", t, dr + "/r.bin"]))
        return judge(["apertium-" + st] + (["-n" if c["nobil"] else "-b"] if st == "transfer" else []) + c["o"] + [t, dr + "/r.bin"], c)
    finally:
        shutil.rmtree(dr)


def case_keep(d):
    c = p18.case(d, d.bool())
    s = c["b"][0] + "".join(p18.word_text(w) + b for w, b in zip(c["w"], c["b"][1:]))
    return put({"r": c["t"], "nobil": False, "o": []}, d, s)


def case_mult(d):
    c = p27.case(d)
    s = "".join(x + "^" + y + "$" for x, y in zip(c["b"], c["w"])) + c["b"][-1]
    return put({"r": c["r"], "e": c["e"]}, d, s)


def check_mult(c):
    dr = scratch_dir()
    try:
        t = wfile(dr, "r.xml", trx.xml(c["r"]))
        ok(run(["apertium-preprocess-transfer", t, dr + "/r.bin"]))
        wfile(dr, "b.bin", p27.table(c["e"]))
        return judge(["multiple-translations-table", dr + "/r.bin", dr + "/b.bin"], c)
    finally:
        shutil.rmtree(dr)


# ---------------------------------------------------------------- capitals

def case_caps(d):
    c = p11.case(d)
    return put({"rules": c["rules"], "o": d.subset(["-k", "-z"], 35)}, d, p11.stream(c["us"]))


def check_caps(c):
    dr = scratch_dir()
    try:
        p11.compile_rules(c["rules"], dr)
        return judge(["apertium-restore-caps"] + c["o"] + [dr + "/r.bin"], c)
    finally:
        shutil.rmtree(dr)


# ---------------------------------------------------------------- taggers

def case_tagger(d):
    c = p09.case_tagger(d)
    s = "\0".join(c.pop("msgs")[:2])
    c["o"] = d.subset(["-f", "-m", "-p", "-z", "-d"], 25)
    c["filter"] = d.chance(10)
    c["train"] = d.weighted([(8, None), (2, "crp"), (1, "dic"), (1, "tagged")])
    return put(c, d, s)


def check_tagger(c):
    dr = scratch_dir()
    pr = dr + "/x.prob"
    tool = ["apertium-tagger"]
    try:
        tsx = wfile(dr, "x.tsx", tag.tsx(c["t"]))
        if c["filter"]:
            return judge(["apertium-filter-ambiguity", tsx], c)
        with memory(None):
            dic = wfile(dr, "dic", tag.stream(c["lex"], ["\n"] * (len(c["lex"]) + 1)))
            us = [u for u in c["crp"] if u[1]] if c["k"] == "uni" else c["crp"]
            crp = wfile(dr, "crp", tag.stream(us, [" "] * (len(us) + 1)))
            bad = wfile(dr, "bad", c["s"].encode("latin1"))
            if c["k"] == "hmm":
                a = tool + ["-t", "0", bad if c["train"] == "dic" else dic, bad if c["train"] == "crp" else crp, tsx, pr]
                if c["train"] == "tagged":
                    a = tool + ["-s", "0", dic, tsx, pr, bad, crp]
            elif c["k"] == "lsw":
                a = tool + ["-w", "-t", "1", bad if c["train"] == "dic" else dic, bad if c["train"] == "crp" else crp, tsx, pr]
                tool = tool + ["-w"]
            elif c["k"] == "uni":
                a = tool + ["-s", "0", "-u", str(c["m"]), pr, bad if c["train"] else crp]
                tool = tool + ["-u", str(c["m"])]
            else:
                s = c["spec"]
                perc.WORK[0] = 40000
                mtx = wfile(dr, "x.mtx", perc.mtx(s))
                empty = wfile(dr, "empty", "")
                a = tool + ["-x", "-s", "0", pr, empty, empty, mtx]
                if c["train"]:
                    a = tool + ["-x", "-s", "1", pr, bad, crp if c["train"] == "tagged" else bad, mtx]
                tool = tool + ["-x"]
            if c["train"]:
                return judge(a, c)
            ok(run(a))
            if c["k"] == "hmm":
                wfile(dr, "x.prob", p21.randomise(tag.Prob(open(pr, "rb").read()), c["seed"], False))
            return judge(tool + c["o"] + ["-g", pr], c)
    finally:
        shutil.rmtree(dr)


# ---------------------------------------------------------------- formats

def case_format(d):
    f = d.pick(["txt", "html", "html-noent", "html-alt", "odt", "rtf", "wxml", "xlsx", "pptx", "mediawiki", "xpresstag", "latex", "prelatex", "postlatex", "postlatex-raw"])
    if "prelatex" in f or "post" in f:
        t = "apertium-" + f
    else:
        t = "apertium-" + d.pick(["des", "re"]) + f
    s = p29.latex(d) if "latex" in f else fmt.document(d, f)
    return put({"t": t, "o": d.subset(["-n", "-i", "-o"], 15) if t.startswith("apertium-des") else []}, d, s)


def check_format(c):
    # A reformatter reads and then DELETES the file that [@name] names (how deformatters pass long blocks on). A damaged stream can name any file, so:
    # nothing with the beginning of such a reference is run, and the tool runs as an unprivileged user that owns only its scratch directory.
    if re.search(r"\[[\s\0\\]*@", c["s"]) or not ENV.contained:
        return False, {"file reference or no unprivileged user, not run"}
    dr = scratch_dir()
    try:
        f = wfile(dr, "in", c["s"].encode("latin1"))
        return judge([c["t"]] + c["o"] + ([f] if "prelatex" in c["t"] else []), c)
    finally:
        shutil.rmtree(dr)


SUBS = {"simple": {"gen": case_simple, "check": check_simple, "weight": 4}, "transfer": {"gen": case_tr, "check": check_tr, "weight": 4},
        "keep": {"gen": case_keep, "check": check_tr, "weight": 1}, "mult": {"gen": case_mult, "check": check_mult, "weight": 1},
        "caps": {"gen": case_caps, "check": check_caps, "weight": 1}, "tagger": {"gen": case_tagger, "check": check_tagger, "weight": 4},
        "format": {"gen": case_format, "check": check_format, "weight": 3}}
