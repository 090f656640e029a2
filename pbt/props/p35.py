"""P35 command lines: every way of giving a tool the same options, operands and files gives the same result."""
from .. import fmt, tag, trx
from ..core import *
from . import p02, p06, p07, p10, p14, p15, p20, p21, p27

TECHNIQUE = "property-based testing: metamorphic relation between the forms of a command line"
NOTE = ("Search over tools, options, forms and inputs, not a proof. Oracle: the run with short options one by one, operands after them, standard input and "
        "standard output (what it prints is judged by the other properties). Left out: what usage and error messages say, abbreviated long "
        "options, and the exit status of format filters for files they cannot open (they exit 0 after the usage message).")
TOOLS = ["apertium-transfer", "apertium-interchunk", "apertium-postchunk", "apertium-preprocess-transfer",
         "apertium-pretransfer", "apertium-posttransfer", "apertium-extract-caps", "apertium-restore-caps", "apertium-compile-caps", "apertium-tagger",
         "apertium-wblank-mode", "apertium-cleanstream"] + ["apertium-%s%s" % (k, f) for f in fmt.FMTS for k in ("des", "re")]
LIB = []
EXTRA = {**p15.EXTRA, **p27.EXTRA}
RULE = ("inputs of the other properties' generators for sixteen kinds of tool; options in any order, long or short, joined (-zt), after the operands or "
        "before --, with arguments attached or separate; input from standard input or a file, output to standard output or to a file that may hold "
        "something longer; missing files, and more operands than the tool takes; non-trivial: the run prints something and the form differs from the plain one in two ways")


def forms(d, c, io, long=True, opts=True):
    """how the command line is put together"""
    c["io"] = d.pick(io)
    c["old"] = d.bool()
    c["ord"] = [d.n(1000) for _ in range(8)]
    c["long"] = [d.chance(50) if long else False for _ in range(8)]
    c["join"] = d.chance(40) if opts else False
    c["att"] = d.bool()
    c["after"] = d.chance(25) if opts else False
    c["dd"] = d.chance(15) if opts else False
    c["err"] = d.weighted([(84, ""), (4, "noin"), (4, "nofile"), (4, "extra"), (4, "badopt")])
    return c


# ---------------------------------------------------------------- the kinds: gen -> case, make(case, dir) -> (tool, options, operands, input)

def g_transfer(d):
    c = {"c": p14.case(d), "o": d.subset(["w", "t", "z"], 30)}
    c["c"]["rep"] = 1
    return forms(d, c, [0, 1, 2])


OPT = {"w": ("-w", "--dictionary-case", None), "t": ("-t", "--trace", None), "z": ("-z", "--null-flush", None)}


def m_transfer(c, dr):
    r = c["c"]["r"]
    t = wfile(dr, "r.xml", trx.xml(r))
    ok(run(["apertium-preprocess-transfer", t, dr + "/r.bin"]))
    o = [OPT[x] for x in c["o"]]
    if r["stage"] == "transfer":
        o.append(("-n", "--no-bilingual", None) if c["c"].get("n") else ("-b", "--from-bilingual", None))
    return "apertium-" + r["stage"], o, [t, dr + "/r.bin"], p14.build_stream(c["c"])[2]


def g_chunk(stage):
    def g(d):
        c = {"c": p14.case(d, stage), "o": d.subset(["w", "t", "z"], 30)}
        c["c"]["rep"] = 1
        return forms(d, c, [0, 1, 2])
    return g


def g_dict(d):
    return forms(d, {"c": p15.bil_case(d), "o": d.subset(["w", "t", "z"], 30)}, [0, 1, 2])


def tab(es):
    return "".join("%s\t%s\n" % (k, v) for k, v in es)


def m_dict(c, dr):
    b = c["c"]
    t = wfile(dr, "r.xml", trx.xml(b["r"]))
    ok(run(["apertium-preprocess-transfer", t, dr + "/r.bin"]))
    wfile(dr, "b.bin", tab(b["e"]))
    o = [OPT[x] for x in c["o"]]
    if b["ext"] is not None:
        o.append(("-x", "--extended", wfile(dr, "x.bin", tab(b["ext"]))))
    return "apertium-transfer-table", o, [t, dr + "/r.bin", dr + "/b.bin"], "".join("%s^%s$" % x for x in zip(b["b"], b["w"])) + b["b"][-1]


def g_mult(d):
    c = p27.case(d)
    c["rep"] = 1
    return forms(d, {"c": c}, [0, 1, 2], opts=False)


def m_mult(c, dr):
    b = c["c"]
    ok(run(["apertium-preprocess-transfer", wfile(dr, "r.xml", trx.xml(b["r"])), dr + "/r.bin"]))
    wfile(dr, "b.bin", p27.table(b["e"]))
    return "multiple-translations-table", [], [dr + "/r.bin", dr + "/b.bin"], "".join(x + "^" + y + "$" for x, y in zip(b["b"], b["w"])) + b["b"][len(b["w"])]


def g_pre(d):
    return forms(d, {"c": p06.case(d)}, [0, 1, 2])


def m_pre(c, dr):
    names = {"n": "--no-surface-forms", "e": "--compounds", "z": "--null-flush"}
    return "apertium-pretransfer", [("-" + k, names[k], None) for k in "nez" if c["c"]["o"][k]], [], \
        "\0".join("".join(v if k == "b" else p06.render(v) for k, v in m) for m in c["c"]["m"])


def g_post(d):
    return forms(d, {"s": p07.case_post(d)["s"] + "a", "z": d.bool()}, [0, 1, 2])


def m_post(c, dr):
    return "apertium-posttransfer", [OPT["z"]] * c["z"], [], c["s"]


def caps_in(us, tail, f):
    return "".join(u["b"] + p10.wb(u["w"]) + "^" + f(u) + "$" + ("\0" if u["nul"] else "") for u in us) + tail


def g_extract(d):
    return forms(d, {"c": p10.case_x(d)}, [0, 1, 2])


def m_extract(c, dr):
    b = c["c"]
    return "apertium-extract-caps", [("-s", "--surface", None)] * b["s"] + [OPT["z"]] * b["z"], [], \
        caps_in(b["us"], b["tail"], lambda u: u["s"] + "/" + "/".join(u["r"]))


def g_restore(d):
    return forms(d, {"c": p10.case_r(d)}, [0, 1, 2])


def m_restore(c, dr):
    b = c["c"]
    x = wfile(dr, "r.crx", "<?xml version=\"1.0\"?>\n<capitalization>%s</capitalization>" % p10.RULES[b["rules"]])
    ok(run(["apertium-compile-caps", x, dr + "/r.bin"]))
    return "apertium-restore-caps", [("-k", "--keep", None)] * b["k"] + [OPT["z"]] * b["z"], [dr + "/r.bin"], \
        caps_in(b["us"], b["tail"], lambda u: (u["f"] + "/" if u["f"] is not None else "") + u["t"])


TLONG = {"-m": "--mark", "-p": "--show-superficial", "-f": "--first", "-e": "--skip-on-error", "-d": "--debug"}


def g_tagger(d):
    return forms(d, {"c": p20.case(d), "z": d.chance(25), "e": d.chance(20)}, [0, 1, 2])


def topts(tool):
    """the options of a list of arguments"""
    o, i = [], 1
    while i < len(tool):
        if tool[i] == "-u":
            o.append(("-u", "--unigram", tool[i + 1]))
            i += 1
        else:
            o.append((tool[i], {"-w": "--sliding-window", "-x": "--perceptron"}[tool[i]], None))
        i += 1
    return o


def m_tagger(c, dr):
    b = c["c"]
    tool = p20.model(b, dr)
    o = topts(tool) + [(x, TLONG[x], None) for x in b["o"] + ["-e"] * c["e"]] + [OPT["z"]] * c["z"]
    # which kind of tagger comes first, then what to do
    return "apertium-tagger", o + [("-g", "--tagger", None)], [dr + "/x.prob"], tag.stream(b["us"], b["bs"]) + "\0" * c["z"]


def g_train(d):
    c = {"c": p20.case(d), "it": d.int(0, 3), "e": d.chance(10)}
    while c["c"]["k"] == "perc":
        c["c"] = p20.case(d)
    c = forms(d, c, [0])
    c["err"] = ""
    return c


def m_train(c, dr):
    b = c["c"]
    p20.model(b, dr)
    os.unlink(dr + "/x.prob")
    e = [("-e", "--skip-on-error", None)] * c["e"]
    if b["k"] == "uni":
        return "apertium-tagger", e + [("-u", "--unigram", str(b["m"])), ("-s", "--supervised", "0")], [dr + "/x.prob", dr + "/crp"], ""
    return "apertium-tagger", e + [("-w", "--sliding-window", None)] * (b["k"] == "lsw") + [("-t", "--train", str(c["it"]))], \
        [dr + "/dic", dr + "/crp", dr + "/x.tsx", dr + "/x.prob"], ""


def g_des(d):
    c = p02.case(d)
    return forms(d, {"f": c["f"], "doc": c["doc"][:2000], "n": c["n"], "i": c["i"], "o": d.chance(20)}, [0, 1, 2], long=False)


def m_des(c, dr):
    return "apertium-des" + c["f"], [("-n", "", None)] * c["n"] + [("-i", "", None)] * c["i"] + [("-o", "", None)] * c["o"], [], c["doc"]


def g_re(d):
    c = p02.case(d)
    return forms(d, {"f": c["f"], "doc": c["doc"][:2000]}, [0, 1, 2], opts=False)


def m_re(c, dr):
    # blocks in files are gone after they were read once
    s = ok(run(["apertium-des" + c["f"]], c["doc"].encode("utf8"))).out
    return "apertium-re" + c["f"], [], [], s


def g_mode(d):
    ps = d.list(lambda d: d.pick(["lt-proc -w 'a.bin'", "apertium-tagger -g $2 'x'", "apertium-transfer -b t x", "cat", "apertium-pretransfer", "lt-proc -b 'b'", "a | b", "x  -z"]), 1, 5, 80)
    return forms(d, {"s": " | ".join(ps) + d.pick(["", "\n", "\n\n", "  "]), "z": d.bool()}, [0, 1], long=False, opts=False)


def m_mode(c, dr):
    return "apertium-wblank-mode", [("-z", "", None)] * c["z"], [], c["s"]


def g_clean(d):
    c = p07.case(d)
    c = forms(d, {"c": c}, [0], long=False, opts=False)
    c["err"] = ""
    return c


def m_clean(c, dr):
    return "apertium-cleanstream", [("-n", "", None)] * c["c"]["n"] + [("-b", "", None)] * c["c"]["b"], [], p07.src_of(c["c"]["p"])


MAKE = {"transfer": m_transfer, "interchunk": m_transfer, "postchunk": m_transfer, "dictionary": m_dict, "multiple": m_mult, "pretransfer": m_pre,
        "posttransfer": m_post, "extract-caps": m_extract, "restore-caps": m_restore, "tagger": m_tagger, "train": m_train, "deformat": m_des, "reformat": m_re,
        "wblank-mode": m_mode, "cleanstream": m_clean}
GEN = {"transfer": g_transfer, "interchunk": g_chunk("interchunk"), "postchunk": g_chunk("postchunk"), "dictionary": g_dict, "multiple": g_mult, "pretransfer": g_pre,
       "posttransfer": g_post, "extract-caps": g_extract, "restore-caps": g_restore, "tagger": g_tagger, "train": g_train, "deformat": g_des, "reformat": g_re,
       "wblank-mode": g_mode, "cleanstream": g_clean}
FORMAT = ("deformat", "reformat", "wblank-mode", "cleanstream")


def case(d):
    k = d.weighted([(3, "transfer"), (2, "interchunk"), (2, "postchunk"), (4, "dictionary"), (1, "multiple"), (1, "pretransfer"), (1, "posttransfer"), (1, "extract-caps"),
                    (2, "restore-caps"), (4, "tagger"), (2, "train"), (3, "deformat"), (2, "reformat"), (1, "wblank-mode"), (1, "cleanstream")])
    c = GEN[k](d)
    c["k"] = k
    return c


def words(c, opts):
    """the options in the form the case asks for"""
    k = c["k"]
    n = len(opts)
    order = sorted(range(n), key=lambda i: (c["ord"][i % 8], i))
    if k in ("tagger", "train"):
        # which tagger, then flags; the mode of operation is last, as in the usage message
        order = list(range(n))
    if k == "wblank-mode":
        order = list(range(n))
    out, short = [], ""
    for i in order:
        s, l, a = opts[i]
        lng = c["long"][i % 8] and l
        if not lng and c["join"] and k not in FORMAT and a is None:
            short += s[1:]
            if i != order[-1]:
                continue
        if short:
            out.append("-" + short)
            short = ""
            if not lng and a is None:
                continue
        if lng:
            if a is None:
                out.append(l)
            elif c["att"]:
                out.append(l + "=" + a)
            else:
                out += [l, a]
        elif a is None:
            out.append(s)
        elif c["att"] and k not in FORMAT:
            out.append(s + a)
        else:
            out += [s, a]
    if short:
        out.append("-" + short)
    return out, order != list(range(n))


def check(c):
    # memory: as in P20 (finding loop-variable-uninitialised of P24)
    with memory(0 if c["k"] == "tagger" and c["c"]["k"] == "perc" else None):
        return judge(c)


def judge(c):
    k = c["k"]
    dr = scratch_dir()
    try:
        tool, opts, pre, inp = MAKE[k](c, dr)
        if isinstance(inp, str):
            inp = inp.encode("utf8", "surrogateescape")
        plain = [tool] + [x for s, l, a in opts for x in ([s] if a is None else [s, a])] + pre
        r = run(plain, inp)
        if k == "dictionary" and r.rc == -6:
            return False, {"undefined, not compared"}     # parts of the reference side the dictionary did not translate, see P15
        if k == "train":
            ok(r)
            base = open(dr + "/x.prob", "rb").read()
            os.unlink(dr + "/x.prob")
        else:
            base = ok(r).out
        o, changed = words(c, opts)
        files = []
        if c["io"]:
            files.append(wfile(dr, "in put" if c["old"] else "in", inp))
            if k == "reformat":
                files[0] = wfile(dr, "in", m_re(c, dr)[3])
        elif k == "reformat":
            inp = m_re(c, dr)[3]
        if c["io"] == 2:
            files.append(dr + "/out")
            if c["old"]:
                wfile(dr, "out", b"x" * (len(base) + 50))
        if c["err"] and k not in FORMAT:
            return broken(c, dr, tool, o, pre, files, inp)
        dd = ["--"] if c["dd"] and k not in FORMAT and k != "multiple" else []
        if c["after"] and not dd and k not in FORMAT:
            argv = [tool] + pre + files + o
        else:
            argv = [tool] + o + dd + pre + files
        p = ok(run(argv, b"" if c["io"] else inp))
        got = p.out
        if k == "train":
            got = open(dr + "/x.prob", "rb").read()
        elif c["io"] == 2:
            need(not p.out, "%r prints %r although it has an output file", argv, p.out)
            got = open(dr + "/out", "rb").read()
        show = " ".join(argv).replace(dr + "/", "")
        if k == "train":
            need(got == base, "%s writes another model than %s", show, " ".join(plain).replace(dr + "/", ""))
        else:
            same(got, base, "result of %s on %r" % (show, inp[:200]))
    finally:
        shutil.rmtree(dr)
    ways = bool(c["io"]) + (c["io"] == 2) + changed + any(x.startswith("--") for x in o) + any(len(x) > 2 and x[1] != "-" for x in o if x[0] == "-") + bool(dd) + (argv[-1:] != files[-1:] and bool(o))
    return bool(base) and ways > 1, {k, "io %d" % c["io"]}


def broken(c, dr, tool, o, pre, files, inp):
    """a command line that cannot work ends with an error"""
    k, e = c["k"], c["err"]
    argv = [tool] + o + pre + files
    if e == "noin":
        if not files:
            return False, set()
        argv[argv.index(files[0])] = dr + "/no such file"
    elif e == "nofile":
        if not pre:
            return False, set()
        argv[argv.index(pre[c["ord"][0] % len(pre)])] = dr + "/nothing"
    elif e == "extra":
        argv += [wfile(dr, "y%d" % i, "") for i in range((4 if k == "transfer" else 3) - len(files))]
    elif e == "badopt":
        if k == "multiple":
            return False, set()
        argv.insert(1, ["--no-such-option", "-Q"][c["ord"][0] % 2])
    p = run(argv, b"" if c["io"] else inp)
    show = " ".join(argv).replace(dr + "/", "")
    need(not p.cpu_exceeded, "%s does not end", show)
    need(p.rc != 0, "%s ends as if nothing was wrong", show)
    return True, {k, "error: " + e}


SUBS = {"main": {"gen": case, "check": check}}
