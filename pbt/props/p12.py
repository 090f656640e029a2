"""P12 apertium-gen-modes: model of the set of .mode files and their contents."""
from xml.sax.saxutils import quoteattr
from ..core import *

TECHNIQUE = 'property-based testing: generated modes files against a reference model'
NOTE = 'Search over generated modes files, not a proof. Oracle: a reference model of the mode and debug-mode naming rules; whether tracing is requested once or twice in untrimmed modes is left open.'
TOOLS = ["apertium-gen-modes"]
LIB = []
RULE = ("modes files with 1-4 modes, 1-5 programs drawn from every program family of the suffix table with options, "
        "file/plain arguments, explicit suffixes, name collisions, plain/-f/-f -l invocation and relative or absolute "
        "paths; non-trivial: at least two programs and (a debug mode or an installation)")

CMDS = ["lt-proc", "lt-proc -w", "lt-proc -b", "lt-proc -e -w", "lt-proc -p", "lt-proc $1", "lt-proc -g", "lt-proc $1 -C",
        "hfst-proc -w", "hfst-proc -g", "hfst-proc $1", "cg-proc", "cg-proc -1 -n -w", "apertium-tagger -g $2", "apertium-tagger -u 1",
        "apertium-pretransfer", "apertium-pretransfer -n", "apertium-posttransfer", "lrx-proc", "lrx-proc -m", "apertium-transfer", "apertium-transfer -b",
        "apertium-transfer -n", "apertium-transfer-x -b", "apertium-interchunk", "apertium-postchunk", "lsx-proc", "lsx-proc -p",
        "rtx-proc", "rtx-proc -T", "apertium-anaphora", "apertium-extract-caps", "apertium-restore-caps", "cat", "foo $1",
        "apertium-interchunk $1", "apertium-transfer -b x-n.t1x", "apertium-transfer -bn", "lt-proc x-g.bin", "lt-proc -wp", "hfst-proc x-g", "my-lt-proc -b", "cg-conv", "spellrelax -p", "rtx-proc $1"]
NAMES = ["a", "b", "a-morph", "a-b", "a-b-transfer", "eng-spa", "@a-morph", "a-x", "a-disam", "c.d"]
FILES = ["x.automorf.bin", "x.autobil.bin", "y.t1x", "sub/z.bin", "a.automorf.b.automorf.bin", "x.automorf-untrimmed.bin", "with space.bin", "x.automorf.att",
         "/abs/f.bin", "&amp<q>.bin", "é.prob", ".automorf.", "automorf.bin"]
ARGS = ["-w", "$1", "x.automorf.bin", "--foo=1", "a&b", "$2", "é", "'q r'"]


def program(d):
    return {"c": d.pick(CMDS), "s": d.pick(["morph", "x", "a b", "transfer", "NAMEME"]) if d.chance(20) else None,
            "a": d.list(lambda d: [d.pick(["file", "arg"]), d.pick(FILES)] if d.chance(60) else ["arg", d.pick(ARGS)], 0, 4, 50)}


def case(d):
    names = d.shuffled(NAMES)[:d.int(1, 4)]
    modes = [{"n": n, "i": d.pick([None, "yes", "no", "yes", "true"]), "g": d.pick([None, "yes", "no", "yes", "yes"]),
              "p": d.list(program, 1, 5, 65) if d.chance(93) else d.list(program, 6, 14, 80)} for n in names]
    return {"m": modes, "how": d.pick(["plain", "plain", "full", "full-local", "plain-arg"]), "abs": d.bool(),
            "inst": d.pick(["/inst/share", "inst", "../x", "/inst/"]), "dir": d.pick(["sub", "sub", "s2/t", ""]),
            "pref": d.bool(), "comments": d.bool()}


def xml(c):
    o = ['<?xml version="1.0" encoding="UTF-8"?>\n<modes>\n']
    for m in c["m"]:
        if c["comments"]:
            o.append("<!-- c -->")
        o.append("  <mode name=%s" % quoteattr(m["n"]))
        if m["i"]:
            o.append(" install=%s" % quoteattr(m["i"]))
        if m["g"]:
            o.append(" gendebug=%s" % quoteattr(m["g"]))
        o.append(">\n    <pipeline>\n")
        for p in m["p"]:
            o.append("      <program name=%s%s>" % (quoteattr(p["c"]), " debug-suff=%s" % quoteattr(p["s"]) if p["s"] else ""))
            for k, v in p["a"]:
                o.append("\n        <%s name=%s/>" % (k, quoteattr(v)))
                if c["comments"]:
                    o.append("<!-- x -->")
            o.append("</program>\n")
        o.append("    </pipeline>\n")
        if c["pref"]:
            o.append('    <preferences><pref path="p.xml"/></preferences>\n')
        o.append("  </mode>\n")
    o.append("</modes>\n")
    return "".join(o)


PREFIX_SUFFIX = [("cg-proc", ["disam"]), ("apertium-tagger", ["tagger"]), ("apertium-pretransfer", ["pretransfer"]),
                 ("apertium-posttransfer", ["posttransfer"]), ("lrx-proc", ["lex", "lextor"]), ("apertium-transfer", None),
                 ("apertium-interchunk", ["interchunk"]), ("apertium-postchunk", ["postchunk"])]
PREFIX_SUFFIX2 = [("lt-proc", None), ("hfst-proc", None), ("lsx-proc", None), ("rtx-proc", ["transfer"]),
                  ("apertium-anaphora", ["anaph"]), ("apertium-extract-caps", ["decase"]), ("apertium-restore-caps", ["recase"])]


def suffixes(p):
    c = p["c"]
    if p["s"]:
        return [p["s"]]
    for pre, s in PREFIX_SUFFIX:
        if c.startswith(pre):
            if s is None:
                return ["transfer2"] if " -n" in c else ["chunker", "transfer"]
            return s
    if "$1" in c:
        return ["dgen", "generador"]
    for pre, s in PREFIX_SUFFIX2:
        if c.startswith(pre):
            if pre == "lt-proc" and " -b" in c:
                return ["biltrans"]
            if pre == "lt-proc" and " -p" in c:
                return ["pgen"]
            if pre in ("lt-proc", "hfst-proc"):
                return ["morph"] + ([] if " -g" in c else ["anmor"])
            if pre == "lsx-proc":
                return ["pgen"] if " -p" in c else ["autoseq"]
            return s
    return ["NAMEME"]


def trace(c):
    """(command with tracing, accepted alternatives)"""
    for pre in ("cg-proc", "lrx-proc", "apertium-transfer", "apertium-interchunk", "apertium-postchunk"):
        if c.startswith(pre):
            return c + " -t"
    if c.startswith("rtx-proc"):
        return c + " -r"
    if c.startswith("apertium-anaphora"):
        return c + " -d"
    return c.replace("$1", "-d", 1)


def model(c):
    """{mode name: (install, [alternative lists of steps])}; a step is (command, args)"""
    modes = {}
    for m in c["m"]:
        modes[m["n"]] = (m["i"] == "yes", [[(p["c"], p["a"]) for p in m["p"]]])
    for m in sorted((m for m in c["m"] if m["g"] == "yes"), key=lambda m: m["n"].encode()):
        for i, p in enumerate(m["p"]):
            for s in suffixes(p):
                name = m["n"] + "-" + s
                if name in modes:
                    continue
                steps = [(q["c"], q["a"]) for q in m["p"][:i + 1]]
                once = steps[:-1] + [(trace(steps[-1][0]), steps[-1][1])]
                modes[name] = (False, [once])
                u = "@" + name
                if u in modes:
                    continue

                def untrim(v):
                    h, sep, t = v.rpartition(".automorf.")
                    return h + ".automorf-untrimmed." + t if sep else v
                alts = []
                # tracing may be asked for twice: that means the same to the program
                for st in (once, once[:-1] + [(trace(once[-1][0]), once[-1][1])]):
                    alts.append([(cmd, [[k, untrim(v)] for k, v in a]) for cmd, a in st])
                modes[u] = (False, alts)
    return modes


def check(c):
    top = scratch_dir()
    os.makedirs(os.path.join(top, "w", "w2"))
    cwd = os.path.join(top, "w", "w2")
    old = os.getcwd()
    os.chdir(cwd)
    try:
        rel = os.path.join(c["dir"], "modes.xml") if c["dir"] else "modes.xml"
        if c["dir"]:
            os.makedirs(c["dir"])
        wfile(cwd, rel, xml(c))
        path = os.path.join(cwd, rel) if c["abs"] else rel
        dev = os.path.dirname(path)
        full = c["how"].startswith("full")
        local = c["how"] == "full-local"
        argv = ["apertium-gen-modes"] + (["-f"] if full else []) + (["-l"] if local else []) + [path]
        if full or c["how"] == "plain-arg":
            argv.append(c["inst"])
        r = ok(run(argv))
        write = ("." if local else (dev or ".")) if full else os.path.join(dev, "modes")
        fdir = c["inst"] if full else dev

        def absolute(v):
            p = os.path.join(fdir, v) if fdir else v
            return p if p.startswith("/") else cwd + "/" + p
        mm = model(c)
        want = {}
        for n, (inst, alts) in mm.items():
            if full and not inst:
                continue
            texts = []
            for steps in alts:
                texts.append(" | ".join(cmd + "".join(" '%s'" % absolute(v) if k == "file" else " " + v for k, v in a)
                                        for cmd, a in steps) + "\n")
            want[n + ".mode"] = texts
        got = {}
        for f in os.listdir(write):
            if f.endswith(".mode"):
                got[f] = open(os.path.join(write, f), "rb").read().decode("utf8", "surrogateescape")
        need(set(got) == set(want), "%s: mode files written %s, expected %s\n%s", argv[1:], sorted(got), sorted(want), xml(c))
        for f in want:
            need(got[f] in want[f], "%s: %s contains\n  %r\nexpected\n  %r\n%s", argv[1:], f, got[f], want[f][0], xml(c))
        # nothing else was written
        files = []
        for dp, dn, fn in os.walk(os.path.join(top)):
            files += [os.path.normpath(os.path.join(dp, f)) for f in fn]
        exp = {os.path.normpath(os.path.join(cwd, write, f)) for f in want} | {os.path.join(cwd, rel)}
        need(set(files) == exp, "files present %s, expected %s", sorted(files), sorted(exp))
    finally:
        os.chdir(old)
        shutil.rmtree(top)
    dbg = any(m["g"] == "yes" for m in c["m"])
    cl = {c["how"]} | ({"debug"} if dbg else set()) | ({"untrimmed"} if any(n.startswith("@") for n in mm) else set())
    if sum(len(suffixes(p)) for m in c["m"] if m["g"] == "yes" for p in m["p"]) > \
            sum(1 for n in mm if not n.startswith("@")) - len(c["m"]):
        cl.add("collision")
    return any(len(m["p"]) >= 2 for m in c["m"]) and (dbg or full), cl


SUBS = {"modes": {"gen": case, "check": check}}
