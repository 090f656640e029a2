"""P13 apertium-wblank-mode: the rewritten pipeline is computed structurally from the list of programs."""
from ..core import *

TECHNIQUE = 'property-based testing: generated pipelines against a reference model'
NOTE = 'Search over generated pipelines, not a proof. Oracle: a reference rewriting of a parsed pipeline.'
TOOLS = ["apertium-wblank-mode"]
LIB = []
RULE = ("pipelines of 1-7 programs with options and quoted file arguments, as apertium-gen-modes writes them, read from "
        "stdin or a file, with and without -z; non-trivial: at least three programs among which a morphological "
        "analyser or generator, or an old-style transfer")

FILLER = [["cg-proc", ["-w", "'/p/x.rlx.bin'"]], ["cg-proc", ["'/p/x.rlx.bin'"]], ["apertium-tagger", ["-g", "$2", "'/p/x.prob'"]],
          ["apertium-tagger", ["-z", "-g", "'/p/x.prob'"]], ["apertium-pretransfer", []], ["apertium-pretransfer", ["-z"]],
          ["lrx-proc", ["-m", "'/p/x.autolex.bin'"]], ["apertium-interchunk", ["'/p/x.t2x'", "'/p/x.t2x.bin'"]],
          ["apertium-postchunk", ["'/p/x.t3x'", "'/p/x.t3x.bin'"]], ["apertium-posttransfer", []], ["cat", []],
          ["lt-proc", ["-p", "'/p/x.autopgen.bin'"]], ["lsx-proc", ["'/p/x.autoseq.bin'"]], ["rtx-proc", ["'/p/x.rtx.bin'"]],
          ["apertium-transfer", ["-b", "'/p/x.t1x'", "'/p/x.t1x.bin'"]],
          ["apertium-transfer", ["-n", "'/p/x.t1x'", "'/p/x.t1x.bin'"]], ["apertium-extract-caps", []]]
MORPH = [["lt-proc", ["-w", "'/p/x.automorf.bin'"]], ["lt-proc", ["'/p/a b/x.automorf.bin'"]], ["hfst-proc", ["-w", "'/p/x.automorf.hfst'"]],
         ["hfst-proc", ["'/p/x.automorf.hfstol'"]], ["lt-proc", ["-z", "-e", "'/p/x.automorf.bin'"]], ["lt-proc", ["'/p/x.automorf-untrimmed.bin'"]]]
GEN = [["lt-proc", ["$1", "'/p/x.autogen.bin'"]], ["hfst-proc", ["$1", "'/p/x.autogen.hfst'"]], ["lt-proc", ["-g", "-z", "'/p/x.autogen.bin'"]]]
OLD = ["apertium-transfer", ["'/p/x.t1x'", "'/p/x.t1x.bin'", "'/p/x.autobil.bin'"]]
OLD2 = ["apertium-transfer", ["'/p/é z.t1x'", "'/p/x.bin'", "'/q/autobil.bin'"]]
BIL = ["lt-proc", ["-b", "'/p/x.autobil.bin'"]]
RESTORE = ["apertium-restore-caps", ["'/p/x.crx.bin'"]]
STEMS = ["/p/x", "/p/en-zh", "/zh-z/x", "/usr/share/apertium/apertium-en-zu/en-zu", "./x", "/a b/c-b.d", "/p/é", "/p/$1"]
HELPER = [["apertium-wblank-attach", []], ["apertium-wblank-detach", []]]


def case(d):
    ps = d.list(lambda d: d.pick(FILLER), 0, 3, 50)
    if d.chance(75):
        ps.insert(d.n(len(ps)), d.pick(MORPH))
        if d.chance(15):
            ps.insert(1, HELPER[0])
    ps += d.list(lambda d: d.pick(FILLER), 0, 2, 40)
    k = d.n(4)
    if k == 1:
        ps.append(d.pick([OLD, OLD2]))
    elif k == 2:
        ps.append(BIL)
    elif k == 3 and d.bool():
        ps += [BIL, OLD]
    elif k == 4 and d.bool():
        ps += [OLD, d.pick(FILLER), OLD2]
    ps += d.list(lambda d: d.pick(FILLER), 0, 2, 40)
    if d.chance(70):
        if d.chance(10):
            ps.append(HELPER[1])
        ps.append(d.pick(GEN))
    if d.chance(20):
        ps.append(RESTORE)
    ps += d.list(lambda d: d.pick(FILLER), 0, 1, 30)
    if not ps:
        ps = [FILLER[0]]
    stem = d.pick(STEMS)
    ps = [[p[0], [a.replace("/p/x", stem) for a in p[1]]] for p in ps]
    return {"p": ps, "z": d.bool(), "file": d.bool(), "sp": d.n(3), "nl": d.bool()}


def cmd(p):
    return " ".join([p[0]] + p[1])


def check(c):
    ps = c["p"]
    sep = [" | ", "|", "  |  ", " |\n"][c["sp"]]
    src = sep.join(cmd(p) for p in ps) + ("\n" if c["nl"] else "")
    helpers = any("apertium-wblank-" in p[0] for p in ps)
    restore = any(p[0] == "apertium-restore-caps" for p in ps)
    # lookup outside transfer anywhere ("lt-proc -b"): nothing is converted
    haveb = any(p[0] == "lt-proc" and p[1][:1] == ["-b"] for p in ps)
    out = []
    for p in ps:
        if p[0] == "apertium-transfer" and len(p[1]) == 3 and all(a[0] == "'" for a in p[1]) and \
                p[1][2].endswith("autobil.bin'") and not haveb:
            out.append(["lt-proc", ["-b", p[1][2]]])
            out.append(["apertium-transfer", ["-b", p[1][0], p[1][1]]])
        else:
            out.append([p[0], list(p[1])])
    res = []
    for p in out:
        if c["z"] and "-z" not in p[1]:
            p = [p[0], ["-z"] + p[1]]
        is_m = any("automorf.bin" in a or "automorf.hfst" in a for a in p[1])
        is_g = any("autogen.bin" in a or "autogen.hfst" in a for a in p[1])
        if is_g and not is_m and not helpers and not restore:
            res.append(["apertium-wblank-detach", []])
        res.append(p)
        if is_m and not helpers:
            res.append(["apertium-wblank-attach", []])
    want = " | ".join(cmd(p) for p in res) + "\n"
    argv = ["apertium-wblank-mode"] + (["-z"] if c["z"] else [])
    if c["file"]:
        d = scratch_dir()
        r = ok(run(argv + [wfile(d, "m.mode", src)]))
        shutil.rmtree(d)
    else:
        r = ok(run(argv, src))
    # helpers flush at NUL on their own: an explicit -z for them means the same
    got = r.text.replace("apertium-wblank-attach -z", "apertium-wblank-attach").replace("apertium-wblank-detach -z", "apertium-wblank-detach")
    want = want.replace("apertium-wblank-attach -z", "apertium-wblank-attach").replace("apertium-wblank-detach -z", "apertium-wblank-detach")
    same(got, want, "apertium-wblank-mode %s on %r" % (argv[1:], src))
    cl = set()
    for p in res:
        if "wblank" in p[0] and not helpers:
            cl.add(p[0])
    if len(out) != len(ps):
        cl.add("old transfer")
    if helpers:
        cl.add("helpers present")
    if restore:
        cl.add("restore-caps")
    return len(ps) >= 3 and bool(cl), cl


SUBS = {"mode": {"gen": case, "check": check}}
