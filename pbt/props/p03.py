"""P03 reformatters: any well-formed stream, as a translation may produce it, is unescaped and nothing else."""
from .. import fmt, gen
from ..core import *

TECHNIQUE = "property-based testing: generated translated streams against a reference unescaper"
NOTE = ("Search over generated streams, not a proof. Oracle: a reference unescaper (superblank contents verbatim, escapes removed, '.[]' "
        "deleted, included files inserted and removed). The preferred entity spellings of the definitions are all for characters of "
        "several bytes and have never taken effect, so the model applies none.")
TOOLS = ["apertium-re" + f for f in fmt.FMTS]
LIB = []
RULE = ("streams of text, escaped characters of the format's set, superblanks (empty, with escapes, markup, newlines, above 8 kB), "
        "artificial sentence ends next to real full stops, included files, marks of unknown words; stdin or file arguments; "
        "non-trivial: an escape and a superblank")


def case(d, name=None):
    name = name or d.pick(fmt.FMTS)
    f = fmt.get(name)
    esc = "".join(map(chr, sorted(f.escset)))

    def raw(d):
        return d.str("ab.<>/=\"'é漢😀 \n\t\r&;#*~+@[]{}^$\\", 0, 8, 80)

    def item(d):
        k = d.weighted([(10, "t"), (5, "e"), (7, "b"), (4, "d"), (2, "m"), (3, "."), (1, "f"), (1, "L")])
        if k == "t":
            return ["t", d.str("abcÉñ漢😀 ,;:!?-_'\"*#~&%=.1\n\t", 1, 6)]
        if k == "e":
            return ["t", "\\" + d.pick(esc)]
        if k in ("b", "f"):
            return [k, raw(d)]
        if k == "d":
            return ["t", ".[]"]
        if k == "m":
            return ["t", "[]"]
        if k == ".":
            return ["t", d.pick([".", "..", " ."])]
        return ["b", d.pick(["a", "é", "]", "\n"]) * d.int(8100, 8300)]
    return {"f": name, "items": d.list(item, 0, 10, 85), "files": d.weighted([(8, 0), (1, 1), (1, 2)])}


def model(s):
    o, i = [], 0
    inb = False
    while i < len(s):
        if not inb and s.startswith(".[]", i):
            i += 3
            continue
        c = s[i]
        if c == "\\":
            o.append(s[i + 1])
            i += 2
            continue
        if not inb and s.startswith("[@", i):
            j = s.index("]", i)
            o.append(open(s[i + 2:j], encoding="utf8", newline="").read())
            i = j + 1
            continue
        if not inb and c == "[":
            inb = True
        elif inb and c == "]":
            inb = False
        else:
            o.append(c)
        i += 1
    return "".join(o)


def check(c):
    f = fmt.get(c["f"])
    d = scratch_dir()
    inc = []
    try:
        s = ""
        for k, t in c["items"]:
            if k == "t":
                s += t
            elif k == "f":
                inc.append(wfile(d, "inc%d" % len(inc), t))
                s += "[@" + inc[-1] + "]"
            else:
                s += "[" + f.escape(t) + "]"
        want = model(s)
        argv = ["apertium-re" + c["f"]]
        if c["files"] == 0:
            got = ok(run(argv, s)).out
        else:
            argv.append(wfile(d, "in", s))
            if c["files"] == 2:
                r = ok(run(argv + [d + "/out"]))
                need(r.out == b"", "%s wrote %r to stdout with an output file given", argv, r.out)
                got = open(d + "/out", "rb").read()
            else:
                got = ok(run(argv)).out
        same(got, want, "%s on %r" % (argv[0], s))
        for p in inc:
            need(not os.path.exists(p), "the included file of a large block was not removed (%s on %r)", argv[0], s)
        cl = {c["f"]} | {"included file" for _ in inc}
        if len(s) > 8000:
            cl.add("above 8 kB")
        return "\\" in s and any(k == "b" for k, _ in c["items"]), cl
    finally:
        shutil.rmtree(d)


SUBS = {"stream": {"gen": case, "check": check}}


def setup():
    for f in fmt.FMTS:
        fmt.get(f)
