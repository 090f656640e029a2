"""P02 deformatters: exact output against the reference lexer built from the frozen format definitions, plus well-formedness."""
import re
from .. import fmt
from ..core import *

TECHNIQUE = "property-based testing: generated documents against a reference lexer of the format definitions"
NOTE = ("Search over generated documents, not a proof. Oracle: an independent longest-match lexer over a frozen copy of the format "
        "definitions (config/formats.json), which says which stretches of a document are markup, comments, layout or text, "
        "and a well-formedness parser for the stream. The classification of the definitions themselves is taken as given.")
TOOLS = ["apertium-des" + f for f in fmt.FMTS]
LIB = []
RULE = ("documents of text in several scripts, reserved characters, tags and comments sampled from the format's rules (nested, "
        "unterminated, cut, any letter case), declared and undeclared entities, layout and blocks above 8 kB, with the options "
        "-n, -i and -o and file arguments; non-trivial: at least one piece of markup and one piece of text")


def case(d, name=None):
    name = name or d.pick(fmt.FMTS)
    return {"f": name, "doc": fmt.document(d, name), "n": d.chance(25), "i": d.chance(25), "files": d.weighted([(8, 0), (1, 1), (1, 2)]),
            "swap": d.bool(), "o": name.startswith("html") and d.chance(20)}


def cmd(c, kind, n=False, i=False, inp=b"", files=0, h=False):
    argv = ["apertium-%s%s" % (kind, c["f"])]
    o = (["-n"] if n else []) + (["-i"] if i else []) + (["-o"] if h else [])
    if c.get("swap"):
        o = o[::-1]
    argv += o
    if files == 0:
        return ok(run(argv, inp)).out
    d = scratch_dir()
    try:
        argv.append(wfile(d, "in", inp))
        if files == 1:
            return ok(run(argv)).out
        r = ok(run(argv + [d + "/out"]))
        need(r.out == b"", "%s wrote %r to stdout with an output file given", argv, r.out)
        return open(d + "/out", "rb").read()
    finally:
        shutil.rmtree(d)


BLK = re.compile(r"\[@(/tmp/[A-Za-z0-9]{1,32})\]")


def wellformed(s, escset):
    i, n = 0, len(s)
    inb = False
    while i < n:
        c = s[i]
        if c == "\\":
            need(i + 1 < n, "stream ends in an escape: %r", s)
            i += 2
            continue
        if inb:
            need(c != "[", "'[' inside a superblank: %r", s)
            inb = c != "]"
        else:
            need(c not in "]^$/@{}<>" or ord(c) not in escset, "reserved character %r outside a superblank is not escaped: %r", c, s)
            inb = c == "["
        i += 1
    need(not inb, "superblank not closed: %r", s)


def check(c):
    f = fmt.get(c["f"])
    doc = c["doc"].encode("utf8")
    want, toks = f.deformat(doc, c["n"], c["i"], c.get("o"))
    got = cmd(c, "des", c["n"], c["i"], doc, c["files"], c.get("o")).decode("utf8", "surrogateescape")
    files = []
    try:
        if any(not isinstance(p, str) for p in want):
            files = [m.group(1) for m in BLK.finditer(got)]
            blocks = [p[1] for p in want if not isinstance(p, str)]
            need(len(files) == len(blocks), "large blocks: %d in the output, %d in the document\n doc %r", len(files), len(blocks), c["doc"][:200])
            for a, b in zip(files, blocks):
                have = open(a, "rb").read().decode("utf8", "surrogateescape")
                same(have, b, "content of a large block")
            got = BLK.sub("[@BLK]", got)
    finally:
        for a in files:
            if re.fullmatch(r"/tmp/[A-Za-z0-9]{1,32}", a) and os.path.isfile(a):
                os.unlink(a)
    wellformed(got.replace("[@BLK]", "[BLK]"), f.escset)
    same(got, "".join(p if isinstance(p, str) else "[@BLK]" for p in want), "stream of the %s document %r%s%s" % (
        c["f"], c["doc"], " -n" if c["n"] else "", " -i" if c["i"] else "") + (" -o" if c.get("o") else ""))
    cl = {c["f"]} | {t[3] for t in toks} | {"eos" for t in toks if t[0] == "buf" and t[2] & 1} | {"headline" for t in toks if c.get("o") and t[0] == "buf" and t[2] & 2}
    if files:
        cl.add("large block")
    kinds = {t[3] for t in toks}
    return bool(kinds & {"tag", "comment", "space", "entity"}) and bool(kinds & {"text", "rep"}), cl


SUBS = {"doc": {"gen": case, "check": check}}


def setup():
    for f in fmt.FMTS:
        fmt.get(f)
