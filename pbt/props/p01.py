"""P01 deformat | reformat is the identity (up to the declared replacements)."""
from .. import fmt
from ..core import *
from . import p02

TECHNIQUE = "property-based testing: round trip of generated documents through deformatter and reformatter"
NOTE = ("Search over generated documents, not a proof. Oracle: the document itself, with each declared entity replaced by its declared "
        "character (the stretches that are entities are found by an independent lexer over the frozen format definitions).")
TOOLS = ["apertium-%s%s" % (k, f) for f in fmt.FMTS for k in ("des", "re")]
LIB = []
RULE = ("documents of text in several scripts, reserved characters, tags and comments sampled from the format's rules (nested, "
        "unterminated, cut), entities, layout and blocks above 8 kB, with -n and -i and file arguments; non-trivial: at least one "
        "piece of markup and one reserved or non-ASCII character")


def check(c):
    f = fmt.get(c["f"])
    doc = c["doc"].encode("utf8")
    stream = p02.cmd(c, "des", c["n"], c["i"], doc, c["files"])
    got = p02.cmd(c, "re", inp=stream, files=c["files"]).decode("utf8", "surrogateescape")
    toks = f.tokens(doc)
    want = b"".join(_esc(t[2]).encode("utf8") if t[0] == "rep" else t[1] for t in toks).decode("utf8")
    if got != want:
        sig = None
        if c["n"]:
            # the one recorded shape: a full stop right before an empty sentence-end mark
            out, _ = f.deformat(doc, True, c["i"])
            t = []                                     # (the stream's text, what it becomes)
            for p in out:
                if p == "[]" and t and t[-1][0][-1:] == "." and not t[-1][0].startswith("["):
                    x = t[-1][0][:-1]
                    t[-1] = (x, _un(x))
                elif isinstance(p, tuple):
                    t.append(("[@]", p[1]))
                elif p:
                    t.append((p, _un(p)))
            u = "".join(x[1] for x in t)
            if u == got:
                sig = "P01-nodot"
        same(got, want, "%s document after a round trip%s%s (stream %r)" % (c["f"], " -n" if c["n"] else "", " -i" if c["i"] else "",
                                                                        stream.decode("utf8", "replace")), sig=sig)
    kinds = {t[3] for t in toks}
    cl = {c["f"]} | kinds
    return bool(kinds & {"tag", "comment", "entity"} or c["f"] == "txt" and "space" in kinds) and \
        any(t[0] == "esc" or t[1][0] > 127 for t in toks), cl


def _un(x):
    if x in ("[]", ".[]"):
        return ""
    if x.startswith("["):
        x = x[1:-1] if x.endswith("]") and not x.endswith("\\]") else x[1:]
        return _esc(x)
    return _esc(x)


def _esc(x):
    o, i = "", 0
    while i < len(x):
        if x[i] == "\\":
            i += 1
        o += x[i:i + 1]
        i += 1
    return o


SUBS = {"doc": {"gen": p02.case, "check": check}}
setup = p02.setup
