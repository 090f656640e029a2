"""P32 filters generated from format definitions (deformat.xsl, reformat.xsl), against the reference model of the definition."""
import subprocess
from .. import build, fmt
from ..core import *
from . import p01, p02, p03

TECHNIQUE = "property-based testing: generated format definitions, their generated filters run on generated documents and streams against the reference model"
NOTE = ("Search over generated definitions and documents, not a proof. Oracle: the reference lexer and unescaper of P02 and P03 applied to the generated definition, and the round trip. "
        "Outside: the Matxin mode, regular expressions with start conditions or trailing context, and preferred spellings of single-byte characters.")
TOOLS = []
LIB = []
RULE = ("format definitions with up to six tag rules and four comment rules of any priorities (nested comments), up to two replacement rules, several escape and space sets, block "
        "sizes from 3 to 8192, either case sensitivity, sentence and headline ends; eight documents each made from its rules, and four streams; non-trivial: a document with "
        "markup and text, in a definition with at least two rules")
FLAGS = None
DIR = None

TAGS = ['"<"[^>]*">"', '"<b>"', '"</"[a-z]+">"', '"{{"[a-z]*"}}"', '[0-9]+"pt"', '("\\n\\n")+', '"&nbsp;"', '"%%"', '"=="', '"<"("p"|"br")[^>]*">"', '"é"', '"<hr"[ ]*"/"?">"',
        '[*]+', '"\\\\"[a-z]+', '"a"[b]{1,2}"c"', '"http://"[a-z.]+', '"\'\'"', '"@"[0-9]', '(("\\n\\n")|("\\r\\n\\r\\n"))+', '"["[a-z]+"]"', '"]]"']
COMM = [['"<!--"', '"-->"'], ['"/*"', '"*/"'], ['"<x"[^>]*">"', '"</x"[^>]*">"'], ['"(("', '"))"'], ['"%"', '\\n'], ['"$$"', '"$$"'], ['"<pre>"', '"</pre>"'], ['"{|"', '"|}"'],
        ['"[["', '"]]"'], ['"é("', '")é"']]
REPS = [['"&"[^;\\n]+";"', [["&amp;", "&"], ["&at;", "\\\\@"], ["&eacute;", "é"], ["&quot;", '\\"'], ["&#91;", "\\\\["], ["&x;", "xyz"], ["&e;", ""], ["&Eacute;", "É"]]],
        ['"~"[a-zA-Z]', [["~n", "ñ"], ["~N", "Ñ"], ["~z", "漢😀"]]], ['"\\\\\'"[a-z]', [["\\\\'e", "é"], ["\\\\'a", "á"]]], ['[0-9]', [["1", "one"], ["2", "\\\\@"]]]]
ESCS = ['[][^@\\\\/$]', '[][^@\\\\/${}]', '[][\\\\/@<>^${}]', '(\\\\|[][<>@^$/{}])', '[][^@\\\\/${}|#]']
SPACES = ['[ \\n\\t\\r~]', '[ \\n\\t\\r<>~]', '[ \\n\\t\\r]', '[ \\n]', '[ \\n\\t\\r<>{}~]', '[ \\n\\t\\r$*~]']


def definition(d):
    rules = [{"tag": t, "type": d.pick(["empty", "open", "close"])} for t in d.shuffled(TAGS)[:d.int(0, 6)]]
    rules += [{"begin": b, "end": e, "type": "comment"} for b, e in d.shuffled(COMM)[:d.weighted([(3, 1), (2, 0), (3, 2), (2, 3), (1, 4)])]]
    rules = d.shuffled(rules) or [{"tag": '("\\n\\n")+', "type": "empty"}]
    for r in rules:
        r.update(prio=d.int(1, 6), eos=d.chance(35), eoh=d.chance(15))
    reps = [{"re": r, "map": {k: v for k, v in m if not d.chance(25)}} for r, m in d.shuffled(REPS)[:d.weighted([(4, 0), (4, 1), (2, 2)])]]
    return {"rules": rules, "reps": [r for r in reps if r["map"]], "space": d.pick(SPACES), "escape": d.pick(ESCS), "large": d.pick([8192, 20, 3, 100, 8192]),
            "caseless": d.bool(), "order": d.bool()}


def case(d):
    D = definition(d)
    f = fmt.Fmt("gen", D)
    fmt.CUSTOM["gen"] = f
    docs = [p02.case(d, "gen") for _ in range(d.int(1, 8))]
    for c in docs:
        c["o"] = d.chance(20)
    streams = [p03.case(d, "gen") for _ in range(d.int(0, 4))]
    return {"def": D, "docs": docs, "streams": streams}


def q(s):
    return '"%s"' % s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")


def xml(D):
    o = ['<?xml version="1.0" encoding="UTF-8"?>\n<format name="gen">\n<options>\n<largeblocks size="%d"/>\n<input encoding="UTF-8"/>\n<output encoding="UTF-8"/>\n'
         '<tag-name regexp="[a-z]+"/>\n<escape-chars regexp=%s/>\n<space-chars regexp=%s/>\n<case-sensitive value="%s"/>\n</options>\n<rules>\n'
         % (D["large"], q(D["escape"]), q(D["space"]), "no" if D["caseless"] else "yes")]
    fr = []
    for r in D["rules"]:
        a = '<format-rule type="%s" priority="%d"' % (r["type"], r["prio"]) + (' eos="yes"' if r["eos"] else ' eos="no"' if r["prio"] % 2 else "") + (' eoh="yes"' if r["eoh"] else "")
        fr.append(a + ">" + ("<tag regexp=%s/>" % q(r["tag"]) if "tag" in r else "<begin regexp=%s/><end regexp=%s/>" % (q(r["begin"]), q(r["end"]))) + "</format-rule>\n")
    rr = ["<replacement-rule regexp=%s>%s</replacement-rule>\n" % (q(r["re"]), "".join("<replace source=%s target=%s/>" % (q(k), q(v)) for k, v in r["map"].items())) for r in D["reps"]]
    return "".join(o + (rr + fr if D["order"] else fr + rr)) + "</rules>\n</format>\n"


def setup():
    """a precompiled header with what both generated filters include"""
    global FLAGS, DIR
    DIR = os.path.join(ENV.scratch, "pch")
    os.makedirs(DIR)
    with open(DIR + "/all.h", "w") as f:
        f.write("".join("#include <%s>\n" % h for h in ("cstdlib", "iostream", "map", "string", "vector", "regex.h", "lttoolbox/lt_locale.h", "lttoolbox/ustring.h", "utf8.h", "libgen.h",
                                                       "unistd.h", "cstring", "cstdio", "errno.h")))
    FLAGS = [f for f in build._flags() if f != "-DHAVE_CONFIG_H"] + ["-DGENFORMAT", "-w", "-O0"]
    subprocess.run(["g++"] + FLAGS + [DIR + "/all.h", "-o", DIR + "/all.h.gch"], check=True)


def tool_run(argv, what, D):
    p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    if p.returncode:
        raise Violation("%s fails for the definition (status %d): %s\n%s" % (what, p.returncode, p.stderr.decode("utf8", "replace")[:1500], xml(D)))
    return p.stdout


def check(c):
    D = c["def"]
    top = scratch_dir()
    old = ENV.bin
    f = fmt.Fmt("gen", D)
    fmt.CUSTOM["gen"] = f
    cl = set()
    nt = False
    try:
        wfile(top, "gen.xml", xml(D))
        tool_run(["xmllint", "--dtdvalid", build.A + "/format.dtd", "--noout", top + "/gen.xml"], "format.dtd", D)
        for kind, sheet in (("des", "deformat"), ("re", "reformat")):
            if kind == "des" or c["streams"] or c["docs"]:
                l = tool_run(["xsltproc", "--stringparam", "mode", "apertium", build.A + "/%s.xsl" % sheet, top + "/gen.xml"], sheet + ".xsl", D)
                wfile(top, kind + ".l", l)
                tool_run(["flex", "-o" + top + "/%s.cc" % kind, top + "/%s.l" % kind], "flex on the output of %s.xsl" % sheet, D)
                try:
                    subprocess.run(["g++"] + FLAGS + ["-include", DIR + "/all.h", "-o", top + "/apertium-%sgen" % kind, top + "/%s.cc" % kind, "-llttoolbox", "-licuio", "-licuuc"],
                                   check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
                except subprocess.CalledProcessError as e:
                    raise Violation("the filter made by %s.xsl does not compile: %s\n%s" % (sheet, e.stderr.decode("utf8", "replace")[:1500], xml(D)))
        ENV.bin = top
        for x in c["docs"]:
            try:
                n, k = p02.check(x)
                nt = nt or n
                cl |= k
                if not x.get("o"):
                    p01.check(x)
                    cl.add("round trip")
            except Violation as v:
                if v.sig:
                    continue        # P01-nodot: recorded with P01
                raise Violation("%s\nformat definition:\n%s" % (v, xml(D)), v.sig)
        for x in c["streams"]:
            try:
                p03.check(x)
            except Violation as v:
                raise Violation("%s\nformat definition:\n%s" % (v, xml(D)))
            cl.add("stream")
    finally:
        ENV.bin = old
        shutil.rmtree(top)
    cl.discard("gen")
    cl.add("comments%d" % sum("begin" in r for r in D["rules"]))
    cl.add("caseless" if D["caseless"] else "case-sensitive")
    return nt and len(D["rules"]) > 1, cl


SUBS = {"def": {"gen": case, "check": check}}
