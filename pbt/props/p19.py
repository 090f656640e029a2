"""P19 variant filters and dictionary converters: models over generated XML trees.

A tree is [tag, {attributes}, [children]]; a child is a tree or a string."""
import xml.etree.ElementTree as ET
from .. import scripts
from ..core import *

TECHNIQUE = "property-based testing: generated dictionaries, rule files and metalrx files against reference models of the filters"
NOTE = ("Search over generated XML files, not a proof. Oracle: reference models on trees, compared by element, attributes and text; layout whitespace, comments, the "
        "XML declaration and character encoding of the output are not compared. The scripts of the working tree are run as they are (the .in files with their directory filled in).")
TOOLS = []
LIB = []
RULE = ("dictionaries with alphabets, symbols, paradigms, sections and entries with variants, restrictions, senses and further attributes; rule files with elements of several "
        "variants, and literals that only look like it; metalrx files with macros, sequences and repetitions; reserved XML characters in text and attributes; non-trivial: the "
        "result differs from the input")

DIR = None


def setup():
    global DIR
    DIR = scripts.prepare()


def script(name, argv, stdin=b""):
    return scripts.script(DIR, name, argv, stdin)


# ---------------------------------------------------------------- trees

def esc(s, q=False):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    return s.replace('"', "&quot;") if q else s


def xml(t, pretty, com=False, lvl=0):
    if isinstance(t, str):
        return esc(t)
    a = "".join(" %s=\"%s\"" % (k, esc(v, True)) for k, v in t[1].items())
    if not t[2]:
        return "<%s%s/>" % (t[0], a) if pretty else "<%s%s></%s>" % (t[0], a, t[0])
    mixed = any(isinstance(c, str) for c in t[2]) or t[0] in ("l", "r", "i", "g", "re")
    nl = "\n" + "  " * lvl if pretty and not mixed else ""
    o = "<%s%s>" % (t[0], a)
    for c in t[2]:
        o += (nl + "  " if nl else "") + ("<!-- v=\"x\" <e v='a'/> -->" if com and not mixed and nl else "") + xml(c, pretty, com, lvl + 1)
    return o + nl + "</%s>" % t[0]


def doc(t, c):
    return '<?xml version="1.0" encoding="UTF-8"?>\n' + xml(t, c["pretty"], c["com"]) + "\n"


def tree(e):
    ch = []
    if e.text and e.text.strip():
        ch.append(e.text)
    for k in e:
        if isinstance(k.tag, str):
            ch.append(tree(k))
        if k.tail and k.tail.strip():
            if ch and isinstance(ch[-1], str):
                ch[-1] += k.tail
            else:
                ch.append(k.tail)
    return [e.tag, dict(e.attrib), ch]


def parse(b, what, src):
    try:
        return tree(ET.fromstring(b))
    except ET.ParseError as e:
        raise Violation("%s: the output is not well-formed (%s)\n%s\ninput:\n%s" % (what, e, b.decode("utf8", "replace")[:3000], src))


def join(ch):
    o = []
    for c in ch:
        if isinstance(c, str) and o and isinstance(o[-1], str):
            o[-1] += c
        else:
            o.append(c)
    return o


def canon(t):
    if isinstance(t, str):
        return t
    return [t[0], dict(sorted(t[1].items())), join([canon(c) for c in t[2]])]


def first_diff(a, b, path=""):
    if isinstance(a, str) or isinstance(b, str) or a[0] != b[0]:
        return path, a, b
    path += "/" + a[0]
    if a[1] != b[1]:
        return path + "/@", a[1], b[1]
    for i, (x, y) in enumerate(zip(a[2], b[2])):
        if x != y:
            return first_diff(x, y, path + "[%d]" % i)
    return path + " children", len(a[2]), len(b[2])


def equal(got, want, what, src):
    got, want = canon(got), canon(want)
    if got != want:
        p, a, b = first_diff(got, want)
        raise Violation("%s differs at %s\n  got:  %r\n  want: %r\ninput:\n%s" % (what, p, a, b, src[:3000]))


def layout(d, c):
    c["pretty"] = not d.chance(25)
    c["com"] = d.chance(25)
    return c


# ---------------------------------------------------------------- dictionaries

SYMS = ["n", "sg", "vblex", "é"]
VARS = ["por", "por_BR", "nno", "a", "other", "val_gva", "others"]


def txt(d, lo=1):
    return d.str(["a", "b", "c", "é", "漢", "&", "<", ">", '"', "'", "+", "D"], lo, 4)


def string(d, ref=True):
    def part(d):
        k = d.n(7)
        if k < 3:
            return txt(d)
        return [[d.pick(["b", "j", "a", "m", "d", "t", "w"]), {}, []], ["s", {"n": d.pick(SYMS)}, []], ["g", {}, [txt(d)]], ["s", {"n": d.pick(SYMS)}, []], txt(d)][k - 3]
    return join(d.list(part, 0, 4, 65))


def piece(d):
    k = d.n(5)
    if k < 2:
        return ["p", {}, [["l", {}, string(d)], ["r", {}, string(d)]]]
    if k == 2:
        return ["i", {}, string(d)]
    if k == 3:
        return ["par", {"n": d.pick(["p1", "p2", "é"])}, []]
    if k == 4:
        return ["re", {}, [d.pick(["[0-9]+", "a|b", "[<&>]", "[0-9]+  [a-z]", " x+ "])]]
    return ["ig", {}, string(d)]


def entry(d, attrs):
    a = {}
    for k, vals, p in attrs:
        if d.chance(p):
            a[k] = d.pick(vals)
    items = list(a.items())
    return ["e", dict(d.shuffled(items)), d.list(piece, 1, 4, 50)]


COMMON = [("lm", ["casa", 'a"b', "R&D", "x<y", "é"], 25), ("c", ["a comment", "v", "LR"], 12), ("a", ["me"], 10), ("i", ["yes", "no"], 8), ("w", ["1.5"], 6)]
RESTR = [("r", ["LR", "RL"], 40)]


def dictionary(d, attrs):
    def sect(i, d):
        return ["section", {"id": d.pick(["main", "s%d" % i]), "type": d.pick(["standard", "inconditional", "postblank"])},
                d.list(lambda d: entry(d, attrs), 0, 5, 75)]
    ch = []
    if d.chance(80):
        ch.append(["alphabet", {}, [d.pick(["abcé", "A-Z<&>"])]] if d.chance(80) else ["alphabet", {}, []])
    ch.append(["sdefs", {}, [["sdef", {"n": s}, []] for s in SYMS]])
    if d.chance(75):
        ch.append(["pardefs", {}, [["pardef", {"n": n}, d.list(lambda d: entry(d, attrs), 0, 4, 70)] for n in ("p1", "p2")]])
    for i in range(d.int(1, 2)):
        ch.append(sect(i, d))
    return ["dictionary", {}, ch]


def map_e(t, f):
    """f(e) -> replacement or None"""
    if isinstance(t, str):
        return t
    ch = []
    for c in t[2]:
        if not isinstance(c, str) and c[0] == "e":
            c = f(c)
            if c is None:
                continue
        else:
            c = map_e(c, f)
        ch.append(c)
    return [t[0], t[1], ch]


def dix_case(d):
    return layout(d, {"t": dictionary(d, [("v", VARS[:3], 55)] + RESTR + COMMON), "lang": d.pick(VARS[:3]), "side": d.pick(["left", "right"])})


def dix_check(c):
    top = scratch_dir()
    try:
        src = doc(c["t"], c)
        f = wfile_p(top, "in.dix", src)
        r = ok(run([DIR + "/apertium-filter-dix", c["lang"], c["side"], f]))
        got = parse(r.out, "apertium-filter-dix %s %s" % (c["lang"], c["side"]), src)
        n = {"kept": 0, "turned": 0, "dropped": 0}

        def f1(e):
            a = dict(e[1])
            v = a.pop("v", None)
            if v is not None and v != c["lang"]:
                want = "LR" if c["side"] == "left" else "RL"
                if a.get("r", want) != want:
                    n["dropped"] += 1
                    return None
                a["r"] = want
                n["turned"] += 1
            elif v is not None:
                n["kept"] += 1
            return ["e", a, e[2]]
        equal(got, map_e(c["t"], f1), "apertium-filter-dix %s %s" % (c["lang"], c["side"]), src)
    finally:
        shutil.rmtree(top)
    return sum(n.values()) > 0, {k for k in n if n[k]} | {c["side"]}


def wfile_p(d, name, data):
    wfile(d, name, data)
    return os.path.join(d, name)


GENV = {"v": "apertium-genvdix", "vl": "apertium-genvldix", "vr": "apertium-genvrdix"}


def genv_case(d):
    vs = [x for x in VARS] + ["por por_BR", "nno a", "  a  por ", "a other", "po", "porx nnoo"]
    return layout(d, {"t": dictionary(d, [("v", vs, 40), ("vl", vs, 40), ("vr", vs, 40)] + RESTR + COMMON), "k": d.pick(["v", "vl", "vr"]), "alt": d.pick(VARS)})


def genv_check(c):
    top = scratch_dir()
    try:
        src = doc(c["t"], c)
        f = wfile_p(top, "in.dix", src)
        r = script(GENV[c["k"]], [c["alt"], f])
        what = "%s %s" % (GENV[c["k"]], c["alt"])
        got = parse(r.out, what, src)
        n = {"wanted": 0, "other": 0}
        other = "other" if c["alt"] != "other" else "rehto"

        def f1(e):
            a = dict(e[1])
            if c["k"] in a:
                mine = c["alt"] in a[c["k"]].split()
                a[c["k"]] = c["alt"] if mine else other
                n["wanted" if mine else "other"] += 1
            return ["e", a, e[2]]
        equal(got, map_e(c["t"], f1), what, src)
    finally:
        shutil.rmtree(top)
    return sum(n.values()) > 0, {k for k in n if n[k]} | {c["k"]}


def sense_case(d):
    attrs = [("slr", ["1 D", "1", "2 D", "D", "hus D", "husD", "x D y", "nom", " D"], 40), ("srl", ["1 D", "1", "casa D", "casaD", "x D y", "nom"], 40)] + RESTR + COMMON
    t = dictionary(d, attrs)
    return layout(d, {"t": fix_sense(t)})


def fix_sense(t):
    """paradigm entries have no senses; an entry has a sense only for directions it is used in"""
    def f(e):
        a = dict(e[1])
        if a.get("r") == "LR":
            a.pop("srl", None)
        if a.get("r") == "RL":
            a.pop("slr", None)
        return ["e", a, e[2]]

    def nos(e):
        return ["e", {k: v for k, v in e[1].items() if k not in ("slr", "srl")}, e[2]]
    return [t[0], t[1], [map_e(c, nos if c[0] == "pardefs" else f) for c in t[2]]]


def sense_check(c):
    top = scratch_dir()
    try:
        src = doc(c["t"], c)
        f = wfile_p(top, "in.dix", src)
        o = os.path.join(top, "out.dix")
        ok(run([DIR + "/apertium-translate-to-default-equivalent", f, o]))
        with open(o, "rb") as fh:
            got = parse(fh.read(), "apertium-translate-to-default-equivalent", src)
        n = {"default": 0, "one-way": 0, "dropped": 0}

        def f1(e):
            a = e[1]
            if "slr" not in a and "srl" not in a:
                return e
            # usable in a direction: allowed by r, and no conflict there or the default of it
            lr = a.get("r") != "RL" and ("slr" not in a or a["slr"].endswith(" D"))
            rl = a.get("r") != "LR" and ("srl" not in a or a["srl"].endswith(" D"))
            n["default" if lr and rl else "one-way" if lr or rl else "dropped"] += 1
            if not lr and not rl:
                return None
            return ["e", {} if lr and rl else {"r": "LR" if lr else "RL"}, e[2]]
        equal(keep_attrs(got), keep_attrs(map_e(c["t"], f1), c["t"]), "apertium-translate-to-default-equivalent", src)
    finally:
        shutil.rmtree(top)
    return sum(n.values()) > 0, {k for k in n if n[k]}


def keep_attrs(t, orig=None):
    """entries with their restriction only (the converter does not keep the other attributes of the entries it decides)"""
    def f(e):
        return ["e", {k: v for k, v in e[1].items() if k == "r"}, e[2]]
    t = map_e(t, f)
    return [t[0], t[1], [c for c in t[2] if not isinstance(c, str)]]


# ---------------------------------------------------------------- rule files

def rule_tree(d, depth, attr, vals, litp):
    tags = ["rule", "choose", "when", "otherwise", "let", "section-rules", "cat-item", "out", "chunk", "e", "p"]
    lits = ["with-param", "param", "list-item", "lit", "lit-tag", "attr-item", "def-var"]
    t = d.pick(lits) if d.chance(litp) else d.pick(tags)
    a = {}
    if d.chance(45):
        a[attr] = d.pick(vals)
    if d.chance(40):
        a[d.pick(["n", "c", "tags", "lemma", "V", "v2"])] = d.pick(["x", "por", "a b", 'q"&<', "é"])
    ch = d.list(lambda d: rule_tree(d, depth - 1, attr, vals, litp), 0, 4, 65) if depth > 0 and not (t in lits) else []
    return [t, dict(d.shuffled(list(a.items()))), ch]


def rules_case(d):
    vals = ["por", "por_BR", "nno", "por nno", "por_BR por  nno", "", "a", "porx", "nno por a"]
    return layout(d, {"t": ["transfer", {"default": "chunk"} if d.bool() else {}, d.list(lambda d: rule_tree(d, 3, "v", vals, 20), 0, 5, 80)],
                      "langs": d.shuffled(["por", "nno", "por_BR", "a"])[:d.int(1, 2)], "stdin": d.bool()})


SKIP = {"with-param", "param", "list-item", "lit", "lit-tag", "attr-item", "def-var"}


def rules_check(c):
    top = scratch_dir()
    try:
        src = doc(c["t"], c)
        f = wfile_p(top, "in.t1x", src)
        # (the optional output name cannot be given: all names but the last are languages)
        got = script("apertium-filter-rules", c["langs"] + ["-" if c["stdin"] else f], src.encode() if c["stdin"] else b"").out
        got = parse(got, "apertium-filter-rules", src)
        n = {"kept": 0, "dropped": 0, "literal": 0}

        def f1(t):
            ch = []
            for x in t[2]:
                if isinstance(x, str) or x[0] in SKIP:
                    n["literal"] += not isinstance(x, str) and "v" in x[1]
                    ch.append(x)
                    continue
                a = dict(x[1])
                v = a.pop("v", None)
                if v is not None and not set(c["langs"]) <= set(v.split()):
                    n["dropped"] += 1
                    continue
                n["kept"] += v is not None
                ch.append(f1([x[0], a, x[2]]))
            return [t[0], t[1], ch]
        equal(got, f1(c["t"]), "apertium-filter-rules %s" % c["langs"], src)
    finally:
        shutil.rmtree(top)
    return n["kept"] + n["dropped"] > 0, {k for k in n if n[k]} | {"langs%d" % len(c["langs"])}


def xml_case(d):
    attr = d.pick(["v", "v", "vr", "alt"])
    vals = ["por", "por_BR", "nno", "por,nno", "por_BR,por,nno", "", "a", "porx", "nno,a"]
    return layout(d, {"t": ["metalrx", {}, d.list(lambda d: rule_tree(d, 3, attr, vals, 15), 0, 5, 80)], "attr": attr, "opt": attr != "v" or d.bool(),
                      "vars": d.shuffled(["por", "nno", "por_BR", "a"])[:d.int(1, 3)], "keep": d.subset(["lit", "with-param", "rule"], 25), "order": d.n(2)})


def xml_check(c):
    top = scratch_dir()
    try:
        src = doc(c["t"], c)
        f = wfile_p(top, "in.xml", src)
        o = os.path.join(top, "out.xml")
        pos = [",".join(c["vars"]), f, o]
        opts = (["--attr", c["attr"]] if c["opt"] and c["order"] else ["-a", c["attr"]] if c["opt"] else [])
        for k in c["keep"]:
            opts += ["--keep" if c["order"] == 2 else "-k", k]
        argv = opts + pos if c["order"] else pos + opts
        script("apertium-filter-xml", argv)
        with open(o, "rb") as fh:
            got = parse(fh.read(), "apertium-filter-xml", src)
        n = {"kept": 0, "dropped": 0, "literal": 0}

        def f1(t):
            ch = []
            for x in t[2]:
                if isinstance(x, str) or x[0] in c["keep"]:
                    n["literal"] += not isinstance(x, str) and c["attr"] in x[1]
                    ch.append(x)
                    continue
                a = dict(x[1])
                v = a.pop(c["attr"], None)
                if v is not None and not set(c["vars"]) & set(v.split(",")):
                    n["dropped"] += 1
                    continue
                n["kept"] += v is not None
                ch.append(f1([x[0], a, x[2]]))
            return [t[0], t[1], ch]
        equal(got, f1(c["t"]), "apertium-filter-xml %s" % argv, src)
    finally:
        shutil.rmtree(top)
    return n["kept"] + n["dropped"] > 0, {k for k in n if n[k]}


# ---------------------------------------------------------------- metalrx

def lrx_elt(d, depth=1, seqs=(), par=0):
    k = d.n(6 if depth else 3)
    val = (lambda d: d.pick(["{{p1}}", "a{{p%d}}b" % d.int(1, par), "{{p%d}}" % d.int(1, par), "x"])) if par else (lambda d: d.pick(["casa", "n.*", "é", "x&y", "*"]))
    if k == 5 and seqs:
        return ["seq", {"n": d.pick(list(seqs))}, []]
    if k >= 5:
        return ["or", {}, d.list(lambda d: lrx_elt(d, depth - 1, seqs, par), 1, 3, 50)]
    a = {}
    if d.chance(70):
        a["lemma"] = val(d)
    if d.chance(60):
        a["tags"] = val(d)
    return ["match", a, [["select", {"lemma": val(d)}, []]] if k == 4 else []]


def lrx_rule(d, seqs, par=0, rep=True):
    ch = d.list(lambda d: lrx_elt(d, 1, seqs, par), 1, 3, 60)
    if rep and d.chance(50):
        a = {}
        if d.chance(90):
            a["upto"] = str(d.int(0, 4))
        if d.chance(60):
            a["from"] = str(d.int(0, 3))
        ch.insert(d.n(len(ch)), ["repeat", dict(d.shuffled(list(a.items()))), d.list(lambda d: lrx_elt(d, 1, seqs, 0), 1, 2, 50)])
    at = {"weight": d.pick(["1", "0.8"])} if d.chance(70) else {}
    if d.chance(30):
        at[d.pick(["c", "name", "id"])] = d.pick(["r1", "a comment", "é"])
    return ["rule", dict(d.shuffled(list(at.items()))), ch]


def lrx_case(d):
    seqs = d.list(lambda d: d.list(lambda d: lrx_elt(d, 1), 1, 3, 50), 0, 2, 60)
    names = ["s%d" % i for i in range(len(seqs))]
    ch = []
    if seqs:
        ch.append(["def-seqs", {}, [["def-seq", {"n": n}, s] for n, s in zip(names, seqs)]])
    return layout(d, {"t": ["metalrx", {}, ch + [["rules", {}, d.list(lambda d: lrx_rule(d, names), 1, 4, 65)]]]})


def lrx_check(c):
    top = scratch_dir()
    try:
        src = doc(c["t"], c)
        f = wfile_p(top, "in.metalrx", src)
        o = os.path.join(top, "out.lrx")
        ok(run([DIR + "/apertium-metalrx-to-lrx", f, o]))
        need(sorted(os.listdir(top)) == ["in.metalrx", "out.lrx"], "apertium-metalrx-to-lrx leaves files %s", sorted(os.listdir(top)))
        with open(o, "rb") as fh:
            got = parse(fh.read(), "apertium-metalrx-to-lrx", src)
        defs = {}
        for t in c["t"][2]:
            if t[0] == "def-seqs":
                for s in t[2]:
                    defs[s[1]["n"]] = s[2]
        cl = set()

        def ex(ts):
            out = []
            for t in ts:
                if t[0] == "seq":
                    cl.add("seq")
                    out += defs[t[1]["n"]]
                else:
                    out.append([t[0], t[1], ex(t[2])])
            return out
        want = []
        for r in c["t"][2][-1][2]:
            i = [k for k, x in enumerate(r[2]) if x[0] == "repeat"]
            if not i:
                want.append(["rule", r[1], ex(r[2])])
                continue
            i = i[0]
            rep = r[2][i]
            if "upto" not in rep[1]:
                cl.add("no-upto")
                want.append(["rule", r[1], ex(r[2][:i] + r[2][i + 1:])])
                continue
            hi, lo = int(rep[1]["upto"]), int(rep[1].get("from", "1"))
            if lo > hi or hi == 0 and "from" not in rep[1]:
                cl.add("empty-range")
            if lo > 1:
                cl.add("from>1")
            if lo == 0:
                cl.add("from0")
            cl.add("repeat")
            for k in range(lo, hi + 1):
                want.append(["rule", r[1], ex(r[2][:i] + rep[2] * k + r[2][i + 1:])])
        # the rules of a range may be written in any order
        src_rules = ["rules", {}, sorted(want, key=repr)]
        need(got[0] == "rules", "apertium-metalrx-to-lrx: root element %s\n%s", got[0], src)
        equal(["rules", got[1], sorted((canon(x) for x in got[2]), key=repr)], ["rules", {}, sorted((canon(x) for x in want), key=repr)], "apertium-metalrx-to-lrx", src)
        del src_rules
    finally:
        shutil.rmtree(top)
    return bool(cl), cl


def mac_case(d):
    macs = []
    for i in range(d.int(1, 3)):
        macs.append(["def-macro", {"name": "m%d" % i, "npar": "12"}, d.list(lambda d: lrx_rule(d, (), 12, False), 1, 3, 50)])
    rules = []
    for _ in range(d.int(0, 5)):
        if d.chance(60):
            a = {"name": "m%d" % d.n(len(macs) - 1)}
            for k in d.shuffled(list(range(1, 13)))[:d.int(0, 12)]:
                a["p%d" % k] = d.pick(["casa", "n.sg", "é", "R&D", "x<y", 'q"', "$1", "\\1"])
            rules.append(["macro", a, []])
        else:
            rules.append(lrx_rule(d, (), 0, False))
    ch = [["def-macros", {}, macs], ["rules", {}, rules]]
    return layout(d, {"t": [d.pick(["metalrx", "metalrx", "lrx"]), {}, ch if d.chance(80) else ch[::-1]]})


def mac_check(c):
    top = scratch_dir()
    try:
        src = doc(c["t"], c)
        f = wfile_p(top, "in.metalrx", src)
        o = os.path.join(top, "out.lrx")
        script("apertium-metalrx", [f, o])
        with open(o, "rb") as fh:
            got = parse(fh.read(), "apertium-metalrx", src)
        ch = {x[0]: x for x in c["t"][2]}
        macs = {m[1]["name"]: m[2] for m in ch["def-macros"][2]}
        plain, made = [], []

        def sub(t, a):
            def s(v):
                for k in a:
                    if k[0] == "p":
                        v = v.replace("{{%s}}" % k, a[k])
                return v
            return [t[0], {k: s(v) for k, v in t[1].items()}, [sub(x, a) for x in t[2]]]
        for r in ch["rules"][2]:
            if r[0] == "macro":
                made += [sub(x, r[1]) for x in macs[r[1]["name"]]]
            else:
                plain.append(r)
        # the rules a macro makes come after the ones that are written out
        equal(got, ["lrx", c["t"][1], [["rules", {}, plain + made]]], "apertium-metalrx", src)
    finally:
        shutil.rmtree(top)
    return bool(made), {"macros%d" % min(3, len(made))}


SUBS = {"dix": {"gen": dix_case, "check": dix_check, "weight": 2}, "genv": {"gen": genv_case, "check": genv_check, "weight": 2}, "sense": {"gen": sense_case, "check": sense_check},
        "rules": {"gen": rules_case, "check": rules_check}, "xml": {"gen": xml_case, "check": xml_check}, "lrx": {"gen": lrx_case, "check": lrx_check},
        "macro": {"gen": mac_case, "check": mac_check}}
