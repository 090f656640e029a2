"""P05 apertium-adapt-docx: documents as trees; oracle computes for every group of adjacent text runs the nearest
word boundary at or after each run boundary and compares the resulting document tree."""
import re
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape
from ..core import *

TECHNIQUE = 'property-based testing: generated WordprocessingML documents against an invariant oracle'
NOTE = "Search over generated documents, not a proof. Oracle: paragraph-by-paragraph text conservation, untouched non-text content, and no text-run boundary inside a word, computed independently with an XML parser. Trusts libxml2 and Python's XML parser."
TOOLS = ["apertium-adapt-docx"]
LIB = []
RULE = ("WordprocessingML documents of paragraphs with text runs (letters of several scripts, hyphens, l·l, spaces, "
        "preserved or not), empty texts, run properties, proofing marks, tabs, breaks, links, multi-text runs and "
        "nested paragraphs; non-trivial: some run boundary falls inside a word")
W = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"
XS = "{http://www.w3.org/XML/1998/namespace}space"


def text(d):
    return d.str("aablLé-· .1Ж日&<'\u0301\U0001d4b3", 0 if d.chance(10) else 1, 5, 55)


def run_(d):
    return ["r", d.n(3), text(d), 1 if d.bool() else 0]


def item(d, depth):
    k = d.weighted([(62, 0), (6, 1), (5, 2), (6, 3), (6, 4), (5, 5), (4, 6), (6 if depth < 2 else 0, 7)])
    if k == 0:
        return run_(d)
    if k == 1:
        return ["mark", d.pick(["proofErr", "bookmarkStart", "bookmarkEnd"])]
    if k == 2:
        return ["pPr"]
    if k == 3:
        return ["sep", d.pick(["tab", "br", "fldChar", "drawing"])]
    if k == 4:
        return ["link", d.pick(["hyperlink", "ins", "smartTag", "hyperlink/ins", "sdt/sdtContent"]), d.list(run_, 0, 2, 60)]
    if k == 5:
        return ["mixed", run_(d), d.pick(["tab", "br"]), d.bool()]
    if k == 6:
        return ["two", run_(d), text(d)]
    return ["box", para(d, depth + 1)]


def para(d, depth=0):
    return d.list(lambda d: item(d, depth), 0, 7, 80)


def doc(d):
    return d.list(para, 1, 3, 40)


def case(d):
    return {"docs": d.list(doc, 1, 2, 15), "n": d.bool(), "p": d.chance(15), "stdin": d.bool()}


def el(tag, *kids, **attrs):
    e = ET.Element("{%s}%s" % (W, tag), {"{%s}%s" % (W, k): v for k, v in attrs.items()})
    for k in kids:
        e.append(k)
    return e


def t_el(text, preserve):
    e = el("t")
    e.text = text
    if preserve:
        e.set(XS, "preserve")
    return e


def r_el(r, *extra_after):
    kids = []
    if r[1]:
        kids.append(el("rPr", el(["", "b", "i", "u"][r[1]], val="x")))
    kids.append(t_el(r[2], r[3]))
    return el("r", *kids, *extra_after)


def item_el(x):
    k = x[0]
    if k == "r":
        return r_el(x)
    if k == "mark":
        return el(x[1], id="1")
    if k == "pPr":
        return el("pPr", el("pStyle", val="S"), el("rPr", el("b")))
    if k == "sep":
        return el("r", el(x[1]))
    if k == "link":
        e = [r_el(r) for r in x[2]]
        for t in reversed(x[1].split("/")):
            e = [el(t, *e)]
        return e[0]
    if k == "mixed":
        e = r_el(x[1])
        m = el(x[2])
        if x[3]:
            e.append(m)
        else:
            e.insert(0, m)
        return e
    if k == "two":
        return r_el(x[1], t_el(x[2], 0))
    return el("r", el("pict", el("txbxContent", para_el(x[1]))))


def para_el(p):
    return el("p", *[item_el(x) for x in p])


def sig(r):
    """significant text of a run: outer spaces only count when preserved"""
    return r[2] if r[3] else r[2].strip(" ")


ALPHA = re.compile(r"[^\W\d_]")


def isalpha(c):
    return c != "" and c in "ablLéЖ日\U0001d4b3"


def legal(s, i):
    """may a run boundary stand before s[i]? (a hyphen or middle dot ending the group goes with its word)"""
    if i <= 0 or i >= len(s):
        return True
    c2, c1, c = (s[i - 2] if i >= 2 else ""), s[i - 1], s[i]
    n = s[i + 1] if i + 1 < len(s) else None
    if isalpha(c1) and isalpha(c):
        return False
    if isalpha(c2) and c1 == "-" and isalpha(c):
        return False
    if isalpha(c1) and c == "-" and (n is None or isalpha(n)):
        return False
    if c2 and c2 in "Ll" and c1 == "·" and c in "Ll":
        return False
    if c1 in "Ll" and c == "·" and (n is None or n in "Ll"):
        return False
    return True


def expect(p, info):
    """expected items of a paragraph"""
    out = []
    group = []

    def flush():
        runs = [x for x in group if x[0] == "r"]
        texts = [sig(r) for r in runs]
        join = "".join(texts)
        if len(runs) > 1:
            ends, pos = [], 0
            prev = 0
            illegal = False
            new = []
            for t in texts:
                pos += len(t)
                b = pos
                while not legal(join, b):
                    b += 1
                if b != pos:
                    illegal = True
                b = max(b, prev)
                # an empty run never takes text over
                if t == "" and not new:
                    b = 0
                elif pos <= prev:
                    b = prev
                new.append((prev, b))
                prev = b
            if illegal:
                info["moved"] += 1
                k = 0
                for x in group:
                    if x[0] != "r":
                        out.append(x)
                        continue
                    a, b = new[k]
                    k += 1
                    if a == b:
                        info["removed"] += 1
                    else:
                        out.append(["r", x[1], join[a:b], 2])
                group.clear()
                return
        out.extend(group)
        group.clear()

    for x in p:
        if x[0] in ("r", "mark", "pPr") or (x[0] == "link" and not x[2]):
            group.append(x)
        else:
            flush()
            if x[0] == "box":
                x = ["box", expect(x[1], info)]
            out.append(x)
    flush()
    return out


def canon(e):
    """comparable form of an element"""
    tag = e.tag
    attrs = dict(e.attrib)
    txt = e.text or ""
    if tag == "{%s}t" % W:
        sp = attrs.pop(XS, "default")
        if sp != "preserve":
            txt = txt.strip(" ")
    else:
        txt = txt.strip()
    return [tag.split("}")[1], sorted(attrs.items()), txt, [canon(k) for k in e]]


def check(c):
    ET.register_namespace("w", W)
    d = scratch_dir()
    info = {"moved": 0, "removed": 0}
    try:
        names, wants = [], []
        docs = c["docs"][:1] if not c["stdin"] else c["docs"]
        for i, ps in enumerate(docs):
            root = el("document", el("body", *[para_el(p) for p in ps]))
            names.append(wfile(d, "d%d.xml" % i, '<?xml version="1.0" encoding="UTF-8"?>\n' + ET.tostring(root, encoding="unicode")))
            wants.append(canon(el("document", el("body", *[para_el(expect(p, info)) for p in ps]))))
        argv = ["apertium-adapt-docx"] + (["-n"] if c["n"] else []) + (["-p"] if c["p"] else [])
        if c["stdin"]:
            r = ok(run(argv, "\n".join(names) + "\n"))
        else:
            r = ok(run(argv + ["-f", names[0]]))
        srcs = [open(n, encoding="utf8").read() for n in names]
        out = r.text
        need(out.endswith("\0"), "no final NUL: %r", out[-20:])
        out = out[:-1]
        if not c["p"]:
            lines = out.split("\n")
            need(len(lines) == len(names) + 1 and lines[-1] == "", "expected one line per document, got %r", out)
        else:
            lines = re.split(r"(?<=</w:document>)\s*\n", out) if len(names) == 1 else None
            if lines is None:
                lines = [x + "</w:document>" for x in out.split("</w:document>")[:-1]]
        for i, n in enumerate(names):
            l = lines[i]
            if c["n"]:
                pre = '<file name="%s"/> ' % n
                need(l.lstrip("\n").startswith(pre) if c["p"] else l.startswith(pre), "missing file name mark: %r", l[:200])
                l = l.lstrip("\n")[len(pre):]
            try:
                got = canon(ET.fromstring(l.strip().encode("utf8", "surrogateescape")))
            except ET.ParseError as e:
                raise Violation("output is not well-formed XML (%s): %r\ninput %s" % (e, l, srcs[i]))
            if got != wants[i]:
                raise Violation("adapted document differs\n input %s\n got   %s\n want  %s" % (srcs[i], got, wants[i]))
    finally:
        shutil.rmtree(d)
    cl = set()
    if info["moved"]:
        cl.add("moved")
    if info["removed"]:
        cl.add("run removed")
    for ps in c["docs"]:
        for p in ps:
            cl |= {x[0] for x in p}
    return info["moved"] > 0, cl


SUBS = {"tree": {"gen": case, "check": check}}
