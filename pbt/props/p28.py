"""P28 apertium-tmxbuild: segments of both documents in order, common segments aligned."""
import re
import xml.etree.ElementTree as ET
from ..core import *

TECHNIQUE = "property-based testing: generated pairs of documents, against a reference segmenter, an order invariant decided by dynamic programming, and alignments known by construction"
NOTE = ("Search over generated documents, not a proof. Oracle: a reference segmenter; an exact search for an order-preserving explanation of all translation units; for pairs of "
        "documents built from common segments (equal, or translated letter by letter), the units the construction implies. Which segments of unrelated documents are aligned is not "
        "predicted, nor which short segments (up to two spaces) are left out.")
TOOLS = ["apertium-tmxbuild"]
RULE = ("documents of up to 14 segments (sometimes 400 to 1500) of words in several scripts, escapes, markup, superblanks with and without spaces, inner and repeated full stops; related "
        "(equal, translated letter by letter, segments inserted in one) or not; options and output files; non-trivial: at least two translation units expected or written")
PH = "\ue000"
WORDS = ["a", "is", "Über", "casa", "漢字", "Жук", "x&y", "<b>", "\"q\"", "(and)", "3.5", "a.b", "😀", "-", "¿qué", "l'h", "$9", "été,", "a;b", "ph/>", "&amp;", "tab", "<ph", "<phi>", "<ph/"]
BLANKS = ["[]", "[<b>]", "[ <b>]", "[<b> ]", "[ <b> ]", "[ ]", "[\n]", "[\\]]", "[a. b? c.]", "[\\[x\\] ]", "[<a href=\"x\">]", "[é]"]
LETTERS = "abcdefghijklmnopqrstuvwxyz"


def esc(w):
    return re.sub(r"([\[\]{}^$/\\@<>])", r"\\\1", w)


def part(d):
    k = d.weighted([(8, "w"), (2, "b"), (1, "e")])
    if k == "w":
        return esc(d.pick(WORDS))
    if k == "b":
        return d.pick(BLANKS)
    return "\\" + d.pick("[]{}^$/\\@<>.?!")


def unique(n, k):
    """the k-th word of the n-th common segment: letters only, different from all others"""
    s, x = "", n * 16 + k + 1
    while x:
        s = LETTERS[x % 26] + s
        x //= 26
    return "w" + s + "wwwww"[:(n * 7 + k * 5) % 5]


def seg_free(d):
    s = ""
    for i, p in enumerate(d.list(part, 0, 9, 85)):
        s += (d.pick([" ", " ", " ", " ", "", "  "]) if i else "") + p
    return s + d.pick([".", ".", ".", "?", "!", "...", ".?", " .", "\\?."])


SEPS = [" ", " ", " ", "[\n]", "[ ]", "[][\n]", "[<p>]", "  "]


def seg_common(d, n):
    """[words, blanks between, terminator]"""
    ws = [unique(n, k) for k in range(d.int(4, 9))]
    return [ws, [d.weighted([(8, " "), (1, " [<i>]"), (1, "[ <i>]"), (1, "[</i> ]")]) for _ in ws[1:]], d.pick([".", ".", "?", "!"]), d.pick(SEPS)]


def case(d):
    k = d.weighted([(16, "equal"), (16, "insert"), (12, "letters"), (20, "free"), (1, "long")])
    c = {"k": k, "langs": [d.pick(["en", "es", "x-y", "oc@aran"]), d.pick(["fr", "en", "ca_valencia"])], "out": d.bool(),
         "o": [[o, d.pick(v)] for o, v in (("-p", ["0.1", "1", "0.85"]), ("-e", ["0.3", "1"]), ("-l", ["0", "15"]), ("-m", ["50", "9"]), ("-d", ["10", "1"]), ("-w", ["100", "5"]), ("-s", ["75", "3"]))
               if d.chance(15)]}
    if k == "long":
        c["n"], c["l"], c["m"] = d.pick([400, 499, 500, 501, 620, 1000, 1500]), d.int(4, 7), d.bool()
        return c
    if k == "free":
        def doc(d):
            return ["".join(d.list(lambda d: seg_free(d) + d.pick(SEPS), 0, 8, 80)), d.pick(["", "[\n]", "rest of it", "[]"])]
        a, b = doc(d), doc(d)
        if d.chance(40):
            b = a if d.bool() else [a[0] + b[0], b[1]]
        c["a"], c["b"] = a, b
        return c
    c["segs"] = [seg_common(d, i) for i in range(d.int(1, 12))]
    if k == "insert":
        # where (before which common segment) and how many; in which document; at most as many as there are common ones
        c["ins"] = sorted([d.n(len(c["segs"])), d.int(3, 6)] for _ in range(d.int(1, max(1, len(c["segs"])))))
        c["second"] = d.bool()
    if k == "letters":
        c["shift"] = d.pick(["rot", "upper"])
    return c


TABLE = {"rot": str.maketrans(LETTERS, LETTERS[9:] + LETTERS[:9]), "upper": str.maketrans(LETTERS, LETTERS.upper())}


def render(segs, blanks=True):
    o = []
    for ws, bs, t, sep in segs:
        x = ws[0]
        for w, b in zip(ws[1:], bs):
            x += (b if blanks else " ") + w
        o.append(x + t + sep)
    return "".join(o)


def segments(s):
    """the segments of a stream: they end at a full stop before white space or a superblank, and at ? and !; the rest after the last is none"""
    out, cur, i = [], "", 0
    while i < len(s):
        ch = s[i]
        i += 1
        if ch == "\\":
            cur += s[i]
            i += 1
        elif ch == "[":
            j = i
            while s[j] != "]":
                j += 2 if s[j] == "\\" else 1
            b = s[i:j]
            i = j + 1
            cur += (" " if b.startswith(" ") else "") + PH + (" " if b.endswith(" ") else "")
        elif ch in "?!" or ch == "." and i < len(s) and s[i] in " \t\n[":
            out.append(cur + ch)
            cur = ""
        else:
            cur += ch
    # a literal <ph/> in the text reads like the mark of a superblank
    return [" ".join(x.split()).replace("<ph/>", PH) for x in out]


def units(data, langs):
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        raise Violation("the output is not well-formed XML (%s): %r" % (e, data[:3000]))
    need(root.tag == "tmx" and [x.tag for x in root] == ["header", "body"], "the structure is not that of a TMX file: %r", data[:1000])
    need(root[0].get("srclang") == langs[0], "source language %r, not %r", root[0].get("srclang"), langs[0])
    us = []
    for tu in root[1]:
        need(tu.tag == "tu" and [x.tag for x in tu] == ["tuv", "tuv"], "not a translation unit: %r", ET.tostring(tu))
        need([x.get("{http://www.w3.org/XML/1998/namespace}lang") for x in tu] == langs, "languages of %r", ET.tostring(tu))
        u = []
        for v in tu:
            need(len(v) == 1 and v[0].tag == "seg" and all(x.tag == "ph" and not x.text for x in v[0]), "not a segment: %r", ET.tostring(v))
            u.append((v[0].text or "") + "".join(PH + (x.tail or "") for x in v[0]))
        us.append(u)
    return us


def trimmed(joined):
    x = joined
    x = re.sub("^[\\s%s]+" % PH, "", x)
    x = re.sub("[\\s%s]+$" % PH, "", x)
    return re.sub(r"\.+$", "", x)


def spans(segs, want):
    """the intervals of segments that read like this"""
    out = []
    for i in range(len(segs)):
        for j in range(i + 1, len(segs) + 1):
            if trimmed(" ".join(segs[i:j])) == want:
                out.append((i, j))
    return out


def in_order(us, A, B, desc):
    reach = {(0, 0)}
    for k, (x, y) in enumerate(us):
        sa, sb = spans(A, x), spans(B, y)
        need(sa, "unit %d of %s: %r is not made of segments of the source document, %r", k, desc, x, A)
        need(sb, "unit %d of %s: %r is not made of segments of the target document, %r", k, desc, y, B)
        new = {(b, e) for a, b in sa for c, e in sb if any(i <= a and j <= c for i, j in reach)}
        need(new, "unit %d of %s, %r, does not follow the units before it; segments %r and %r", k, desc, (x, y), A, B)
        # only the least ones matter
        reach = {p for p in new if not any(q != p and q[0] <= p[0] and q[1] <= p[1] for q in new)}


def good(x):
    """certainly long enough to be kept"""
    return len([w for w in x.replace(PH, "").split() if re.search(r"[^\W\d_]", w)]) >= 4


def check(c):
    dr = scratch_dir()
    try:
        k = c["k"]
        common, pos = [], None
        if k == "long":
            segs = [[[unique(i, j) for j in range(c["l"])], [" "] * (c["l"] - 1), ".", " "] for i in range(c["n"])]
            a = b = render(segs)
            if c["m"]:
                b = a.translate(TABLE["rot"])
        elif k == "free":
            a, b = "".join(c["a"]), "".join(c["b"])
        else:
            a = render(c["segs"])
            b = a
            if k == "insert":
                segs = list(c["segs"])
                for n, (p, m) in sorted(enumerate(c["ins"]), key=lambda x: -x[1][0]):
                    segs.insert(min(p, len(c["segs"])), [["i" + unique(200 + n, j) for j in range(m)], [" "] * (m - 1), ".", " "])
                b = render(segs)
                if not c["second"]:
                    a, b = b, a
            elif k == "letters":
                a = render(c["segs"], False)
                b = a.translate(TABLE[c["shift"]])
        A, B = segments(a), segments(b)
        fa, fb = wfile(dr, "a", a), wfile(dr, "b", b)
        argv = ["apertium-tmxbuild"] + [x for o in c["o"] for x in o] + c["langs"] + [fa, fb]
        r = ok(run(argv + ([dr + "/out"] if c["out"] else [])))
        data = r.out
        if c["out"]:
            need(data == b"", "output %r although a file was given", data)
            data = open(dr + "/out", "rb").read()
        us = units(data, c["langs"])
        desc = "%r and %r" % (a[:1500], b[:1500])
        if k in ("equal", "letters", "long") or k == "free" and a == b and len(A) == 1:
            want = [[trimmed(x), trimmed(y)] for x, y in zip(A, B) if good(x) and good(y)]
            got = [u for u in us if good(u[0]) and good(u[1])] if k == "free" else us
            need(got == want, "documents with the same segments are not aligned one to one: %s gives %r, expected %r", desc, got[:40], want[:40])
        if k != "long":
            in_order(us, A, B, desc)
        if k == "insert":
            for ws, bs, t, sep in c["segs"]:
                need(any(all(re.search(r"\b%s\b" % w, x) for w in ws for x in u) for u in us), "the segment %r common to both documents is not aligned with itself: %s gives %r", " ".join(ws), desc, us)
        return len(us) >= 2, {k} | {"option " + o[0] for o in c["o"]} | ({"superblanks in units"} if any(PH in x for u in us for x in u) else set()) | \
            ({"several segments in a unit"} if any(x not in map(trimmed, A) for x, _ in us) else set())
    finally:
        shutil.rmtree(dr)


SUBS = {"main": {"gen": case, "check": check}}
