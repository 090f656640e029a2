"""Shared machinery of the tagger checks: tag set files, coarse classification, corpora, the HMM model file."""
import functools, re, struct
from xml.sax.saxutils import quoteattr

FIXED = ["LPAR", "RPAR", "LQUEST", "CM", "SENT", "kEOF", "kUNDEF"]
LPAR, RPAR, LQUEST, CM, SENT, KEOF, KUNDEF = range(7)
BUILTIN = {LPAR: "lpar", RPAR: "rpar", LQUEST: "lquest", CM: "cm", SENT: "sent"}
ZERO = 1e-10


# ---------------------------------------------------------------- tag set files
# {"labels": [[name, closed, [[lemma, tags], ...]], ...], "mults": [[name, closed, [[item, ...], ...]], ...],
#  "forbid": [[a, b]], "enforce": [[a, [b, ...]]], "prefer": [tags], "discard": [tags]}     item: ["l", label] or ["t", lemma, tags]

def item_xml(lemma, tags):
    return "<tags-item %stags=%s/>" % ("lemma=%s " % quoteattr(lemma) if lemma else "", quoteattr(tags))


def tsx(t):
    o = ['<?xml version="1.0" encoding="UTF-8"?>\n<tagger name="x">\n<tagset>\n']
    for n, closed, items in t["labels"]:
        o.append("<def-label name=%s%s>%s</def-label>\n" % (quoteattr(n), ' closed="true"' if closed else "", "".join(item_xml(*i) for i in items)))
    for n, closed, seqs in t["mults"]:
        o.append("<def-mult name=%s%s>" % (quoteattr(n), ' closed="true"' if closed else ""))
        for s in seqs:
            o.append("<sequence>%s</sequence>" % "".join("<label-item label=%s/>" % quoteattr(i[1]) if i[0] == "l" else item_xml(i[1], i[2]) for i in s))
        o.append("</def-mult>\n")
    o.append("</tagset>\n")
    if t["forbid"]:
        o.append("<forbid>%s</forbid>\n" % "".join("<label-sequence><label-item label=%s/><label-item label=%s/></label-sequence>" % (
            quoteattr(a), quoteattr(b)) for a, b in t["forbid"]))
    if t["enforce"]:
        o.append("<enforce-rules>%s</enforce-rules>\n" % "".join("<enforce-after label=%s><label-set>%s</label-set></enforce-after>" % (
            quoteattr(a), "".join("<label-item label=%s/>" % quoteattr(b) for b in bs)) for a, bs in t["enforce"]))
    if t["prefer"]:
        o.append("<preferences>%s</preferences>\n" % "".join("<prefer tags=%s/>" % quoteattr(p) for p in t["prefer"]))
    if t.get("discard"):
        o.append("<discard-on-ambiguity>%s</discard-on-ambiguity>\n" % "".join("<discard tags=%s/>" % quoteattr(p) for p in t["discard"]))
    o.append("</tagger>\n")
    return "".join(o)


class Tagset:
    def __init__(self, t):
        self.t = t
        self.names = FIXED + [x[0] for x in t["labels"]] + [x[0] for x in t["mults"]]
        self.n = len(self.names)
        # a label-item of a sequence or a rule names a label, or one of the fixed tags
        self.index = {n: i for i, n in enumerate(self.names)}
        self.open = frozenset(self.index[x[0]] for x in t["labels"] + t["mults"] if not x[1])
        lab = {x[0]: "|".join(item_re(*i) for i in x[2]) for x in t["labels"]}
        rx = {}
        for i, tag in BUILTIN.items():
            rx[i] = item_re("", tag)
        for x in t["labels"]:
            rx[self.index[x[0]]] = lab[x[0]]
        for x in t["mults"]:
            rx[self.index[x[0]]] = "|".join(r"\+".join("(?:%s)" % (lab[i[1]] if i[0] == "l" else item_re(i[1], i[2])) for i in s) for s in x[2])
        self.rx = [(i, re.compile(rx[i], re.S)) for i in sorted(rx)]
        self.forbid = [(self.index[a], self.index[b]) for a, b in t["forbid"]]
        self.enforce = [(self.index[a], [self.index[b] for b in bs]) for a, bs in t["enforce"]]
        self.prefer, self.discard = ([re.compile("".join("(?:<[^>]+>)+" if x == "*" else re.escape("<%s>" % x) for x in p.split("."))) for p in ps]
                                     for ps in (t["prefer"], t.get("discard", [])))
        self.cache = {}

    def match(self, s):
        """coarse tag of a string of analysis text, or None"""
        if s not in self.cache:
            self.cache[s] = next((i for i, r in self.rx if r.fullmatch(s)), None)
        return self.cache[s]

    def classify(self, lf):
        """split an analysis, longest match first: [(coarse tag, text)]"""
        s = fold(lf)
        plus = [i for i in unescaped(lf) if lf[i] == "+"] + [len(lf)]
        out, f = [], 0
        while True:
            for p in reversed([p for p in plus if p > f]):
                k = self.match(s[f:p])
                if k is not None:
                    out.append((k, lf[f:p]))
                    break
            else:
                out.append((KUNDEF, lf[f:]))
                return out
            if p == len(lf):
                return out
            f = p + 1


def unescaped(s):
    """positions outside tags and escapes"""
    i, o, tag = 0, [], False
    while i < len(s):
        if s[i] == "\\":
            i += 2
            continue
        if s[i] == "<":
            tag = True
        if not tag:
            o.append(i)
        if s[i] == ">":
            tag = False
        i += 1
    return o


@functools.lru_cache(None)
def low1(c):
    from . import trx
    return trx.low1(c)


def fold(lf):
    """lemmas in lower case, tags as they are"""
    o, tag, esc = [], False, False
    for c in lf:
        if esc:
            o.append(c if tag else low1(c))
            esc = False
            continue
        if c == "\\":
            esc = True
        elif c == "<":
            tag = True
        o.append(c if tag else low1(c))
        if c == ">" and not esc:
            tag = False
    return "".join(o)


def item_re(lemma, tags):
    lem = re.escape(lemma) if lemma else r"(?:[^<\\]|\\.)+"
    return lem + "".join(r"(?:<[^>]+>)+" if t == "*" else re.escape("<%s>" % t) for t in tags.split(".")) + r"(?:#(?:[^<\\]|\\.)*)?"


# ---------------------------------------------------------------- words

class W:
    """a word (or a part of one) as the coarse taggers see it"""
    __slots__ = ("sf", "lf", "ign", "plus", "prev", "known")

    def __init__(self, prev=False):
        self.sf, self.lf, self.ign, self.plus, self.prev, self.known = "", {}, "", False, prev, False

    @property
    def tags(self):
        return frozenset(self.lf)


def words(ts, units, blanks):
    """units: [[surface, [analysis, ...]]], no analysis = unknown; blanks: one more than units.  Ends with the end-of-file word."""
    out = []
    for (sf, an), b in zip(units, blanks):
        ws = [W()]
        ws[0].sf, ws[0].ign = sf, b
        for lf in an:
            for k, (tag, text) in enumerate(ts.classify(lf)):
                if k:
                    ws[k - 1].plus = True
                    if k == len(ws):
                        ws.append(W(True))
                w = ws[k]
                if tag not in w.lf or any(p.search(text) for p in ts.prefer):
                    w.lf[tag] = text
        for w in ws:
            for p in ts.discard:
                for tag in sorted(w.lf):
                    if len(w.lf) > 1 and p.search(w.lf[tag]):
                        del w.lf[tag]
        out += ws
    e = W()
    e.ign, e.lf = blanks[len(units)], {KEOF: ""}
    out.append(e)
    return out


def unit_text(u):
    return "^%s/%s$" % (u[0], "/".join(u[1]) if u[1] else "*" + u[0])


def stream(units, blanks):
    return "".join(b + unit_text(u) for u, b in zip(units, blanks)) + blanks[len(units)]


def render(w, tag, first=False, mark=False, sup=False):
    """the output of the coarse taggers for a word with this tag chosen"""
    if tag == KEOF and KEOF in w.lf:
        return w.ign
    o = w.ign
    if not w.prev:
        o += "^=" if mark and len(w.lf) > 1 else "^"
        if sup or first:
            o += w.sf + "/"
    if not w.lf:
        o += "*" + w.sf
    else:
        o += w.lf[tag]
        if first:
            o += "".join("/" + w.lf[k] for k in sorted(w.lf) if k != tag)
    return o + ("+" if w.plus else "$")


# ---------------------------------------------------------------- generators

LEMMAS = ["a", "b", "cd", "É", "x y", "Ab", "z\\/w", "q\\^", "m\\+n", "日", "\\<t\\>"]
FINE = ["n", "v", "adj", "det", "pr", "prn"]
INFL = ["sg", "pl", "m", "f", "inf", "pri"]
TPAT = ["n", "n.*", "v.*", "v.inf", "v", "adj", "adj.*", "det", "det.*", "pr", "prn", "prn.*", "n.sg", "n.pl", "*", "v.pri", "*.pl", "n.m.sg", "prn.m"]


def gen_tsx(d, mults=True, rules=True):
    names = ["N", "V", "A", "D", "P", "R", "X", "Y"]
    nl = d.int(1, 6)
    lem = lambda d: d.pick(["", "", "", "a", "b", "cd", "é", "ab"])
    labels = [[names[i], i > 0 and d.chance(30), d.list(lambda d: [lem(d), d.pick(TPAT)], 1, 3, 40)] for i in range(nl)]
    ms = []
    if mults:
        # lttoolbox's pattern list loses a sequence that begins with a label after one that begins with a tags-item
        lf = d.chance(70)

        # ... and a sequence in which a tags-item also is (or overlaps) an item of a label used elsewhere: tags-items start with other tags
        used = {i[1].split(".")[0] for x in labels for i in x[2]}
        tpat = [x for x in TPAT + ["z", "z.*", "z.sg"] if x[0] != "*" and x.split(".")[0] not in used and "*" not in used]

        def item(d, lab=60):
            return ["l", d.pick(names[:nl])] if not tpat or d.chance(lab) else ["t", lem(d), d.pick(tpat)]
        for i in range(d.weighted([(5, 0), (4, 1), (2, 2)])):
            ms.append(["M%d" % i, d.chance(50), d.list(lambda d: [item(d, 100 * lf)] + d.list(item, 1, 2, 25), 1, 2, 30)])
    alln = names[:nl] + [m[0] for m in ms]
    anyn = alln + ["SENT", "CM"]
    t = {"labels": labels, "mults": ms, "forbid": [], "enforce": [], "prefer": [], "discard": []}
    if rules:
        if d.chance(45):
            t["forbid"] = d.list(lambda d: [d.pick(anyn), d.pick(anyn)], 1, 3, 50)
        if d.chance(35):
            t["enforce"] = d.list(lambda d: [d.pick(anyn), d.list(lambda d: d.pick(anyn), 1, 3, 50)], 1, 2, 30)
        if d.chance(45):
            t["prefer"] = d.list(lambda d: d.pick(["n.*", "n.pl", "v.inf", "adj", "*.pl", "n.m.*", "prn", "v", "sg"]), 1, 2, 40)
        if d.chance(25):
            t["discard"] = d.list(lambda d: d.pick(["n.*", "n.pl", "v.inf", "adj", "*.pl", "n.m.*", "prn", "v", "sg", "det"]), 1, 2, 40)
    return t


def tagstr(ts):
    return "".join("<%s>" % t for t in ts)


def fine(d, t):
    """a lemma with tags, usually one some label of the tag set matches"""
    k = d.weighted([(6, 0), (4, 1), (1, 2)])
    if k == 0 or k == 1 and not t["labels"]:
        return d.pick(LEMMAS) + tagstr([d.pick(FINE)] + d.list(lambda d: d.pick(INFL), 0, 2, 50))
    if k == 2:
        return d.pick([".<sent>", ",<cm>", "(<lpar>", ")<rpar>", "?<lquest>"])
    lem, tags = d.pick(d.pick(t["labels"])[2])
    lem = lem or d.pick(LEMMAS)
    if d.chance(15):
        lem = lem.upper() if "\\" not in lem else lem
    out = []
    for x in tags.split("."):
        out += d.list(lambda d: d.pick(FINE[:3] + INFL), 1, 2, 40) if x == "*" else [x]
    return lem + tagstr(out)


def analysis(d, t, parts=True):
    if parts and t["mults"] and d.chance(25):
        seq = d.pick(d.pick(t["mults"])[2])
        out = []
        for i in seq:
            if i[0] == "l":
                lab = next(x for x in t["labels"] if x[0] == i[1])
                out.append(fine(d, {"labels": [lab]}))
            else:
                out.append(fine(d, {"labels": [["x", False, [[i[1], i[2]]]]]}))
        return "+".join(out)
    n = d.weighted([(12, 1), (3, 2), (1, 3)]) if parts else 1
    return "+".join(fine(d, t) for _ in range(n))


def entry(d, t, ts, lf=analysis):
    """a surface form with its analyses; an ambiguous one only with analyses the tag set takes as wholes (the coarse taggers
    treat the parts of a split analysis independently: finding parts-mixed)"""
    n = d.weighted([(4, 1), (5, 2), (3, 3), (1, 4)])
    an = []
    for _ in range(n):
        x = lf(d, t)
        if x not in an:
            an.append(x)
    whole = [x for x in an if len(ts.classify(x)) == 1]
    an = (whole or an[:1]) if len(an) > 1 else an
    sf = d.pick(["a", "b", "cd", "É", "x y", "Z\\/w", "q\\$", "日", "ab", "Aé", "\\*s"])
    return [sf, an]


def lexicon(d, t, ts, lo=3, hi=9):
    lex, seen = [], set()
    for e in d.list(lambda d: entry(d, t, ts), lo, hi, 75):
        lex.append(e)
    lex.append([".", [".<sent>"]])
    return lex


def text(d, lex, lo=1, hi=10, p=80, unknown=8, extra=None, gapf=None):
    """units and blanks"""
    def unit(d):
        if unknown and d.chance(unknown):
            return [d.pick(["uu", "Uv", "w\\[x"]), []]
        if extra and d.chance(12):
            return extra(d)
        return d.pick(lex)
    us = d.list(unit, lo, hi, p)
    return us, [gapf(d) if gapf else " " for _ in range(len(us) + 1)]


# ---------------------------------------------------------------- the HMM model file

class Prob:
    """the parts of a model file; a and b entries can be replaced in place"""

    def __init__(self, data):
        self.d, self.p = data, 0
        n = self.mb()
        self.open, v = [], 0
        for _ in range(n):
            v += self.mb()
            self.open.append(v)
        self.forbid = [(self.mb(), self.mb()) for _ in range(self.mb())]
        self.array = [self.s() for _ in range(self.mb())]
        self.index = [(self.s(), self.mb()) for _ in range(self.mb())]
        self.enforce = [(self.mb(), [self.mb() for _ in range(self.mb())]) for _ in range(self.mb())]
        self.prefer = [self.s() for _ in range(self.mb())]
        self.constants = [(self.s(), self.mb()) for _ in range(self.mb())]
        self.classes = [frozenset(self.mb() for _ in range(self.mb())) for _ in range(self.mb())]
        self.n, self.m = self.mb(), self.mb()
        self.apos = self.p
        self.a = [[self.f() for _ in range(self.n)] for _ in range(self.n)]
        self.b = {}
        self.bpos = {}
        for _ in range(self.mb()):
            i, k = self.mb(), self.mb()
            self.bpos[i, k] = self.p
            self.b[i, k] = self.f()
        self.tail = data[self.p:]

    def mb(self):
        c = self.d[self.p]
        self.p += 1
        if c < 0x40:
            return c
        n, v = (c >> 6), c & 0x3f
        for _ in range(n):
            v = (v << 8) | self.d[self.p]
            self.p += 1
        return v

    def s(self):
        return "".join(chr(self.mb()) for _ in range(self.mb()))

    def f(self):
        v = struct.unpack(">d", self.d[self.p:self.p + 8])[0]
        self.p += 8
        return v

    def patched(self, a, b):
        x = bytearray(self.d)
        for i in range(self.n):
            for j in range(self.n):
                x[self.apos + 8 * (i * self.n + j):self.apos + 8 * (i * self.n + j) + 8] = struct.pack(">d", a[i][j])
        for ik, p in self.bpos.items():
            x[p:p + 8] = struct.pack(">d", b[ik])
        return bytes(x)
