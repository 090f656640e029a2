"""Shared generators for Apertium streams (functions of an engine.Draw).  All values are JSON-able."""

PLAIN = "abcdXYZ" "éñЖ日" "\U0001d4b3" "09" "-'.,"
LU_ESC = "[]{}^$/\\@<>"         # escaped by stream producers in lexical units
TAGS = ["n", "sg", "vblex", "adj", "pl", "m", "f", "p3", "np", "def", "sp", "guio", "a.b", "x-y", "é"]


def atom(d, extra="", esc=True, space=True, escx=""):
    """one 'character' of a lemma, possibly escaped"""
    k = d.weighted([(50, 0), (25, 1), (8 if space else 0, 2), (12 if esc else 0, 3), (12 if extra else 0, 4)])
    if k == 0:
        return d.pick("abcAB")
    if k == 1:
        return d.pick(PLAIN)
    if k == 2:
        return " "
    if k == 3:
        return "\\" + d.pick(LU_ESC + escx)
    return d.pick(extra)


def lemma(d, lo=1, hi=5, extra="", esc=True, space=True, escx=""):
    return "".join(d.list(lambda d: atom(d, extra, esc, space, escx), lo, hi, 55))


def tags(d, lo=0, hi=4):
    return d.list(lambda d: d.pick(TAGS), lo, hi, 60)


def tagstr(ts):
    return "".join("<%s>" % t for t in ts)


def super_content(d, extra=""):
    """content of a superblank, already escaped; never starts with '['"""
    def a(d):
        if d.chance(30):
            return "\\" + d.pick("[]\\@^$")
        return d.pick("ab <>=\"/{}^$~*+#.é日\n\t" + extra)
    return "".join(d.list(a, 0, 6, 65))


def superblank(d, extra=""):
    return "[" + super_content(d, extra) + "]"


def gap_text(d):
    def a(d):
        k = d.n(5)
        if k < 3:
            return " "
        if k < 5:
            return d.pick(" \n\t.,;abé日")
        return "\\" + d.pick("[]{}^$/\\@<>*")
    return "".join(d.list(a, 1, 4, 40))


def gap(d):
    """possibly empty text between lexical units"""
    k = d.weighted([(40, 0), (20, 1), (40, 2)])
    if k == 0:
        return " "
    if k == 1:
        return ""
    return "".join(d.list(lambda d: superblank(d) if d.bool() else gap_text(d), 1, 3, 50))


def wb_entry(d):
    def a(d):
        if d.chance(12):
            return "\\" + d.pick("[]\\")
        return d.pick("tbi:0 1aéZ<>=\"/")
    s = "".join(d.list(a, 1, 5, 50))
    return "t:" + s


def wblank(d):
    """content of [[...]]"""
    return "; ".join(d.list(wb_entry, 1, 3, 40))


def alternation(d, unit, gapf=gap, lo=0, hi=5, p=70):
    """gap unit gap ... gap as [["b", text] | ["u", unit]]"""
    out = []
    n = 0
    while n < hi and (n < lo or d.chance(p)):
        g = gapf(d)
        if g:
            out.append(["b", g])
        out.append(["u", unit(d)])
        n += 1
    g = gapf(d)
    if g:
        out.append(["b", g])
    return out
