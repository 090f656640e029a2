"""P11 capitalisation rules: generated rule files against an independent matcher and vote."""
import re
from xml.sax.saxutils import quoteattr
from .. import gen, caps
from ..core import *

TECHNIQUE = "property-based testing: generated rule files and streams against a reference matcher and weighted vote"
NOTE = ("Search over generated rule files and streams, not a proof. Oracle: a backtracking matcher over words (regular expressions per "
        "word) and the weighted vote; where one rule has several matches ending at the same word, any of them is accepted. "
        "Characters outside the BMP are left out (the lttoolbox tokeniser takes them for tags) and weights are multiples of 1/4.")
TOOLS = ["apertium-restore-caps", "apertium-compile-caps"]
LIB = []
RULE = ("rule files of up to six rules over match (lemma globs, tag patterns, surface, case patterns of all four kinds, select), or, "
        "repeat, begin with weights including ties, zero and negative; streams of words built from the rules' own vocabulary with "
        "capitalisation marks, blanks and NULs; non-trivial: at least one word is changed or two rules vote on one word")
LEMS = ["Ab  c", "a", "b", "ab", "Ab", "AB", "iPod", "x y", "é", "Éa"]
SPEC = ["*", "A", "a", "AA", "aa", "Aa", "aA", "*A", "A*", "Aa Aa", "*aA", "* *"]
TAGP = ["*", "n", "n.*", "n.sg", "*.sg", "np.*", "?", "n.?", "n.+", "+", "?.sg", "", "?.?", "n.?.*", "*.n.*", "sent"]
SEL = ["AA", "Aa", "aa", "dix"]
W = ["1", "0.5", "2", "1.5", "0.25", "0", "-1", "3", "", "1"]


def match(d):
    a = {}
    if d.chance(30):
        if d.bool():
            a["lemma"] = d.pick(LEMS + ["*b", "a*", "*", "A*", "*y"])
        else:
            a["trglem"] = d.pick(SPEC)
    if d.chance(35):
        a["tags"] = d.pick(TAGP)
    if d.chance(25):
        if d.bool():
            a["surface"] = d.pick(LEMS + ["*b", "a*", "*", "A*", "*b*"])
        else:
            a["trgsurf"] = d.pick(SPEC)
    if d.chance(25):
        a["srcsurf"] = d.pick(["aa", "Aa", "AA", "A", "a", "*", "A*"])
    if d.chance(15):
        a["srclem"] = d.pick(["aa", "Aa", "AA", "a*", "*A"])
    if d.chance(80):
        a["select"] = d.pick(SEL)
    return ["m", a]


def node(d, depth=0, first=False):
    k = d.weighted([(12, 0), (3 if depth < 2 else 0, 1), (3 if depth < 2 else 0, 2), (3 if first else 0, 3)])
    if k == 0:
        return match(d)
    if k == 1:
        return ["or", d.list(lambda d: node(d, depth + 1, first), 1, 3, 60)]
    if k == 2:
        a = d.int(0, 2) if d.chance(85) else d.int(3, 4)
        return ["rep", a, a + (d.int(0, 2) if d.chance(85) else d.int(3, 4)), d.list(lambda d: node(d, depth + 1), 1, 2, 30)]
    return ["begin"]


def body(d):
    """nodes of a rule; begin only where it can hold, at the front"""
    ns = [node(d, 0, True)]
    return ns + d.list(node, 0, 2, 40)


def xml(n):
    if n[0] == "m":
        return "<match %s/>" % " ".join("%s=%s" % (k, quoteattr(v)) for k, v in sorted(n[1].items()))
    if n[0] == "or":
        return "<or>%s</or>" % "".join(map(xml, n[1]))
    if n[0] == "rep":
        return '<repeat from="%d" upto="%d">%s</repeat>' % (n[1], n[2], "".join(map(xml, n[3])))
    return "<begin/>"


def case(d):
    def rule(d):
        return {"w": d.pick(W), "b": body(d)}
    rules = d.list(rule, 1, 6, 65)

    def wordc(d):
        return d.weighted([(4, d.pick(LEMS)), (1, d.str("abABéÉ yz1", 1, 4))])

    def u(d):
        w = []
        if d.chance(45):
            w = ["c:%s/%s" % (d.pick(["aa", "Aa", "AA"]), d.pick(["aa", "Aa", "AA"]))]
            if d.chance(25):
                w.insert(d.int(0, len(w)), "t:b:x")
            if d.chance(12):
                w.append("c:%s/%s" % (d.pick(["aa", "Aa", "AA"]), d.pick(["aa", "Aa", "AA"])))
        elif d.chance(10):
            w = ["t:i:y"]
        lem = wordc(d)
        tags = d.list(lambda d: d.pick(["n", "sg", "np", "sent", "zz"]), 0, 3, 75)
        f = lem + gen.tagstr(tags) + ("+" + wordc(d) + "<n>" if d.chance(6) else "")
        return {"b": d.pick(["", " ", " ", "[<x>]", " [\n] "]), "w": w, "f": f if d.chance(95) else None,
                "t": wordc(d) if d.chance(90) else d.pick(["#", "*", "@"]) + wordc(d), "nul": d.chance(6)}
    return {"rules": rules, "us": d.list(u, 1, 6, 80) if d.chance(85) else d.list(u, 4, 10, 80), "tail": d.pick(["", "", "\n", " [x]"]), "k": d.bool(), "z": d.chance(30)}


def spec(s):
    o = ""
    prev = None
    for c in s:
        x = "." if c == "*" else " " if c == " " else "U" if caps.is_up(c) else "L"
        if x != prev:
            o += {".": "C", " ": "S", "U": "U", "L": "L"}[x] + "+"
        prev = x
    return o


CLS = {"C": "[^\ue000-\uf8ff]", "S": " ", "U": "%U%", "L": "%L%"}
TAGID = {}


def tagchar(t):
    return chr(0xe000 + TAGID.setdefault(t, len(TAGID)))


UPPERS = "".join(c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZÉÑЖ")


def rx(pat):
    """pattern language of this module (C+ S+ U+ L+ classes, literals as \\x escapes) to a compiled regex"""
    o, i = "", 0
    while i < len(pat):
        c = pat[i]
        if c == "=":
            o += re.escape(pat[i + 1])
            i += 2
            continue
        if c == "C":
            o += "[^\ue000-\uf8ff]"
        elif c == "S":
            o += " "
        elif c == "U":
            o += "[%s]" % UPPERS
        elif c == "L":
            o += "[^\ue000-\uf8ff%s]" % UPPERS
        elif c == "T":
            o += "[\ue000-\uf8ff]"
        else:
            o += c
        i += 1
    return re.compile(o, re.S)


def glob(s):
    return "".join("C+" if c == "*" else "=" + c for c in re.sub(r"\*+", "*", s))


def compile_match(a):
    form = spec(a.get("trglem", "*")) if a.get("lemma", "*") == "*" else glob(a["lemma"])
    for t in a.get("tags", "*").split("."):
        form += "T+" if t == "+" else "T*" if t == "*" else "T" if t == "?" else "=" + tagchar(t) if t else ""
    surf = spec(a.get("trgsurf", "*")) if a.get("surface", "*") == "*" else glob(a["surface"])
    return [rx(spec(a.get("srcsurf", "*"))), rx(spec(a.get("srclem", "*"))), rx(form), rx(surf), a.get("select")]


def enc(s):
    return "".join(tagchar(t[1:-1]) if t[0] == "<" and len(t) > 1 else t[-1] for t in caps.toks(s))


def paths(nodes, i, words):
    """all (end, selections) of a sequence of nodes from word i"""
    if not nodes:
        return {(i, ())}
    n, rest = nodes[0], nodes[1:]
    if n[0] == "begin":
        starts = {(0, ())} if i == 0 else set()
    elif n[0] == "m":
        if i < len(words) and all(r.fullmatch(x) for r, x in zip(n[1], words[i])):
            starts = {(i + 1, (n[1][4],))}
        else:
            starts = set()
    elif n[0] == "or":
        starts = set().union(*[paths([c], i, words) for c in n[1]])
    else:
        cur = {(i, ())}
        starts = set(cur) if n[1] == 0 else set()
        for k in range(n[2]):
            cur = {(j2, p + p2) for j, p in cur for j2, p2 in paths(n[3], j, words)}
            if k + 1 >= n[1]:
                starts |= cur
    return {(j2, p + p2) for j, p in starts for j2, p2 in paths(rest, j, words)}


def prep(n):
    if n[0] == "m":
        return ["m", compile_match(n[1])]
    if n[0] == "or":
        return ["or", [prep(c) for c in n[1]]]
    if n[0] == "rep":
        return ["rep", n[1], n[2], [prep(c) for c in n[3]]]
    return n


def outcomes(c, us, rules):
    """per word the set of acceptable cases is not independent: returns a list of alternatives (lists of cases)"""
    words = []
    for u in us:
        m = [p for p in u["w"] if p.startswith("c:")]
        s, l = (m[0][2:] if m else "aa/aa").split("/")
        words.append((s, l, enc(u["f"] or ""), enc(u["t"])))
    votes = []           # (weight, [alternatives: (start, selections)])
    for wt, nodes in rules:
        ends = {}
        for i in range(len(words)):
            for j, p in paths(nodes, i, words):
                if j > i:
                    ends.setdefault(j, set()).add((i, p))
        for s in ends.values():
            votes.append((wt, sorted({(i, p) for i, p in s}, key=repr)))
    amb = max([1] + [len(a) for _, a in votes])
    # all tallies the choices can lead to: per word the four sums, in order of precedence on ties
    states = {tuple((0.0,) * 4 for _ in words)}
    cnt = [0] * len(words)
    for wt, alts in votes:
        new = set()
        for i, p in alts:
            for k, sel in enumerate(p):
                if sel and (i, p) == alts[0]:
                    cnt[i + k] += 1
            for st in states:
                st = list(st)
                for k, sel in enumerate(p):
                    if sel:
                        t = list(st[i + k])
                        t[ORDER.index(sel)] += wt
                        st[i + k] = tuple(t)
                new.add(tuple(st))
        states = new
        if len(states) > 500:
            raise Inconclusive("too many ways to match")
    return {tuple(ORDER[t.index(max(t))] for t in st) for st in states}, max([0] + cnt), amb


ORDER = ["dix", "aa", "Aa", "AA"]
FN = {"dix": lambda s: s, "aa": caps.lower, "Aa": caps.title, "AA": caps.upper}


def compile_rules(rules, d):
    p = wfile(d, "r.crx", '<?xml version="1.0" encoding="UTF-8"?>\n<capitalization><rules>%s</rules></capitalization>' % "".join(
        "<rule%s>%s</rule>" % (' weight="%s"' % r["w"] if r["w"] else "", "".join(map(xml, r["b"]))) for r in rules))
    ok(run(["apertium-compile-caps", p, d + "/r.bin"]))


def stream(us):
    inp = ""
    for u in us:
        inp += u["b"] + ("[[" + "; ".join(u["w"]) + "]]" if u["w"] else "") + "^" + \
            (u["f"] + "/" if u["f"] is not None else "") + u["t"] + "$" + ("\0" if u["nul"] else "")
    return inp


def check(c):
    d = scratch_dir()
    try:
        compile_rules(c["rules"], d)
        rules = [(float(r["w"] or 1), [prep(n) for n in r["b"]]) for r in c["rules"]]
        inp = stream(c["us"])
        inp += c["tail"]
        got = ok(run(["apertium-restore-caps"] + (["-k"] if c["k"] else []) + (["-z"] if c["z"] else []) + [d + "/r.bin"], inp)).text
        msgs = [[]]
        for u in c["us"]:
            msgs[-1].append(u)
            if u["nul"]:
                msgs.append([])
        alts = []
        multi = amb = 0
        for m in msgs:
            o, k, n = outcomes(c, m, rules)
            multi = max(multi, k)
            amb = max(amb, n)
            alts.append(o)
        gots = got.split("\0")
        need(len(gots) == len(msgs), "%d messages became %d on %r: %r", len(msgs), len(gots), inp, got)
        for k, (m, o) in enumerate(zip(msgs, alts)):
            wants = set()
            for cs in o:
                out = ""
                for u, cs1 in zip(m, cs):
                    ps = u["w"] if c["k"] else [x for x in u["w"] if not x.startswith("c:")]
                    out += u["b"] + ("[[" + "; ".join(ps) + "]]" if ps else "") + FN[cs1](u["t"]) + ("[[/]]" if ps else "")
                wants.add(out + (c["tail"] if k == len(msgs) - 1 else ""))
            if gots[k] not in wants:
                same(gots[k], sorted(wants)[0], "apertium-restore-caps on %r, message %d (%d acceptable outputs)" % (inp, k, len(wants)))
        ch = any(x != "dix" for o in alts for a in o for x in a)
        cl = set()
        if ch:
            cl.add("case changed")
        if multi > 1:
            cl.add("several votes on a word")
        if amb > 1:
            cl.add("several matches of one rule end at a word")
        for k in ("or", "rep", "begin"):
            if k in str(c["rules"]):
                cl.add(k)
        return ch or multi > 1, cl
    finally:
        shutil.rmtree(d)


SUBS = {"rules": {"gen": case, "check": check}}
