"""P33 the validators of rule files, against a reference validator for the grammars (copies of the declarations in pbt/dtd)."""
import re, subprocess
from xml.sax.saxutils import quoteattr
from .. import build
from ..core import *

TECHNIQUE = "property-based testing: files generated from the grammars and then edited, the validators against a reference validator"
NOTE = ("Search over generated files, not a proof. Oracle: a reference validator (content models as regular expressions over child names, attribute types, unique identifiers and "
        "references) for the declarations of the pinned tree; the scripts are made by the recipes of the working tree's Makefile.am, with its grammars. apertium-validate-dictionary "
        "and -acx only call lttoolbox's grammars and are outside; so is the name of the root element, which the validators do not look at.")
TOOLS = []
LIB = []
RULE = ("files of the six grammars derived at random from their declarations (recursion up to a bound, optional attributes, identifiers, references), then up to three edits (children "
        "removed, doubled, swapped, added, renamed; attributes removed, added or given other values; text); wrong command lines; non-trivial: an edited file, or one of 20 elements")
KINDS = ["transfer", "interchunk", "postchunk", "modes", "tagger", "crx"]
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "dtd")
DIR = None
ATT = re.compile(r'([\w-]+)\s+(CDATA|IDREF|ID|\([^)]*\))\s+(#REQUIRED|#IMPLIED)')


class Grammar:
    def __init__(self, name):
        t = open(os.path.join(HERE, name + ".dtd"), encoding="utf8").read()
        ents = dict(re.findall(r'<!ENTITY % ([\w-]+) "([^"]*)">', t))
        t = re.sub(r'<!ENTITY[^>]*>', '', t)
        t = re.sub(r'%([\w-]+);', lambda m: ents[m[1]], t)
        self.el, self.at = {}, {}
        for n, m in re.findall(r'<!ELEMENT\s+([\w-]+)\s+([^>]*)>', t):
            self.el[n] = None if m.strip() == "EMPTY" else self.parse(m)
        for n, m in re.findall(r'<!ATTLIST\s+([\w-]+)\s+([^>]*)>', t):
            for a, k, r in ATT.findall(m):
                self.at.setdefault(n, {})[a] = (k if k[0] != "(" else [x.strip() for x in k[1:-1].split("|")], r == "#REQUIRED")
        self.root = next(iter(self.el))
        self.rx = {n: None if m is None else re.compile(self.regex(m)) for n, m in self.el.items()}
        # fewest levels an element needs
        self.depth = {n: 0 for n, m in self.el.items() if m is None}
        while len(self.depth) < len(self.el):
            for n, m in self.el.items():
                if n not in self.depth:
                    d = self.least(m)
                    if d is not None:
                        self.depth[n] = d + 1

    def parse(self, s):
        toks = re.findall(r'[\w-]+|[(),|?*+]', s)
        pos = [0]

        def occ(x):
            if pos[0] < len(toks) and toks[pos[0]] in "?*+":
                pos[0] += 1
                return [toks[pos[0] - 1], x]
            return x

        def item():
            t = toks[pos[0]]
            pos[0] += 1
            if t != "(":
                return occ(t)
            xs, sep = [item()], None
            while toks[pos[0]] != ")":
                sep = toks[pos[0]]
                pos[0] += 1
                xs.append(item())
            pos[0] += 1
            return occ([sep or ",", xs])
        return item()

    def regex(self, m):
        if isinstance(m, str):
            return "(?:%s )" % re.escape(m)
        if m[0] in "?*+":
            return "(?:%s)%s" % (self.regex(m[1]), m[0])
        return "(?:%s)" % ("|" if m[0] == "|" else "").join(map(self.regex, m[1]))

    def least(self, m):
        if isinstance(m, str):
            return self.depth.get(m)
        if m[0] in "?*":
            return 0
        if m[0] == "+":
            return self.least(m[1])
        ds = [self.least(x) for x in m[1]]
        if m[0] == "|":
            return min((x for x in ds if x is not None), default=None)
        return None if None in ds else max(ds)

    def children(self, d, m, left, mul):
        if isinstance(m, str):
            return [m]
        if m[0] == "|":
            fit = [x for x in m[1] if (self.least(x) or 0) < left] or [min(m[1], key=lambda x: self.least(x))]
            return self.children(d, d.pick(fit), left, mul)
        if m[0] == ",":
            return [y for x in m[1] for y in self.children(d, x, left, mul)]
        deep = (self.least(m[1]) or 0) >= left
        if m[0] == "?":
            return [] if deep or d.bool() else self.children(d, m[1], left, mul)
        o = []
        if m[0] == "+":
            o += self.children(d, m[1], left, mul)
        while not deep and len(o) < 6 and d.chance(mul):
            o += self.children(d, m[1], left, mul)
        return o


G = {k: Grammar(k) for k in KINDS}
VALS = ["", "a", "b c", "<&>\"", "é漢", "1", "no", "yes", "sl", "n.*", "Aa"]


def tree(d, g, n, left, ids):
    at = {}
    for a, (k, r) in g.at.get(n, {}).items():
        if not r and not d.chance(25):
            continue
        if k == "ID":
            at[a] = "i%d" % len(ids)
            ids.append(at[a])
        elif k == "IDREF":
            at[a] = None
        elif isinstance(k, list):
            at[a] = d.pick(k)
        else:
            at[a] = d.pick(VALS)
    m = g.el[n]
    return [n, at, [] if m is None else [tree(d, g, x, left - 1, ids) for x in g.children(d, m, left, 45 if left > 3 else 20)]]


def walk(t, up=None):
    yield t, up
    for x in t[2]:
        if not isinstance(x, str):
            yield from walk(x, t)


def case(d):
    k = d.weighted([(5, "transfer"), (4, "interchunk"), (4, "postchunk"), (2, "modes"), (4, "tagger"), (2, "crx")])
    g = G[k]
    ids = []
    t = tree(d, g, g.root, g.depth[g.root] + d.n(4), ids)
    for x, _ in walk(t):
        for a in x[1]:
            if x[1][a] is None:
                x[1][a] = d.pick(ids) if ids else "none"
    names = list(g.el)
    edits = []
    for _ in range(d.weighted([(2, 0), (4, 1), (1, 2), (1, 3)])):
        w = list(walk(t))
        x, up = d.pick(w)
        e = d.pick(["del", "dup", "swap", "add", "ren", "adel", "aadd", "aval", "text", "id", "ref", "move", "enum", "opt"])
        kids = [i for i, c in enumerate(x[2]) if not isinstance(c, str)]
        if e == "del" and kids:
            del x[2][d.pick(kids)]
        elif e == "dup" and kids:
            i = d.pick(kids)
            x[2].insert(i, copy(x[2][i], d.bool()))
        elif e == "swap" and len(kids) > 1:
            i = d.n(len(kids) - 2)
            x[2][kids[i]], x[2][kids[i + 1]] = x[2][kids[i + 1]], x[2][kids[i]]
        elif e == "add":
            n = d.pick(names)
            x[2].insert(d.n(len(x[2])), fill(d, tree(d, g, n, g.depth[n], []), ids))
        elif e == "ren" and up is not None:
            # among the names the parent knows, or any
            x[0] = d.pick(d.pick([names, [c[0] for c, _ in w], ["unknown"]]))
        elif e == "adel" and x[1]:
            del x[1][d.pick(sorted(x[1]))]
        elif e == "aadd":
            x[1][d.pick(d.pick([["n", "c", "v", "name", "tags", "pos", "id", "lemma", "comment", "caseless", "part", "side", "queue"], ["unknown"]]))] = d.pick(VALS)
        elif e == "opt":
            a = sorted(g.at.get(x[0], {}))
            if a:
                a = d.pick(a)
                kk = g.at[x[0]][a][0]
                x[1][a] = d.pick(kk) if isinstance(kk, list) else d.pick(ids or ["i0"]) if kk == "IDREF" else "new" if kk == "ID" else d.pick(VALS)
        elif e == "aval" and x[1]:
            x[1][d.pick(sorted(x[1]))] = d.pick(VALS + ["maybe", "lu", "chunk", "tl", "ref", "dix"])
        elif e == "enum":
            en = [(y, a) for y, _ in w for a in y[1] if isinstance(g.at.get(y[0], {}).get(a, (0, 0))[0], list)]
            if en:
                y, a = d.pick(en)
                y[1][a] = d.pick(["", "NO", "both", "sl", "tl", "ref", "lu", "dix", "aa", "no"])
        elif e == "text":
            x[2].insert(d.n(len(x[2])), d.pick(["x", "&amp;", " ", "\n", "<!-- c -->", "é"]))
        elif e in ("id", "ref"):
            ys = [(y, a) for y, _ in w for a in y[1] if g.at.get(y[0], {}).get(a, (0, 0))[0] == {"id": "ID", "ref": "IDREF"}[e]]
            if ys:
                y, a = d.pick(ys)
                y[1][a] = d.pick((ids or ["i0"]) + ["none", "1x", "a b", "", "i0"])
        elif e == "move" and kids:
            c = x[2].pop(d.pick(kids))
            inside = {id(y) for y, _ in walk(c)}
            y = d.pick([y for y, _ in walk(t)])
            y[2].insert(d.n(len(y[2])), c)
        edits.append(e)
    for x, _ in walk(t):
        for a, v in x[1].items():
            # what libxml2 takes for a name outside ASCII depends on its version
            if g.at.get(x[0], {}).get(a, (0, 0))[0] in ("ID", "IDREF") and not v.isascii():
                x[1][a] = "none"
    return {"k": k, "t": t, "edits": edits, "pretty": d.bool(), "decl": d.bool(), "cl": d.weighted([(40, "ok"), (1, "none"), (1, "two"), (1, "missing"), (1, "broken")]),
            "sp": d.chance(20)}


def fill(d, t, ids):
    for x, _ in walk(t):
        for a in x[1]:
            if x[1][a] is None:
                x[1][a] = d.pick(ids) if ids else "none"
            elif re.fullmatch(r"i\d+", x[1][a]):
                x[1][a] = "x" + x[1][a]
    return t


def copy(t, keep):
    if isinstance(t, str):
        return t
    return [t[0], dict(t[1]), [copy(x, keep) for x in t[2]]]


NAME = re.compile(r"[A-Za-z_][A-Za-z0-9_.-]*\Z")


def invalid(g, t):
    """the first reason the tree is not valid, or None"""
    ids, refs = set(), set()
    for x, up in walk(t):
        n, at, kids = x
        if n not in g.el:
            return "unknown element " + n
        decl = g.at.get(n, {})
        for a, v in at.items():
            if a not in decl:
                return "attribute %s of %s" % (a, n)
            k = decl[a][0]
            if isinstance(k, list):
                if v not in k:
                    return "value of %s in %s" % (a, n)
            elif k in ("ID", "IDREF"):
                if not NAME.match(v):
                    return "no name: %r" % v
                if k == "ID":
                    if v in ids:
                        return "identifier %s twice" % v
                    ids.add(v)
                else:
                    refs.add(v)
        for a, (k, r) in decl.items():
            if r and a not in at:
                return "%s without %s" % (n, a)
        if g.el[n] is None:
            if kids:
                return "content of " + n
        else:
            if any(isinstance(c, str) and c.strip() and not c.startswith("<!--") for c in kids):
                return "text in " + n
            if not g.rx[n].fullmatch("".join(c[0] + " " for c in kids if not isinstance(c, str))):
                return "children of %s" % n
    if refs - ids:
        return "reference to %s" % sorted(refs - ids)
    return None


def out(t, pretty, lvl=0):
    if isinstance(t, str):
        return t
    n, at, kids = t
    s = "<" + n + "".join(" %s=%s" % (a, quoteattr(v)) for a, v in at.items())
    if not kids:
        return s + "/>"
    nl = "\n" + "  " * (lvl + 1) if pretty and not any(isinstance(c, str) for c in kids) else ""
    return s + ">" + "".join(nl + out(c, pretty, lvl + 1) for c in kids) + (nl[:-2] if nl else "") + "</%s>" % n


def setup():
    """the scripts, by the recipes of Makefile.am"""
    global DIR
    DIR = os.path.join(ENV.scratch, "validate")
    src = os.path.join(build.REPO, "apertium")
    os.makedirs(os.path.join(DIR, "data"))
    for f in os.listdir(src):
        if f.endswith((".dtd", ".rng", ".rnc", ".xsd")):
            shutil.copy(os.path.join(src, f), os.path.join(DIR, "data", f))
    shutil.copy(os.path.join(src, "validate-header.sh"), os.path.join(DIR, "validate-header.sh"))
    mk = open(os.path.join(src, "Makefile.am"), encoding="utf8").read().replace("\\\n", " ").split("\n")
    for k in KINDS:
        n = "apertium-validate-" + k
        i = next((i for i, l in enumerate(mk) if l.startswith(n + ":")), None)
        if i is None and k == "crx":
            continue
        need(i is not None, "Makefile.am has no recipe for %s", n)
        rec = []
        for l in mk[i + 1:]:
            if not l.startswith("\t"):
                break
            l = l[1:].lstrip("@-+").replace("$(apertiumdir)", os.path.join(DIR, "data")).replace("$@", n)
            rec.append(l.replace("$$", "$"))
        r = subprocess.run(["sh", "-c", "cd '%s'\n" % DIR + "\n".join(rec)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        need(r.returncode == 0 and os.path.exists(os.path.join(DIR, n)), "the recipe of %s fails: %r", n, r.stderr)
        os.chmod(os.path.join(DIR, n), 0o755)


def check(c):
    g = G[c["k"]]
    why = invalid(g, c["t"])
    text = ('<?xml version="1.0" encoding="UTF-8"?>\n' if c["decl"] else "") + out(c["t"], c["pretty"]) + "\n"
    with tempfile.TemporaryDirectory(dir=ENV.scratch) as tmp:
        f = tmp + ("/a file.xml" if c["sp"] else "/f.xml")
        if c["cl"] == "broken":
            text = text.rstrip("\n")[:-1]
            why = "not well-formed"
        with open(f, "w", encoding="utf8") as h:
            h.write(text)
        a = {"none": [], "two": [f, f], "missing": [tmp + "/no"]}.get(c["cl"], [f])
        if a != [f]:
            why = "command line"
        r = subprocess.run([os.path.join(DIR, "apertium-validate-" + c["k"])] + a, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        if why is None:
            need(r.returncode == 0, "a valid %s file is refused (%d): %r\n%s", c["k"], r.returncode, r.stderr[:600], text[:3000])
        else:
            need(r.returncode > 0, "an invalid %s file is accepted (%s; %s): %r\n%s", c["k"], why, a, r.returncode, text[:3000])
    size = sum(1 for _ in walk(c["t"]))
    return bool(c["edits"]) or size >= 20, [c["k"], "invalid" if why else "valid"] + (["why:" + why.split()[0]] if why else []) + ["edit:" + e for e in c["edits"]]


SUBS = {"main": {"gen": case, "check": check}}
