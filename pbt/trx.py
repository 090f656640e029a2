"""Reference interpreter of the structural transfer language (transfer, interchunk, postchunk), written from its documentation.

A rule file is a JSON-able dict:
  {"stage": "transfer"|"interchunk"|"postchunk", "default": "lu"|"chunk", "cats": [[name, [[lemma, tags], ...]], ...],
   "attrs": [[name, [tags, ...]], ...], "vars": [[name, value]], "lists": [[name, [item, ...]]],
   "macros": [[name, npar, [instruction, ...]]], "rules": [[[category, ...], [instruction, ...]], ...]}
where instructions and expressions are [tag, {attribute: value}, [child, ...]] as in the XML.
"""
import functools, itertools, re, unicodedata
from xml.sax.saxutils import quoteattr
from . import caps


# ---------------------------------------------------------------- XML

def el(e):
    a = "".join(" %s=%s" % (k, quoteattr(str(v))) for k, v in e[1].items())
    if not e[2]:
        return "<%s%s/>" % (e[0], a)
    return "<%s%s>%s</%s>" % (e[0], a, "".join(el(c) for c in e[2]), e[0])


def xml(r):
    o = ['<?xml version="1.0" encoding="UTF-8"?>\n<%s%s>\n<section-def-cats>' % (
        r["stage"], ' default="chunk"' if r.get("default") == "chunk" else "")]
    for n, items in r["cats"]:
        o.append("<def-cat n=%s>" % quoteattr(n))
        for lem, tags in items:
            if r["stage"] == "postchunk":
                o.append("<cat-item name=%s/>" % quoteattr(lem))
            elif lem:
                o.append("<cat-item lemma=%s tags=%s/>" % (quoteattr(lem), quoteattr(tags)))
            else:
                o.append("<cat-item tags=%s/>" % quoteattr(tags))
        o.append("</def-cat>")
    o.append("</section-def-cats>\n<section-def-attrs>")
    for n, items in r["attrs"]:
        o.append("<def-attr n=%s>%s</def-attr>" % (quoteattr(n), "".join("<attr-item tags=%s/>" % quoteattr(t) for t in items)))
    o.append("</section-def-attrs>\n<section-def-vars>")
    for n, v in r["vars"]:
        o.append("<def-var n=%s v=%s/>" % (quoteattr(n), quoteattr(v)))
    o.append("</section-def-vars>\n")
    if r["lists"]:
        o.append("<section-def-lists>")
        for n, items in r["lists"]:
            o.append("<def-list n=%s>%s</def-list>" % (quoteattr(n), "".join("<list-item v=%s/>" % quoteattr(t) for t in items)))
        o.append("</section-def-lists>\n")
    if r["macros"]:
        o.append("<section-def-macros>")
        for n, npar, body in r["macros"]:
            o.append("\n<def-macro n=%s npar=\"%d\">%s</def-macro>" % (quoteattr(n), npar, "".join(map(el, body))))
        o.append("</section-def-macros>\n")
    o.append("<section-rules>")
    for cats, body in r["rules"]:
        o.append("\n<rule><pattern>%s</pattern><action>%s</action></rule>" % (
            "".join("<pattern-item n=%s/>" % quoteattr(c) for c in cats), "".join(map(el, body))))
    o.append("</section-rules>\n</%s>\n" % r["stage"])
    return "".join(o)


# ---------------------------------------------------------------- case

@functools.lru_cache(None)
def _ulow(c):
    lib, v = caps._icu()
    return chr(getattr(lib, "u_tolower_" + v)(ord(c)))


@functools.lru_cache(None)
def _uup(c):
    lib, v = caps._icu()
    return chr(getattr(lib, "u_toupper_" + v)(ord(c)))


def low1(c):
    return _ulow(c) if ord(c) < 0x10000 else c


def up1(c):
    return _uup(c) if ord(c) < 0x10000 else c


def copycase(src, dst):
    """the case pattern of src on dst"""
    if not src or not dst:
        return dst
    p = caps.pattern(src)
    return caps.upper(dst) if p == "AA" else caps.title(dst) if p == "Aa" else caps.lower(dst)


def copycase_word(src, dst):
    """the case pattern of src on the lemma (and queue) of dst, its tags untouched"""
    i, j = dst.find("<"), dst.rfind(">")
    if i < 0 or j < 0:
        return copycase(src, dst)
    p = caps.pattern(src)
    tail = dst[j + 1:]
    if tail:
        tail = caps.upper(tail) if p == "AA" else caps.lower(tail)
    return copycase(p, dst[:i]) + dst[i:j + 1] + tail


# ---------------------------------------------------------------- parts of words

ESC = r"(?:[^<\\]|\\.)"
PARTS = {
    "lem": re.compile(r"^(?:[^<\\]|\\.)+", re.S),
    "lemh": re.compile(r"^(?:[^<#\\]|\\.)+", re.S),
    "whole": re.compile(r".+", re.S),
}


def scan(s):
    """positions of characters that are not escaped"""
    i, o = 0, []
    while i < len(s):
        if s[i] == "\\":
            i += 2
        else:
            o.append(i)
            i += 1
    return o


def find_part(attrs, part, s):
    """(start, end) of a part in a word, or None"""
    if part in PARTS:
        m = PARTS[part].match(s)
        return m.span() if m else None
    if part == "lemq":
        for i in scan(s):
            if s[i] == "#" and s[i + 1:i + 2] and s[i + 1] in "- _":
                m = re.compile(ESC + "+", re.S).match(s, i + 2)
                if m:
                    return i, m.end()
        return None
    if part == "tags":
        for i in scan(s):
            if s[i] == "<":
                m = re.compile(r"(?:<[^>]+>)+", re.S).match(s, i)
                if m:
                    return m.span()
        return None
    if part in ("content", "chcontent"):
        for i in scan(s):
            if s[i] == "{":
                return (i, len(s)) if i < len(s) - 1 else None
        return None
    best = None
    sl = s.lower()
    for i in range(len(s)):
        if s[i] != "<":
            continue
        for it in attrs[part]:
            x = "<" + it.replace(".", "><").lower() + ">"
            if sl.startswith(x, i) and (best is None or len(x) > best[1] - best[0]):
                best = (i, i + len(x))
        if best:
            return best
    return None


def get_part(attrs, part, s):
    p = find_part(attrs, part, s)
    return s[p[0]:p[1]] if p else ""


def set_part(attrs, part, s, v):
    p = find_part(attrs, part, s)
    return s[:p[0]] + v + s[p[1]:] if p else s


# ---------------------------------------------------------------- matching

def wkey(s, notags=False):
    """lemma characters and tags of a word, as categories see them"""
    o, i = [], 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            o.append(low1(s[i + 1]))
            i += 2
        elif c == "<":
            if notags:
                break
            j = s.index(">", i)
            o.append(s[i:j + 1])
            i = j + 1
        elif c in "/{":
            break
        else:
            o.append(low1(c))
            i += 1
    return o


@functools.lru_cache(100000)
def _cat_item(lem, tags):
    """a regular expression over the encoded key: characters as themselves behind a 0x01, tags behind a 0x02 and up to 0x03"""
    ch = "(?:\x01.)"
    if not tags and lem is None or lem == "":
        o = ch + "+"
    else:
        o = "".join(ch + "+" if c == "*" else "\x01" + re.escape(c) for c in lem)
    for t in tags.split(".") if tags else []:
        o += "(?:\x02[^\x03]*\x03)+" if t == "*" else "\x02" + re.escape("<" + t + ">") + "\x03"
    return re.compile(o, re.S)


def enc(key):
    return "".join("\x02" + k + "\x03" if len(k) > 1 and k[0] == "<" else "\x01" + k for k in key)


def item_matches(stage, lem, tags, e):
    if stage != "postchunk" and not tags:
        lem = ""
    return _cat_item(lem, tags).fullmatch(e) is not None


# ---------------------------------------------------------------- wblanks

def combine(a, b):
    if not a:
        return b
    if not b:
        return a
    if a.endswith("]]"):
        k = len(a) - 3
        e = False
        while k >= 0 and a[k] == "\\":
            e = not e
            k -= 1
        if not e:
            a = a[:-2]
    return a + "; " + (b[2:] if b.startswith("[[") else b)


class RuleError(Exception):
    """the rule file asks for something with no defined meaning"""


class Interp:
    def __init__(self, r, dictcase=False):
        self.r = r
        self.stage = r["stage"]
        self.attrs = {n: v for n, v in r["attrs"]}
        self.lists = {n: v for n, v in r["lists"]}
        self.macros = {n: (p, b) for n, p, b in r["macros"]}
        self.cats = {n: items for n, items in r["cats"]}
        self.dictcase = dictcase
        # a rule with the pattern of an earlier rule is skipped by the compiler
        seen, self.skipped = set(), set()
        for k, (cats, _) in enumerate(r["rules"]):
            if tuple(cats) in seen:
                self.skipped.add(k)
            seen.add(tuple(cats))
        self.reset()
        self.applied = []
        self.undefined = False
        self.stats = {"rules": 0, "defaults": 0, "rejects": 0, "longer": 0, "lets": 0, "macros": 0, "tests": 0, "lost": 0}
        self.lost_rules = False     # emulate the known loss of a rule after a rejection (see known_findings)
        self.lost_hit = False

    def reset(self):
        self.vars = {n: v for n, v in self.r["vars"]}
        self.varwb = {}
        self.in_lu = self.in_let = False
        self.in_out = False
        self.let_var = None

    # -- matching
    def matches(self, k, keys):
        cats = self.r["rules"][k][0]
        return len(cats) <= len(keys) and all(
            any(item_matches(self.stage, l, t, e) for l, t in self.cats[c]) for c, e in zip(cats, keys))

    def best(self, keys, banned):
        b = None
        for k, (cats, _) in enumerate(self.r["rules"]):
            if k in banned or k in self.skipped:
                continue
            if self.matches(k, keys) and (b is None or len(cats) > len(self.r["rules"][b][0])):
                b = k
        return b

    # -- values
    def clip(self, w, part, side, pos):
        raise NotImplementedError

    def val(self, e):
        t, a, ch = e
        if t == "lit":
            return a["v"]
        if t == "lit-tag":
            return "<" + a["v"].replace(".", "><") + ">"
        if t == "var":
            self.on_var(a["n"])
            return self.vars.get(a["n"], "")
        if t == "clip":
            v = self.do_clip(a)
            if a.get("link-to"):
                return "<%s>" % a["link-to"] if v else ""
            return v
        if t == "b":
            if self.queue:
                return self.queue.pop(0) if self.in_out else self.queue[0]
            return " "
        if t == "get-case-from":
            src = self.case_source(int(a["pos"]))
            v = self.val(ch[0])
            return v if self.dictcase else copycase_word(src, v)
        if t == "case-of":
            return caps.pattern(self.raw_clip(a))
        if t == "concat":
            return "".join([self.val(c) for c in ch])
        if t == "lu":
            return self.lu(e)
        if t == "mlu":
            return self.mlu(e)
        if t == "chunk":
            return self.chunk(e)
        if t == "lu-count":
            return str(self.nwords)
        raise RuleError(t)

    def on_var(self, n):
        pass

    def lower(self, s):
        if not s:
            self.undefined = True    # lttoolbox's StringUtils::tolower reads an uninitialised buffer for ""
        return caps.lower(s)

    def test(self, e):
        t, a, ch = e
        self.stats["tests"] += 1
        if t == "and":
            return all(self.test(c) for c in ch)
        if t == "or":
            return any(self.test(c) for c in ch)
        if t == "not":
            return not self.test(ch[0])
        f = self.lower if a.get("caseless") == "yes" else (lambda s: s)
        x = f(self.val(ch[0]))
        if t in ("in", "begins-with-list", "ends-with-list"):
            ys = [f(y) for y in self.lists.get(ch[1][1]["n"], [])]
            if t == "in":
                return x in ys
            return any(x.startswith(y) if t == "begins-with-list" else x.endswith(y) for y in ys)
        y = f(self.val(ch[1]))
        if t == "equal":
            return x == y
        if t == "begins-with":
            return x.startswith(y)
        if t == "ends-with":
            return x.endswith(y)
        if t == "contains-substring":
            return y in x
        raise RuleError(t)

    # -- instructions; each returns None or the number of words a rejection consumes
    def block(self, body):
        for i in body:
            r = self.instr(i)
            if r is not None:
                return r
        return None

    def instr(self, e):
        t, a, ch = e
        if t == "choose":
            for o in ch:
                if o[0] == "otherwise":
                    return self.block(o[2])
                if self.test(o[2][0][2][0]):
                    return self.block(o[2][1:])
            return None
        if t == "let":
            self.stats["lets"] += 1
            self.let(ch[0], ch[1])
        elif t == "append":
            for c in ch:
                self.in_let, self.let_var = True, a["n"]
                v = self.val(c)
                self.vars[a["n"]] = self.vars.get(a["n"], "") + v
                self.in_let = False
        elif t == "out":
            self.in_out = True
            for c in ch:
                self.out.append(self.val(c))
            self.in_out = False
        elif t == "modify-case":
            if self.dictcase:
                return None
            case = self.val(ch[1])
            if ch[0][0] == "var":
                n = ch[0][1]["n"]
                self.vars[n] = copycase(case, self.vars.get(n, ""))
            else:
                self.modify_clip(ch[0][1], case)
        elif t == "call-macro":
            self.stats["macros"] += 1
            npar, body = self.macros[a["n"]]
            saved = self.params
            self.params = self.map_params(saved, [int(c[1]["pos"]) for c in ch], npar)
            # a macro cannot end the rule that calls it
            for i in body:
                self.instr(i)
            self.params = saved
        elif t == "reject-current-rule":
            s = a["shifting"]
            self.stats["rejects"] += 1
            return 1 if s == "yes" else 0 if s == "no" else int(s)
        else:
            raise RuleError(t)
        return None

    def let_var_value(self, name, e):
        self.in_let, self.let_var = True, name
        self.varwb[name] = ""
        v = self.val(e)
        self.vars[name] = v
        self.in_let = False

    # -- driving
    def src(self, w):
        return w

    def run(self, blanks, words):
        """blanks has one element more than words"""
        self.out = [blanks[0]]
        n = len(words)
        es = [enc(wkey(self.src(w), self.stage == "postchunk")) for w in words]
        i, banned = 0, set()
        while i < n:
            self.at = i
            k = self.best(es[i:i + 8], banned)
            while k is not None and banned and self.lost_rules and self.lost(k, es[i:i + 8]):
                self.lost_hit = True
                banned = banned | {k}
                k = self.best(es[i:i + 8], banned)
            if k is None:
                self.stats["defaults"] += 1
                self.applied.append(None)
                self.default(words[i])
                i += 1
                self.out.append(blanks[i])
                banned = set()
                continue
            m = len(self.r["rules"][k][0])
            self.applied.append(k)
            self.stats["rules"] += 1
            self.stats["longer"] += m > 1
            r = self.apply(k, words[i:i + m], blanks[i + 1:i + m])
            if r == 0:
                banned = banned | {k}
                continue
            i += m if r is None else r
            banned = set()
            self.out.append(blanks[i])
        return "".join(self.out)

    def apply(self, k, words, inner):
        self.queue = list(inner)
        self.last_lword = len(words)
        self.begin(words)
        r = self.block(self.r["rules"][k][1])
        popped = len(inner) - len(self.queue)
        if r is None:
            rest = self.queue
        else:
            # the words behind the consumed ones, and the blanks before them, are read again
            rest = self.queue[:max(0, r - 1 - popped)]
        self.out += [b for b in rest if b != " "]
        self.queue = []
        return r

    def lost(self, k, keys):
        """the known defect: a rule is never tried after a rejection where an earlier rule has the same path in the automaton"""
        def paths(j):
            return [{(l or "*", t) for l, t in self.cats[c] if item_matches(self.stage, l, t, e)}
                    for c, e in zip(self.r["rules"][j][0], keys)]
        m = len(self.r["rules"][k][0])
        mine = paths(k)
        others = [paths(j) for j in range(k) if j not in self.skipped and len(self.r["rules"][j][0]) == m]
        return all(any(all(x in p for x, p in zip(combo, o)) for o in others) for combo in itertools.product(*mine))


class Transfer(Interp):
    """words: lists [source, target, reference, word-bound blank ('' or '[[...]]')(, length of the part the dictionary did not translate)]"""

    def src(self, w):
        return w[0]

    def begin(self, words):
        self.params = [list(w) + [0] * (5 - len(w)) for w in words]
        for w in self.params:
            # the last of several references
            depth, k = 0, 0
            for i in scan(w[2]):
                c = w[2][i]
                depth += {"<": 1, ">": -1}.get(c, 0)
                if c == "/" and not depth:
                    k = i + 1
            w[2] = w[2][k:]

    def default(self, w):
        t = w[5] if len(w) > 5 else w[1]
        if t:
            lu = "%s^%s$" % (w[3], t)
            if self.r.get("default") == "chunk":
                n = "unknown" if t[0] == "*" else "default"
                lu = "^%s<%s>{%s}$" % (n, n, lu)
            self.out.append(lu)

    def word(self, pos):
        if not 1 <= pos <= len(self.params):
            raise RuleError("position %d" % pos)
        return self.params[pos - 1]

    SIDE = {"sl": 0, "tl": 1, "ref": 2}

    def raw_clip(self, a):
        w = self.word(int(a["pos"]))
        return get_part(self.attrs, a["part"], self.split(w, a)[0])

    def split(self, w, a):
        """the side of a word as the queue attribute shows it, and the tags behind (those the dictionary did not translate)"""
        s = w[self.SIDE[a["side"]]]
        if a.get("queue") == "no" and w[4]:
            if len(s) < w[4]:
                self.undefined = True
                return s, ""
            return s[:len(s) - w[4]], s[len(s) - w[4]:]
        return s, ""

    def do_clip(self, a):
        w = self.word(int(a["pos"]))
        if a["part"] in ("lem", "lemh", "whole") and a["side"] != "ref" and not a.get("link-to") and self.last_lword > 1:
            if self.in_lu:
                self.wb = combine(self.wb, w[3])
            elif self.in_let:
                self.varwb[self.let_var] = combine(self.varwb.get(self.let_var, ""), w[3])
        return self.raw_clip(a)

    def case_source(self, pos):
        return get_part(self.attrs, "lem", self.word(pos)[0])

    wb = ""

    def on_var(self, n):
        if self.last_lword > 1:
            self.wb = combine(self.wb, self.varwb.get(n, ""))

    def one_word_blank(self):
        return self.params[0][3] if self.params else None

    def lu(self, e):
        self.in_lu = True
        self.wb = ""
        v = "".join([self.val(c) for c in e[2]])
        self.in_lu = False
        if v.startswith("[["):
            self.undefined = True    # a variable that holds a whole unit with its word-bound blank, inside a unit
        if self.last_lword == 1 and self.params:
            self.wb = self.params[0][3]
        return "%s^%s$" % (self.wb, v) if v else ""

    def mlu(self, e):
        self.in_lu = True
        self.wb = ""
        o = ""
        for c in e[2]:
            v = "".join([self.val(x) for x in c[2]])
            if o and v and v[0] != "#":
                o += "+"
            o += v
        self.in_lu = False
        if self.last_lword == 1 and self.params:
            self.wb = self.params[0][3]
        return "%s^%s$" % (self.wb, o) if o else ""

    def chunk(self, e):
        a = e[1]
        name = a["name"] if a.get("name") else self.vars.get(a.get("namefrom"), "")
        if not self.dictcase and a.get("case"):
            name = copycase(self.vars.get(a["case"], ""), name)
        o = "^" + name
        for c in e[2]:
            if c[0] == "tags":
                for t in c[2]:
                    o += "".join([self.val(x) for x in t[2]])
                o += "{"
            else:
                o += self.val(c)
        return o + "}$"

    def let(self, left, e):
        if left[0] == "var":
            return self.let_var_value(left[1]["n"], e)
        a = left[1]
        w = self.word(int(a["pos"]))
        v = self.val(e)
        s, q = self.split(w, a)
        w[self.SIDE[a["side"]]] = set_part(self.attrs, a["part"], s, v) + q

    def modify_clip(self, a, case):
        w = self.word(int(a["pos"]))
        s, q = self.split(w, a)
        w[self.SIDE[a["side"]]] = set_part(self.attrs, a["part"], s, copycase(case, get_part(self.attrs, a["part"], s))) + q

    def map_params(self, params, idx, npar):
        return [params[i - 1] for i in idx]


def split_chunk(s):
    for i in scan(s):
        if s[i] == "{":
            return [s[:i], s[i:]]
    return [s, ""]


class Interchunk(Interp):
    """words: the text of a chunk between ^ and $"""
    bare_chunks = False
    bare_hit = False

    def begin(self, words):
        self.params = [split_chunk(w) for w in words]

    def default(self, w):
        self.out.append("^%s$" % w)

    def word(self, pos):
        if not 1 <= pos <= len(self.params):
            raise RuleError("position %d" % pos)
        return self.params[pos - 1]

    def raw_clip(self, a):
        c, q = self.word(int(a["pos"]))
        p = a["part"]
        if p in ("content", "chcontent"):
            return q
        if p == "whole":
            return c + q
        v = get_part(self.attrs, p, c)
        if self.bare_chunks:
            # emulation of a known finding: how InterchunkWord::chunkPart picks between the head and the content
            w = v
            if not v:
                w = get_part(self.attrs, p, q)
                if len(w) != len(q):
                    w = ""
            elif v == c:
                w = get_part(self.attrs, p, c + q)
            if w != v:
                self.bare_hit = True
            return w
        return v

    def do_clip(self, a):
        v = self.raw_clip(a)
        return v[1:-1] if a["part"] == "content" else v

    def case_source(self, pos):
        return self.raw_clip({"pos": pos, "part": "lem"})

    def chunk(self, e):
        return "^" + "".join([self.val(c) for c in e[2]]) + "$"

    def let(self, left, e):
        if left[0] == "var":
            v = self.val(e)
            self.vars[left[1]["n"]] = v
            return
        a = left[1]
        w = self.word(int(a["pos"]))
        v = self.val(e)
        if any(v[k] == "{" for k in scan(v)):
            self.undefined = True    # content written into the head of a chunk
        w[0] = set_part(self.attrs, a["part"], w[0], v)

    def modify_clip(self, a, case):
        w = self.word(int(a["pos"]))
        v = copycase(case, self.raw_clip(a))
        if any(v[k] == "{" for k in scan(v)):
            self.undefined = True
        w[0] = set_part(self.attrs, a["part"], w[0], v)

    def map_params(self, params, idx, npar):
        return [params[i - 1] for i in idx]


def chunk_pieces(s):
    """the content of a chunk as [("b", text) | ("w", word-bound blank, word)]"""
    head, cont = split_chunk(s)
    cont = cont[1:-1]
    o, i, b, wb = [], 0, "", ""
    while i < len(cont):
        c = cont[i]
        if c == "\\":
            b += cont[i:i + 2]
            i += 2
        elif cont.startswith("[[", i):
            j = i
            while not cont.startswith("]]", j):
                j += 2 if cont[j] == "\\" else 1
            wb = cont[i:j + 2]
            i = j + 2
        elif c == "[":
            j = i
            while cont[j] != "]":
                j += 2 if cont[j] == "\\" else 1
            b += cont[i:j + 1]
            i = j + 1
        elif c == "^":
            j = i
            while cont[j] != "$":
                j += 2 if cont[j] == "\\" else 1
            o.append(("b", b))
            b = ""
            o.append(("w", wb, cont[i + 1:j]))
            wb = ""
            i = j + 1
        else:
            b += c
            i += 1
    o.append(("b", b))
    return head, o


class Postchunk(Interp):
    """words: the text of a chunk between ^ and $"""

    def prepare(self, w, dictcase):
        """name and tags of the chunk; its words with references and case resolved; the blanks around them"""
        head, ps = chunk_pieces(w)
        tags = re.findall(r"<[^>]*>", re.sub(r"\\.", lambda m: "", head, flags=re.S))
        i = [k for k in scan(head) if head[k] == "<"]
        pat = caps.pattern(head[:i[0]] if i else head)
        words, blanks = [], []
        first = pat == "Aa" and not dictcase
        alls = pat == "AA" and not dictcase
        for p in ps:
            if p[0] == "b":
                blanks.append(p[1])
                continue
            o = ""
            for t in caps.toks(p[2]):
                if len(t) > 1 and t[0] == "<":
                    if t[1].isdigit():
                        k = int(t[1:-1])
                        o += tags[k - 1] if 1 <= k <= len(tags) else ""
                    else:
                        o += t
                elif t[0] == "\\":
                    o += t
                elif alls:
                    o += up1(t)
                elif first and ord(t) < 0x10000 and (unicodedata.category(t)[0] == "L" or unicodedata.category(t) == "Nd"):
                    o += up1(t)
                    first = False
                else:
                    o += t
            words.append([p[1], o])
        return head, words, blanks

    def default(self, w):
        _, words, blanks = self.prepare(w, self.dictcase)
        o = blanks[0]
        for x, b in zip(words, blanks[1:]):
            o += "%s^%s$%s" % (x[0], x[1], b)
        self.out.append(o)

    def apply(self, k, words, _):
        head, ws, blanks = self.prepare(words[0], self.dictcase)
        self.params = [["", head]] + ws
        self.nwords = len(ws)
        self.last_lword = 1
        self.queue = blanks[1:-1] if ws else []
        mark = len(self.out)
        r = self.block(self.r["rules"][k][1])
        if r != 0 or len(self.out) > mark:
            self.out.insert(mark, blanks[0])
        if r != 0:
            self.out += [b for b in self.queue if b != " "]
            if ws:
                self.out.append(blanks[-1])
        self.queue = []
        return r

    def word(self, pos):
        if not 0 <= pos < len(self.params):
            raise RuleError("position %d" % pos)
        return self.params[pos]

    def lword(self):
        return len(self.params) - 1

    def raw_clip(self, a):
        return get_part(self.attrs, a["part"], self.word(int(a["pos"]))[1])

    def do_clip(self, a):
        if a["part"] in ("lem", "lemh", "whole") and self.lword() > 1:
            w = self.word(int(a["pos"]))
            if self.in_lu:
                self.wb = combine(self.wb, w[0])
            elif self.in_let:
                self.varwb[self.let_var] = combine(self.varwb.get(self.let_var, ""), w[0])
        return self.raw_clip(a)

    wb = ""

    def on_var(self, n):
        if self.lword() > 1:
            self.wb = combine(self.wb, self.varwb.get(n, ""))

    def case_source(self, pos):
        return get_part(self.attrs, "lem", self.word(pos)[1])

    def lu(self, e):
        self.in_lu = True
        self.wb = ""
        v = "".join([self.val(c) for c in e[2]])
        self.in_lu = False
        if v.startswith("[["):
            self.undefined = True    # a variable that holds a whole unit with its word-bound blank, inside a unit
        if self.lword() == 1:
            self.wb = self.params[1][0]
        return "%s^%s$" % (self.wb, v) if v else ""

    def mlu(self, e):
        self.in_lu = True
        self.wb = ""
        o = ""
        for c in e[2]:
            v = "".join([self.val(x) for x in c[2]])
            if o and v and v[0] != "#":
                o += "+"
            o += v
        self.in_lu = False
        if self.lword() == 1:
            self.wb = self.params[1][0]
        return "%s^%s$" % (self.wb, o) if o else ""

    def let(self, left, e):
        if left[0] == "var":
            return self.let_var_value(left[1]["n"], e)
        a = left[1]
        w = self.word(int(a["pos"]))
        v = self.val(e)
        w[1] = set_part(self.attrs, a["part"], w[1], v)

    def modify_clip(self, a, case):
        w = self.word(int(a["pos"]))
        w[1] = set_part(self.attrs, a["part"], w[1], copycase(case, self.raw_clip(a)))

    def map_params(self, params, idx, npar):
        return [params[0]] + [params[i] for i in idx]
