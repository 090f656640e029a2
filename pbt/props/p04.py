"""P04 the LaTeX tool chain: preprocessor, deformatter, reformatter and postprocessor give the document back and offer no markup."""
import re
import unicodedata
from ..core import *

TECHNIQUE = "property-based testing: generated LaTeX documents through the whole chain (round trip), with marked words that must or must not be offered"
NOTE = ("Search over generated documents, not a proof. Oracle: the document itself, where each letter with a LaTeX spelling may come back in any of its "
        "spellings, and words marked in the generated text (offered) and in mathematics, comments, verbatim text, keys and names (not offered). Out of the "
        "domain: macro parameters (#1), which the raw postprocessor escapes on purpose, and white space inside \\begin {name}.")
TOOLS = ["apertium-prelatex", "apertium-utils-fixlatex", "apertium-deslatex", "apertium-relatex", "apertium-postlatex", "apertium-postlatex-raw"]
LIB = []
RULE = ("documents of nested text, commands, options, groups, environments, comments, mathematics, verbatim text, escapes and accents, line ends of either "
        "kind, both postprocessors; non-trivial: three kinds of construct and a marked word")

# LaTeX accents and what they put on a letter
COMB = {"`": "\u0300", "'": "\u0301", "^": "\u0302", '"': "\u0308", "~": "\u0303", "=": "\u0304", ".": "\u0307", "u": "\u0306", "v": "\u030c", "H": "\u030b",
        "c": "\u0327", "k": "\u0328", "d": "\u0323", "b": "\u0331", "r": "\u030a"}
LIG = {"oe": "œ", "OE": "Œ", "ae": "æ", "AE": "Æ", "aa": "å", "AA": "Å", "o": "ø", "O": "Ø", "ss": "ß", "l": "ł"}
GERMAN = dict(zip("oOaAuUsS", "öÖäÄüÜßß"))
OPEN = ["part", "chapter", "section", "title", "mline", "thanks", "subsection", "paragraph", "subsubsection", "frametitle", "caption", "footnote", "framebox",
        "textit", "emph", "textbf"]
OPT = ["part", "chapter", "section", "subsection", "subsubsection"]
MATHENV = ["equation", "eqnarray", "thebibliography"]
SIMPLE = ["{", "}", "%", "$", "_", "&", "#", ",", ";", " ", "-", "/", "@", ":", "!", "|", ">", "\\"]
NAMES = ["alpha", "maketitle", "LaTeX", "item", "newpage", "it", "bf", "foo", "i", "j", "textquotedblleft", "x", "S", "hspace", "noindent", "tt", "rm", "cr",
         "vx", "label", "part", "url", "HUGE", "cc"]
ENVS = ["itemize", "center", "document", "abstract", "tabular", "quote", "figure", "block", "e1", "A", "verse2"]
TEXT = "abcdexyzT é ñ漢😀Ж .,;:!?-()\"'<>&*/=+|@`1290~^_\n\n ł¿¡çŸø"
RAW = "ab <>&'\"{}é漢😀#~^_=+-/;.,1¿ł¡"


# ---------------------------------------------------------------- generation

MARK = {"on": " \x02 ", "off": " \x03 ", "free": ""}


def words(d, zone):
    """text, in which some words are marked"""
    s = d.str(TEXT, 0, 6)
    if d.chance(40):
        s += MARK[zone] + d.str(TEXT, 0, 3)
    return ["t", s]


def letter(d):
    a = d.pick(sorted(COMB))
    x = d.weighted([(6, d.pick("aeouyAEIOUYncC")), (3, "\\i"), (2, "\\j"), (2, d.pick("szgxqZiN")), (1, "")])
    return ["acc", a, x, d.bool()]


def raw(d, without, zone):
    s = "".join(ch for ch in d.str(RAW + "$%\\[]|", 0, 8) if ch not in without)
    s = s.replace("\\", "\\alpha " if d.bool() else "\\,")
    if d.chance(50):
        s += MARK[zone]
    return s


def items(d, depth, zone, lo=0, hi=5):
    return d.list(lambda d: item(d, depth, zone), lo, hi, 80)


def item(d, depth, zone):
    """zone: the mark of words in ordinary text here: on, off, or free (either)"""
    k = d.weighted([(10, "t"), (4, "cmd"), (4, "esc"), (4, "acc"), (2, "lig"), (4, "$"), (3, "%"), (3, "verb"), (2, "opt"), (2, "ger"), (2, "hash"), (2, "br"), (1, "larg")]
                   + ([(3, "grp"), (2, "sw"), (4, "open"), (3, "key"), (4, "env"), (3, "(")] if depth else []))
    if k == "t":
        return words(d, zone)
    if k == "cmd":
        return ["cmd", d.weighted([(3, d.pick(NAMES)), (1, "\x03" + d.str("ab", 0, 2))]), d.chance(25), d.pick(["", " ", "{}", "\n"])]
    if k == "esc":
        return ["esc", d.pick(SIMPLE)]
    if k == "acc":
        return letter(d)
    if k == "lig":
        n = d.pick(sorted(LIG))
        return ["lig", n, d.pick([" ", "{}", ".", "1"]) if n == "l" and d.bool() else None]
    if k == "larg":
        return ["larg", d.weighted([(1, d.pick(NAMES)), (1, d.pick(OPEN))]), d.pick(sorted(LIG))]
    if k == "$":
        n = d.pick(["$", "$$"])
        return ["$", n, raw(d, "$\\", "off") + d.pick(["", "\\$", "\\alpha", "x"]) + "y"]
    if k == "%":
        return ["%", raw(d, "", "off"), d.chance(90)]
    if k == "verb":
        x = d.pick("|!?/#+")
        return ["verb", x, "v" + raw(d, x, "off")]
    if k == "opt":
        return ["opt", d.weighted([(3, None), (1, "usepackage"), (1, "documentclass")]), raw(d, "[]", "free")]
    if k == "ger":
        return ["ger", d.pick("oOaAuUsSx")]
    if k == "hash":
        return ["hash", d.str("0129", 0, 2)]
    if k == "br":
        return ["br", d.pick(["", "[2pt]", "[]", "*"])]
    if k == "grp":
        return ["grp", items(d, depth - 1, "free")]
    if k == "sw":
        return ["sw", d.pick(["sf", "bf", "em", "sc"]), items(d, depth - 1, zone)]
    if k == "open":
        n = d.pick(OPEN)
        return ["open", n, d.chance(20), d.pick(["", "", "", " ", "\n"]), raw(d, "[]", "free") if n in OPT and d.chance(25) else None, items(d, depth - 1, zone)]
    if k == "key":
        return ["key", d.pick(["cite", "ref"]), d.chance(20), "k" + d.pick(["\x03", ":1", "-é", ""])]
    if k == "env":
        n = d.weighted([(2, d.pick(ENVS)), (1, d.pick(MATHENV)), (1, "\x03" + d.str("ab", 0, 2))])
        off = n in MATHENV
        return ["env", n, d.chance(20), d.pick(["", " ", "\n", "[t]", "{ll}"]), items(d, depth - 1 if not off else 0, "off" if off and zone != "free" else zone)]
    return ["(", d.pick(["()", "[]"]), items(d, 0, "off" if zone != "free" else zone)]


def case(d):
    return {"german": d.chance(25), "doc": items(d, 2, "on", 0, 9), "crlf": d.chance(15), "raw": d.chance(70), "files": d.n(3)}


# ---------------------------------------------------------------- what is expected

def spellings(a, x):
    """all ways to write the letter x (perhaps \\i or \\j) under the accent a"""
    base = {"\\i": "i", "\\j": "j"}.get(x, x)
    out = [unicodedata.normalize("NFC", base + COMB[a])]
    for f in [base] + ["\\" + base] * (base in "ij"):
        out.append("\\%s{%s}" % (a, f))
        out.append("\\%s %s" % (a, f) if a.isalpha() and f[0] != "\\" else "\\" + a + f)
    return out


CHARS = {}
for _a in COMB:
    for _x in "aeiouyAEIOUYnNcCjsz":
        CHARS.setdefault(unicodedata.normalize("NFC", _x + COMB[_a]), []).extend(spellings(_a, _x))
for _n, _c in LIG.items():
    CHARS.setdefault(_c, []).extend([_c, "{\\%s}" % _n] + ["\\l", "\\l{}"] * (_n == "l"))
CHARS["¿"] = ["¿", "?`"]
CHARS["¡"] = ["¡", "!`"]


class Out:
    """the source, and what may come back: a list of strings and of lists of alternatives"""
    def __init__(self, c):
        self.src, self.want, self.german, self.raw, self.kinds = "", [], c["german"], c["raw"], set()
        self.on, self.off = [], []

    def put(self, src, want=None):
        if not src:
            return
        if re.match(r"[A-Za-z*]", src) and re.search(r"\\[A-Za-z]+\*?$", self.src) or self.german and self.src.endswith('"') and src[0] in GERMAN:
            self.put(" ")
        while "\x02" in src or "\x03" in src:
            k, ms = ("\x02", self.on) if "\x02" in src else ("\x03", self.off)
            ms.append(("on" if k == "\x02" else "off") + "zyxwvutsrq"[len(ms) % 10] * (1 + len(ms) // 10) + "k")
            src = src.replace(k, ms[-1], 1)
        self.src += src
        self.want.append(src if want is None else want)

    def text(self, s):
        for ch in s:
            self.put(ch, CHARS[ch] if ch in "¿¡" or ch in CHARS and not self.raw else None)

    def items(self, xs):
        for x in xs:
            self.kinds.add(x[0])
            getattr(self, "i_" + {"%": "comment", "$": "dollar", "(": "display"}.get(x[0], x[0]))(*x[1:])

    def i_t(self, s):
        self.text(s)

    def i_cmd(self, name, star, sep):
        self.put("\\" + name + "*" * star + sep)

    def i_esc(self, ch):
        self.put("\\" + ch)

    def i_acc(self, a, x, braces):
        if not x:
            self.put("\\%s{}" % a)
        elif braces:
            self.put("\\%s{%s}" % (a, x), spellings(a, x))
        else:
            self.put("\\%s%s%s" % (a, " " if a.isalpha() and x[0] != "\\" else "", x), spellings(a, x))
            if x[0] == "\\":
                self.put("{}")

    def i_lig(self, n, sep):
        if sep is None:
            if re.search(r"\\[A-Za-z]+\*?\s*$|\]$", self.src):
                self.put(".")
            self.put("{\\%s}" % n, CHARS[LIG[n]])
        else:
            self.put("\\l", CHARS["ł"])
            self.put(sep)

    def i_larg(self, n, x):
        """a letter as the whole argument of a command"""
        self.put("\\" + n)
        self.put("{")
        self.put("\\" + x, [LIG[x], "\\" + x, "{\\%s}" % x])
        self.put("}")

    def i_dollar(self, n, s):
        self.put(n + s + n)
        self.put(" ")

    def i_comment(self, s, eol):
        self.put("%" + s + "\n" * eol)

    def i_verb(self, x, s):
        self.put("\\verb" + x + s + x)

    def i_opt(self, n, s):
        self.put(("\\" + n if n else "") + "[" + s + "]")

    def i_ger(self, x):
        self.put('"' + x, ['"' + x] + CHARS.get(GERMAN.get(x), []) if self.german else None)

    def i_hash(self, n):
        self.put("\\#" + n)

    def i_br(self, s):
        self.put("\\\\" + s)

    def i_grp(self, xs):
        self.put("{")
        self.items(xs)
        self.put("}")

    def i_sw(self, n, xs):
        self.put("{\\" + n + " ")
        self.items(xs)
        self.put("}")

    def i_open(self, n, star, sep, opt, xs):
        self.put("\\" + n + "*" * star + ("" if opt is None else "[" + opt + "]") + sep + "{")
        self.items(xs)
        self.put("}")

    def i_key(self, n, star, k):
        self.put("\\" + n + "*" * star + "{")
        self.text(k)
        self.put("}")

    def i_env(self, n, star, arg, xs):
        n += "*" * star
        m = len(self.off)
        self.put("\\begin{" + n + "}" + arg)
        if "\x03" in n:
            n = n.replace("\x03", self.off[m])
        self.items(xs)
        self.put("\\end{" + n + "}")

    def i_display(self, n, xs):
        self.put("\\" + n[0])
        self.items(xs)
        self.put("\\" + n[1])


def strip(items, last=True):
    """comments without a line end only at the end of the document"""
    out = []
    for i, x in enumerate(items):
        x = list(x)
        if x[0] == "%" and not (last and i == len(items) - 1):
            x[2] = True
        if isinstance(x[-1], list):
            x[-1] = strip(x[-1], False)
        out.append(x)
    return out


def offered(s):
    """the text of a stream outside superblanks"""
    out, i, inb = [], 0, False
    while i < len(s):
        ch = s[i]
        if ch == "\\":
            ch = s[i:i + 2]
        i += len(ch)
        if ch == "[" and not inb:
            inb = True
        elif ch == "]" and inb:
            inb = False
        elif not inb:
            out.append(ch)
    return "".join(out)


def pattern(want):
    return re.compile("".join(re.escape(x) if isinstance(x, str) else
                              "(?:%s)" % "|".join(re.escape(y) + ("(?![A-Za-z])" if y == "\\l" else "") for y in sorted(set(x), key=len, reverse=True)) for x in want), re.S)


# ---------------------------------------------------------------- checking

def check(c):
    o = Out(c)
    if c["german"]:
        o.put("\\usepackage[ngerman]{babel}\n")
    o.items(strip(c["doc"]))
    src, want = o.src, o.want
    if c["crlf"]:
        src = src.replace("\n", "\r\n")
        want = [x.replace("\n", "\r\n") if isinstance(x, str) else x for x in want]
    post = "apertium-postlatex" + "-raw" * c["raw"]
    d = scratch_dir()
    try:
        p = wfile(d, "in.tex", src)
        if c["files"] == 0:
            s = ok(run(["apertium-prelatex"], src)).out
        elif c["files"] == 1:
            s = ok(run(["apertium-prelatex", p])).out
        else:
            r = ok(run(["apertium-prelatex", p, d + "/pre"]))
            need(r.out == b"", "apertium-prelatex wrote %r to stdout with an output file given", r.out)
            s = open(d + "/pre", "rb").read()
        s = ok(run_sh(["apertium-utils-fixlatex"], s, {"PATH": ENV.bin + ":/usr/bin:/bin"})).out
        s = ok(run(["apertium-deslatex"], s)).out
        stream = s.decode("utf8", "replace")
        s = ok(run(["apertium-relatex"], s)).out.replace(b"</CONTENTS-noeos>", b"</CONTENTS>")
        if c["files"] == 0:
            got = ok(run([post], s)).out
        else:
            q = wfile(d, "post", s)
            got = ok(run([post, q])).out
        got = got.decode("utf8", "replace")
        if not pattern(want).fullmatch(got):
            same(got, "".join(x if isinstance(x, str) else x[0] for x in want), "the document %r after the chain ending in %s" % (src, post))
            raise Violation("the document %r comes back as %r" % (src, got))
        if "[@" not in stream:
            t = offered(stream)
            for m in o.on:
                need(m in t, "%r of the document %r is not offered for translation: %r", m, src, stream)
            for m in o.off:
                need(m not in t, "%r of the document %r is offered for translation: %r", m, src, stream)
        return len(o.kinds) >= 3 and bool(o.on or o.off), o.kinds | {post, "LaTeX letters" if any(isinstance(x, list) for x in want) else "plain"}
    finally:
        shutil.rmtree(d)


SUBS = {"document": {"gen": case, "check": check}}
