"""Reference model of the format tools, from the frozen format definitions (config/formats.json)."""
import functools, json, os, re
from . import flexre
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFS = json.load(open(V + "/config/formats.json"))
FMTS = ["txt", "html", "html-noent", "html-alt", "odt", "rtf", "wxml", "xlsx", "pptx", "mediawiki", "xpresstag"]


def cunesc(s):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "r": "\r", "t": "\t"}.get(m.group(1), m.group(1)), s)


class Fmt:
    def __init__(self, name, D=None):
        D = D or DEFS[name]
        self.name, self.large, self.caseless = name, D["large"], D["caseless"]
        rules = D["rules"]
        self.comments = [r for r in rules if "begin" in r]
        self.lex = {}

        def actions(rs):
            o = []
            for r in rs:
                if "begin" in r:
                    # states are numbered by the comment rules; the first rule with this begin is the one flex can match
                    o.append((r["begin"], ("push", r["eos"] + 2 * r["eoh"], self.comments.index(r))))
                else:
                    o.append((r["tag"], ("tag", r["eos"] + 2 * r["eoh"])))
            return o
        for i, c in enumerate(self.comments):
            inner = sorted([r for r in rules if c["prio"] > r["prio"]], key=lambda r: r["prio"])
            self.lex[i] = flexre.Lexer(actions(inner) + [(c["end"], ("pop",)), ("\\n|.", ("buf",))], self.caseless)
        top = actions(rules)
        self.reps = []
        for j, r in enumerate(D["reps"]):
            m = {cunesc(k).encode("utf8"): cunesc(v) for k, v in r["map"].items()}
            self.reps.append(m)
            top.append((r["re"], ("rep", m)))
        top += [(D["space"], ("space",)), (D["escape"], ("esc",)), (".", ("text",)), ("\\n", ("echo",))]
        self.lex[None] = flexre.Lexer(top, self.caseless)
        self.escset = frozenset(c for c in flexre_set(D["escape"], self.caseless))
        self.spaceset = frozenset(flexre_set(D["space"], self.caseless))
        # ASTs for generation
        P = lambda s: flexre.P(s, self.caseless).parse()[1]
        self.gtags = [(P(r["tag"]), r["eos"]) for r in rules if "tag" in r]
        self.gcomm = [(P(r["begin"]), P(r["end"])) for r in self.comments]
        self.grep = [P(r["re"]) for r in D["reps"]]

    def escape(self, s):
        return "".join("\\" + c if ord(c) < 128 and ord(c) in self.escset else c for c in s)

    def tokens(self, doc):
        """[(kind, text, ends, what)]: kinds buf, text, esc, rep; ends of a buf: 1 end of sentence, 2 end of headline"""
        st = []
        pos = 0
        out = []
        n = len(doc)
        bol = True
        while pos < n:
            cur = st[-1] if st else None
            l, act = self.lex[cur].match(doc, pos, bol)
            t = doc[pos:pos + l]
            pos += l
            bol = t.endswith(b"\n")
            k = act[0]
            if k == "push":
                st.append(act[2])
                out.append(("buf", t, act[1], "comment"))
            elif k == "tag":
                out.append(("buf", t, act[1], "comment" if st else "tag"))
            elif k == "pop":
                st.pop()
                out.append(("buf", t, 0, "comment"))
            elif k == "buf":
                out.append(("buf", t, 0, "comment"))
            elif k == "rep":
                v = act[1].get(t)
                out.append(("buf", t, 0, "entity") if v is None else ("rep", t, v, "rep"))
            elif k == "space":
                out.append(("buf", t, 0, "space"))
            elif k == "esc":
                out.append(("esc", t, None, "text"))
            else:
                out.append((k, t, None, "text"))
        return out

    def deformat(self, doc, n=False, i=False, o=False):
        """list of pieces: strings and ("blk", content) for large blocks; also the tokens"""
        toks = self.tokens(doc)
        out = []
        buf = b""
        dot = head = False
        mark = "[]" if n else ".[]"

        def flush():
            nonlocal buf, dot, head
            if head and o:
                out.append("[]\u2761")
                head = False
            s = buf.decode("utf8")
            buf = b""
            if dot and not i:
                out.append(mark)
                dot = False
            size = len(s.encode("utf-16-le")) // 2
            if size > self.large:
                if i:
                    out.append(mark)
                out.append(("blk", s))
            elif size > 1 or (size == 1 and s != " "):
                if i:
                    out.append(mark)
                out.append("[" + self.escape(s) + "]")
            else:
                out.append(s)
        pend = b""
        for k, t, x, _ in toks:
            if k == "buf":
                if x & 1:
                    dot = True
                if x & 2:
                    head = True
                buf += t
                continue
            if not pend:
                flush()
            if k == "rep":
                out.append(x)
            elif k == "esc":
                out.append("\\" + t.decode())
            else:
                pend += t
                try:
                    out.append(pend.decode("utf8"))
                    pend = b""
                except UnicodeDecodeError:
                    pass
        dot = True
        if i:
            out.append(mark)
        flush()
        return out, toks


def flexre_set(r, caseless):
    """single bytes a one-character rule matches"""
    ast = flexre.P(r, caseless).parse()[1]
    l = flexre.Lexer([(r, 0)], caseless)
    return [c for c in range(256) if l.match(bytes([c]), 0, True)]


CUSTOM = {}         # name: Fmt of a generated definition


@functools.lru_cache(None)
def _get(name):
    return Fmt(name)


def get(name):
    return CUSTOM[name] if name in CUSTOM else _get(name)


LET = "abe zéñxАß漢😀sT1"
ALPHA = b"abx1-=\"'/ :;.{}&#"


def text(d, hi=6):
    return d.str("ab é,.;:!1T漢😀'\"#&%*~-_+=|?", 1, hi)


def special(d):
    return d.pick("[]{}^$/\\@<>*~#&\n\t \r.'\"")


def tagtext(d, ast):
    return flexre.sample(d, ast, ALPHA).decode("latin1")


def document(d, name):
    """a document: text, reserved characters, markup built from the rules, comments with content, entities and near misses"""
    f = get(name)
    parts = []
    many = d.weighted([(8, 8), (2, 20)])

    def piece(d):
        k = d.weighted([(30, 0), (12, 1), (22, 2), (8, 3), (8, 4), (8, 5), (6, 6), (1, 7)])
        if k == 0:
            return text(d)
        if k == 1:
            return d.str("[]{}^$/\\@<>*~#&\n\t \r.", 1, 3)
        if k == 2 and f.gtags:
            return tagtext(d, d.pick(f.gtags)[0])
        if k == 3 and f.gcomm:
            b, e = d.pick(f.gcomm)
            s = tagtext(d, b) + d.pick(["", " ", "", ""]) + "".join(d.list(lambda d: d.pick(
                [text(d, 4), special(d), tagtext(d, d.pick(f.gtags)[0]) if f.gtags else "x"]), 0, 4, 60))
            if d.chance(15):
                b2, e2 = d.pick(f.gcomm)
                s += tagtext(d, b2) + text(d, 3) + (tagtext(d, e2) if d.chance(80) else "")
            return s + (tagtext(d, e) if d.chance(85) else "")
        if k == 4 and f.grep:
            if d.chance(70):
                m = d.pick(f.reps)
                return d.pick(sorted(m)).decode("utf8")
            return tagtext(d, d.pick(f.grep))
        if k == 5 and f.gtags:
            s = tagtext(d, d.pick(f.gtags)[0])
            a = d.n(len(s))
            return s[:a] + (d.pick(["", " ", "x", "\n"]) if d.bool() else "")
        if k == 6:
            return d.pick([" ", "  ", "\n", " \n ", "\t", ". ", ".\n", ".", "..."])
        if k == 7:
            n = d.int(8150, 8250)
            c = d.pick(["a", "é", "😀", "]", "@"])
            if f.gcomm:
                b, e = d.pick(f.gcomm)
                return tagtext(d, b) + c * n + tagtext(d, e)
            return d.pick(["\n", " ", "\t"]) * n
        return text(d)
    parts = d.list(piece, 0, many, 80)
    s = "".join(parts)
    if d.chance(40):
        s += "\n"
    return s
