"""Reference implementation of the perceptron tagger: feature language (the subset the checks generate), training and beam search."""
import itertools, re, struct
from xml.sax.saxutils import quoteattr
from . import tag

UNDER = ("!SURF_UNDERFLOW!", [("!TOK_UNDERFLOW!", ["!TUF!"])])
OVER = ("!SURF_OVERFLOW!", [("!TOK_OVERFLOW!", ["!TOF!"])])
UNTAGGED = [("!UNTAGGED!", ["!UT!"])]


class TooMany(Exception):
    pass


def parse(an):
    """analysis text -> [(lemma, [tag, ...])]"""
    return [(l, re.findall(r"<([^>]*)>", t)) for l, t in re.findall(r"((?:[^<\\+]|\\.)+)((?:<[^>]*>)+)(?:\+|$)", an, re.S)]


# ---------------------------------------------------------------- expressions: nested lists [name, {attributes}, child, ...]

def xml(e):
    return "<%s%s%s" % (e[0], "".join(" %s=%s" % (k, quoteattr(str(v))) for k, v in sorted(e[1].items())),
                        ">" + "".join(map(xml, e[2:])) + "</%s>" % e[0] if e[2:] else "/>")


def mtx(s):
    o = ["<metatag>"]
    if s.get("coarse"):
        o.append('<coarse-tags tag="x.tsx"/>')
    if s.get("beam"):
        o.append('<beam-width val="%d"/>' % s["beam"])
    if s.get("sets") or s.get("strs") or s.get("macros"):
        o.append("<defns>")
        for n in sorted(s.get("sets", {})):
            o.append("<def-set name=%s>%s</def-set>" % (quoteattr(n), "".join('<set-member %s=%s/>' % ("tag" if i % 2 else "str", quoteattr(x))
                                                                               for i, x in enumerate(s["sets"][n]))))
        for n in sorted(s.get("strs", {})):
            o.append("<def-str name=%s str=%s/>" % (quoteattr(n), quoteattr(s["strs"][n])))
        for n in sorted(s.get("macros", {})):
            o.append("<def-macro as=%s args=%s>%s</def-macro>" % (quoteattr(n), quoteattr(" ".join(s["macros"][n][0])), xml(s["macros"][n][1])))
        o.append("</defns>")
    if s.get("pred"):
        o.append("<global-pred>%s</global-pred>" % xml(s["pred"]))
    o.append("<feats>%s</feats></metatag>" % "".join("<feat>%s</feat>" % "".join(map(xml, f)) for f in s["feats"]))
    return "".join(o)


def clamp(lo, hi, x):
    return min(max(x, lo), hi)


class Eval:
    """the value of an expression at a word of a sentence"""

    def __init__(self, spec, ts, tagged, sent, tok, wrd):
        self.s, self.ts, self.tagged, self.sent, self.tok, self.wrd, self.env = spec, ts, tagged, sent, tok, wrd, [{}]

    def words(self, i):
        return UNTAGGED if self.tagged[i] is None else parse(self.tagged[i])

    def set(self, a):
        return self.s["sets"][a["name"]] if "name" in a else a["val"].split()

    def ev(self, e):
        n, a = e[0], e[1]
        if n == "var":
            v = self.env[-1][a["name"]]
            return v
        if n == "macro":
            args, body = self.s["macros"][a["name"]][:2]
            self.env.append(dict(zip(args, [self.ev(x) for x in e[2:]])))
            try:
                return self.ev(body)
            finally:
                self.env.pop()
        if n == "for-each":
            out = []
            for x in self.ev(e[2]):
                self.env[-1][a["as"]] = x
                out.append(self.ev(e[3]))
            return out
        v = [self.ev(x) for x in e[2:]]
        if n == "int":
            return a["val"]
        if n == "sentlen":
            return len(self.sent)
        if n == "tokaddr":
            return self.tok
        if n == "wrdidx":
            return self.wrd
        if n == "wrdaddr":
            return (self.tok, self.wrd)
        if n == "addr-of-ints":
            return tuple(v)
        if n == "add":
            return v[0] + v[1] if isinstance(v[0], int) else (v[0][0] + v[1][0], v[0][1] + v[1][1])
        if n == "toklen":
            return len(self.words(v[0]))
        if n == "strlen":
            return len(v[0])
        if n == "arrlen":
            return len(v[0])
        if n == "adjust":
            t, w = v[0]
            k = len(self.tagged)
            if 0 <= t < k:
                while w < 0 and t > 0:
                    t -= 1
                    w += len(self.words(t))
                while w >= len(self.words(t)) and t < k - 1:
                    w -= len(self.words(t))
                    t += 1
            return t, w
        if n == "clamp":
            t = clamp(0, len(self.tagged) - 1, v[0][0])
            return t, clamp(0, len(self.words(t)) - 1, v[0][1])
        if n == "ex-wordoid":
            t, w = v[0]
            if t < 0:
                return UNDER[1][0]
            if t >= len(self.tagged):
                return OVER[1][0]
            ws = self.words(t)
            return UNDER[1][0] if w < 0 else OVER[1][0] if w >= len(ws) else ws[w]
        if n == "ex-wordoids":
            t = v[0]
            return UNDER[1] if t < 0 else OVER[1] if t >= len(self.tagged) else self.words(t)
        if n == "ex-surf":
            t = v[0]
            return (UNDER[0] if t < 0 else OVER[0] if t >= len(self.sent) else self.sent[t][0]).encode()
        if n == "ex-lemma":
            return v[0][0].encode()
        if n == "ex-tags":
            return [x.encode() for x in v[0][1]]
        if n == "ex-coarse":
            return self.coarse(v[0])
        if n == "ex-ambgset":
            t = v[0]
            ans = [UNDER[1]] if t < 0 else [OVER[1]] if t >= len(self.sent) else [parse(x) for x in self.sent[t][1]]
            return [b"+".join(self.coarse(w) for w in x) for x in ans]
        if n == "join":
            return (a.get("val") or (self.s["strs"][a["name"]] if "name" in a else ".")).encode().join(v[0])
        if n == "slice":
            x = v[0]
            b, en = int(a.get("start", 0)), int(a.get("end", 0))
            b = len(x) + b if b < 0 else b
            en = len(x) + en if en <= 0 else en
            return x[clamp(0, len(x) - 1, b):clamp(0, len(x), en)]
        if n == "subscript":
            return v[0][clamp(0, len(v[0]) - 1, a["idx"])]
        if n == "streq":
            return v[0] == (self.s["strs"][a["name"]] if "name" in a else a["val"]).encode()
        if n == "strin":
            return v[0].decode("utf8", "surrogateescape") in self.set(a)
        if n == "sethasany":
            return any(x.decode("utf8", "surrogateescape") in self.set(a) for x in v[0])
        if n == "sethasall":
            return all(x.decode("utf8", "surrogateescape") in self.set(a) for x in v[0])
        if n == "and":
            return all(v)
        if n == "or":
            return any(v)
        if n == "not":
            return not v[0]
        if n == "eq":
            return v[0] == v[1]
        if n == "neq":
            return v[0] != v[1]
        if n in ("lt", "lte", "gt", "gte"):
            return {"lt": v[0] < v[1], "lte": v[0] <= v[1], "gt": v[0] > v[1], "gte": v[0] >= v[1]}[n]
        raise KeyError(n)

    def coarse(self, w):
        k = self.ts.match(tag.fold(w[0] + "".join("<%s>" % t for t in w[1])))
        k = tag.KUNDEF if k is None else k
        return ("TAG_" * (k < len(tag.FIXED)) + self.ts.names[k]).encode()


WORK = [0]      # evaluations left for one case


def features(spec, ts, tagged, sent, tok):
    """the keys of the features of one word with the tags chosen so far, as a list with repetitions"""
    WORK[0] -= 1
    if WORK[0] < 0:
        raise TooMany
    return [k for w in range(len(parse(tagged[tok]))) for k in features_at(spec, ts, tagged, sent, tok, w)]


def features_at(spec, ts, tagged, sent, tok, w):
    """the same for one part of the word"""
    out = []
    ev = Eval(spec, ts, tagged, sent, tok, w)
    if spec.get("pred") and not ev.ev(spec["pred"]):
        return out
    for i, f in enumerate(spec["feats"]):
        ev = Eval(spec, ts, tagged, sent, tok, w)
        keys = [(bytes([i]),)]
        for e in f:
            if e[0] == "pred":
                if not ev.ev(e[2]):
                    keys = []
                    break
            elif e[0] == "out":
                v = ev.ev(e[2])
                v = (b"t" if v else b"f") if isinstance(v, bool) else str(v).encode() if isinstance(v, int) else v
                keys = [k + (v,) for k in keys]
            elif e[0] == "out-many":
                keys = [k + (x,) for x in ev.ev(e[2]) for k in keys]
                if not keys:
                    break
        out += keys
    return out


def sentences(units, ends, blanks=None):
    """split into sentences after an unambiguous word whose only tag is sent (and, given the blanks, a blank line); ends: the readings that decide"""
    out, cur = [], []
    for i, u in enumerate(units):
        cur.append(u)
        x = ends[i]
        if len(x) == 1 and len(parse(x[0])) == 1 and parse(x[0])[0][1] == ["sent"] and (blanks is None or blanks[i + 1].startswith("\n\n")):
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def cuts(items, beam, eps):
    """the possible beams of [(score, ...)], as lists"""
    if len(items) <= beam:
        return [items]
    items = sorted(items, key=lambda x: -x[0])
    edge = items[beam - 1][0]
    sure = [x for x in items if x[0] > edge + eps]
    maybe = [x for x in items if abs(x[0] - edge) <= eps]
    k = beam - len(sure)
    n = 1
    for j in range(k):
        n = n * (len(maybe) - j) // (j + 1)
    if n > 150:
        raise TooMany
    return [sure + list(c) for c in itertools.combinations(maybe, k)]


def tops(agenda, eps):
    m = max(x[0] for x in agenda)
    return [x for x in agenda if x[0] >= m - eps]


def tag_sentence(spec, ts, w, sent, beam, eps=1e-9, cap=200):
    """all tag sequences the beam search may choose"""
    states = [[(0.0, ())]]
    for t, (sf, an) in enumerate(sent):
        if len(an) < 2:
            states = [[(s, p + (an[0] if an else None,)) for s, p in ag] for ag in states]
            continue
        nxt = {}
        for ag in states:
            items = []
            for s, p in ag:
                for x in an:
                    q = p + (x,)
                    items.append((s + sum(w.get(k, 0.0) for k in features(spec, ts, q, sent, t)), q))
            for c in cuts(items, beam, eps):
                nxt[tuple(sorted(q for _, q in c))] = c
                if len(nxt) > cap:
                    raise TooMany
        states = list(nxt.values())
    return {q for ag in states for s, q in tops(ag, eps)}


def train_sentence(spec, ts, w, sent, gold, beam, skip):
    """the possible updates by one training sentence: set of None (no update), "refused" (the hand-tagged reading is not among the analyses) or sorted
    tuples of (key, change)"""
    out = set()
    states = [([(0.0, (), ())], 0, (), ())]      # agenda of (score, path, features), index of the correct one, path and features of the correct one
    for t, (sf, an) in enumerate(sent):
        nxt = []
        for ag, ci, cp, cf in states:
            cp = cp + (gold[t],)
            if len(an) < 2 or gold[t] is None:
                x = an[0] if len(an) == 1 else None
                nxt.append(([(s, p + (x,), f) for s, p, f in ag], ci, cp, cf))
                continue
            items, avail = [], False
            for i, (s, p, f) in enumerate(ag):
                for x in an:
                    q = p + (x,)
                    ks = features(spec, ts, q, sent, t)
                    items.append((s + sum(w.get(k, 0) for k in ks), q, f + tuple(ks)))
                    if i == ci and x == gold[t]:
                        cp, cf, avail = q, items[-1][2], True
            if not avail:
                if not skip:
                    out.add("refused")
                else:
                    out.add(None)
                continue
            for c in cuts(items, beam, 1e-12):
                fit = [i for i, x in enumerate(c) if x[1] == cp]
                if fit:
                    nxt.append((c, fit[0], cp, cf))
                else:
                    for x in tops(c, 1e-12):
                        out.add(delta(x[2], cf))
                if len(nxt) + len(out) > 600:
                    raise TooMany
        states = nxt
    for ag, ci, cp, cf in states:
        for x in tops(ag, 1e-12):
            out.add(None if x[1] == cp else delta(x[2], cf))
    return out


def delta(wrong, right):
    d = {}
    for k in wrong:
        d[k] = d.get(k, 0) - 1
    for k in right:
        d[k] = d.get(k, 0) + 1
    return tuple(sorted((k, v) for k, v in d.items() if v))


def train(spec, ts, sents, golds, iterations, beam, skip, cap=800):
    """all the models training may yield, over orders of sentences and choices among equals: set of tuples of (key, weight); and whether it may end in an error"""
    refused = False
    start = ((), (), 0)
    states = {start}
    for _ in range(iterations):
        after = set()
        for order in set(itertools.permutations(range(len(sents)))):
            cur = states
            for i in order:
                nxt = set()
                for w, tot, T in cur:
                    wd = dict(w)
                    for u in train_sentence(spec, ts, wd, sents[i], golds[i], beam, skip):
                        if u is None:
                            nxt.add((w, tot, T))
                        if u == "refused":
                            refused = True
                        if u is None or u == "refused":
                            continue
                        w2, t2 = dict(wd), dict(tot)
                        for k, v in u:
                            w2[k] = w2.get(k, 0) + v
                        for k, v in w2.items():
                            t2[k] = t2.get(k, 0) + v
                        nxt.add((tuple(sorted((k, v) for k, v in w2.items() if v)), tuple(sorted((k, v) for k, v in t2.items() if v)), T + 1))
                    if len(nxt) > cap:
                        raise TooMany
                cur = nxt
            after |= cur
            if len(after) > cap:
                raise TooMany
        states = after
    return {tuple((k, v / T) for k, v in tot) for w, tot, T in states}, refused


# ---------------------------------------------------------------- the model file

class Model:
    def __init__(self, data, coarse):
        self.d, self.p = data, 0
        self.beam = self.u()
        self.strs = [self.s() for _ in range(self.u())]
        self.sets = [[self.s() for _ in range(self.u())] for _ in range(self.u())]
        self.feats = [self.s() for _ in range(self.u())]
        self.globals = [self.s() for _ in range(self.u())]
        self.pred = self.s()
        # the weights are the end of the file: with coarse tags a pattern list of unknown length comes before them
        self.coarse = self.u()
        self.head = self.p

    def u(self):
        n = self.d[self.p]
        v = int.from_bytes(self.d[self.p + 1:self.p + 1 + n], "big")
        self.p += 1 + n
        return v

    def s(self):
        return bytes(self.u() for _ in range(self.u()))

    def weights(self, at):
        self.p = at
        w = {}
        for _ in range(self.u()):
            k = tuple(self.s() for _ in range(self.u()))
            w[k] = struct.unpack(">d", self.u().to_bytes(8, "big"))[0]
        return w


def u(v):
    n = max(1, (v.bit_length() + 7) // 8)
    return bytes([n]) + v.to_bytes(n, "big")


def s(b):
    return u(len(b)) + b"".join(u(x) for x in b)


def dump(w):
    o = [u(len(w))]
    for k in sorted(w):
        o.append(u(len(k)) + b"".join(s(x) for x in k) + u(int.from_bytes(struct.pack(">d", w[k]), "big")))
    return b"".join(o)
