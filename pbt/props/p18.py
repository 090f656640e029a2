"""P18 transfer stages keep formatting: invariants over the output alone, whatever the rules do with the words."""
import re
from .. import gen, trx
from ..core import *

TECHNIQUE = "property-based testing: generated rules that reorder, drop and merge words; invariants on superblanks and word-bound blanks of the output"
NOTE = ("Search over generated rules, not a proof. Oracle: the superblanks of the input, once each and in order (as a multiset where an interchunk "
        "rule reorders contents), and for each output word the word-bound blanks of the input words whose lemma it has. Rules write blanks with "
        "<b/> in out or chunk only, and do not output before they reject.")
TOOLS = ["apertium-preprocess-transfer", "apertium-transfer", "apertium-interchunk", "apertium-postchunk"]
LIB = []
RULE = ("streams of one to eight words with unique lemmas, superblanks and word-bound blanks through shallow transfer or the whole chain "
        "(transfer, interchunk, postchunk), rules of one to four words that drop, reorder, repeat <b/>, merge into one unit or mlu, use "
        "variables, macros and rejection; non-trivial: a rule of two or more words applies and the stream has a superblank inside its match")

ATTRS = [["cat", ["n", "v", "adj"]], ["num", ["sg", "pl"]]]
CATS = [["any", [["", "*"]]], ["n", [["", "n.*"], ["", "n"]]], ["v", [["", "v.*"], ["", "v"]]], ["sg", [["", "*.sg"]]]]


def el(t, a=None, ch=()):
    return [t, a or {}, list(ch)]


def clip(i, part, side="tl"):
    a = {"pos": str(i), "part": part}
    if side:
        a["side"] = side
    return el("clip", a)


def word_expr(d, i, side):
    """the parts of an output word from input word i; its lemma exactly once"""
    k = d.n(4)
    if k == 0:
        return [clip(i, "whole", side)]
    if k == 1:
        return [clip(i, "lem", side), clip(i, "tags", side)]
    if k == 2:
        return [clip(i, "lemh", side), el("lit-tag", {"v": "x"}), clip(i, "num", side), clip(i, "lemq", side)]
    if k == 3:
        return [el("concat", {}, [clip(i, "lem", side), clip(i, "cat", side)])]
    return [el("get-case-from", {"pos": str(i)}, [clip(i, "lem", side)]), el("lit-tag", {"v": "x"})]


def units(d, n, side, vars_ok):
    """elements of an out or a chunk: every unit has the lemma of one or more of the words"""
    order = d.shuffled(list(range(1, n + 1)))
    keep = [i for i in order if not d.chance(15)] or order[:1]
    o, pre = [], []
    while keep:
        k = min(len(keep), d.weighted([(5, 1), (3, 2), (1, 3)]))
        grp, keep = keep[:k], keep[k:]
        if o and d.chance(85):
            o += [el("b", {"pos": str(d.int(1, 3))} if d.chance(30) else {})] * d.weighted([(8, 1), (1, 2)])
        if k == 1 and d.chance(70):
            o.append(el("lu", {}, word_expr(d, grp[0], side)))
        elif vars_ok and d.chance(30):
            v = d.pick(["v1", "v2"])
            pre.append(el("let", {}, [el("var", {"n": v}), clip(grp[0], "lem", side)]))
            for i in grp[1:]:
                pre.append(el("append", {"n": v}, [clip(i, "lem", side)]))
            o.append(el("lu", {}, [el("var", {"n": v}), el("lit-tag", {"v": "x"})]))
            # a later unit must not find the same variable
            vars_ok = False
        elif d.bool():
            o.append(el("mlu", {}, [el("lu", {}, word_expr(d, i, side)) for i in grp]))
        else:
            o.append(el("lu", {}, [clip(i, "lem", side) for i in grp] + [el("lit-tag", {"v": "x"})]))
    return pre, o


def reject_first(d, body, n, side):
    if d.chance(18):
        p = {"pos": "1", "part": "num"}
        if side:
            p["side"] = side
        t = el("when", {}, [el("test", {}, [el("equal", {}, [el("clip", p), el("lit-tag", {"v": "sg"})])]),
                            el("reject-current-rule", {"shifting": d.pick(["no", "yes", "yes", str(n)]) if n > 1 else d.pick(["no", "yes"])})])
        return [el("choose", {}, [t])] + body
    return body


def t_rules(d, chunked):
    r = {"stage": "transfer", "default": "chunk" if chunked else "lu", "cats": CATS, "attrs": ATTRS, "vars": [["v1", ""], ["v2", ""]],
         "lists": [], "macros": [], "rules": []}
    for k in range(d.int(1, 4)):
        n = d.weighted([(2, 1), (5, 2), (3, 3), (1, 4)])
        pat = [d.pick(CATS)[0] for _ in range(n)]
        pre, o = units(d, n, "tl", n > 1)
        if chunked:
            cnt = len([x for x in o if x[0] != "b"])
            out = [el("chunk", {"name": "n%d" % cnt}, [el("tags", {}, [el("tag", {}, [el("lit-tag", {"v": d.pick(["NP", "VP"])})])])] + o)]
        else:
            out = o
        if d.chance(15):
            out = out + [el("b")]
        body = pre + [el("out", {}, out)]
        if d.chance(12):
            body = []          # the rule drops its words
        elif d.chance(20):
            # several out elements
            body = pre + [el("out", {}, [x]) for x in out]
        if d.chance(20) and body:
            r["macros"].append(["m%d" % k, n, body])
            body = [el("call-macro", {"n": "m%d" % k}, [el("with-param", {"pos": str(i)}) for i in range(1, n + 1)])]
        r["rules"].append([pat, reject_first(d, body, n, "tl") or [el("let", {}, [el("var", {"n": "v2"}), el("lit", {"v": ""})])]])
    return r


def i_rules(d):
    r = {"stage": "interchunk", "default": "lu", "cats": [["any", [["", "*"]]], ["NP", [["", "NP"]]], ["VP", [["", "VP"]]], ["def", [["", "default"]]]],
         "attrs": [["cat", ["NP", "VP", "default"]], ["num", ["sg"]]], "vars": [["v1", ""]], "lists": [], "macros": [], "rules": []}
    reorder = False
    for k in range(d.int(0, 3)):
        n = d.weighted([(2, 1), (5, 2), (2, 3)])
        pat = [d.pick(r["cats"])[0] for _ in range(n)]
        order = list(range(1, n + 1))
        if d.chance(30):
            order = d.shuffled(order)
            reorder |= order != sorted(order)
        o = []
        if n > 1 and d.chance(30):
            ch = [el("lit", {"v": "m"}), el("lit-tag", {"v": "NP"}), el("lit", {"v": "{"})]
            for j, i in enumerate(order):
                if j:
                    ch.append(el("b"))
                ch.append(clip(i, "content", None))
            o = [el("chunk", {}, ch + [el("lit", {"v": "}"})])]
            # the blanks between the chunks are now inside; contents around them
        else:
            for j, i in enumerate(order):
                if j:
                    o.append(el("b"))
                o.append(el("chunk", {}, [clip(i, "lem", None), clip(i, "tags", None), clip(i, "chcontent", None)]))
        r["rules"].append([pat, reject_first(d, [el("out", {}, o)], n, None)])
    r["reorder"] = reorder
    return r


def p_rules(d):
    r = {"stage": "postchunk", "default": "lu", "cats": [["c%d" % k, [["n%d" % k, ""]]] for k in range(1, 5)], "attrs": ATTRS,
         "vars": [["v1", ""], ["v2", ""]], "lists": [], "macros": [], "rules": []}
    for k in range(1, 5):
        if d.chance(60):
            pre, o = units(d, k, None, k > 1)
            o = [x for x in o]
            r["rules"].append([["c%d" % k], pre + [el("out", {}, o)]])
    return r


SB = ["[<b>]", "[</b>]", "[ ]", "[\\[x\\]]", "[<a href=\"\\^x$\">]", "[\n]", "[x][y]"]


def case(d, chain=False):
    n = d.int(1, 8)
    words, blanks = [], [""]
    for i in range(n):
        tags = [d.pick(["n", "v", "adj"])] + ([d.pick(["sg", "pl"])] if d.chance(75) else [])
        q = "# out" if d.chance(10) else ""
        e = d.pick(["", "", "", "\\<", "\\]", "é"])
        wb = "[[t:%s:q%d%s]]" % (d.pick(["b", "i"]), i, d.pick(["", "", "", "; t:u:z%d" % i, "\\]", " \\^x", "\\\\", "\\\\\\]"])) if d.chance(60) else ""
        words.append([i, e, tags, q, wb])
        sp = ""
        while d.chance(45):
            sp += d.pick([" ", "\n", ". ", "", "@\\^"]) + "".join(["[%d" % d.int(1, 99) + d.pick(SB)[1:]])
        blanks.append(sp or " ")
    blanks[0] = d.pick(["", " ", "[s0<p>]"])
    c = {"t": t_rules(d, chain), "w": words, "b": blanks}
    if chain:
        c["i"], c["p"] = i_rules(d), p_rules(d)
    return c


def superblanks(s):
    """the superblanks of a stream, those inside chunks included; word-bound blanks are not superblanks"""
    o, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            i += 2
        elif s.startswith("[[", i):
            i += 2
            while not s.startswith("]]", i):
                i += 2 if s[i] == "\\" else 1
            i += 2
        elif s[i] == "[":
            j = i
            while s[j] != "]":
                j += 2 if s[j] == "\\" else 1
            o.append(s[i:j + 1])
            i = j + 1
        else:
            i += 1
    return o


def lus(s):
    """(word-bound blank ids, lemma ids, text) of every lexical unit"""
    o, i, wb = [], 0, ""
    while i < len(s):
        if s[i] == "\\":
            i += 2
        elif s.startswith("[[", i):
            j = i + 2
            while not s.startswith("]]", j):
                j += 2 if s[j] == "\\" else 1
            wb = s[i:j + 2]
            i = j + 2
        elif s[i] == "[":
            while s[i] != "]":
                i += 2 if s[i] == "\\" else 1
            i += 1
        elif s[i] == "^":
            j = i + 1
            while s[j] not in "${":
                j += 2 if s[j] == "\\" else 1
            if s[j] == "{":       # a chunk: its words follow
                i, wb = j + 1, ""
                continue
            t = s[i + 1:j]
            o.append((wb, re.findall(r"w(\d+)w", t), t))
            wb = ""
            i = j + 1
        else:
            i += 1
    return o


def stage(dr, name, r, s, args=()):
    t = wfile(dr, name + ".xml", trx.xml(r))
    ok(run(["apertium-preprocess-transfer", t, dr + "/" + name + ".bin"]))
    i = wfile(dr, name + ".in", s)
    return ok(run(["apertium-" + r["stage"]] + list(args) + [t, dr + "/" + name + ".bin", i])).out.decode("utf8", "surrogateescape")


def word_text(w):
    i, e, tags, q, wb = w
    lem = "w%dw%s" % (i, e)
    return "%s^%s%s%s/%s%s%s$" % (wb, lem, gen.tagstr(tags), q, lem, gen.tagstr(tags), q)


def check(c):
    s = c["b"][0] + "".join(word_text(w) + b for w, b in zip(c["w"], c["b"][1:]))
    want = superblanks(s)
    dr = scratch_dir()
    try:
        o = stage(dr, "t", c["t"], s, ["-b"])
        outs = [("transfer", o, True)]
        if "i" in c:
            o2 = stage(dr, "i", c["i"], o)
            outs.append(("interchunk", o2, not c["i"]["reorder"]))
            o = stage(dr, "p", c["p"], o2)
            outs.append(("postchunk", o, not c["i"]["reorder"]))
    finally:
        shutil.rmtree(dr)
    for name, x, order in outs:
        got = superblanks(x)
        a, b = (got, want) if order else (sorted(got), sorted(want))
        need(a == b, "superblanks after %s: %r, expected %r\n input:  %r\n output: %r", name, got, want, s, x)
    merged = False
    for name, x, y in [("transfer", s, outs[0][1])] + ([("interchunk", outs[0][1], outs[1][1]), ("postchunk", outs[1][1], o)] if "i" in c else []):
        src = {}
        for k, (wb, ids, t) in enumerate(lus(x)):
            for i in ids:
                src[i] = (k, wb)
        for wb, ids, t in lus(y):
            used, exp = set(), []
            for i in ids:
                need(i in src, "%s invents the word %r", name, t)
                k, w = src[i]
                if k not in used and w:
                    exp.append(w[2:-2])
                used.add(k)
            e = "[[%s]]" % "; ".join(exp) if exp else ""
            need(wb == e, "after %s the word %r has the word-bound blank %r, expected %r\n input:  %r\n output: %r", name, t, wb, e, x, y)
            merged |= len(exp) > 1
    # a rule of several words applied with a superblank in its match: by the reference matcher
    m = trx.Transfer(c["t"])
    m.run(c["b"], [[word_text(w)[len(w[4]) + 1:-1].split("/")[0]] * 2 + ["", w[4]] for w in c["w"]])
    cl = set()
    if merged:
        cl.add("merged word-bound blanks")
    if m.stats["rejects"]:
        cl.add("rejection")
    cl.add("chain" if "i" in c else "shallow")
    return m.stats["longer"] > 0 and len(want) > 0, cl


SUBS = {
    "shallow": {"gen": case, "check": check, "weight": 3},
    "chain": {"gen": lambda d: case(d, True), "check": check, "weight": 3},
}
