"""P31 apertium-editdist: the transducer it prints, against edit distance by dynamic programming."""
import heapq
from .. import scripts
from ..core import *

TECHNIQUE = "property-based testing: generated alphabets, weights, options and string pairs, the printed transducer against a dynamic-programming edit distance"
NOTE = ("Search over generated specifications, not a proof. Oracle: least cost over all edit sequences, computed by dynamic programming; the printed ATT file is interpreted by the "
        "harness (least-cost path). Without --no-elim, equal strings are not compared and specified costs make no substitution dearer than a deletion and an insertion.")
TOOLS = []
LIB = []
RULE = ("alphabets from specification files, command line and optimized-lookup headers, symbol costs, substitution, insertion, deletion and swap costs, exclusions, distances 1-4, "
        "with and without swaps and elimination, another epsilon; pairs of strings made by random edits and at random; non-trivial: some compared pair differs and is accepted")
DIR = None
OTHER = "@_UNKNOWN_SYMBOL_@"


def setup():
    global DIR
    DIR = scripts.prepare()


SYM = ["a", "b", "c", "d", "é", "漢"]
LONG = ["<n>", "ch", "e1"]
W = [0.0, 0.5, 1.0, 1.5, 2.0, 3.25]


def case(d):
    c = {"d": d.weighted([(4, 1), (4, 2), (4, 3), (2, 4)]), "swap": d.bool(), "noelim": d.bool(), "eps": d.pick([None, None, "@_EPSILON_SYMBOL_@", "ε"]), "long": d.bool()}
    small = c["d"] >= 3 and c["swap"]
    syms = d.shuffled(SYM)[:d.int(1, 3 if small else 4)]
    where = {"file": [], "arg": [], "ol": []}
    for s in syms:
        k = d.weighted([(5, "arg"), (5, "file"), (3, "ol")])
        where[k].append([s, d.pick(W) if k == "file" and d.chance(50) else None])
    if d.chance(30):
        where["file"].append([d.pick(LONG), d.pick(W) if d.chance(50) else None])
    if not any(where.values()):
        where["arg"].append(["a", None])
    c["alpha"] = where
    al = [s for k in where.values() for s, _ in k]
    c["excl"] = d.subset(SYM, 15) if d.chance(40) else []
    if len(set(al) - set(c["excl"])) == 0:
        c["excl"] = []
    al = [s for s in al if s not in c["excl"]]
    c["spec"] = []
    if d.chance(60):
        for _ in range(d.int(1, 4)):
            k = d.n(4)
            x, y = d.pick(al), d.pick(al)
            if k <= 1 and x != y:
                c["spec"].append([[x], [y], d.pick(W)])
            elif k == 2:
                c["spec"].append([[x], [], d.pick(W)])
            elif k == 3:
                c["spec"].append([[], [x], d.pick(W)])
            elif x != y:
                c["spec"].append([[x, y], [y, x], d.pick(W)])
    c["note"] = d.bool()
    c["olh"] = d.n(3)
    pool = al * 3 + [s for s in SYM if s not in al][:1] + [OTHER]
    pairs = []
    for _ in range(d.int(2, 8)):
        x = d.list(lambda d: d.pick(pool), 0, 5, 75)
        y = list(x)
        if d.chance(25):
            y = d.list(lambda d: d.pick(al), 0, 5, 70)
        for _ in range(d.int(0, c["d"] + 1)):
            e = d.n(3)
            i = d.n(len(y))
            if e == 0 and i < len(y):
                y[i] = d.pick(al)
            elif e == 1:
                y.insert(i, d.pick(al))
            elif e == 2 and i < len(y):
                del y[i]
            elif e == 3 and i + 1 < len(y):
                y[i], y[i + 1] = y[i + 1], y[i]
        pairs.append([x, y])
    c["pairs"] = pairs
    c["form"] = d.n(2)
    return c


def num(w):
    return repr(w)


def costs(c):
    """(substitutions {(from, to): cost} with "" for nothing, swaps {((a, b), (c, d)): cost}, alphabet)"""
    al = {}
    for k in ("file", "arg", "ol"):
        for s, w in c["alpha"][k]:
            if s in c["excl"]:
                continue
            if k == "file":
                al[s] = w or 0.0
            else:
                al.setdefault(s, 0.0)
    sub, swp = {}, {}
    for x, y, w in c["spec"]:
        if len(x) == 2:
            swp.setdefault((tuple(x), tuple(y)), w)
        else:
            sub.setdefault(("".join(x), "".join(y)), w)
    given, gswp = dict(sub), dict(swp)
    sub.setdefault((OTHER, ""), 1.0)
    for a in al:
        for p, w in (((OTHER, a), 1 + al[a]), (("", a), 1 + al[a]), ((a, ""), 1 + al[a])):
            sub.setdefault(p, w)
        for b in al:
            if a != b:
                w = 1 + al[a] + al[b]
                sub.setdefault((a, b), given.get((b, a), w))
                swp.setdefault(((a, b), (b, a)), gswp.get(((b, a), (a, b)), w))
    return sub, swp if c["swap"] else {}, al


def model(c, sub, swp, al, x, y):
    """least cost of turning x into y with one to d edits, None if there is none"""
    INF = float("inf")
    best = {(0, 0, 0): 0.0}
    for k in range(c["d"] + 1):
        for i in range(len(x) + 1):
            for j in range(len(y) + 1):
                v = best.get((k, i, j), INF)
                if v == INF:
                    continue

                def to(s, w):
                    if v + w < best.get(s, INF):
                        best[s] = v + w
                if i < len(x) and j < len(y) and x[i] == y[j] and x[i] in al:
                    to((k, i + 1, j + 1), 0)
                if k == c["d"]:
                    continue
                if i < len(x) and (x[i], "") in sub:
                    to((k + 1, i + 1, j), sub[x[i], ""])
                if j < len(y) and ("", y[j]) in sub:
                    to((k + 1, i, j + 1), sub["", y[j]])
                if i < len(x) and j < len(y) and (x[i], y[j]) in sub:
                    to((k + 1, i + 1, j + 1), sub[x[i], y[j]])
                if i + 1 < len(x) and j + 1 < len(y):
                    s = ((x[i], x[i + 1]), (y[j], y[j + 1]))
                    # the machine reads a,b as a:b, b:a - the pairs written are from[0]:from[1], to[0]:to[1]
                    if s in swp:
                        to((k + 1, i + 2, j + 2), swp[s])
    r = min((best.get((k, len(x), len(y)), INF) for k in range(1, c["d"] + 1)), default=INF)
    return None if r == INF else r


def att(b, eps, what):
    arcs, fin = {}, {}
    for l in b.decode("utf8").splitlines():
        t = l.split("\t")
        need(len(t) in (2, 5), "%s: odd line %r", what, l)
        if len(t) == 2:
            fin[int(t[0])] = float(t[1])
        else:
            arcs.setdefault(int(t[0]), []).append((int(t[1]), t[2] if t[2] != eps else "", t[3] if t[3] != eps else "", float(t[4])))
    return arcs, fin


def path(arcs, fin, x, y):
    q = [(0.0, 0, 0, 0)]
    seen = set()
    while q:
        w, s, i, j = heapq.heappop(q)
        if s == -1:
            return w
        if (s, i, j) in seen:
            continue
        seen.add((s, i, j))
        if i == len(x) and j == len(y) and s in fin:
            heapq.heappush(q, (w + fin[s], -1, i, j))
        for t, a, b, v in arcs.get(s, ()):
            if a and (i >= len(x) or x[i] != a) or b and (j >= len(y) or y[j] != b):
                continue
            heapq.heappush(q, (w + v, t, i + (a != ""), j + (b != "")))
    return None


def check(c):
    top = scratch_dir()
    sub, swp, al = costs(c)
    eps = c["eps"] or "@0@"
    try:
        argv = (["--distance", str(c["d"])] if c["long"] else ["-d", str(c["d"])]) if c["d"] != 1 or c["long"] else []
        if c["swap"]:
            argv.append("--swap" if c["long"] else "-s")
        if c["noelim"]:
            argv.append("--no-elim")
        if c["eps"]:
            argv += ["-e", c["eps"]]
        if c["alpha"]["file"] or c["spec"] or c["excl"]:
            o = []
            if c["note"]:
                o.append("## a comment\n\n")
            for s, w in c["alpha"]["file"]:
                o.append(s + ("\t%s" % num(w) if w is not None else "") + "\n")
            for s in c["excl"]:
                o.insert(0 if c["note"] else len(o), "~%s\n" % s)
            if c["spec"]:
                o.append("@@\n")
            for x, y, w in c["spec"]:
                o.append("%s\t%s\t%s\n" % (",".join(x) or eps, ",".join(y) or eps, num(w)))
                if c["note"]:
                    o.append("## x\ty\n")
            wfile(top, "spec", "".join(o))
            argv += ["-i", os.path.join(top, "spec")]
        if c["alpha"]["ol"]:
            syms = ["@0@"] + [s for s, _ in c["alpha"]["ol"]] + ["+Noun", " "]
            hdr = struct_ol(len(syms))
            b = hdr + b"".join(s.encode() + b"\0" for s in syms) + b"\x01\x02junk\0"
            if c["olh"]:
                h = b"version\x003.3\0type\0HFST_OL\0"
                b = b"HFST\0" + len(h).to_bytes(2, "little") + b"\0" + h + b
            wfile(top, "x.ol", b)
            argv += ["-a", os.path.join(top, "x.ol")]
        args = [s for s, _ in c["alpha"]["arg"]]
        argv += args if c["form"] else ["".join(args)] if args else []
        r = scripts.script(DIR, "apertium-editdist", argv)
        what = "apertium-editdist %s" % argv
        arcs, fin = att(r.out, eps, what)
        cl = {"d%d" % c["d"]} | ({"swap"} if c["swap"] else set()) | ({"noelim"} if c["noelim"] else set()) | ({"spec"} if c["spec"] else set())
        compare = c["noelim"] or c["d"] < 3 or all(sub.get((a, b), 99) <= sub[a, ""] + sub["", b] for a in list(al) + [OTHER] for b in al if a != b)
        nt = False
        for x, y in c["pairs"]:
            if not compare or x == y and not c["noelim"]:
                continue
            want, got = model(c, sub, swp, al, x, y), path(arcs, fin, x, y)
            need((want is None) == (got is None) and (want is None or abs(want - got) < 1e-6),
                 "%s: %s -> %s has cost %s, expected %s (None: not accepted)\nsubstitutions %s\nswaps %s", what, x, y, got, want, sub, swp)
            if want is not None and x != y:
                nt = True
                cl.add("accepted")
            elif want is None:
                cl.add("rejected")
        # nothing but what some edit or the identity uses
        for s in arcs:
            for t, a, b, w in arcs[s]:
                need(a in al or a == OTHER or a == "" or (a, b) in sub, "%s: unexpected symbol %r", what, a)
                need(b in al or b == "" or (a, b) in sub, "%s: unexpected symbol %r", what, b)
    finally:
        shutil.rmtree(top)
    return nt, cl


def struct_ol(n):
    b = bytearray(56)
    b[2:4] = n.to_bytes(2, "little")
    b[0:2] = (n).to_bytes(2, "little")
    return bytes(b)


SUBS = {"att": {"gen": case, "check": check}}
