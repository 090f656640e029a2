"""P34 tracing: the rules reported by the transfer stages are the ones applied, and the output stays the same."""
import re
from . import p14
from .. import trx
from ..core import *

TECHNIQUE = "property-based testing: metamorphic relation (with and without tracing) and a reference longest-match interpreter for the report"
NOTE = ("Search over the generated rule files and streams of P14, not a proof. Oracle: the output without the option, and the matches and "
        "applications of the reference interpreter, with the line of the rule in the file. Words listed after those of the applied rule "
        "(read ahead) are not judged, nor is what -T adds. Streams that meet the known finding of P14 are not compared.")
TOOLS = ["apertium-preprocess-transfer", "apertium-transfer", "apertium-interchunk", "apertium-postchunk"]
LIB = []
RULE = ("rule files of one to seven rules, spread over lines with comments and blank lines in between, some rules with the same patterns, "
        "with and without rejections; streams of one to nine words for the three stages; -t and, for transfer, -T; non-trivial: a rule "
        "behind the first line applies and at least two lines are reported")


def case(d, stage):
    c = p14.case(d, stage)
    if c["rep"] > 40:
        c["rep"] = 1
    c["gap"] = [d.weighted([(4, ""), (2, "\n"), (1, "\n\n\n"), (1, "<!-- <rule>\n -->\n"), (1, " <!--c-->")]) for _ in c["r"]["rules"]]
    c["opt"] = d.pick(["-t", "-t", "-T"] if stage == "transfer" else ["-t"])
    if c["opt"] == "-T":
        c["rep"] = 1
    return c


def recorder(cls):
    class R(cls):
        def best(self, keys, banned):
            for n in range(1, len(keys) + 1):
                k = next((k for k, x in enumerate(self.r["rules"]) if len(x[0]) == n and k not in banned and k not in self.skipped
                          and self.matches(k, keys[:n])), None)
                if k is not None:
                    self.events.append(("Matched", k, self.at, n))
            return cls.best(self, keys, banned)

        def apply(self, k, words, inner):
            self.events.append(("Applied", k, self.at, len(words)))
            return cls.apply(self, k, words, inner)
    return R


REC = {k: recorder(v) for k, v in p14.CLS.items()}


def check(c):
    r, stage = c["r"], c["r"]["stage"]
    x, gap = trx.xml(r), c["gap"]
    parts = x.split("\n<rule>")
    x, lines = parts[0], []
    for g, p in zip(gap, parts[1:]):
        x += "\n" + g
        lines.append(x.count("\n") + 1)
        x += "<rule>" + ("\n" if "\n\n" in g else "") + p
    words, blanks, s = p14.build_stream(c)
    m = REC[stage](r)
    m.events = []
    want = m.run(blanks, words)
    m2 = p14.CLS[stage](r)
    m2.lost_rules = True
    m2.run(blanks, words)
    if m2.lost_hit:
        return False, {"known finding of P14, not compared"}
    dr = scratch_dir()
    try:
        t = wfile(dr, "r.xml", x)
        ok(run(["apertium-preprocess-transfer", t, dr + "/r.bin"]))
        cmd = ["apertium-" + stage] + (["-n" if c.get("n") else "-b"] if stage == "transfer" else [])
        files = [t, dr + "/r.bin", wfile(dr, "in", s)]
        a = ok(run(cmd + files))
        b = ok(run(cmd + [c["opt"]] + files))
    finally:
        shutil.rmtree(dr)
    same(b.out, a.out, "output with %s for stream %r" % (c["opt"], s[:300]))
    txt = [w[3] + "^" + w[0] + "/" + w[1] + ("/" + w[2] if w[2] else "") + "$" if stage == "transfer" and not c.get("n") else
           "^%s$" % (w[0] if stage == "transfer" else w) for w in words]
    txt = [w[1:-1] if w[0] == "^" else w[:-1] for w in txt]
    head = "apertium-%s: " % stage
    exp = []
    for what, k, at, n in m.events:
        if stage != "transfer" and what == "Applied":
            continue
        exp.append((("%s rule %d line %d " if stage == "transfer" else "%.0sRule %d line %d ") % (what, k + 1, lines[k]), " ".join(txt[at:at + n])))
    err = b.err.decode("utf8", "surrogateescape").split("\n")
    cut = len(b.err) >= 1 << 16            # core.run keeps that much
    if cut:
        err = err[:-1]
    got = [l[len(head):] for l in err if l.startswith(head) and re.match(r"(Matched rule|Applied rule|Rule) ", l[len(head):])]
    if cut:
        exp = exp[:len(got)]
    same([re.match(r"(\w+ )?[rR]ule \S+ line \S+ ", g + " ").group() for g in got], [e[0] for e in exp], "rules reported for stream %r" % s[:300])
    for g, (h, w) in zip(got, exp):
        # words are compared up to the end of their first line
        w, several = w.split("\n")[0], "\n" in w
        g = g[len(h):]
        if h.startswith("Applied") and not several:
            if g != w and not g.startswith(w + " "):
                raise Violation("words of an applied rule: %r does not start with %r" % (g, w))
        else:
            same(g, w, "words reported with " + h)
    cl = {stage, c["opt"]} | {"rejections" for _ in [0] if m.stats["rejects"]}
    return len(exp) > 1 and any(e[1] > 0 for e in m.events), cl


SUBS = {s: {"gen": (lambda s: lambda d: case(d, s))(s), "check": check, "weight": w} for s, w in (("transfer", 3), ("interchunk", 2), ("postchunk", 1))}
