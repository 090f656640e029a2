"""P29 the apertium command: against its parts (deformatter, translation memory, mode, reformatter) run one after another by hand."""
import io, itertools, os, re, zipfile
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape
from .. import build, fmt
from ..core import *
from . import p05

TECHNIQUE = "property-based testing: generated documents, formats, options and argument orders, the command against its parts run by hand"
NOTE = ("Search over generated documents, formats and command lines, not a proof. Oracle: the real deformatter, reformatter and mode programs run one after another by the "
        "harness, with the options the documentation gives them; zip members selected, joined and split by the harness. The translation memory programs and the programs of the "
        "mode are stand-ins that show their arguments in the text (lttoolbox programs with small dictionaries in some modes). Transfuse and ISO locales are not installed.")
TOOLS = build.ALL + ["apertium", "apertium-unformat", "apertium-utils-fixlatex", "apertium-wblank-mode", "apertium-wblank-attach", "apertium-wblank-detach",
                     "apertium-pretransfer", "apertium-posttransfer", "apertium-adapt-docx"]
LIB = []
RULE = ("documents of every format and zip archives with several members, modes of one to four programs, options -u -a -n -H -m -o -s -z -d -f, settings in AP_SETVAR with "
        "preference files, input from a pipe or a file, output to stdout or a file, any order of arguments, and wrong command lines; non-trivial: a non-empty document whose "
        "translation differs from it, or a refused command line")

SHOW = """#!/bin/bash
# shows its arguments in the text
a=()
for x; do case "$x" in /*) ;; *) a+=("$x") ;; esac; done
exec sed "s/é/é${a[*]}/g"
"""
# stand-ins for the translation memory programs
TMCOMP = """#!/bin/bash
[ -r "$2" ] || exit 1
grep -q BAD "$2" && exit 1
{ echo -n "$1:"; cat "$2"; } > "$3"
echo "$1 compiled"
"""
TMPROC = """#!/bin/bash
f="${@: -1}"
set -- "${@:1:$#-1}"
exec sed "s/漢/漢($*:$(cat "$f"))/g"
"""
DIX = """<?xml version="1.0"?><dictionary><alphabet>abcdefghijklmnopqrstuvwxyzéABCDEFGHIJKLMNOPQRSTUVWXYZñЖ</alphabet><sdefs><sdef n="n"/></sdefs>
<section id="main" type="standard"><e><p><l>ab</l><r>ab<s n="n"/></r></p></e><e><p><l>é</l><r>e<s n="n"/></r></p></e><e><p><l>abe</l><r>no<s n="n"/></r></p></e></section></dictionary>"""

PROGS = ["show $1 $2", "show $1", "show", "cat", "apertium-pretransfer", "show $2", "sed -u 's/STREAMCMD/streamcmd/'"]
REAL = ["lt-proc '@D@/x.automorf.bin' | show $2 | apertium-pretransfer | lt-proc $1 '@D@/x.autogen.bin'",
        "lt-proc -w '@D@/x.automorf.bin' | apertium-pretransfer | lt-proc $1 '@D@/x.autogen.bin' | apertium-posttransfer"]
SINGLE = {"txt": ("txt", "txt"), "rtf": ("rtf", "rtf"), "xpresstag": ("xpresstag", "xpresstag"), "mediawiki": ("mediawiki", "mediawiki"), "html": ("html", "html"),
          "html-noent": ("html", "html-noent"), "html-alt": ("html-alt", "html-noent"), "wxml": ("wxml", "wxml"), "none": None, "line": None, "latex": None,
          "latex-raw": None, "txtu": ("txt", "txt"), "htmlu": ("html", "html"), "xpresstagu": ("xpresstag", "xpresstag"), "wxmlu": ("wxml", "wxml"), "zzz": ("txt", "txt")}
ZIPS = {"odt": "odt", "odp": "odt", "docx": "wxml", "pptx": "pptx", "xlsx": "xlsx", "odtu": "odt", "odpu": "odt", "docxu": "wxml", "pptxu": "pptx", "xlsxu": "xlsx"}


# ---------------------------------------------------------------- generation

def latex(d):
    def piece(d):
        return d.pick(["a", "é", " ", "漢", "ab é", "\n", "\n\n", "\\section{é 漢}", "$x+1$", "% é c\n", "\\emph{ab}", "\\begin{itemize}\n\\item é\n\\end{itemize}\n",
                       "\\'e", ". ", "\\verb|é|", "\\\\", "\\cite{k}", "{\\bf é}", "~", "--", "\\$", "\\_", "``a''", "\\begin{equation}é\\end{equation}"])
    return "".join(d.list(piece, 0, 12, 85)) + d.pick(["\n", ""])


def xtext(d):
    return escape(d.str("ab é,.T1漢[]^$/\\@{}<&", 0, 6))


def xpart(d, kind):
    """an XML part whose text is where the format expects it"""
    a, b, c = {"odt": ("text:p", "text:span", "text:span"), "pptx": ("a:p", "a:r", "a:t"), "xlsx": ("si", "r", "t"), "wxml": ("w:p", "w:r", "w:t")}[kind]

    def para(d):
        return "<%s>%s</%s>" % (a, "".join(d.list(lambda d: "<%s><%s>%s</%s></%s>" % (b, c, xtext(d), c, b), 0, 3, 60)), a) + d.pick(["", "\n", "  \n", "\n\n"])
    return '<?xml version="1.0" encoding="UTF-8"?>' + d.pick(["\n", ""]) + "<root>" + "".join(d.list(para, 0, 4, 70)) + "</root>" + d.pick(["", "\n"])


def docx(ps):
    ET.register_namespace("w", p05.W)
    root = p05.el("document", p05.el("body", *[p05.para_el(p) for p in ps]))
    return '<?xml version="1.0" encoding="UTF-8"?>\n' + ET.tostring(root, encoding="unicode")


def archive(d, f):
    f = f.rstrip("u")
    m = {}
    if f in ("odt", "odp"):
        for n in d.subset(["content.xml", "styles.xml", "Object 1/content.xml"], 75):
            m[n] = xpart(d, "odt")
        extra = ["mimetype", "meta.xml", "Pictures/a.png", "ObjectReplacements/Object 1", "META-INF/manifest.xml", "mycontent.xml"]
    elif f == "docx":
        for n in d.subset(["word/document.xml", "word/footnotes.xml", "word/my header1.xml", "word/comments.xml"], 60):
            m[n] = docx(d.list(p05.para, 0, 2, 60))
        extra = ["word/settings.xml", "word/theme/theme1.xml", "word/styles.xml", "word/fontTable.xml", "_rels/.rels", "docProps/core.xml", "[Content_Types].xml", "customXml/item1.xml",
                 "word/media/a.png", "word/FontTable2.xml"]
    elif f == "pptx":
        for n in d.subset(["ppt/slides/slide1.xml", "ppt/slides/slide2.xml", "ppt/slides/slide10.xml"], 70):
            m[n] = xpart(d, "pptx")
        extra = ["ppt/presentation.xml", "ppt/slideLayouts/slideLayout1.xml", "ppt/notesSlides/notesSlide1.xml", "[Content_Types].xml", "ppt/media/a b.bin", "ppt/slides/other.xml"]
    else:
        for n in d.subset(["xl/sharedStrings.xml"], 90):
            m[n] = xpart(d, "xlsx")
        extra = ["xl/workbook.xml", "xl/styles.xml", "xl/worksheets/sheet1.xml", "[Content_Types].xml", "docProps/app.xml"]
    for n in d.subset(extra, 35):
        m[n] = d.pick(['<?xml version="1.0"?>\n<a>é T</a>\n', "é\n\x00\xff T", "", "<t>é"])
    e = {}
    if f in ("docx", "pptx"):
        for n in d.subset(["word/embeddings/w1.xlsx", "ppt/embeddings/w 2.xlsx"], 25):
            e[n] = archive(d, "xlsx")
    m["mimetype"] = "x"
    return [sorted(m.items()), sorted(e.items())]


def mode(d, zipped):
    if d.chance(25):
        return d.pick(REAL)
    return " | ".join(d.list(lambda d: d.pick(PROGS[:-1] if zipped else PROGS), 1, 4, 60))


def case(d, zipped=False):
    f = d.pick(sorted(ZIPS)) if zipped else d.pick(sorted(SINGLE) + [None])
    c = {"f": f, "mode": mode(d, zipped), "o": d.subset(["-u", "-a", "-n", "-H", "-s", "-z"], 22)}
    if zipped:
        c["zip"] = archive(d, f)
    elif f in ("latex", "latex-raw"):
        c["doc"] = latex(d)
    elif f == "none":
        c["doc"] = "".join(d.list(lambda d: d.pick(["é", "a", " ", "[<b>]", "漢", "\n", "\0", "^é/é<n>$", "\\["]), 0, 12, 85))
    elif f == "line":
        c["doc"] = "".join(d.list(lambda d: d.str("é a漢.,[]^$\t*", 0, 6) + "\n", 0, 5, 70)) + d.pick(["", "é"])
    else:
        n = {None: "txt", "zzz": "txt", "html-noent": "html"}.get(f, f)
        n = n[:-1] if n.endswith("u") else n
        c["doc"] = fmt.document(d, n)
    if "-z" in c["o"] and re.search("sed|cat", c["mode"]):
        c["o"].remove("-z")
    c["var"] = d.weighted([(6, None), (1, "k"), (2, "a=b"), (1, "a=b,c=d:e"), (2, "k=-x"), (1, "j=1,k=-x:z"), (1, "k=-x,l=-y")])
    c["prefs"] = d.weighted([(1, 0), (2, 1), (1, 2)]) if c["var"] else 0
    c["tm"] = d.weighted([(5, 0), (1, 1), (1, 2)])
    c["pair"] = d.pick(["aa-bb", "aa-bb_x", "aa-bb-tagger"])
    c["d"] = d.bool()
    c["in"], c["out"] = d.bool(), d.bool()
    c["before"] = d.n(3)
    c["order"] = d.shuffled(list(range(10)))
    c["dir"], c["tmp"], c["name"] = d.pick(["d", "my data"]), d.pick(["t", "my fonts"]), d.pick(["in", "my é in"])
    return c


# ---------------------------------------------------------------- running

def world(c, dr):
    """directories and environment"""
    dd = os.path.join(dr, c["dir"])
    for x in (dd + "/modes", dr + "/" + c["tmp"], dr + "/bin", dr + "/cwd", dd + "/prefs"):
        os.makedirs(x)
    for n, s in (("show", SHOW), ("lt-tmxcomp", TMCOMP), ("lt-tmxproc", TMPROC)):
        os.chmod(wfile(dr + "/bin", n, s), 0o755)
    wfile(dd + "/modes", c["pair"] + ".mode", c["mode"].replace("@D@", dicts()) + "\n")
    wfile(dd + "/modes", "other.mode", "cat\n")
    if c["prefs"]:
        opt = lambda *xs: "".join('<option id="%s"/>' % x for x in xs)
        wfile(dd + "/prefs", "%s.xml" % (c["pair"] if c["prefs"] == 1 else c["pair"].rpartition("-")[0]),
              '<preferences><preference id="k">%s</preference><preference id="l"><x>%s</x></preference></preferences>' % (opt("w", "x", "z"), opt("x", "y")))
    env = {"APERTIUM_PATH": ENV.bin, "TMPDIR": dr + "/" + c["tmp"], "APERTIUM_TRANSFUSE": "no", "PATH": "%s/bin:/usr/bin:/bin" % dr}
    if c["var"]:
        env["AP_SETVAR"] = c["var"]
    if not c["d"]:
        env["APERTIUM_DATADIR"] = dd
    return dd, env


_dicts = []


def dicts():
    if not _dicts:
        p = os.path.join(ENV.scratch, "dicts")
        os.makedirs(p, exist_ok=True)
        for n, s, t in (("x.automorf.bin", DIX, "lr"), ("x.autogen.bin", DIX, "rl")):
            ok(run(["/usr/bin/lt-comp", t, wfile(p, n + ".dix", s), p + "/" + n]))
        _dicts.append(p)
    return _dicts[0]


def inverted(c):
    """the settings handed to the pipeline: 'not these' becomes all the others"""
    if not c["prefs"] or not c["var"]:
        return c["var"]
    if c["prefs"] == 2 and "-" not in c["pair"]:
        return c["var"]
    known = {"k": ["w", "x", "z"], "l": ["x", "y"]}
    out = []
    for kv in c["var"].split(","):
        k, eq, v = kv.partition("=")
        if v.startswith("-"):
            v = ":".join(x for x in known.get(k, []) if x not in v[1:].split(":"))
        out.append(k + eq + v)
    return ",".join(out)


def middle(c, dd, env, s, dr):
    """translation memory and mode"""
    if c["tm"]:
        direction = c["pair"] if c["tm"] == 1 else "xx-yy"
        s = re.sub("漢".encode(), lambda m: "漢".encode() + b"(%s:%s:MEM)" % (b"-s" if "-s" in c["o"] else b"", direction.encode()), s)
    v = inverted(c)
    tag = b"[<STREAMCMD:SETVAR:%s>]" % v.encode() if v else b""
    if tag and s:
        s = tag + s.replace(b"\0", b"\0" + tag)
    z = ["-z"] if "-z" in c["o"] else []
    env = dict(env, PATH=ENV.bin + ":" + env["PATH"])
    env.pop("AP_SETVAR", None)
    p = wfile(dr, "rewritten", ok(run_sh(["apertium-wblank-mode"] + z + ["%s/modes/%s.mode" % (dd, c["pair"])], b"", env)).out)
    unknown = "-n" if "-u" in c["o"] or (c["f"] or "").endswith("u") else "-g"
    s = ok(run_sh(["/bin/bash", p, unknown, "-m" if "-a" in c["o"] else ""], s, env)).out
    if tag:
        s = re.sub(rb"\[<STREAMCMD:SETVAR:[^>]*>]", b"", s)
    return s


def desopts(c):
    return [{"-n": "-n", "-H": "-o"}[x] for x in c["o"] if x in ("-n", "-H")]


def byhand(c, dd, env, dr):
    """(bytes, or None when the input must be refused)"""
    f, s = c["f"], c["doc"].encode("utf8", "surrogateescape")
    if f in ("latex", "latex-raw"):
        p = wfile(dr, "tex", s)
        if run(["/usr/bin/file", "-b", "--mime-encoding", p]).out.strip() not in (b"utf-8", b"us-ascii"):
            return None
        s = ok(run(["apertium-prelatex", p])).out
        s = ok(run_sh(["apertium-utils-fixlatex"], s, dict(env, PATH=ENV.bin + ":" + env["PATH"]))).out
        s = middle(c, dd, env, ok(run(["apertium-deslatex"] + desopts(c), s)).out, dr)
        s = ok(run(["apertium-relatex"], s)).out.replace(b"</CONTENTS-noeos>", b"</CONTENTS>")
        if s and not s.endswith(b"\n"):
            s += b"\n"
        return ok(run(["apertium-postlatex-raw"], s)).out
    if f == "none":
        return middle(c, dd, env, s, dr)
    if f == "line":
        s = ok(run(["apertium-destxt", "-n"], s)).out
        s = b"\n".join(re.sub(rb"[ \t\n\r\f\v]*\[$", b"[][", x) for x in s.split(b"\n"))
        return ok(run(["apertium-retxt"], middle(c, dd, env, s, dr))).out
    des, re_ = SINGLE[f or "txt"]
    s = ok(run(["apertium-des" + des] + desopts(c), s)).out
    return ok(run(["apertium-re" + re_], middle(c, dd, env, s, dr))).out


def pack(z):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as f:
        for n, s in z[0]:
            f.writestr(n, s.encode("utf8", "surrogateescape") if isinstance(s, str) else s)
        for n, e in z[1]:
            f.writestr(n, pack(e))
    return b.getvalue()


def members(data, what):
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as f:
            return {n: f.read(n) for n in f.namelist() if not n.endswith("/")}
    except zipfile.BadZipFile as e:
        raise Violation("%s is not a zip archive (%s): %r" % (what, e, data[:200]))


SKIP = re.compile("settings|theme|styles|font|rels|docProps|Content_Types|customXml", re.I)


def part(c, f, n):
    b = os.path.basename(n)
    if f in ("odt", "odp"):
        return b in ("content.xml", "styles.xml")
    if f == "docx":
        return b.endswith(".xml") and not SKIP.search(n)
    if f == "pptx":
        return bool(re.search(r"/slides/slide.*\.xml$", "/" + n))
    return b == "sharedStrings.xml"


def translated(c, f, z, dd, env, dr):
    """the members expected"""
    want = {}
    for n, e in z[1]:
        # an embedded spreadsheet is translated with the same direction and treatment of unknown words and nothing else
        want[n] = translated(dict(c, f="xlsx", o=["-u"] if "-u" in c["o"] else [], tm=0), "xlsx", e, dd, dict(env, AP_SETVAR=inverted(c)) if c["var"] else env, dr)
    for n, s in z[0]:
        s = s.encode("utf8", "surrogateescape")
        if f in ("odt", "odp") and n.startswith("ObjectReplacements/"):
            continue
        want[n] = s
        if part(c, f, n):
            head = b'<file name="%s"/>' % n.encode()
            if f == "docx":
                p = wfile(dr, "part.xml", s)
                line = ok(run(["apertium-adapt-docx", "-n"], p + "\n")).out.replace(p.encode(), n.encode())
            else:
                line = head + b"".join(b" " + x for x in (s[:-1] if s.endswith(b"\n") else s).split(b"\n")) + b"\n"
            k = ZIPS[f]
            out = ok(run(["apertium-re" + k], middle(c, dd, env, ok(run(["apertium-des" + k] + desopts(c), line)).out, dr))).out
            need(out.startswith(head), "by hand: %r becomes %r", line, out)
            out = out[len(head) + 1:]
            want[n] = re.sub(rb"\?> ", b"?>\n", out if out.endswith(b"\n") else out + b"\n")
    return want


def equal(got, want, what):
    same(sorted(got), sorted(want), "members of " + what)
    for n in sorted(want):
        if isinstance(want[n], dict):
            equal(members(got[n], what + ": " + n), want[n], what + ": " + n)
        else:
            same(got[n], want[n], "%s in %s" % (n, what))


def command(c, dd, dr, pos):
    opts = [[x] for x in c["o"]]
    if c["f"]:
        opts.append(["-f", c["f"]])
    if c["tm"]:
        opts.append(["-m", wfile(dr, "mem.tmx", "MEM")])
    if c["tm"] == 2:
        opts.append(["-o", "xx-yy"])
    if c["d"]:
        opts.append(["-d", dd])
    opts = [x for _, x in sorted(zip(c["order"], opts))]
    flat = []
    for x in opts:
        # options without a value may be joined
        if flat and len(x) == 1 and len(flat[-1]) > 1 and flat[-1][0] == "-" and flat[-1] in {"-" + y for y in "uanHsz"} and c["before"] == 3:
            flat[-1] += x[0][1:]
        else:
            flat += x
    k = min(c["before"], len(pos))
    return pos[:k] + flat + pos[k:]


def execute(c, dd, env, dr, data):
    src = wfile(dr, c["name"], data)
    pos = [c["pair"]] + ([src] if c["in"] or c["out"] else []) + ([dr + "/my out"] if c["out"] else [])
    argv = command(c, dd, dr, pos)
    r = run_sh(["apertium"] + argv, data if len(pos) == 1 else b"", env, cwd=dr + "/cwd")
    if c["out"]:
        need(r.out == b"", "output %r although a file was given: %r", r.out, argv)
        out = open(dr + "/my out", "rb").read() if os.path.exists(dr + "/my out") else None
    else:
        out = r.out
    # (what is refused for its encoding may leave a temporary file)
    left = [] if r.rc else sorted(os.listdir(os.path.join(dr, c["tmp"]))) + sorted(os.listdir(dr + "/cwd"))
    need(not left, "apertium %r leaves %r behind", argv, left)
    need(open(src, "rb").read() == data, "apertium %r changed its input", argv)
    return r, out, argv


def classes(c):
    return {"format %s" % (c["f"] or "default")} | set(c["o"]) | ({"memory"} if c["tm"] else set()) | ({"settings"} if c["var"] else set()) | ({"file"} if c["in"] else {"pipe"}) | \
        ({"lttoolbox"} if "lt-proc" in c["mode"] else set())


def check(c):
    dr = scratch_dir()
    try:
        dd, env = world(c, dr)
        if "zip" in c:
            f = c["f"].rstrip("u")
            data = pack(c["zip"])
            r, out, argv = execute(c, dd, env, dr, data)
            need(r.rc == 0 and out is not None, "apertium %r: exit %d, %r", argv, r.rc, r.err[-400:])
            want = translated(c, f, c["zip"], dd, env, dr)
            equal(members(out, "the output of apertium %r" % argv), want, "the output of apertium %r" % argv)
            return any(isinstance(s, bytes) and "é".encode() in s for s in want.values()), classes(c) | ({"embedded spreadsheet"} if c["zip"][1] else set())
        data = c["doc"].encode("utf8", "surrogateescape")
        want = byhand(c, dd, env, dr)
        r, out, argv = execute(c, dd, env, dr, data)
        if want is None:
            need(r.rc != 0 and not out, "apertium %r on a file that is not UTF-8: exit %d, output %r", argv, r.rc, out)
            return False, {"not UTF-8"}
        need(r.rc == 0, "apertium %r: exit %d, %r", argv, r.rc, r.err[-400:])
        same(out, want, "output of apertium %r with the mode %r on %r" % (argv, c["mode"], c["doc"]))
        return bool(data) and want != data, classes(c)
    finally:
        shutil.rmtree(dr)


# ---------------------------------------------------------------- wrong command lines, listing

def case_wrong(d):
    c = case(d)
    c["f"], c["doc"] = d.pick([None, "html", "line", "none"]), "é T\n"
    if d.chance(25):
        c = case(d, True)
        c["zip"] = [[["mimetype", "x"]], []]
    c["wrong"] = d.pick(["mode", "file", "option", "argument", "none", "four", "dir", "memory", "list", "version", "help"])
    return c


def check_wrong(c):
    dr = scratch_dir()
    try:
        dd, env = world(c, dr)
        data = pack(c["zip"]) if "zip" in c else c["doc"].encode()
        src = wfile(dr, c["name"], data)
        pos = [c["pair"], src] + ([dr + "/out"] if c["out"] else [])
        w = c["wrong"]
        if w == "mode":
            pos[0] = "xx-zz"
        if w == "file":
            pos[1] = dr + "/nofile"
        if w == "dir":
            c = dict(c, d=True)
        argv = command(c, dr + "/nodir" if w == "dir" else dd, dr, pos)
        if w == "memory":
            argv = ["-m", wfile(dr, "bad.tmx", "BAD")] + command(dict(c, tm=0), dd, dr, [])[:] + pos
        if w == "option":
            argv = ["-q"] + argv
        if w == "argument":
            argv = pos + ["-" + "fdmo"[c["before"]]]
        if w == "none":
            argv = command(c, dd, dr, [])
        if w == "four":
            argv = command(c, dd, dr, [c["pair"], src, dr + "/out", "x"])
        if w in ("list", "version", "help"):
            argv = command(c, dd, dr, []) + [{"list": "-l", "version": "-V", "help": "-h"}[w]] + ([c["pair"]] if c["in"] else [])
        r = run_sh(["apertium"] + argv, data, env, cwd=dr + "/cwd")
        if w == "list":
            need(r.rc == 0, "apertium %r: exit %d, %r", argv, r.rc, r.err[-300:])
            same(r.out.decode().split(), sorted([c["pair"], "other"]), "modes listed")
        elif w == "version":
            need(r.rc == 0 and r.out == b"Apertium\n", "apertium %r: exit %d, output %r", argv, r.rc, r.out)
        else:
            need(r.rc != 0, "apertium %r: exit 0 (%s), output %r", argv, w, r.out)
            need("é".encode() not in r.out and b"PK\x03" not in r.out, "apertium %r (%s) wrote a document: %r", argv, w, r.out)
            need(not os.path.exists(dr + "/out"), "apertium %r (%s) wrote the output file", argv, w)
            need(r.err or w == "help", "apertium %r (%s): no message", argv, w)
        return True, {w}
    finally:
        shutil.rmtree(dr)


# ---------------------------------------------------------------- apertium-unformat

UNF = {"txt": "txt", "html": "html", "html-noent": "html", "html-alt": "html-alt", "wxml": "wxml", "xpresstag": "xpresstag", "mediawiki": "mediawiki", "latex": "latex",
       "odt": "odt", "docx": "wxml", "pptx": "pptx", "xlsx": "xlsx"}


def case_unformat(d):
    f = d.pick(sorted(UNF) + [None])
    c = {"f": f, "in": d.bool(), "out": d.bool(), "tmp": d.pick(["t", "my dir"]), "name": d.pick(["in", "my é in"])}
    if f in ("odt", "docx", "pptx", "xlsx"):
        c["zip"] = archive(d, f)
        c["zip"][1] = []
        if f == "docx":
            c["zip"][0] = [x for x in c["zip"][0] if SKIP.search(x[0]) and "customXml" not in x[0] and "Content" not in x[0] or part(c, f, x[0])]
        if f == "odt":
            c["zip"][0] = [x for x in c["zip"][0] if x[0] != "mycontent.xml"]
    else:
        c["doc"] = latex(d) if f == "latex" else fmt.document(d, {None: "txt", "html-noent": "html"}.get(f, f))
    return c


def blocks(s):
    """the stream with the contents of the big blocks put aside in files"""
    def load(m):
        try:
            with open(m.group(1), "rb") as f:
                return b"[@(" + f.read() + b")]"
        finally:
            os.unlink(m.group(1))
    return re.sub(rb"\[@(/tmp/file[A-Za-z0-9]{6})\]", load, s)


def check_unformat(c):
    dr = scratch_dir()
    try:
        os.makedirs(dr + "/" + c["tmp"])
        os.makedirs(dr + "/cwd")
        env = {"APERTIUM_PATH": ENV.bin, "TMPDIR": dr + "/" + c["tmp"], "PATH": "/usr/bin:/bin"}
        f = c["f"]
        data = pack(c["zip"]) if "zip" in c else c["doc"].encode("utf8", "surrogateescape")
        src = wfile(dr, c["name"], data)
        file = c["in"] or c["out"] or "zip" in c
        argv = (["-f", f] if f else []) + ([src] if file else []) + ([dr + "/my out"] if c["out"] else [])
        r = run_sh(["apertium-unformat"] + argv, b"" if file else data, env, cwd=dr + "/cwd")
        need(r.rc == 0, "apertium-unformat %r: exit %d, %r", argv, r.rc, r.err[-300:])
        out = r.out
        if c["out"]:
            need(out == b"", "output %r although a file was given", out)
            need(os.path.exists(dr + "/my out"), "apertium-unformat %r: no output file", argv)
            out = open(dr + "/my out", "rb").read()
        des = "apertium-des" + UNF[f or "txt"]
        if f == "latex":
            s = ok(run(["apertium-prelatex", src])).out
            s = ok(run_sh(["apertium-utils-fixlatex"], s, dict(env, PATH=ENV.bin + ":" + env["PATH"]))).out
            want = ok(run([des], s)).out
        elif "zip" not in c:
            want = ok(run([des], data)).out
        else:
            parts = {}
            for n, s in c["zip"][0]:
                if f == "odt" and n.endswith("content.xml") or f != "odt" and part(c, f, n):
                    s = s.encode("utf8", "surrogateescape")
                    parts[n] = b'<file name="%s"/>' % n.encode() + b"".join(b" " + x for x in (s[:-1] if s.endswith(b"\n") else s).split(b"\n")) + b"\n"
            # the parts come in any order, with the names of the files they were unpacked into
            got = re.sub(re.escape(env["TMPDIR"].encode().replace(b"/", b"\\/")) + rb"\\/apertium\.[A-Za-z0-9]{8}\\/", b"", out)
            want = [ok(run([des], b"".join(o))).out for o in itertools.permutations(parts.values())]
            need(got in want, "apertium-unformat %r writes %r, expected %r", argv, got, want[0])
            return bool(parts), {"format %s" % f}
        same(blocks(out), blocks(want), "output of apertium-unformat %r" % argv)
        return bool(data) and want != data, {"format %s" % (f or "default")}
    finally:
        shutil.rmtree(dr)


SUBS = {"single": {"gen": case, "check": check, "weight": 6}, "zip": {"gen": lambda d: case(d, True), "check": check, "weight": 4},
        "wrong": {"gen": case_wrong, "check": check_wrong, "weight": 1}, "unformat": {"gen": case_unformat, "check": check_unformat, "weight": 1}}
