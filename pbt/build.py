"""Out-of-tree build of the parts of /repo a check needs.

Everything is compiled from /repo's *current* working tree into /verif/.build (ignored by git).
Objects are cached by a hash of (compiler flags, all headers, the source text), so a re-run on an
unchanged tree costs nothing and any change of the sources is always seen.
"""
import concurrent.futures, fcntl, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
A = os.path.join(REPO, "apertium")
ROOT = os.path.join(VERIF, ".build")

# tool -> format file (None: taken from Makefile.am)
FORMATS = ["txt", "xpresstag", "html", "html_alt", "html_noent", "odt", "rtf", "wxml", "latex",
           "xlsx", "pptx", "mediawiki"]
LATEX = {"apertium-prelatex": "apertium-prelatex.l", "apertium-postlatex": "apertium-postlatex.l",
         "apertium-postlatex-raw": "apertium-postlatex-raw.l"}
SCRIPTS = {
    "apertium": ('#!/usr/bin/env bash\nAPERTIUM_PATH="${APERTIUM_PATH:-/nonexistent}"\n'
                 'APERTIUM_DATADIR="${APERTIUM_DATADIR:-/nonexistent}"\napertium_version="Apertium"\n',
                 "apertium-header.sh"),
    "apertium-unformat": ('#!/usr/bin/env bash\nAPERTIUM_PATH="${APERTIUM_PATH}"\n',
                          "apertium-unformat-header.sh"),
    "apertium-utils-fixlatex": ("#!/usr/bin/env bash\n", "utils-fixlatex-header.sh"),
}

VARIANTS = {
    "plain": ["-O1", "-g0", "-w"],
    "asan": ["-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr",
             "-ftrivial-auto-var-init=zero", "-fsanitize-ignorelist=" + os.path.join(VERIF, "pbt", "asan-ignore.txt")],
}
LDVAR = {"plain": [], "asan": ["-fsanitize=address,undefined"]}


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode("utf8", "replace")[-4000:]))
    return r.stdout


def _makefile():
    txt = open(os.path.join(A, "Makefile.am"), encoding="utf8").read().replace("\\\n", " ")
    cc = []
    m = re.search(r"^cc_sources\s*=\s*(.*)$", txt, re.M)
    for w in m.group(1).split():
        if w.endswith(".cc"):
            cc.append(w)
    for m in re.finditer(r"^cc_sources\s*\+=\s*(.*)$", txt, re.M):
        for w in m.group(1).split():
            if w.endswith(".cc") and not w.startswith("win32"):
                cc.append(w)
    tools = {}
    for m in re.finditer(r"^(apertium_\w+)_SOURCES\s*=\s*(.*)$", txt, re.M):
        tools[m.group(1).replace("_", "-")] = [w for w in m.group(2).split() if w.endswith((".cc", ".c"))]
    return cc, tools


def _flags():
    out = subprocess.run(["pkg-config", "--cflags", "lttoolbox", "libxml-2.0", "icu-uc"],
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().split()
    if not out:
        out = ["-I/usr/include/libxml2"]
    return ["-std=c++23", "-DHAVE_CONFIG_H", "-I" + REPO, "-I" + A, "-I" + os.path.join(VERIF, "config"),
            "-I/usr/include/utf8cpp"] + out


LIBS = ["-llttoolbox", "-lxml2", "-licuio", "-licui18n", "-licuuc", "-licudata", "-lstdc++fs"]


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def _headers_hash():
    h = hashlib.sha256()
    for d in (A, os.path.join(VERIF, "config")):
        for f in sorted(os.listdir(d)):
            if f.endswith((".h", ".hh", ".hpp", ".inc", ".def")):
                h.update(f.encode() + b"\0" + open(os.path.join(d, f), "rb").read() + b"\1")
    return h.hexdigest()


def _prune():
    """Keep the cache small: drop entries not used for a while."""
    for sub in ("obj", "bin"):
        d = os.path.join(ROOT, sub)
        if not os.path.isdir(d):
            continue
        ents = [(os.path.getmtime(os.path.join(d, e)), e) for e in os.listdir(d)]
        limit = 3000 if sub == "obj" else 60
        if len(ents) > limit:
            ents.sort()
            for _, e in ents[:len(ents) - limit // 2]:
                p = os.path.join(d, e)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)


class Builder:
    def __init__(self, variant="plain", cxx=None):
        self.variant = variant
        self.cxx = cxx or ("g++" if variant == "plain" else "clang++")
        self.vflags = VARIANTS[variant]
        self.flags = _flags()
        self.hh = _headers_hash()
        os.makedirs(os.path.join(ROOT, "obj"), exist_ok=True)
        os.makedirs(os.path.join(ROOT, "bin"), exist_ok=True)
        self.cc, self.tools = _makefile()

    def generated(self, tool):
        """flex tools: return (name, text of the generated .cc) or None"""
        if tool in LATEX:
            lsrc = open(os.path.join(A, LATEX[tool]), "rb").read()
        else:
            m = re.match(r"apertium-(des|re)([a-z-]+)$", tool)
            if not m or m.group(2).replace("-", "_") not in FORMATS:
                return None
            fmt = m.group(2)
            xsl = os.path.join(A, ("de" if m.group(1) == "des" else "re") + "format.xsl")
            # the .xml is read next to the .xsl in /repo; nothing is written there
            lsrc = subprocess.run(["xsltproc", xsl, os.path.join(A, fmt + "-format.xml")],
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if lsrc.returncode != 0:
                raise BuildError("xsltproc failed for %s: %s" % (tool, lsrc.stderr.decode("utf8", "replace")))
            lsrc = lsrc.stdout
        key = _sha("flex", lsrc)
        out = os.path.join(ROOT, "obj", key + ".lex.cc")
        if not os.path.exists(out):
            tmp = out + ".%d.%s" % (os.getpid(), tool)
            open(tmp + ".l", "wb").write(lsrc)
            _run(["flex", "-Cfer", "-o" + tmp, tmp + ".l"])
            txt = open(tmp, "rb").read()
            # line directives mention temporary names
            txt = re.sub(rb"(?m)^#line.*$", b"", txt)
            open(tmp, "wb").write(txt)
            os.unlink(tmp + ".l")
            os.rename(tmp, out)
        return out

    def obj(self, path, extra=()):
        text = open(path, "rb").read()
        key = _sha(self.cxx, " ".join(self.flags + self.vflags + list(extra)), self.hh, os.path.basename(path), text)
        out = os.path.join(ROOT, "obj", key + ".o")
        if os.path.exists(out):
            os.utime(out)
            return out
        tmp = out + ".%d.tmp.o" % os.getpid()
        _run([self.cxx] + self.flags + self.vflags + list(extra) + ["-c", path, "-o", tmp])
        os.rename(tmp, out)
        return out

    def lib(self, pool):
        return [pool.submit(self.obj, os.path.join(A, c)) for c in self.cc]

    def build(self, tools, extra_progs=None):
        """Build the named tools (and extra programs {name: [absolute sources]} linked with the library).
        Returns the directory with the executables."""
        t0 = time.time()
        lock = open(os.path.join(ROOT, "lock"), "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            _prune()
            return self._build(tools, extra_progs or {}, t0)
        finally:
            fcntl.flock(lock, fcntl.LOCK_UN)
            lock.close()

    def _build(self, tools, extra_progs, t0):
        scripts = [t for t in tools if t in SCRIPTS]
        progs = [t for t in tools if t not in SCRIPTS]
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            flexed = {t: pool.submit(self.generated, t) for t in progs}
            srcs = {}
            needlib = False
            for t in progs:
                g = flexed[t].result()
                if g:
                    srcs[t] = [g]
                    if t in LATEX:
                        needlib = True
                else:
                    srcs[t] = [os.path.join(A, s) for s in self.tools[t]]
                    needlib = True
            for n, ss in extra_progs.items():
                srcs[n] = ss
                needlib = True
            libf = self.lib(pool) if needlib else []
            objf = {t: [pool.submit(self.obj, s) for s in ss] for t, ss in srcs.items()}
            objs = {t: [f.result() for f in fs] for t, fs in objf.items()}
            lib = [f.result() for f in libf]
            libkey = _sha(*lib) if lib else ""
            stext = {s: SCRIPTS[s][0] + open(os.path.join(A, SCRIPTS[s][1]), encoding="utf8").read() for s in scripts}
            key = _sha(self.variant, libkey, *sorted("%s %s" % (t, " ".join(o)) for t, o in objs.items()),
                       *sorted("%s %s" % kv for kv in stext.items()))
            out = os.path.join(ROOT, "bin", key)
            if os.path.exists(os.path.join(out, ".ok")):
                os.utime(out)
                return out
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            ar = []
            if lib:
                arf = os.path.join(ROOT, "obj", libkey + ".a")
                if not os.path.exists(arf):
                    tmp = arf + ".%d" % os.getpid()
                    _run(["ar", "rcs", tmp] + lib)
                    os.rename(tmp, arf)
                ar = [arf]

            def link(t):
                _run([self.cxx] + LDVAR[self.variant] + objs[t] + ar + LIBS + ["-o", os.path.join(out, t)])
            list(pool.map(link, list(objs)))
        for s in scripts:
            p = os.path.join(out, s)
            open(p, "w", encoding="utf8").write(stext[s])
            os.chmod(p, 0o755)
        open(os.path.join(out, ".ok"), "w").write("")
        return out


def build(tools, variant="plain", extra_progs=None, lib=None):
    """lib: the library sources that suffice today; the whole library is used if that does not link."""
    if lib is not None:
        b = Builder(variant)
        if all(os.path.exists(os.path.join(A, c)) for c in lib):
            b.cc = lib
            try:
                return b.build(tools, extra_progs)
            except BuildError:
                pass
    return Builder(variant).build(tools, extra_progs)


ALL = ["apertium-" + p + f.replace("_", "-") for f in FORMATS for p in ("des", "re")] + list(LATEX)

if __name__ == "__main__":
    t = time.time()
    b = Builder(sys.argv[1] if len(sys.argv) > 1 else "plain")
    tools = [x for x in b.tools if not b.tools[x][0].startswith(("apertium_des", "apertium_re"))
             or x in ("apertium-restore-caps",)]
    tools = [x for x in b.tools if os.path.exists(os.path.join(A, b.tools[x][0])) and not re.match(r"apertium-(des|re(?!store))", x) and x not in LATEX]
    print(b.build(tools + ALL + list(SCRIPTS)), time.time() - t)
