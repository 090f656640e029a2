#!/usr/bin/env python3
"""tools/mkdemo.py PROP REPLAY.json MUTATED_REPO OUTDIR: writes demo.sh and its files: the first tool run of the replayed case that gives with
MUTATED_REPO (built) another output than with /repo (built).  Used after a bug has been written, to demonstrate it."""
import base64, importlib, json, os, pickle, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pbt import build, core, main
from pbt.core import ENV
prop, rep, mut, out = sys.argv[1:5]
mod = importlib.import_module("pbt.props." + prop.lower())
ENV.bin = build.build(mod.TOOLS, "plain", getattr(mod, "EXTRA", None), getattr(mod, "LIB", None))
ENV.scratch = tempfile.mkdtemp(prefix="pbt-demo-")
os.chmod(ENV.scratch, 0o755)
rec = tempfile.mkdtemp(prefix="rec-")
os.chmod(rec, 0o777)
if hasattr(mod, "setup"):
    mod.setup()
core.give_away(ENV.scratch)
orun = core.run
count = [0]


def snap():
    o = {}
    for r, ds, fs in os.walk(ENV.scratch):
        for f in fs:
            p = os.path.join(r, f)
            if os.path.isfile(p) and os.path.getsize(p) < 1 << 20:
                o[os.path.relpath(p, ENV.scratch)] = open(p, "rb").read()
    return o


def run(argv, stdin=b"", env=None, **k):
    before = snap()
    r = orun(argv, stdin, env, **k)
    after = snap()
    pickle.dump((list(r.argv), stdin.encode("utf8", "surrogateescape") if isinstance(stdin, str) else stdin, dict(env or {}), before,
                 {f: x for f, x in after.items() if before.get(f) != x}, r.out, r.rc), open("%s/%05d" % (rec, count[0]), "wb"))
    count[0] += 1
    return r


core.run = run
for m in list(sys.modules.values()):
    if getattr(m, "run", None) is orun:
        m.run = run
d = json.load(open(rep))
print("on the good tree:", main.replay_case(mod, d["sub"], d["case"]))


def play(repo, argv, stdin, env, before, changed, o, rc):
    t = tempfile.mkdtemp(prefix="play-")
    try:
        for f, x in before.items():
            os.makedirs(os.path.dirname(os.path.join(t, f)), exist_ok=True)
            open(os.path.join(t, f), "wb").write(x)
        a = [x.replace(ENV.scratch, t) for x in argv]
        a[0] = os.path.join(repo, "apertium", os.path.basename(argv[0]))
        if not os.path.exists(a[0]):
            return None
        libs = os.path.join(repo, "apertium/.libs")  # the wrappers of libtool name /repo
        if os.path.exists(os.path.join(libs, os.path.basename(a[0]))):
            a[0] = os.path.join(libs, os.path.basename(a[0]))
        r = subprocess.run(a, input=stdin, env=dict(os.environ, LC_ALL="C.UTF-8", LD_LIBRARY_PATH=libs, **env), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=t, timeout=60)
        return r.stdout == o and all(os.path.exists(os.path.join(t, f)) and open(os.path.join(t, f), "rb").read() == x for f, x in changed.items())
    finally:
        shutil.rmtree(t)


for n in sorted(os.listdir(rec)):
    x = pickle.load(open(os.path.join(rec, n), "rb"))
    good, bad = play("/repo", *x), play(mut, *x)
    if good and bad is False:
        argv, stdin, env, before, changed, o, rc = x
        used = {f for f in before if any(ENV.scratch + "/" + f == a or ENV.scratch in a and f in a for a in argv)} or set(before)
        os.makedirs(out, exist_ok=True)
        for f in sorted(used):
            open(os.path.join(out, "f." + f.replace("/", "_")), "wb").write(before[f])
        for f, y in changed.items():
            open(os.path.join(out, "want." + f.replace("/", "_")), "wb").write(y)
        open(os.path.join(out, "in"), "wb").write(stdin)
        open(os.path.join(out, "out"), "wb").write(o)
        q = lambda s: "'" + s.replace("'", "'\\''") + "'"
        with open(os.path.join(out, "demo.sh"), "w") as g:
            g.write("#!/bin/bash\n# exit 0: the property holds here\nH=$(cd \"$(dirname \"$0\")\" && pwd); D=$(mktemp -d); trap 'rm -rf \"$D\"' EXIT\nexport LC_ALL=C.UTF-8\n")
            for f in sorted(used):
                if "/" in f:
                    g.write('mkdir -p "$D"/%s; ' % q(os.path.dirname(f)))
                g.write('cp "$H"/%s "$D"/%s\n' % (q("f." + f.replace("/", "_")), q(f)))
            for f in changed:
                if "/" in f:
                    g.write('mkdir -p "$D"/%s\n' % q(os.path.dirname(f)))
            args = ['"$D"'.join(q(p) if p else "" for p in a.split(ENV.scratch)) if a else "''" for a in argv[1:]]
            g.write('%s"$PWD"/apertium/%s %s < "$H"/in > "$D"/.out 2>/dev/null\n' % ("".join("%s=%s " % (k, q(v)) for k, v in env.items()), os.path.basename(argv[0]), " ".join(args)))
            g.write('cmp "$D"/.out "$H"/out' + "".join(' && cmp "$D"/%s "$H"/%s' % (q(f), q("want." + f.replace("/", "_"))) for f in changed) + "\n")
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        print("demo written:", argv)
        break
else:
    print("NO DEMO in %d runs" % len(os.listdir(rec)))
shutil.rmtree(rec)
shutil.rmtree(ENV.scratch)
