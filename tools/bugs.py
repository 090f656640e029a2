#!/usr/bin/env python3
"""Hand-written changes against the checks: tools/bugs.py SPEC.py [BUDGET]. SPEC.py defines BUGS = [(name, "P21[,P20]", file, old, new[, file, old, new ...])].
Each is made in a scratch copy of /repo under /tmp/bug.*; prints which ones the checks named report."""
import concurrent.futures as cf, os, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
budget = sys.argv[2] if len(sys.argv) > 2 else "35"
only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
PAR = int(os.environ.get("MUT_PAR", "4"))
free, lock = [], threading.Lock()
for k in range(PAR):
    d = "/tmp/bug.%d.%d" % (os.getpid(), k)
    subprocess.check_call(["cp", "-a", "/repo", d])
    free.append(d)


def one(b):
    name, props, eds = b[0], b[1].split(","), b[2:]
    with lock:
        d = free.pop()
    saved = {}
    try:
        for f, old, new in zip(eds[0::3], eds[1::3], eds[2::3]):
            p = os.path.join(d, f)
            t = open(p, encoding="utf8").read()
            saved.setdefault(p, t)
            if t.count(old) != 1:
                return name, "NOT APPLICABLE (%d times): %r" % (t.count(old), old)
            open(p, "w", encoding="utf8").write(t.replace(old, new))
        out = []
        for pr in props:
            r = subprocess.run(["python3-vt", "-m", "pbt.main", pr, "--budget", budget], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS=str(max(1, 8 // PAR))), capture_output=True, text=True, errors="replace")
            out.append("%s:%s" % (pr, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR " + (r.stdout + r.stderr)[-400:])))
            if r.returncode == 1:
                out.append([l for l in r.stdout.splitlines() if " cases" in l][-1:])
                break
        return name, out
    finally:
        for p, t in saved.items():
            open(p, "w", encoding="utf8").write(t)
        with lock:
            free.append(d)


bugs = [b for b in ns["BUGS"] if not only or b[0] in only]
with cf.ThreadPoolExecutor(PAR) as ex:
    for name, res in ex.map(one, bugs):
        print(name, res, flush=True)
for d in free:
    shutil.rmtree(d)
