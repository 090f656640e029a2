#!/usr/bin/env python3
"""tools/autoseed.py SPEC.py [ID...]: SPEC.py defines SEEDS = [(ID, PROP, [(file, old, new)...], needs, breaks)].  For each: makes the change in a copy of
/repo, builds, runs the stable tests and the check of its property; when it is caught writes /verif/seeded/ID with a demonstration made from the replay."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for ID, PROP, EDITS, NEEDS, BREAKS in ns["SEEDS"]:
    if sys.argv[2:] and ID not in sys.argv[2:]:
        continue
    W = "/tmp/auto-" + ID
    shutil.rmtree(W, ignore_errors=True)
    try:
        subprocess.check_call(["cp", "-a", "/repo", W])
        os.chmod(W, 0o755)
        for f, old, new in EDITS:
            t = open(os.path.join(W, f), encoding="utf8").read()
            assert t.count(old) == 1, (ID, f, old, t.count(old))
            open(os.path.join(W, f), "w", encoding="utf8").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", W, "diff"])
        # build.sh and test.sh work on /repo: a private mount namespace
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && bash /opt/vp/build.sh >/tmp/%s.b 2>&1 || exit 3; bash /opt/vp/test.sh /tmp/%s.json >/dev/null 2>&1" % (W, ID, ID)])
        if r.returncode == 3:
            print(ID, "BUILD FAILS")
            continue
        miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open("/tmp/%s.json" % ID))["passed"])
        if miss:
            print(ID, "TESTS FAIL", sorted(miss)[:5])
            continue
        rep = None
        for seed in ("1", "2"):
            r = subprocess.run(["python3-vt", "-m", "pbt.main", PROP], cwd=V, env=dict(os.environ, VERIF_REPO=W, VERIF_SEED=seed, VERIF_TIER="quick"), capture_output=True, text=True, errors="replace")
            l = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            if l:
                rep = l[0].split("replay=")[1]
                break
        if not rep:
            print(ID, "MISSED rc=%d" % r.returncode, r.stdout[-300:], r.stderr[-300:])
            continue
        S = os.path.join(V, "seeded", ID)
        shutil.rmtree(S, ignore_errors=True)
        r = subprocess.run(["python3-vt", os.path.join(V, "tools/mkdemo.py"), PROP, rep, W, S], cwd=V, capture_output=True, text=True, errors="replace")
        print(ID, "caught (seed %s);" % seed, r.stdout.strip().splitlines()[-1:] or r.stderr[-400:])
        if os.path.exists(S):
            open(os.path.join(S, "patch.diff"), "wb").write(diff)
            json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": BREAKS}, open(os.path.join(S, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(W, ignore_errors=True)
    sys.stdout.flush()
