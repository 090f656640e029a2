"""Driver: python3-vt -m pbt.main <property> [--replay FILE] [--budget S] [--sub NAME]

Shards the property's generated-input search over 8 processes, shrinks failures by editing the choice sequence (engine.py), replays the
minimal case three times, writes evidence/<id>.json.
Exit status: 0 held on everything explored; 1 VIOLATION line printed; 2 the check itself failed.
"""
import argparse, errno, hashlib, importlib, json, multiprocessing, os, pickle, random, shutil, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from pbt import build, core, engine
from pbt.core import Violation, Inconclusive, ENV

NW = int(os.environ.get("VERIF_JOBS", "8"))


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


class Known:
    def __init__(self, prop):
        self.entries = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for l in open(p, encoding="utf8"):
                l = l.strip()
                if l:
                    d = json.loads(l)
                    if d["property"] == prop and d.get("status") == "known":
                        self.entries.append(d)
        self.ids = {d["id"] for d in self.entries}


def judge(mod, sub, case):
    """Run one case.  Returns (nontrivial, classes).  Raises Violation.
    An output the check cannot even take apart is a violation too (it is confirmed by three replays like any other), a lack of
    resources is not."""
    try:
        return mod.SUBS[sub]["check"](case)
    except (Violation, Inconclusive, MemoryError):
        raise
    except OSError as e:
        if e.errno in (errno.ENOMEM, errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EAGAIN, errno.EDQUOT):
            raise
        raise Violation("the output cannot be taken apart: " + traceback.format_exc())
    except Exception:
        raise Violation("the output cannot be taken apart: " + traceback.format_exc())


def worker(mod, idx, seed, tier, budget, only, conn, known):
    core._fds = None
    core.contain()
    core.limits(asan=getattr(mod, "ASAN", False))
    st = {"evals": 0, "hashes": set(), "classes": {}, "samples": [], "fail": None, "err": None, "inconclusive": 0,
          "subs": {}, "known": {}}
    ENV.scratch = os.path.join(ENV.scratch, "w%d" % idx)
    os.makedirs(ENV.scratch, exist_ok=True)
    t_end = time.time() + budget
    subs = []
    for s in mod.SUBS:
        if only is None or s == only:
            subs += [s] * mod.SUBS[s].get("weight", 1)
    case = None
    try:
        n = idx
        while time.time() < t_end:
            s = subs[(n // NW) % len(subs)]
            spec = mod.SUBS[s]
            sst = st["subs"].setdefault(s, {"evals": 0, "nontrivial": 0})
            rng = random.Random("%d/%s/%d" % (seed, s, n))
            n += NW
            case, choices = engine.generate(spec["gen"], rng)
            st["evals"] += 1
            sst["evals"] += 1
            try:
                nontriv, classes = judge(mod, s, case)
            except Inconclusive:
                st["inconclusive"] += 1
                continue
            except Violation as v:
                if v.sig is not None and v.sig in known.ids:
                    st["known"][v.sig] = st["known"].get(v.sig, 0) + 1
                    continue

                def fails(c):
                    try:
                        judge(mod, s, c)
                    except Violation as w:
                        return not (w.sig is not None and w.sig in known.ids)
                    except Inconclusive:
                        return False
                    return False
                small, _ = engine.shrink(spec["gen"], fails, choices, time.time() + (45 if tier == "quick" else 120))
                st["fail"] = (s, small, str(v))
                break
            for c in classes:
                k2 = s + ":" + c
                st["classes"][k2] = st["classes"].get(k2, 0) + 1
            if nontriv:
                h = int.from_bytes(hashlib.blake2b((s + canon(case)).encode(), digest_size=8).digest(), "big")
                if h not in st["hashes"]:
                    st["hashes"].add(h)
                    sst["nontrivial"] += 1
                    if sst["nontrivial"] in (3, 40, 200) and idx < 4:
                        st["samples"].append({"sub": s, "case": case})
    except BaseException:
        st["err"] = traceback.format_exc() + "\ncase: " + canon(case)[:3000]
    shutil.rmtree(ENV.scratch, ignore_errors=True)
    conn.send_bytes(pickle.dumps(st))
    conn.close()


def replay_case(mod, sub, case):
    """Returns the violation message or None.  Runs in a child so that limits do not stick."""
    ctx = multiprocessing.get_context("fork")
    a, b = ctx.Pipe()

    def go():
        core.contain()
        core.limits(asan=getattr(mod, "ASAN", False))
        core._fds = None
        try:
            judge(mod, sub, case)
            r = None
        except Violation as v:
            r = (str(v), v.sig)
        except Inconclusive as e:
            r = None
        except Exception:
            r = ("HARNESS " + traceback.format_exc(), "HARNESS")
        b.send_bytes(pickle.dumps(r))
        b.close()
    p = ctx.Process(target=go)
    p.start()
    b.close()
    try:
        r = pickle.loads(a.recv_bytes())
    except EOFError:
        r = ("HARNESS died", "HARNESS")
    p.join()
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--sub")
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args()
    os.environ.setdefault("LC_ALL", "C.UTF-8")
    prop = a.prop
    mod = importlib.import_module("pbt.props." + prop.lower())
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    try:
        if getattr(mod, "ASAN", False):
            ENV.asan = build.build(mod.TOOLS, "asan", getattr(mod, "EXTRA", None))
            ENV.bin = ENV.asan
        else:
            ENV.bin = build.build(mod.TOOLS, "plain", getattr(mod, "EXTRA", None), getattr(mod, "LIB", None))
    except build.BuildError as e:
        print("build failed:", e, file=sys.stderr)
        return 2
    tb = time.time() - t0
    ENV.scratch = tempfile.mkdtemp(prefix="pbt-%s-" % prop)
    os.chmod(ENV.scratch, 0o755)
    try:
        if hasattr(mod, "setup"):
            mod.setup()
        core.give_away(ENV.scratch)
        if a.replay:
            d = json.load(open(a.replay))
            r = replay_case(mod, d["sub"], d["case"])
            print(r[0] if r else "holds")
            if r:
                print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1 if r else 0
        return search(mod, prop, tier, seed, a, t0, tb)
    finally:
        shutil.rmtree(ENV.scratch, ignore_errors=True)


def search(mod, prop, tier, seed, a, t0, tb):
    known = Known(prop)
    budget = a.budget or (getattr(mod, "QUICK_S", 35) if tier == "quick" else getattr(mod, "THOROUGH_S", 600))
    for d in known.entries:
        r = replay_case(mod, d["sub"], d["case"])
        if r is not None and r[1] == d["id"]:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, d["id"], d["what"]))
    # committed regression cases (shrunk failures of earlier trees and planted bugs)
    reg = []
    regp = os.path.join(VERIF, "regressions", prop + ".jsonl")
    if os.path.exists(regp):
        for l in open(regp, encoding="utf8"):
            if l.strip():
                reg.append(json.loads(l))
    fails = []
    for d in reg:
        r = replay_case(mod, d["sub"], d["case"])
        if r is not None and r[1] == "HARNESS":
            print(r[0], file=sys.stderr)
            return 2
        if r is not None and (r[1] is None or r[1] not in known.ids):
            fails.append((d["sub"], d["case"], r[0]))
    results = []
    if not fails:
        ctx = multiprocessing.get_context("fork")
        procs = []
        for i in range(NW):
            x, y = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(mod, i, seed, tier, budget, a.sub, y, known))
            p.start()
            y.close()
            procs.append((p, x))
        for p, x in procs:
            try:
                results.append(pickle.loads(x.recv_bytes()))
            except EOFError:
                p.join()
                results.append({"err": "worker died: exit code %s" % p.exitcode, "evals": 0, "hashes": [], "classes": {}, "samples": [],
                                "fail": None, "inconclusive": 0, "subs": {}, "known": {}})
            p.join()
    fails += [r["fail"] for r in results if r["fail"]]
    errs = [r["err"] for r in results if r["err"]]
    evals = sum(r["evals"] for r in results) + len(reg)
    hashes = set()
    classes, samples, subs, knownc = {}, [], {}, {}
    for r in results:
        hashes.update(r["hashes"])
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in r["known"].items():
            knownc[k] = knownc.get(k, 0) + v
        for k, v in r["subs"].items():
            d = subs.setdefault(k, {"evals": 0, "nontrivial": 0})
            d["evals"] += v["evals"]
            d["nontrivial"] += v["nontrivial"]
        samples += r["samples"]
    seen, pick = {}, []
    for s in samples:
        if seen.get(s["sub"], 0) < 3:
            seen[s["sub"]] = seen.get(s["sub"], 0) + 1
            pick.append(s)
    viol = []
    fails.sort(key=lambda f: (len(canon(f[1])), canon(f[1])))
    harness_bad = None
    for f in fails:
        rs = [replay_case(mod, f[0], f[1]) for _ in range(3)]
        if any(r is not None and r[1] == "HARNESS" for r in rs):
            harness_bad = rs
            continue
        if all(r is not None for r in rs):
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            h = hashlib.sha256(canon(f[1]).encode()).hexdigest()[:12]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, h))
            json.dump({"property": prop, "sub": f[0], "case": f[1], "message": rs[0][0]}, open(path, "w"), indent=1)
            viol.append((path, rs[0][0], f))
            break
        print("not reproducible, ignored:", f[0], canon(f[1])[:800], f[2][:800], file=sys.stderr)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": mod.RULE,
                       "samples": pick or [{"sub": f[0], "case": f[1]} for f in fails[:1]] or ["none"],
                       "classes": dict(sorted(classes.items())), "subchecks": subs, "regressions": len(reg),
                       "inconclusive": sum(r["inconclusive"] for r in results), "known_finding_hits": knownc,
                       "build_s": round(tb, 1)},
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (prop, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1, ensure_ascii=True)
    os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" %
          (prop, tier, seed, evals, len(hashes), time.time() - t0, tb))
    if a.stats:
        for k, v in sorted(classes.items()):
            print("   %-40s %d" % (k, v))
        print("  ", subs)
    if viol:
        print(viol[0][1][:3000])
        print("case:", canon(viol[0][2][1])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][0]))
        return 1
    if errs or harness_bad:
        print("\n".join(errs[:2]), file=sys.stderr)
        if harness_bad:
            print(harness_bad, file=sys.stderr)
        return 2
    if evals == 0 or (not hashes and not a.sub):
        print("no non-trivial case was generated", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
