#!/usr/bin/env python3
"""Mutation testing of the checks: tools/mutate.py N SEED BUDGET P01[,P02] FILE[:FROM-TO]...
Makes N one-place changes in scratch copies of /repo under /tmp/mut.*, runs the checks on each until one reports a violation, prints what survives."""
import concurrent.futures as cf, os, random, re, shutil, subprocess, sys, threading
N, SEED, BUDGET, PROPS, FILES = int(sys.argv[1]), sys.argv[2], sys.argv[3], sys.argv[4].split(","), sys.argv[5:]
PAR = int(os.environ.get("MUT_PAR", "4"))
BASE = os.environ.get("MUT_BASE", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [(r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"), (r"(?<![<\w\-])<(?![<=\w:/])", "<="), (r"(?<![>\-])>(?![>=;*&,)(])(?= )", ">="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"!(?=[\w(])", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+\+", "--"), (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "="), (r"\bcontinue\b", "break"), (r"\bbreak;", ";"),
       (r"\bif ?\(", "if (true || "), (r"\bif ?\(", "if (false && "), (r"^(\s*)([\w\->.\[\]:]+(\(.*\)| [+\-|&]?= .*|\+\+));\s*$", r"\1;"), (r"\belse\b(?! if)", "if (false)"),
       (r"'(\\?.)'", "'x'"), (r"\.empty\(\)", ".size() == 1"), (r"\bbegin\(\)", "end()"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\* ", "/ ")]


def sites(f):
    f, _, rng = f.partition(":")
    a, b = (int(x) for x in rng.split("-")) if rng else (1, 10 ** 9)
    out, comment, usage = [], False, False
    for i, l in enumerate(open(os.path.join(BASE, f), encoding="utf8"), 1):
        s = l.strip()
        if comment or s.startswith("/*"):
            comment = "*/" not in l
            continue
        if i < a or i > b or s.startswith(("//", "#", "*", "using", "template", "class", "throw", "exit", "std::cerr", "cerr")) or re.search(r"cerr|usage|exit ?\(|printf\(stderr|fuerr", l):
            continue
        code = l.split("//")[0]
        for p, r in OPS:
            for m in re.finditer(p, code):
                n = code[:m.start()] + m.expand(r) + code[m.end():].rstrip("\n") + "\n"
                if n != l and not (code[:m.start()].count('"') % 2):
                    out.append((f, i, l, n))
    return out


def main():
    ss = sum((sites(f) for f in FILES), [])
    random.Random(SEED).shuffle(ss)
    # one change per line, at most
    seen, todo = set(), []
    for s in ss:
        if (s[0], s[1]) not in seen:
            seen.add((s[0], s[1]))
            todo.append(s)
    todo = todo[:N]
    print("%d sites, %d lines" % (len(ss), len({s[:2] for s in ss})), flush=True)
    free, lock = [], threading.Lock()
    for k in range(PAR):
        d = "/tmp/mut.%d.%d" % (os.getpid(), k)
        subprocess.check_call(["cp", "-a", BASE, d])
        free.append(d)
    count = {"caught": 0, "survived": 0, "nobuild": 0}

    def one(s):
        f, i, old, new = s
        with lock:
            d = free.pop()
        try:
            p = os.path.join(d, f)
            text = open(p, encoding="utf8").read()
            ls = text.splitlines(True)
            ls[i - 1] = new
            open(p, "w", encoding="utf8").write("".join(ls))
            try:
                res = "survived"
                for pr in PROPS:
                    r = subprocess.run(["python3-vt", "-m", "pbt.main", pr, "--budget", BUDGET], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS=str(max(1, 8 // PAR))), capture_output=True, text=True,
                                       errors="replace")
                    if r.returncode == 1:
                        res = "caught"
                        break
                    if r.returncode != 0:
                        res = "nobuild" if "build failed" in r.stdout + r.stderr else "error: " + (r.stdout + r.stderr)[-300:]
                        break
            finally:
                open(p, "w", encoding="utf8").write(text)
            count[res if res in count else "survived"] += 1
            if res not in ("caught", "nobuild"):
                print("%s %s:%d\n  - %s\n  + %s" % (res, f, i, old.strip(), new.strip()), flush=True)
        finally:
            with lock:
                free.append(d)
    with cf.ThreadPoolExecutor(PAR) as ex:
        list(ex.map(one, todo))
    for d in free:
        shutil.rmtree(d)
    print(count)


main()
