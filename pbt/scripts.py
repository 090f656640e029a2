"""Runs the scripts of /repo/scripts: prepared copies with their data directory filled in; Python scripts in a fork of this process."""
import argparse, io, runpy, struct, sys, time
import xml.etree.ElementTree as ET
from xml.sax import handler, saxutils, make_parser
import xml.sax.expatreader
from . import build
from .core import *

SCRIPTS = os.path.join(build.REPO, "scripts")


def prepare():
    """the scripts with their data directory filled in; returns where they are"""
    DIR = os.path.join(ENV.scratch, "scripts")
    os.makedirs(os.path.join(DIR, "apertium"))
    for f in os.listdir(SCRIPTS):
        p = os.path.join(SCRIPTS, f)
        if f.endswith(".xslt"):
            shutil.copy(p, os.path.join(DIR, "apertium", f))
        elif f.endswith(".in") and f.startswith("apertium-"):
            with open(p) as fh:
                t = fh.read().replace("@datarootdir@", DIR)
            with open(os.path.join(DIR, f[:-3]), "w") as fh:
                fh.write(t)
        elif f.startswith("apertium-") and not os.path.exists(p + ".in"):
            shutil.copy(p, os.path.join(DIR, f))
    for f in os.listdir(DIR):
        p = os.path.join(DIR, f)
        if os.path.isfile(p):
            os.chmod(p, 0o755)
    return DIR


def script(DIR, name, argv, stdin=b"", limit=60):
    """runs a Python script of the tree in a fork of this process (its imports are loaded already)"""
    with tempfile.TemporaryFile(dir=ENV.scratch) as fi, tempfile.TemporaryFile(dir=ENV.scratch) as fo, tempfile.TemporaryFile(dir=ENV.scratch) as fe:
        fi.write(stdin)
        fi.seek(0)
        pid = os.fork()
        if pid == 0:
            rc = 99
            try:
                signal.alarm(limit)
                for k, f in enumerate((fi, fo, fe)):
                    os.dup2(f.fileno(), k)
                sys.stdin, sys.stdout, sys.stderr = (io.TextIOWrapper(os.fdopen(k, m, closefd=False), encoding="utf-8") for k, m in enumerate(("rb", "wb", "wb")))
                sys.argv = [DIR + "/" + name] + argv
                rc = 0
                try:
                    runpy.run_path(DIR + "/" + name, run_name="__main__")
                except SystemExit as e:
                    rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    rc = 1
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(rc)
        _, st = os.waitpid(pid, 0)
        rc = os.waitstatus_to_exitcode(st)
        out = [os.pread(f.fileno(), 64 << 20, 0) for f in (fo, fe)]
    return ok(R(rc, out[0], out[1], rc == -signal.SIGALRM, [name] + argv))
