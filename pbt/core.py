"""Case execution helpers shared by all checks: running tools, violations."""
import contextlib, os, resource, select, signal, subprocess, shutil, tempfile

CPU_LIMIT = 10          # seconds of CPU time; a tool run normally takes milliseconds
WALL_LIMIT = 200


class Violation(Exception):
    """The property is broken on this case.  sig: a finding id (see known_findings.jsonl) if the failure
    has exactly the shape of a recorded finding."""
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class Inconclusive(Exception):
    pass


class Env:
    """Per-process environment: directory of built tools, scratch directory."""
    bin = None
    asan = None
    scratch = None
    contained = False


ENV = Env()
_fds = None
BASE_ENV = {"LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": "/nonexistent",
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2000",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99"}


class R:
    __slots__ = ("rc", "out", "err", "cpu_exceeded", "argv")

    def __init__(self, rc, out, err, cpu_exceeded, argv):
        self.rc, self.out, self.err, self.cpu_exceeded, self.argv = rc, out, err, cpu_exceeded, argv

    @property
    def text(self):
        return self.out.decode("utf8", "surrogateescape")


def limits(asan=False):
    resource.setrlimit(resource.RLIMIT_FSIZE, (128 << 20, 128 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if not asan:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


NOBODY = 65534


def give_away(path):
    """the scratch directory belongs to the user the cases run as"""
    if os.geteuid() != 0:
        return
    for r, ds, fs in os.walk(path):
        for x in [r] + [os.path.join(r, f) for f in fs]:
            os.chown(x, NOBODY, NOBODY)


def contain():
    """Cases run as a user who owns nothing but the scratch directory: a reformatter deletes the file a stream names, the apertium script
    removes its temporary directories, and a broken one may name anything."""
    if os.geteuid() == 0:
        try:
            os.setgroups([])
            os.setresgid(NOBODY, NOBODY, NOBODY)
            os.setresuid(NOBODY, NOBODY, NOBODY)
        except OSError:
            return
    ENV.contained = True


def tool(name, asan=False):
    return os.path.join(ENV.asan if asan else ENV.bin, name)


_launcher = None


@contextlib.contextmanager
def memory(byte):
    """runs inside get memory filled with this byte from the allocator (None: whatever there is)"""
    if byte is None:
        yield
        return
    BASE_ENV["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0:glibc.malloc.perturb=%d" % (255 ^ byte)
    try:
        yield
    finally:
        del BASE_ENV["GLIBC_TUNABLES"]


def run(argv, stdin=b"", env=None, maxout=64 << 20):
    """Run a single program (no children of its own) on stdin; argv[0] is a tool name or absolute path."""
    global _fds
    if _fds is None:
        _fds = [os.memfd_create(n, 0) for n in ("in", "out", "err")]
    if isinstance(stdin, str):
        stdin = stdin.encode("utf8", "surrogateescape")
    if "/" not in argv[0]:
        argv = [tool(argv[0])] + list(argv[1:])
    fi, fo, fe = _fds
    for f in _fds:
        os.ftruncate(f, 0)
        os.lseek(f, 0, 0)
    if stdin:
        mv = memoryview(stdin)
        off = 0
        while off < len(mv):
            off += os.pwrite(fi, mv[off:], off)
    e = dict(BASE_ENV)
    if env:
        e.update(env)
    pid = os.posix_spawn(argv[0], argv, e, file_actions=[
        (os.POSIX_SPAWN_DUP2, fi, 0), (os.POSIX_SPAWN_DUP2, fo, 1), (os.POSIX_SPAWN_DUP2, fe, 2)])
    try:
        # on the child only: the worker itself may use more
        resource.prlimit(pid, resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    except (ProcessLookupError, PermissionError):
        pass
    pfd = os.pidfd_open(pid)
    try:
        r, _, _ = select.select([pfd], [], [], WALL_LIMIT)
        if not r:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise Inconclusive("wall clock limit: %r" % (argv,))
    finally:
        os.close(pfd)
    _, st = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(st)
    out = os.pread(fo, maxout, 0)
    err = os.pread(fe, 1 << 16, 0)
    # start the next run with private descriptors if the child may still hold these
    return R(rc, out, err, rc in (-signal.SIGXCPU, -signal.SIGXFSZ, -signal.SIGKILL), argv)


def run_sh(argv, stdin=b"", env=None, cwd=None, timeout=120):
    """Run a program that has children (shell scripts), in its own process group."""
    if isinstance(stdin, str):
        stdin = stdin.encode("utf8", "surrogateescape")
    if "/" not in argv[0]:
        argv = [tool(argv[0])] + list(argv[1:])
    e = dict(BASE_ENV)
    if env:
        e.update(env)
    p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd,
                         start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Inconclusive("wall clock limit: %r" % (argv,))
    return R(p.returncode, out, err, False, argv)


def ok(r, allowed=(0,)):
    """The run ended normally."""
    if r.cpu_exceeded:
        raise Violation("%s did not terminate (cpu/output/memory limit)" % (r.argv,))
    if r.rc not in allowed:
        raise Violation("%s ended with status %s: %s" % ([os.path.basename(r.argv[0])] + r.argv[1:], r.rc,
                                                        r.err.decode("utf8", "replace")[-1500:]))
    return r


def need(cond, msg, *args, sig=None):
    if not cond:
        raise Violation(msg % args if args else msg, sig)


def same(got, want, what="output", case=None, sig=None):
    if isinstance(got, bytes):
        got = got.decode("utf8", "surrogateescape")
    if isinstance(want, bytes):
        want = want.decode("utf8", "surrogateescape")
    if got != want:
        i = 0
        while i < min(len(got), len(want)) and got[i] == want[i]:
            i += 1
        j = max(0, i - 300)
        where = "" if max(len(got), len(want)) < 700 else " (from position %d)" % j
        a, b = (got, want) if not where else (got[j:j + 600], want[j:j + 600])
        raise Violation("%s differs%s\n  got:  %r\n  want: %r" % (what if len(what) < 1500 else what[:1500] + "...", where, a, b), sig)


def scratch_dir():
    return tempfile.mkdtemp(dir=ENV.scratch)


def wfile(d, name, data):
    p = os.path.join(d, name)
    with open(p, "wb") as f:
        f.write(data.encode("utf8", "surrogateescape") if isinstance(data, str) else data)
    return p


def dialogue(argv, msgs, idle=1.5):
    """Give a tool one NUL-terminated message after the other, each only when the one before has been answered up to its NUL.
    Returns (answers without their NUL, what follows the last answer, exit status, stderr).  A tool that sleeps on an empty
    standard input without having answered ends the dialogue: its answer is None."""
    import fcntl, struct, termios, time
    if "/" not in argv[0]:
        argv = [tool(argv[0])] + list(argv[1:])
    p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=BASE_ENV, bufsize=0)
    fi, fo = p.stdin.fileno(), p.stdout.fileno()
    os.set_blocking(fo, False)
    os.set_blocking(fi, False)
    answers, buf = [], b""
    start = time.time()

    def fail(e):
        p.kill()
        p.communicate()
        raise e

    try:
        for m in msgs:
            if isinstance(m, str):
                m = m.encode("utf8", "surrogateescape")
            todo = m + b"\0"
            asleep = None
            while b"\0" not in buf:
                if time.time() - start > WALL_LIMIT:
                    fail(Inconclusive("wall clock limit: %r" % (argv,)))
                r, w, _ = select.select([fo], [fi] if todo else [], [], 0.05)
                if w:
                    try:
                        todo = todo[os.write(fi, todo):]
                    except BrokenPipeError:
                        todo = b""
                if r:
                    x = os.read(fo, 1 << 16)
                    if not x:
                        answers.append(None)
                        break
                    buf += x
                    asleep = None
                elif not w:
                    n = struct.unpack("i", fcntl.ioctl(fi, termios.FIONREAD, b"\0" * 4))[0]
                    try:
                        state = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()[0]
                    except OSError:
                        state = "X"
                    now = time.time()
                    if n == 0 and not todo and state == "S":
                        asleep = asleep or now
                        if now - asleep > idle:
                            answers.append(None)
                            break
                    else:
                        asleep = None
            else:
                k = buf.index(b"\0")
                answers.append(buf[:k])
                buf = buf[k + 1:]
                continue
            break
        os.set_blocking(fo, True)
        try:
            out, err = p.communicate(timeout=WALL_LIMIT)
        except subprocess.TimeoutExpired:
            fail(Inconclusive("wall clock limit: %r" % (argv,)))
        return answers, buf + out, p.returncode, err
    except BaseException:
        if p.poll() is None:
            p.kill()
            p.communicate()
        raise
