"""Running the tools: bounded in time, with captured output, optionally with a file size limit."""
import os, resource, signal, subprocess
from driver import Violation, Hang, Inconclusive

HANG = 60      # seconds; the runs take milliseconds


SEEN = None    # a list: collects all results


class Result:
    def __init__(self, rc, out, err, argv):
        self.rc, self.out, self.err, self.argv = rc, out, err, argv
        if SEEN is not None:
            SEEN.append(self)

    def text(self):
        return self.out.decode("latin-1")

    def __str__(self):
        return "%s -> exit %d\nstdout: %s\nstderr: %s" % (
            " ".join(map(repr, self.argv)), self.rc, self.out[-600:].decode(errors="replace"),
            self.err[-1200:].decode(errors="replace"))


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=86:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=87",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:report_thread_leaks=0",
}
CRASH = (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE)


def run(argv, cwd=None, stdin=None, stdout=None, env=None, fsize=None, fsize_kill=False,
        timeout=HANG, hang_ok=False, preserve_env=True, signals_ok=False):
    """fsize: file size limit in bytes; exceeding it kills (fsize_kill) or fails the write (EFBIG).
    stdout: None = capture, or an open file (descriptor)."""
    e = dict(os.environ)
    for k in ("http_proxy", "HTTP_PROXY", "https_proxy", "no_proxy", "NO_PROXY", "ALL_PROXY", "all_proxy"):
        e.pop(k, None)
    e.update(SAN_ENV)
    if env:
        e.update(env)
    if fsize is not None:
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, old[1]))
    try:
        p = subprocess.Popen(argv, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE if stdout is None else stdout,
                             stderr=subprocess.PIPE, restore_signals=fsize_kill)
    finally:
        if fsize is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        if hang_ok:
            return Result(None, out or b"", err or b"", argv)
        raise Hang("does not terminate within %d s: %s" % (timeout, argv))
    r = Result(p.returncode, out or b"", err or b"", argv)
    if not signals_ok:
        check_sane(r)
    return r


def check_sane(r):
    if r.rc in (86, 87) and (b"Sanitizer" in r.err or b"runtime error" in r.err):
        raise Violation("memory error: %s" % r)
    if r.rc in CRASH:
        raise Violation("crash: %s" % r)


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)
    return path


def get(path):
    with open(path, "rb") as f:
        return f.read()


def snapshot(d):
    """names and contents of all files below d"""
    out = {}
    for dp, dn, fn in os.walk(d):
        for f in fn:
            p = os.path.join(dp, f)
            out[os.path.relpath(p, d)] = get(p)
    return out
