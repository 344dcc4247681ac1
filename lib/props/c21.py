"""No data races: the downloader and the server under ThreadSanitizer and generated schedules."""
import re
import build, tools
import c04, c05, c06, c17
from driver import Prop, Arm, Violation, Observed, Inconclusive

RACE = re.compile(r"WARNING: ThreadSanitizer: (data race|heap-use-after-free|unlock of an unlocked mutex|double lock|destroy of a locked mutex|use of an invalid)[^\n]*")


def report(text):
    """the first report which involves hibp's code"""
    for m in RACE.finditer(text):
        t = text[m.start():].split("==================")[0]
        # the two accesses; restinio's own (its status flag at shutdown, say) have no frame of hibp's but those which start it
        acc = re.split(r"\n  (?:Location|Mutex|Thread|As if)", t)[0]
        for l in acc.split("\n"):
            if re.match(r" +#\d+ .*" + re.escape(build.REPO) + "/(src|app|include)/", l) and not re.match(r" +#\d+ (main|hibp::srv::run_server\(\)) ", l):
                return t
    return None


class As:
    """the context of a case, with other binaries in the place of the shipped ones"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.bins = {"rel:download": ctx.bins["tsan:download"], "tsan:server": ctx.bins["tsan:server"], "so:tls": ctx.bins["so:tls"]}

    def __getattr__(self, n):
        return getattr(self.ctx, n)


def races(check, case, ctx, **kw):
    """what is wrong otherwise is decided by the other properties"""
    tools.SEEN = seen = []
    other = None
    try:
        info = check(case, As(ctx), **kw) or {}
    except (Violation, Inconclusive) as e:
        other = str(e)
    finally:
        tools.SEEN = None
    for t in [r.err.decode(errors="replace") for r in seen] + [other or ""]:
        m = report(t)
        if m:
            raise Observed(m[:3500])
        if "FATAL: ThreadSanitizer" in t:
            raise Inconclusive(t[:500])
    if other:
        return {"nontrivial": False, "classes": ["ends in another failure"]}
    return {"nontrivial": info.get("nontrivial", True), "classes": info.get("classes", ())}


def download(case, ctx):
    return races(c04.check, case, ctx)


def fail(case, ctx):
    return races(c05.check, case, ctx)


def resume(case, ctx):
    return races(c06.check, case, ctx)


def server(case, ctx):
    return races(c17.check, case, ctx, bin="tsan:server")


def storm(case, ctx):
    return races(c17.storm, case, ctx, bin="tsan:server")


PROP = Prop("C21", "exploration",
            "The scenarios of C04 (response orders, splits, up to five failures per prefix, --debug), C05 (failing requests, failing writes), C06 (--resume chains) and C17 (concurrent sessions and storms) "
            "run on ThreadSanitizer builds of hibp-download and hibp-server; any report of a data race (or misuse of a mutex, or use after free) is a violation. "
            "Non-trivial: as in those properties (two prefixes; two requests).",
            ["tsan:download", "tsan:server", "so:tls"],
            [Arm("download", c04.cases(), download, 800, 20000), Arm("request fails", c05.abort_cases(), fail, 400, 10000), Arm("write fails", c05.write_cases(), fail, 400, 10000),
             Arm("stall", c05.stall_cases(), fail, 8, 300), Arm("download, tls", c04.tls_cases(), download, 160, 6000), Arm("failures, tls", c05.tls_cases(), fail, 160, 6000),
             Arm("resume", c06.cases(), resume, 320, 8000), Arm("server", c17.cases(), server, 400, 10000), Arm("storm", c17.storms(), storm, 60, 2000)],
            technique="property-based testing (Hypothesis): generated schedules and fault scenarios, with ThreadSanitizer's happens-before analysis as the oracle",
            note="Exploration: happens-before race detection finds races on the executed schedules whether or not they did harm; schedules which no scenario produces are not seen. libcurl, libevent, restinio's C parts are not instrumented.",
            assumptions=["most cases by plain HTTP/1.1, some by HTTP/2 over TLS", "SHA1 comes from a stand-in for the hash-library submodule that is absent from this checkout"])
