"""A download that cannot complete ends with a failure and leaves a prefix of the correct output."""
import os
from hypothesis import strategies as st
import db, h2, rangeserver as rs
from c04 import first_difference
from driver import Prop, Arm, Violation
from tools import run, put, get


@st.composite
def abort_cases(draw):
    c = draw(rs.scenarios(minlimit=1))
    f = draw(rs.fails(c["limit"], upto=3)) if draw(st.booleans()) else {}
    bad = draw(st.integers(0, c["limit"] - 1))
    if draw(st.integers(0, 3)) == 0:        # six failures, after which it would work
        f[str(bad)] = draw(st.lists(st.sampled_from(rs.CLEAN), min_size=6, max_size=6))
        if c["fmt"]["frame"] == "close":
            c["fmt"]["frame"] = "length"
    else:
        f[str(bad)] = draw(st.lists(st.sampled_from(rs.FAILS), min_size=1, max_size=3)) + ["*"]
    c["fails"] = f
    c["bad"] = bad
    return c


@st.composite
def write_cases(draw):
    c = draw(rs.scenarios(minlimit=1))
    c["fails"] = draw(rs.fails(c["limit"])) if draw(st.sampled_from([0, 0, 1])) else {}
    c["where"] = draw(st.one_of(st.integers(0, 2**31 - 1), st.sampled_from(["first byte", "last byte", "full device"])))
    return c


@st.composite
def stall_cases(draw, what=("request", "write", "recovers"), scenarios=rs.scenarios(minlimit=2, maxlimit=12)):
    c = draw(scenarios)
    c["per"] = "few"
    c["par"] = draw(st.sampled_from([1, 2, 3, None]))
    hang, bad = draw(st.integers(0, c["limit"] - 1)), draw(st.integers(0, c["limit"] - 1))
    c["what"] = draw(st.sampled_from(what))
    c["how"] = draw(st.sampled_from(["hang", "hang", "hang early"]))
    c["fails"] = {str(hang): [c["how"]] + (["500 empty"] if draw(st.booleans()) else [])}
    if c["what"] == "request":
        c["fails"][str(bad)] = ["500 records", "*"]
    elif c["what"] == "resume":             # the answer with which the last prefix is compared stalls
        c["txt"] = False
        c["have"] = draw(st.integers(0, 2**31 - 1))
    elif c["what"] == "write":
        c["where"] = draw(st.integers(0, 2**31 - 1))
    c["bad"] = bad
    return c


@st.composite
def tls_cases(draw):
    c = draw(h2.over_tls(rs.scenarios(minlimit=1)))
    f = draw(h2.fails(c["limit"])) if draw(st.booleans()) else {}
    if draw(st.integers(0, 3)) == 0:
        c["fails"], c["where"] = f, draw(st.one_of(st.integers(0, 2**31 - 1), st.sampled_from(["first byte", "last byte", "full device"])))
        return c
    bad = draw(st.integers(0, c["limit"] - 1))
    if draw(st.integers(0, 3)) == 0:
        # libcurl itself repeats requests on connections which end
        f = draw(rs.fails(c["limit"], kinds=h2.CLEAN, upto=3)) if f else {}
        f[str(bad)] = draw(st.lists(st.sampled_from(h2.CLEAN), min_size=6, max_size=6))
    else:
        f[str(bad)] = draw(st.lists(st.sampled_from(h2.STREAM * 2 + h2.SESSION), min_size=1, max_size=3)) + ["*"]
    c["fails"], c["bad"] = f, bad
    return c


def check(case, ctx):
    s, argv, env = h2.link(case, ctx)
    data = rs.Data(case)
    want = data.expected(case["txt"])
    d = ctx.fresh_dir()
    try:
        out = os.path.join(d, "out")
        s.play(case, data, case["fails"])
        fsize, most, extra = None, len(want), []
        recover = case.get("what") == "recovers"
        if "where" in case:
            if not want:
                return {}
            w = case["where"]
            if w == "full device":
                out, extra = "/dev/full", ["--force"]
            else:
                fsize = most = {"first byte": 0, "last byte": len(want) - 1}.get(w, w % len(want) if isinstance(w, int) else 0)
        elif not recover:
            most = len(data.expected(case["txt"], 0, case["bad"]))
        if case.get("what") == "resume":
            rec = db.REC[case["type"]]
            if len(want) < rec:
                return {}
            n = rec + case["have"] % (len(want) - rec + 1)
            put(out, want[:n])
            s.play(case, data, {str(int(want[n // rec * rec - rec:][:3].hex()[:5], 16)): [case["how"]]})
            r = run(argv(ctx, case, out, ["--resume"]), cwd=d, env=env)
            got = get(out)
            if got != want[:len(got)] or (r.rc == 0 and got != want):
                raise Violation("%d bytes, resumed while the first request stalls: %s: %s" % (n, first_difference(got, want, False, case["type"]), r))
            return {"nontrivial": True, "classes": ["resumed, stalled"]}
        r = run(argv(ctx, case, out, extra), cwd=d, env=env, fsize=fsize)
        if recover:
            if r.rc != 0 or get(out) != want:
                raise Violation("a stalled request was not retried: %s" % r)
            return {"nontrivial": True, "classes": ["stalled, then retried"]}
        if r.rc == 0:
            raise Violation("reports success although %s: %s" % ("its output can't be written" if "where" in case else "prefix %05X keeps failing" % case["bad"], r))
        got = get(out) if out != "/dev/full" and os.path.exists(out) else b""
        if got != want[:len(got)] or len(got) > most:
            raise Violation("what was written is not a prefix of the correct output: %s: %s" % (first_difference(got, want, case["txt"], case["type"]), r))
        return {"nontrivial": case["limit"] > 1, "classes": [case["type"] + (" text" if case["txt"] else "")] + ["something was written"] * (len(got) > 0) +
                (["write fails"] if "where" in case else ["six failures, then fine"] if case["fails"][str(case["bad"])][-1] != "*" else ["fails forever"]) +
                ["others fail too"] * (len(case["fails"]) > 1) + [case["proto"] for _ in "x" if "proto" in case]}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C05", "fault_enumeration",
            "Hypothesis draws the scenarios of C04 with a prefix which fails forever (any cycle of failure kinds) or exactly six times, or an output which can't be written "
            "from a drawn byte on (file size limit, full device), or responses which stall (of a download, or the first one of a resumption); arms 'tls' the same by HTTP/2 over TLS, with streams reset and connections ended. hibp-download must end within 60 s (normally milliseconds, 5 s per stall), "
            "exit non-zero, and its file must be a prefix of the correct output which holds nothing of the failing prefix or beyond. Non-trivial: at least two prefixes.",
            ["rel:download", "so:tls"], [Arm("abort", abort_cases(), check, 1300, 30000), Arm("tls", tls_cases(), check, 320, 12000), Arm("write", write_cases(), check, 1000, 25000), Arm("stall", stall_cases(), check, 16, 800),
                               Arm("stalled resume", stall_cases(what=("resume",)), check, 8, 400),
                               Arm("stall, tls", stall_cases(what=("request", "write", "recovers", "recovers", "resume"), scenarios=h2.over_tls(rs.scenarios(minlimit=2, maxlimit=12))), check, 16, 800)],
            technique="generated fault injection (Hypothesis) with a scripted range server and a file size limit",
            note="Faults are drawn: prefix, kinds of failure, byte at which writing fails, schedule; few stalls in the quick tier because each costs 5 s.",
            assumptions=["most cases by plain HTTP/1.1, some by HTTP/2 over TLS"])
