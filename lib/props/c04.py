"""A successful download holds exactly what the range server returned."""
import os
from hypothesis import strategies as st
import h2, rangeserver as rs
from driver import Prop, Arm, Violation
from tools import run, put, get


@st.composite
def cases(draw):
    c = draw(rs.scenarios())
    c["fails"] = draw(rs.fails(c["limit"])) if draw(st.sampled_from([1, 1, 1, 0])) else {}
    c["force"] = draw(st.sampled_from([None, None, None, "old", "long"]))
    return c


@st.composite
def long_cases(draw):
    """more prefixes than are requested at once, some of whose responses come after all others"""
    c = draw(rs.scenarios())
    c["per"] = draw(st.sampled_from(["few", "few", "gaps"]))
    c.pop("big", None)
    c["limit"] = draw(st.sampled_from([257, 300, 301, 350, 512, 700, 1030, 1500]))
    c["par"] = draw(st.sampled_from([None, None, 40, 150, 500]))
    c["order"] = dict(c["order"], ms=1, batch=50, splits=0, hold=draw(st.lists(st.integers(0, c["limit"] - 1), min_size=1, max_size=3)))
    c["fails"] = draw(rs.fails(c["limit"], kinds=rs.CLEAN, most=2)) if draw(st.booleans()) else {}
    c["force"] = None
    return c


@st.composite
def tls_cases(draw):
    c = draw(h2.over_tls(rs.scenarios()))
    c["fails"] = draw(h2.fails(c["limit"])) if c["limit"] and draw(st.sampled_from([1, 1, 0])) else {}
    c["force"] = draw(st.sampled_from([None, None, None, "old", "long"]))
    return c


def first_difference(got, want, txt, typ):
    import db
    if txt:
        a, b = got.split(b"\n"), want.split(b"\n")
    else:
        n = db.REC[typ]
        a, b = [got[i:i + n].hex() for i in range(0, len(got), n)], [want[i:i + n].hex() for i in range(0, len(want), n)]
    for i in range(max(len(a), len(b))):
        x, y = (a[i] if i < len(a) else "<end>"), (b[i] if i < len(b) else "<end>")
        if x != y:
            return "record %d is %s, expected %s (%d records, expected %d)" % (i, x, y, len(a), len(b))
    return "same"


def check(case, ctx):
    s, argv, env = h2.link(case, ctx)
    data = rs.Data(case)
    d = ctx.fresh_dir()
    try:
        out = os.path.join(d, "out")
        if case["force"]:
            put(out, b"old" * (100000 if case["force"] == "long" else 1))
        s.play(case, data, case["fails"])
        r = run(argv(ctx, case, out, ["--force"] if case["force"] else []), cwd=d, env=env)
        want = data.expected(case["txt"])
        if r.rc != 0:
            raise Violation("no prefix fails more than five times, but the download failed: %s" % r)
        got = get(out)
        if got != want:
            raise Violation("%s: %s" % (first_difference(got, want, case["txt"], case["type"]), r))
        if os.listdir(d) != ["out"]:
            raise Violation("other files were left: %s" % os.listdir(d))
        nf = max([len(v) for v in case["fails"].values()] or [0])
        return {"nontrivial": case["limit"] > 1 and len(want) > 0,
                "classes": [case["type"] + (" text" if case["txt"] else "")] + ["transient failures"] * (nf > 0) + ["a prefix failed five times"] * (nf == 5) +
                ["out of order"] * (case["order"]["how"] != "fifo" and (case["par"] or 300) > 1) + ["beyond the writer's buffer"] * (len(want) > 240000) + ["late responses"] * ("hold" in case["order"]) +
                ["split responses"] * (case["order"]["splits"] > 0) + [case["fmt"]["frame"], case["fmt"]["eol"]] + [case["proto"] for _ in "x" if "proto" in case] +
                ["the connection ended"] * any(k in h2.SESSION for v in case["fails"].values() for k in v)}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C04", "exploration",
            "Hypothesis draws a data set, a limit, a parallelism and a scenario for the range server: which response proceeds next (by random priority, "
            "last first, in batches), how responses are split, framed and terminated, and up to five failures of each of up to four prefixes (error status with or without records, "
            "bodies cut anywhere and at a line end, resets, garbage). In the arm 'tls' the requests go to the published URL over HTTP/2 (a sixth: HTTP/1.1) with TLS, and streams are reset, connections closed, cut or ended by GOAWAY. The output must be byte for byte what the data set gives. "
            "Non-trivial: at least two prefixes and a record.",
            ["rel:download", "so:tls"], [Arm("download", cases(), check, 2400, 50000), Arm("long", long_cases(), check, 48, 2000), Arm("tls", tls_cases(), check, 480, 20000)],
            technique="property-based testing (Hypothesis) with a scripted range server: generated schedules and failures against the data set",
            note="Exploration: every generated schedule is decided exactly; up to 40 prefixes and 60 parallel requests (300 by default) per case, up to 1500 prefixes with responses which come last in the arm 'long'.",
            assumptions=["most cases by plain HTTP/1.1: --testing's URL, redirected to the check's server by http_proxy; those over TLS are led there by a preloaded library (cpp/tls.c)"])
