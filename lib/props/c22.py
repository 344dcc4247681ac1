"""The requests of hibp-download: never more at a time than asked for, each prefix as often as needed, nothing else."""
import os
from hypothesis import strategies as st
import db
import h2, rangeserver as rs
from driver import Prop, Arm, Violation
from tools import run, put, get


PAR = st.sampled_from([1, 1, 2, 2, 3, 3, 4, 5, 5, 6, 7, 8, 10, 13, 17, 25, 32, 45])


@st.composite
def cases(draw):
    c = draw(rs.scenarios())
    c["par"] = draw(PAR)
    c["order"] = dict(c["order"], ms=draw(st.sampled_from([1, 2, 4])))
    c["fails"] = draw(rs.fails(c["limit"], kinds=rs.CLEAN)) if draw(st.booleans()) else {}
    if c["fails"] and draw(st.integers(0, 3)) == 0:
        k = draw(st.sampled_from(sorted(c["fails"])))
        c["fails"][k] = [c["fails"][k][0], "*"]
    if draw(st.integers(0, 3)) == 0:
        c["order"] = dict(c["order"], barrier=True, ms=1)
        if c["fmt"]["frame"] == "close":        # libcurl waits for the first response on new connections
            c["fmt"] = dict(c["fmt"], frame="length")
        if draw(st.integers(0, 15)) == 0 and c["per"] != "many":
            c["par"], c["limit"] = draw(st.sampled_from([(None, 310), (None, 301), (None, 299), (120, 130), (310, 320), (500, 400)]))
            c["order"] = dict(c["order"], splits=0, batch=50)
    elif not c["txt"] and draw(st.integers(0, 1)) == 0:
        c["have"] = draw(st.integers(1, 2**31))        # resume a file which holds this many bytes
    return c


@st.composite
def tls_cases(draw):
    c = draw(h2.over_tls(rs.scenarios()))
    c["par"] = draw(PAR)
    c["order"] = dict(c["order"], ms=draw(st.sampled_from([1, 2, 4])))
    c["fails"] = draw(rs.fails(c["limit"], kinds=h2.CLEAN)) if draw(st.booleans()) else {}
    if c["fails"] and draw(st.integers(0, 3)) == 0:
        k = draw(st.sampled_from(sorted(c["fails"])))
        c["fails"][k] = [c["fails"][k][0], "*"]
    if draw(st.integers(0, 2)) == 0:
        c["proto"] = "h2"
        if draw(st.integers(0, 7)) == 0 and c["per"] != "many":
            c["par"], c["limit"] = draw(st.sampled_from([(None, 310), (None, 301), (None, 299), (99, 130), (100, 130), (101, 130), (120, 130), (310, 320), (500, 400)]))
            c["order"] = dict(c["order"], splits=0, batch=50)
        c["want"] = min(c["par"] or 300, c["limit"])
    elif not c["txt"] and draw(st.integers(0, 1)) == 0:
        c["have"] = draw(st.integers(1, 2**31))
    return c


def check(case, ctx):
    s, argv, env = h2.link(case, ctx)
    data = rs.Data(case)
    d = ctx.fresh_dir()
    limit, par = case["limit"], case["par"] or 300
    try:
        out = os.path.join(d, "out")
        want = data.expected(case["txt"])
        rec = db.REC[case["type"]]
        extra, first, last = [], 0, None
        if case.get("have") and len(want) >= rec:
            n = 1 + case["have"] % len(want)
            if n >= rec:
                put(out, want[:n])
                extra = ["--resume"]
                last = int(want[n // rec * rec - rec:][:3].hex()[:5], 16)
                first = last
        s.play(case, data, case["fails"])
        r = run(argv(ctx, case, out, extra), cwd=d, env=env)
        if "proto" in case:
            s.look()
        what = "limit %d, parallel-max %d%s, failures %s: %s" % (limit, par, ", resumed at prefix %05X" % last if extra else "", case["fails"], r)
        if s.short and not case["fails"]:
            raise Violation("only %d requests at the same time though %d are allowed and needed: %s" % (s.short + (what,)))
        if s.most > par:
            raise Violation("%d requests at the same time: %s" % (s.most, what))
        if case.get("proto") == "h2" and not case["fails"] and s.connections > -(-min(par, limit) // 100) + bool(extra):      # libcurl puts 100 on one
            raise Violation("%d connections for HTTP/2 requests which could share one: %s" % (s.connections, what))
        kind = "ntlm" if case["type"] == "ntlm" else "sha1"
        if s.modes - {kind}:
            raise Violation("asked for %s hashes: %s" % (s.modes, what))
        forever = any("*" in v for v in case["fails"].values())
        for p, n in sorted(s.attempts.items()):
            if p < first or p >= limit:
                raise Violation("prefix %05X is not needed, but was asked for: %s" % (p, what))
            f = case["fails"].get(str(p), [])
            most = 6 if "*" in f else 1 + len(f)
            # the request with which --resume looks at the last prefix is not repeated; it may be followed by a download
            if n > most + (p == last):
                raise Violation("prefix %05X was asked for %d times, at most %d were needed: %s" % (p, n, most, what))
            if "*" in f and p != last and r.rc != 0 and len(case["fails"]) == 1 and n != 6:
                raise Violation("prefix %05X was asked for %d times before giving up: %s" % (p, n, what))
        if r.rc == 0:
            if forever and any("*" in v and first <= int(k) for k, v in case["fails"].items() if int(k) != last):
                raise Violation("success though a prefix always fails: %s" % what)
            for p in range(first + bool(extra), limit):
                n = s.attempts.get(p, 0)
                if n != 1 + len(case["fails"].get(str(p), [])):
                    raise Violation("prefix %05X was asked for %d times, needed: %d: %s" % (p, n, 1 + len(case["fails"].get(str(p), [])), what))
            if get(out) != want:
                raise Violation("the output is not complete: %s" % what)
        return {"nontrivial": len(s.attempts) > 1 and (s.most > 1 or len(case["fails"]) > 0),
                "classes": ["%s" % case["type"]] + ["as many requests at a time as allowed"] * (s.most == par) + ["limited by --parallel-max"] * (s.most == par < limit - first) +
                ["all of them awaited"] * bool(case["order"].get("barrier") or case.get("want")) + ["retries"] * bool(case["fails"]) + ["a prefix fails forever"] * forever + ["resumed"] * bool(extra) + [case["proto"] + " by %d connections" % min(s.connections, 5) for _ in "x" if "proto" in case]}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C22", "exploration",
            "Hypothesis draws a data set, a limit, --parallel-max, the order and framing of the responses, complete error responses (up to five per prefix, or forever), "
            "files to resume and servers which answer nothing before the allowed number of requests is there. The range server records every request. At no time may there be more than "
            "--parallel-max, there must be as many as needed and allowed, and each prefix must be asked for once more than its answers fail, six times at most, none outside the range. In the arm 'tls' the requests are HTTP/2 (some: HTTP/1.1) over TLS; then they must also share a connection (one for 100 parallel requests). "
            "Non-trivial: at least two prefixes, and parallel requests or failures.",
            ["rel:download", "so:tls"], [Arm("requests", cases(), check, 2400, 50000), Arm("tls", tls_cases(), check, 480, 16000)],
            technique="property-based testing (Hypothesis) with a scripted range server: invariants over the recorded history of requests",
            note="Exploration: every generated history of requests is decided exactly, up to 310 parallel requests; failures are complete error responses, since libcurl itself repeats requests on connections which end.",
            assumptions=["by HTTP/1.1 each outstanding request has a connection of its own", "libcurl puts at most 100 parallel requests on one HTTP/2 connection"])
