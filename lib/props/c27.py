"""Records come from the published API alone, over connections whose certificate holds."""
import os
from hypothesis import strategies as st
import db, h2, rangeserver as rs
from c04 import first_difference
from driver import Prop, Arm, Violation
from tools import run, put, get

BAD = ["wrong", "expired", "future", "untrusted"]
WHO = {"wrong": "for another host", "expired": "that has expired", "future": "that is not valid yet", "untrusted": "by an unknown authority"}


@st.composite
def cases(draw, what):
    c = draw(h2.over_tls(rs.scenarios(minlimit=1)))
    c["proto"] = draw(st.sampled_from(["h2", "h2", "h2", "h1", "h1"] + ["plain"] * (what == "bad")))
    if c["proto"] == "plain":
        c["certs"] = []
    elif what == "any":                 # the n-th connection has the n-th certificate; the last one stays
        c["certs"] = draw(st.lists(st.sampled_from(BAD + ["good"] * 4), min_size=1, max_size=5))
    else:
        bad = draw(st.sampled_from(BAD))
        c["certs"] = {"bad": [bad], "good": ["good"], "then bad": ["good", bad]}[what]
    c["fails"] = draw(h2.fails(c["limit"])) if draw(st.booleans()) and what != "bad" else {}
    if what == "good" and draw(st.integers(0, 2)) == 0:
        c["fails"] = draw(rs.fails(c["limit"], kinds=h2.CLEAN + ["301 elsewhere", "302 elsewhere", "307 elsewhere", "308 elsewhere"]))
    if what in ("any", "then bad"):
        # make it need more than one connection
        p = str(draw(st.integers(0, c["limit"] - 1)))
        c["fails"].setdefault(p, []).insert(0, draw(st.sampled_from(["cut", "shut"])))
        c["fails"] = {p: c["fails"][p]} if sum(map(len, c["fails"].values())) > 5 else c["fails"]
    c["how"] = draw(st.sampled_from(["new", "new", "--force", "--resume", "--resume"]))
    c["have"] = draw(st.integers(0, 2**31 - 1))
    if c["how"] == "--resume":
        c["txt"] = False
    return c


def check(case, ctx):
    s = h2.server(ctx)
    data = rs.Data(case)
    want = data.expected(case["txt"])
    d = ctx.fresh_dir()
    try:
        out, how, rec = os.path.join(d, "out"), case["how"], db.REC[case["type"]]
        had = b""
        if how == "--resume":
            if len(want) < rec:
                return {}
            n = rec + case["have"] % (len(want) - rec + 1)
            put(out, want[:n])
            had = want[:n // rec * rec]
        elif how == "--force":
            put(out, b"old")
        s.play(case, data, case["fails"])
        r = run(h2.argv(ctx, case, out, [how] if how != "new" else []), cwd=d, env=s.env(ctx, case["proto"]))
        s.look()
        certs = case["certs"]
        what = "%s, the connections' certificates %s, failures %s: %s" % (case["proto"], certs, case["fails"], r)
        mode = "?mode=ntlm" if case["type"] == "ntlm" else ""
        for x in s.requests:
            if x["cert"] in BAD and not x["again"]:
                raise Violation("a request was sent over a connection with a certificate %s: %s: %s" % (WHO[x["cert"]], x, what))
            if x["cert"] != "good" and not x["again"]:
                raise Violation("a request was sent without TLS: %s: %s" % (x, what))
            if x["method"] != "GET" or x["host"] not in ("api.pwnedpasswords.com", "api.pwnedpasswords.com:443"):
                raise Violation("a request which is not for the published API: %s: %s" % (x, what))
            if len(x["path"]) != 12 + len(mode) or x["path"][:7] != "/range/" or x["path"][12:] != mode or not set(x["path"][7:12]) <= set("0123456789ABCDEF"):
                raise Violation("a request which is not for the published API: %s: %s" % (x, what))
            if int(x["path"][7:12], 16) >= case["limit"]:
                raise Violation("a request beyond the limit: %s: %s" % (x, what))
        got = get(out) if os.path.exists(out) else b""
        if "good" not in certs:
            if r.rc == 0:
                raise Violation("reports success without a connection whose certificate holds: %s" % what)
            if s.requests:
                raise Violation("a request was sent without a connection whose certificate holds: %s: %s" % (s.requests[0], what))
            if how == "--resume" and got[:len(had)] != had or not (how == "--resume" and got == want[:len(got)] or got in (b"", b"old")):
                raise Violation("the output was changed to %d bytes without a connection whose certificate holds: %s" % (len(got), what))
        elif got != b"old" and got != want[:len(got)]:
            raise Violation("what was written is not a prefix of the correct output: %s: %s" % (first_difference(got, want, case["txt"], case["type"]), what))
        if r.rc == 0 and got != want:
            raise Violation("reports success with %d of %d bytes: %s" % (len(got), len(want), what))
        nothing = how == "--resume" and had == want and len(data.records(case["limit"] - 1)) > 0
        if certs == ["good"] and not case["fails"] and (r.rc == 0) == nothing:
            raise Violation("%s: %s" % ("nothing to do, but success" if nothing else "fails though nothing is wrong", what))
        kinds = {c for c in certs if c != "good"}
        return {"nontrivial": bool(kinds) or case["proto"] == "plain" or len(s.requests) > 1,
                "classes": [case["proto"], how] + sorted(kinds) + ["bad later"] * (certs[:1] == ["good"] and bool(kinds)) + ["good later"] * ("good" in certs and certs[0] != "good") +
                ["%s, %s" % ("bad only" if "good" not in certs else "bad and good" if kinds else "good", "failure" if r.rc else "success")] + ["a session was resumed"] * any(x["again"] for x in s.requests)}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C27", "exploration",
            "Hypothesis draws a scenario of C04 for a server of HTTP/2 or HTTP/1.1 over TLS which stands in for api.pwnedpasswords.com, the certificate of each connection (good, for another host, expired, "
            "not yet valid, by an unknown authority; or no TLS at all), failures which end connections, and a new, overwriting or resuming download. No request may arrive over a connection without a good certificate, "
            "each must be GET https://api.pwnedpasswords.com/range/<prefix> with mode=ntlm exactly for --ntlm; without any good connection the download must fail and write nothing; whatever it writes must be a prefix of the correct output, "
            "all of it if it reports success. Non-trivial: a bad connection is offered, or at least two requests are seen.",
            ["rel:download", "so:tls"], [Arm("bad", cases("bad"), check, 400, 12000), Arm("good", cases("good"), check, 300, 10000), Arm("then bad", cases("then bad"), check, 300, 10000), Arm("any", cases("any"), check, 300, 10000)],
            technique="property-based testing (Hypothesis) with a scripted TLS server: invariants over the requests it sees, and the data set",
            note="Exploration: certificates, order of connections and failures are drawn. The connection is led to the check's server, and the check's authority added to the trusted ones, by a preloaded library; all else is the program's own.",
            assumptions=["libcurl's verification of certificates, once asked for, is right", "a session resumed from a verified connection needs no certificate"])
