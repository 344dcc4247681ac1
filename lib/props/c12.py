from hypothesis import strategies as st
import db
from driver import Prop, Arm, Violation
from tools import run, put, get
import os


def expected(recs, n):
    top = sorted(recs, key=lambda r: (-r[1], r[0]))[:n]
    return sorted(top)


FLAG = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}


@st.composite
def cases(draw, size=None):
    b = db.around(1000, 2000, 2730, 3276, 5461, 6553, 8190, 9828)
    spec = draw(db.specs(n=size or st.one_of(st.integers(2, 12), st.integers(2, 300), st.integers(2, 300), st.sampled_from(b)),
                         orders=("sorted", "sorted", "shuffled", "reverse"), unique=False))
    n = spec["n"]
    topn = draw(st.one_of(st.integers(1, n - 1), st.integers(1, n - 1), st.integers(1, n - 1),
                          st.sampled_from([1, n - 1, 999, 1000, 1001, 2000]), st.sampled_from([0, n, n + 1, 2**31, 2**32, 2**32 + 1, 2**32 + n - 1, 2**63])))
    return {"db": spec, "N": topn, "out": draw(st.sampled_from(["file", "stdout", "force"]))}


def check(case, ctx):
    spec, n = case["db"], case["N"]
    recs = db.expand(spec)
    d = ctx.fresh_dir()
    try:
        inp, outp = os.path.join(d, "in.bin"), os.path.join(d, "out.bin")
        raw = db.pack(recs)
        put(inp, raw)
        argv = [ctx.bins["rel:topn"], inp, "-N", str(n)] + FLAG[spec["type"]]
        if case["out"] == "stdout":
            r = run(argv + ["--stdout"], cwd=d)
        elif case["out"] == "force":
            put(outp, b"previous contents " * 5000)
            r = run(argv + ["-o", outp, "-f"], cwd=d)
        else:
            r = run(argv + ["-o", outp], cwd=d)
        if get(inp) != raw:
            raise Violation("the input was modified: %s" % r)
        if len(recs) <= n:
            if r.rc == 0:
                raise Violation("a database of %d records was not refused for N=%d: %s" % (len(recs), n, r))
            return {"classes": ["refused"]}
        if r.rc != 0:
            raise Violation("failed: %s" % r)
        data = r.out if case["out"] == "stdout" else get(outp)
        got = db.unpack(spec["type"], data)
        if got is None:
            raise Violation("the output is not a database (%d bytes): %s" % (len(data), r))
        want = expected(recs, n)
        # records with the same hash have no defined order among themselves
        if sorted(got) != want or [h for h, c in got] != [h for h, c in want]:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Violation("topn %d of %d (%s, %s): %d records, expected %d; first difference at %d: %s, expected %s" % (
                n, len(recs), spec["type"], case["out"], len(got), len(want), i, got[i:i + 1], want[i:i + 1]))
        low = min([c for _, c in want], default=None)
        tie = n and sum(c == low for _, c in recs) > sum(c == low for _, c in want)
        return {"nontrivial": n > 0, "classes": [spec["type"], case["out"]] + (["tie at the border"] if tie else []) +
                (["> 1000 records written"] if n > 1000 else []) + (["> 65536 records written"] if n > 65536 else []) + (["negative counts"] if any(c < 0 for _, c in recs) else [])}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C12", "exploration",
            "Hypothesis draws a database (type, size around 0..300 and the tools' buffer sizes, hash pattern, count "
            "distribution, order), N and the kind of output; hibp-topn is run and compared with a sort in Python. "
            "Non-trivial: N > 0 and the database has more than N records, so that a selection is made.",
            ["rel:topn"], [Arm("topn", cases(), check, 12000, 200000), Arm("large", cases(size=st.sampled_from(db.LARGE)), check, 48, 1500)],
            note="Exploration by generated databases and N against a sort in Python; the selection and order are decided for every generated case, not proved for all.")
