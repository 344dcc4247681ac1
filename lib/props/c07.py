"""hibp-convert: binary <-> text, lossless, with limit, files and standard streams."""
import os
from hypothesis import strategies as st
import db
from driver import Prop, Arm, Violation
from tools import run, put, get, snapshot


@st.composite
def cases(draw, n=None):
    spec = draw(db.specs(types=("sha1", "ntlm"), n=n or st.one_of(st.integers(0, 12), st.integers(0, 300), st.sampled_from(db.around(170, 204, 1000, 2000, 340, 510, 3000))),
                         orders=("sorted", "shuffled"), unique=False))
    many = n is not None
    n = spec["n"]
    limit = draw(st.one_of(st.none(), st.none(), st.integers(0, n + 3), st.sampled_from([0, 1, max(0, n - 1), n, n + 1, 999, 1000, 1001, 170, 204, 2**32, 2**63] + [65535, 65536, 65537, 65540, 70000, 80000, 90000, 100000, 131072, 131073] * many)))
    return {"db": spec, "limit": limit, "dir": draw(st.sampled_from(["b2t", "t2b", "t2b", "round_bin", "round_txt"])),
            "in": draw(st.sampled_from(["file", "stdin"])), "out": draw(st.sampled_from(["file", "stdout", "force"])),
            "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])), "last_eol": draw(st.sampled_from([True, True, False])),
            "lower": draw(st.booleans()), "longopts": draw(st.booleans())}


def convert(ctx, d, mode, typ, data, case, limit, tag):
    """-> bytes of the output"""
    argv = [ctx.bins["rel:convert"], "--bin-to-txt" if mode == "b2t" else "--txt-to-bin"] + (["--ntlm"] if typ == "ntlm" else [])
    lo = case["longopts"]
    inp, outp = os.path.join(d, "in" + tag), os.path.join(d, "out" + tag)
    stdin = None
    put(inp, data)
    if case["in"] == "stdin" and mode == "t2b":
        argv.append("--stdin")
        stdin = data
    else:
        argv += ["--input" if lo else "-i", inp]
    if case["out"] == "stdout":
        argv.append("--stdout")
    else:
        argv += ["--output" if lo else "-o", outp]
        if case["out"] == "force":
            put(outp, b"previous contents\n" * 4000)
            argv.append("--force" if lo else "-f")
    if limit is not None:
        argv += ["--limit" if lo else "-l", str(limit)]
    r = run(argv, cwd=d, stdin=stdin)
    if r.rc != 0:
        raise Violation("failed: %s" % r)
    if get(inp) != data:
        raise Violation("the input was modified: %s" % r)
    return (r.out if case["out"] == "stdout" else get(outp)), r


def first_diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%d bytes instead of %d, first difference at byte %d: %r, expected %r" % (len(a), len(b), i, a[max(0, i - 30):i + 30], b[max(0, i - 30):i + 30])


def check(case, ctx):
    spec = case["db"]
    typ = spec["type"]
    recs = db.expand(spec)
    lim = case["limit"]
    kept = recs if lim is None else recs[:lim]
    d = ctx.fresh_dir()
    try:
        raw = db.pack(recs)
        lines = [db.line(r) for r in recs]
        if case["lower"]:
            lines = [l.lower() if i % 2 else l for i, l in enumerate(lines)]
        txt_in = "".join(l + case["eol"] for l in lines)
        if not case["last_eol"] and lines:
            txt_in = txt_in[:-len(case["eol"])]
        txt_in = txt_in.encode()
        want_txt = "".join(db.line(r) + "\n" for r in kept).encode()
        want_bin = db.pack(kept)
        what = "%s, %d records, limit %s" % (typ, len(recs), lim)
        if case["dir"] in ("b2t", "round_bin"):
            out, r = convert(ctx, d, "b2t", typ, raw, case, lim, "1")
            if out != want_txt:
                raise Violation("binary to text (%s): %s: %s" % (what, first_diff(out, want_txt), r))
            if case["dir"] == "round_bin":
                back, r = convert(ctx, d, "t2b", typ, out, case, None, "2")
                if back != want_bin:
                    raise Violation("binary to text to binary (%s): %s: %s" % (what, first_diff(back, want_bin), r))
        else:
            out, r = convert(ctx, d, "t2b", typ, txt_in, case, lim, "1")
            if out != want_bin:
                raise Violation("text to binary (%s): %s: %s" % (what, first_diff(out, want_bin), r))
            if case["dir"] == "round_txt":
                back, r = convert(ctx, d, "b2t", typ, out, case, None, "2")
                if back != want_txt:
                    raise Violation("text to binary to text (%s): %s: %s" % (what, first_diff(back, want_txt), r))
        return {"nontrivial": len(kept) > 0,
                "classes": [typ, case["dir"], "in " + case["in"], "out " + case["out"]] + ["limit cuts"] * (len(kept) < len(recs)) +
                ["more than 1000 records"] * (len(kept) > 1000) + ["more than 65536 records"] * (len(kept) > 65536) + ["negative counts"] * any(c < 0 for _, c in kept)}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C07", "exploration",
            "Hypothesis draws a database, the direction (one way or round trip), limit, input and output kinds, letter case and line ending of "
            "the text; the bytes produced are compared with the ones computed in Python. Non-trivial: at least one record is converted.",
            ["rel:convert"], [Arm("convert", cases(), check, 10000, 150000), Arm("large", cases(n=st.sampled_from(db.LARGE)), check, 128, 3000)],
            technique="round-trip and reference-model property testing (Hypothesis)",
            note="Exploration: the complete output of every generated conversion is compared byte for byte.")
