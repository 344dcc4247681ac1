"""Interrupting the save of a table of contents at any byte."""
import os, signal
from hypothesis import strategies as st
import db, lookup, toc
from driver import Prop, Arm, Violation
from tools import run, put, get

OLD = 10**18
qs = st.lists(st.tuples(st.sampled_from(toc.QKINDS), st.integers(0, 2**31 - 1)).map(list), min_size=3, max_size=6)


@st.composite
def cases(draw):
    spec = draw(toc.dense_specs(complete=False, maxp=40, gaps=False))
    before = draw(st.sampled_from(["none", "none", "same", "other", "torn", "other torn", "other torn"]))
    return {"db": spec, "before": before, "old": draw(toc.dense_specs(types=(spec["type"],), complete=False, maxp=40, gaps=False)) if before.startswith("other") else None, "cut": draw(st.one_of(st.integers(1, 8), st.integers(0, 255))),
            "mode": draw(st.sampled_from(["kill", "kill", "fail", "truncate", "killed", "calls"])), "k": draw(st.lists(st.integers(0, 2**31 - 1), min_size=4, max_size=12)),
            "again": draw(st.booleans()), "q": draw(qs)}


def points(total, ks):
    """every byte of a small table, else a sample with the neighbourhood of entries, pages and stream buffers"""
    if total <= 48:
        return list(range(total + 1))
    special = [0, 1, 3, 4, 5, total - 5, total - 4, total - 3, total - 1, total, 4096, 8191, 8192, 4095]
    pts = {special[k % 14] if k % 3 == 0 else k // 3 % (total + 1) if k % 3 == 1 else k // 3 % (total // 4 + 1) * 4 for k in ks}
    return sorted(p for p in pts if p <= total)


def check(case, ctx):
    spec = case["db"]
    typ, bits = spec["type"], spec["bits"]
    recs = toc.records(spec)
    by = dict(recs)
    hs = db.HS[typ]
    s = ctx.bins["rel:search"]
    needles = [toc.query(recs, hs, bits, k, a) for k, a in case["q"]]
    d = ctx.fresh_dir()
    try:
        f = os.path.join(d, "x.bin")
        t = "%s.%d.toc" % (f, bits)
        total = 4 * (toc.prefix(recs[-1][0], bits) + 1)
        n = 0
        torn = 0
        for k in range(40) if case["mode"] == "calls" else points(total, case["k"]):
            for x in os.listdir(d):
                os.unlink(os.path.join(d, x))
            if case["before"].startswith("other"):       # the table of an older database, to be replaced
                put(f, db.pack(toc.records(dict(case["old"], bits=bits))))
                lookup.search(s, typ, f, "0" * 2 * hs, True, toc=bits, cwd=d)
                if case["before"] == "other torn" and os.path.exists(t):        # whose saving was interrupted
                    with open(t, "r+b") as fh:
                        fh.truncate(min(4 * case["cut"], os.path.getsize(t)))
            put(f, db.pack(recs))
            if case["before"] in ("same", "torn"):
                lookup.search(s, typ, f, "0" * 2 * hs, True, toc=bits, cwd=d)
                if case["before"] == "torn":
                    with open(t, "r+b") as fh:
                        fh.truncate(total // 2)
            for x in os.listdir(d):             # whatever was there is as old as the database: it has to be replaced
                os.utime(os.path.join(d, x), ns=(OLD, OLD))

            def ask(h, what, **kw):
                r = lookup.search(s, typ, f, h.hex().upper(), True, toc=bits, cwd=d, **kw)
                if r.rc in (-signal.SIGXFSZ, -signal.SIGKILL) and kw:
                    return r.rc
                got, want = lookup.answer(r), lookup.expect(by, h)
                if got != want and not (kw and got == ("error",)):
                    raise Violation("%s of %d bytes, %s at byte %d: %s: query %s gives %s, expected %s: %s" % (t, total, case["mode"], k, what, h.hex(), got, want, r))

            if case["mode"] == "truncate":
                ask(needles[0], "saving lookup")
                if os.path.exists(t):
                    with open(t, "r+b") as fh:
                        fh.truncate(k)
            elif case["mode"] in ("killed", "calls"):
                fault = {"LD_PRELOAD": ctx.bins["so:faultio"], "FAULT_PATH": ".toc", "FAULT_OP": "write" if case["mode"] == "killed" else "calls", "FAULT_HOW": "kill"}
                if not ask(needles[0], "interrupted lookup", env=dict(fault, FAULT_AT=str(k))) and case["mode"] == "calls":
                    break                       # there are no more calls
                if case["again"]:
                    ask(needles[-1], "interrupted again", env=dict(fault, FAULT_AT=str(k // 2)))
            else:
                ask(needles[0], "interrupted lookup", fsize=k, fsize_kill=case["mode"] == "kill")
                if case["again"]:
                    ask(needles[-1], "interrupted again", fsize=k // 2, fsize_kill=case["mode"] == "kill")
            torn += os.path.exists(t) and 0 < os.path.getsize(t) < total
            for h in needles:
                ask(h, "later lookup")
            n += 1
        return {"nontrivial": torn > 0, "classes": ["mode " + case["mode"], "before: " + case["before"], typ] + ["every byte"] * (total <= 48)}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C03", "fault_enumeration",
            "Hypothesis draws a database, the state before (no table, the same, another database's, a torn one), a way to stop (killed by the file size "
            "limit, killed when a number of bytes was written, killed at the n-th call which changes the table's file, failing write, truncation of the saved file) and queries. For tables of up to 48 bytes every byte is a stopping point, larger ones "
            "use a drawn sample. The interrupted lookup must fail or be right, all later ones must be right. Non-trivial: a partially "
            "saved table was left behind at least once.",
            ["rel:search", "so:faultio"], [Arm("interrupt", cases(), check, 420, 8000)],
            technique="generated fault injection (Hypothesis): save interrupted at enumerated byte positions, against a dictionary",
            note="All byte positions of small tables, sampled positions of larger ones; interruption by signal (at bytes and at calls), failing write and truncation.",
            assumptions=["what reached the file before the interruption is a prefix of what was written (no reordering by the file system)"])
