"""hibp-dupes: exactly the records whose first bits equal those of the record before."""
import os, re
from hypothesis import strategies as st
import db
from driver import Prop, Arm, Violation
from tools import run, put, get

LINE = re.compile(r"([0-9A-F]{16}) is a dupe \(orig record: (.*)\)\Z")


@st.composite
def cases(draw, n=None):
    bits = draw(st.one_of(st.sampled_from([32, 33, 48, 63, 64, None]), st.integers(32, 64)))
    spec = draw(db.specs(types=("sha1", "ntlm"), n=n or st.one_of(st.integers(0, 12), st.integers(0, 200), st.sampled_from(db.around(2730, 3276, 5460, 6552, 8190, 9828))),
                         orders=("sorted", "sorted", "shuffled"), unique=False))
    # records made equal to a neighbour in the first b bits
    dup = draw(st.lists(st.tuples(st.integers(0, 2**31 - 1), st.integers(28, 70), st.integers(1, 4)).map(list), max_size=10))
    return {"db": spec, "bits": bits, "dup": dup, "sort": draw(st.booleans())}


def check(case, ctx):
    spec = case["db"]
    typ, hs = spec["type"], db.HS[spec["type"]]
    recs = db.expand(spec)
    for where, b, times in case["dup"]:
        if not recs:
            break
        i = where % len(recs)
        if where % 3 == 0:
            i = [0, 2729, 2730, 3275, 3276, 5459, 6551, len(recs) - 1][where // 3 % 8] % len(recs)
        for t in range(times):
            v = int.from_bytes(recs[i][0], "big")
            v ^= 1 << max(0, 8 * hs - b - 1)        # differs from it in bit b (0 = first), if at all
            recs.insert(i + 1, (v.to_bytes(hs, "big"), (where + t) % 1000))
    if case["sort"]:
        recs.sort(key=lambda r: r[0])
    d = ctx.fresh_dir()
    try:
        f = os.path.join(d, "x.bin")
        raw = db.pack(recs)
        put(f, raw)
        bits = case["bits"]
        r = run([ctx.bins["rel:dupes"], f] + (["--ntlm"] if typ == "ntlm" else []) + (["--bits", str(bits)] if bits else []), cwd=d)
        if r.rc != 0:
            raise Violation("failed: %s" % r)
        if get(f) != raw:
            raise Violation("the input was modified: %s" % r)
        b = bits or 64
        pre = [int.from_bytes(h[:8], "big") >> (64 - b) for h, _ in recs]
        want = [("%016X" % pre[i], db.line(recs[i])) for i in range(1, len(recs)) if pre[i] == pre[i - 1]]
        got = []
        for l in r.text().split("\n"):
            m = LINE.match(l)
            if m:
                got.append(m.groups())
            elif "dupe" in l:
                raise Violation("unexpected line %r: %s" % (l, r))
        if got != want:
            i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            raise Violation("%d records, %d bits: %d dupes reported, expected %d; report %d: %s, expected %s" % (
                len(recs), b, len(got), len(want), i, got[i:i + 1], want[i:i + 1]))
        return {"nontrivial": len(want) > 0, "classes": [typ, "sorted" if case["sort"] else "unsorted"] +
                ["starts with all ones"] * bool(recs and recs[0][0][:8] == b"\xff" * 8) + ["starts with zeros"] * bool(recs and recs[0][0][:8] == b"\0" * 8)}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C14", "exploration",
            "Hypothesis draws a database (sorted or not, with all-ones and zero hashes, around the buffer size), up to 10 places where "
            "records equal to their predecessor in the first 28..70 bits are inserted, and --bits; the reported list is compared with "
            "the one computed in Python. Non-trivial: at least one record must be reported.",
            ["rel:dupes"], [Arm("dupes", cases(), check, 8000, 200000), Arm("large", cases(n=st.sampled_from(db.LARGE)), check, 48, 1500)],
            note="Exploration: the complete report of every generated case is compared with the reference.")
