"""hibp-diff: the hunks turn OLD into NEW; a deletion is refused."""
import bisect, os, re
from hypothesis import strategies as st
import db
from driver import Prop, Arm, FuzzArm, Violation
from tools import run, put, get

HUNK = re.compile(r"([UI]):([0-9A-Fa-f]+):([0-9A-F]+):(-?[0-9]+)\Z")


@st.composite
def cases(draw, n=None):
    b = db.around(2730, 3276, 5460, 6552, 8190)
    spec = draw(db.specs(types=("sha1", "ntlm"), n=n or st.one_of(st.integers(0, 12), st.integers(0, 100), st.integers(0, 400), st.sampled_from(b))))
    kinds = ["ins", "ins", "near", "run", "upd", "upd", "updins", "front", "end", "updrun"]
    if draw(st.integers(0, 3)) == 0:
        kinds.append("del")
    edits = draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 2**31 - 1), st.integers(0, 2**63 - 1)).map(list), max_size=12))
    return {"db": spec, "edits": edits, "how": draw(st.sampled_from(["tool", "tool", "lib"]))}


def build(case):
    spec = case["db"]
    hs = db.HS[spec["type"]]
    old = db.expand(spec)
    new = dict(old)
    deleted = set()
    keys = [h for h, _ in old]
    for kind, where, k in case["edits"]:
        cnt = (k % 4001) - 2000
        i = where % len(keys) if keys else 0
        # positions at buffer borders matter most
        if keys and where % 5 == 0:
            i = [0, 2729, 2730, 2731, 3275, 3276, len(keys) - 1, len(keys) - 2][where // 5 % 8] % len(keys)
        if kind == "ins" or not keys:
            h = (k * 0x9E3779B97F4A7C15 % (1 << (8 * hs))).to_bytes(hs, "big")
            h = bytes(a ^ b for a, b in zip(h, (where * 2654435761).to_bytes(hs, "little")))
            new.setdefault(h, cnt)
        elif kind in ("near", "run", "updins"):
            base = keys[i]
            for d in ([1] if k % 2 else [-1]) if kind != "run" else range(1, 2 + k % 40):
                h = db.neighbour(base, d)
                if h is not None:
                    new.setdefault(h, cnt)
            if kind == "updins" and base in new:
                new[base] = cnt
        elif kind == "upd":
            if keys[i] in new:
                new[keys[i]] = cnt
        elif kind == "updrun":
            for j in range(i, min(len(keys), i + 1 + k % 20)):
                if keys[j] in new:
                    new[keys[j]] = cnt + j
        elif kind == "front":
            for d in range(1, 1 + k % 5):
                h = db.neighbour(keys[0], -d)
                if h is not None:
                    new.setdefault(h, cnt)
        elif kind == "end":
            for d in range(1, 1 + k % 5):
                h = db.neighbour(keys[-1], d)
                if h is not None:
                    new.setdefault(h, cnt)
        elif kind == "del":
            if keys[i] in new:
                del new[keys[i]]
                deleted.add(keys[i])
    return old, sorted(new.items()), deleted - set(new)


def apply(old, lines, what):
    ups, ins, last = {}, {}, -1
    hunks = []
    for l in lines:
        m = HUNK.match(l)
        if not m:
            raise Violation("not a hunk: %r: %s" % (l, what))
        pos = int(m.group(2), 16)
        if pos < last:
            raise Violation("positions are not ascending at %r: %s" % (l, what))
        last = pos
        rec = (bytes.fromhex(m.group(3)), int(m.group(4)))
        if m.group(1) == "U":
            if pos >= len(old) or pos in ups:
                raise Violation("update of a record that does not exist, or twice: %r: %s" % (l, what))
            ups[pos] = rec
        else:
            if pos > len(old):
                raise Violation("insertion beyond the end: %r: %s" % (l, what))
            ins.setdefault(pos, []).append(rec)
        hunks.append((m.group(1), pos))
    out = []
    for i in range(len(old) + 1):
        out += ins.get(i, ())
        if i < len(old):
            out.append(ups.get(i, old[i]))
    return out, hunks


def check(case, ctx):
    typ = case["db"]["type"]
    old, new, deleted = build(case)
    d = ctx.fresh_dir()
    try:
        fo, fn = os.path.join(d, "old.bin"), os.path.join(d, "new.bin")
        ro, rn = db.pack(old), db.pack(new)
        put(fo, ro)
        put(fn, rn)
        if case["how"] == "lib":
            r = run([ctx.bins["asan:probe"], "diff", typ, fo, fn], cwd=d)
        else:
            r = run([ctx.bins["rel:diff"], fo, fn] + (["--ntlm"] if typ == "ntlm" else []), cwd=d)
        what = "%d -> %d records (%s): %s" % (len(old), len(new), typ, r)
        if get(fo) != ro or get(fn) != rn:
            raise Violation("an input was modified: " + what)
        if deleted:
            if r.rc == 0:
                raise Violation("a deletion was not refused: " + what)
            return {"nontrivial": True, "classes": ["deletion refused"]}
        if r.rc != 0:
            raise Violation("failed: " + what)
        out = r.out.decode("latin-1")
        lines = out.split("\n")
        if lines.pop() != "":
            raise Violation("last line incomplete: " + what)
        res, hunks = apply(old, lines, what)
        if res != new:
            i = next((i for i, (a, b) in enumerate(zip(res, new)) if a != b), min(len(res), len(new)))
            raise Violation("applying the diff does not give NEW: %d records instead of %d, first difference at %d: %s" % (len(res), len(new), i, what))
        if old == new and lines:
            raise Violation("the diff of equal databases is not empty: " + what)
        cl = [typ, case["how"]] + ["positions beyond 65536"] * (len(hunks) > 0 and hunks[-1][1] > 65536)
        for (a, p), (b, q) in zip(hunks, hunks[1:]):
            if a == "I" and b == "I" and p == q: cl.append("consecutive insertions")
            if a == "I" and b == "U" and p == q: cl.append("insertion before an update")
            if a == "U" and b == "I" and q == p + 1: cl.append("insertion after an update")
        return {"nontrivial": len(hunks) > 0, "classes": set(cl)}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C13", "exploration",
            "Hypothesis draws a sorted database and up to 12 edits (insertions anywhere, next to records, in runs, at the ends and at buffer "
            "borders; updates, runs of updates; sometimes deletions); hibp-diff's (or run_diff's) output is parsed and applied to OLD by an "
            "independent patcher and must give NEW, or the run must be refused when a record is gone. Non-trivial: at least one hunk, or a refused deletion.",
            ["asan:probe", "rel:diff", "fuzz:fuzz_lib"], [Arm("diff", cases(), check, 6000, 150000), Arm("large", cases(n=st.sampled_from(db.LARGE)), check, 48, 1500), FuzzArm("fuzz", "diff", 64000, 6000000)],
            technique="round-trip property (diff, then patch) over generated database pairs (Hypothesis)",
            note="Exploration: every generated pair is decided exactly by applying the hunks.")
