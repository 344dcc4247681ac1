"""Disk sort: a sorted permutation for any memory limit, both orders."""
import os, resource
from collections import Counter
from hypothesis import strategies as st
import db
from driver import Prop, Arm, FuzzArm, Violation, Inconclusive
from tools import run, put, get, snapshot

KEYS = {"hash": lambda r: (r[0],), "count": lambda r: (-r[1], r[0]), "proj": lambda r: (r[1],),
        "greater": lambda r: (tuple(-x for x in r[0]),)}
NAMES = ["db.bin", "my db.bin", "x", "a.b.c.bin", "d\u00fc.bin", "quo\"te.bin", "sub/db.bin", "sub dir/in"]


def verify(d, name, raw, typ, order, r, said):
    recs = db.unpack(typ, raw)
    files = snapshot(d)
    want = {name, name + ".sorted"}
    if set(files) != want:
        raise Violation("files afterwards: %s, expected %s: %s" % (sorted(files), sorted(want), r))
    if files[name] != raw:
        raise Violation("the input was modified: %s" % r)
    got = db.unpack(typ, files[name + ".sorted"])
    if got is None or len(got) != len(recs):
        raise Violation("sorted file has %d bytes, expected %d: %s" % (len(files[name + ".sorted"]), len(raw), r))
    key = KEYS[order]
    keys = [key(x) for x in got]
    for i in range(1, len(keys)):
        if keys[i] < keys[i - 1]:
            raise Violation("not sorted at record %d (%s): %s before %s: %s" % (i, order, got[i - 1], got[i], r))
    if Counter(got) != Counter(recs):
        lost = list((Counter(recs) - Counter(got)).items())[:3]
        new = list((Counter(got) - Counter(recs)).items())[:3]
        raise Violation("not a permutation: lost %s, invented %s: %s" % (lost, new, r))
    if said is not None and os.path.join(d, name + ".sorted") not in said:
        raise Violation("reported name is wrong: %s" % r)


@st.composite
def lib_cases(draw):
    b = db.around(1000, 2000, 3000)
    spec = draw(db.specs(n=st.one_of(st.integers(0, 20), st.integers(0, 400), st.sampled_from(b)),
                         orders=("shuffled", "shuffled", "nearly", "reverse", "sorted"), unique=False))
    n, rec = spec["n"], db.REC[spec["type"]]
    chunk = draw(st.one_of(st.integers(0, 10), st.integers(0, max(1, n)), st.sampled_from([999, 1000, 1001, 1500, n, n + 1])))
    if n > 100 * max(1, chunk):
        chunk = n // 100 + 1
    mem = chunk * rec + draw(st.integers(0, rec - 1))
    return {"db": spec, "left": drawn_left(draw, -(-n // max(1, chunk))), "mem": mem, "order": draw(st.sampled_from(["hash", "hash", "count", "count", "proj", "greater"])),
            "buf": draw(st.sampled_from([1, 2, 7, 170, 1000])), "name": draw(st.sampled_from(NAMES))}


def setup(case, ctx):
    d = ctx.fresh_dir()
    name = case["name"]
    os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
    raw = db.pack(db.expand(case["db"]))
    put(os.path.join(d, name), raw)
    # what an interrupted or earlier sort may have left, under names this one uses
    for k, left in enumerate(case.get("left", ())):
        if left:
            put(os.path.join(d, name + (".sorted" if k == 0 else ".partial.%04d" % (k - 1))), raw[:rec_floor(raw, left, case)] + b"\xee" * (left % 3 * 30))
    return d, name, raw


def rec_floor(raw, left, case):
    n = db.REC[case["db"]["type"]]
    return left * 7919 % (len(raw) + 1) // n * n


LEFT = st.one_of(st.just([]), st.lists(st.integers(0, 10**6), min_size=1, max_size=4))


def drawn_left(draw, chunks):
    return draw(LEFT)[:1 + chunks]


def classes(spec, chunk):
    n = spec["n"]
    k = -(-n // max(1, chunk)) if n else 0
    return (["one chunk"] if k <= 1 else ["2..10 chunks"] if k <= 10 else ["> 10 chunks"]) + \
        (["merge buffers refilled"] if k > 1 and chunk > 1000 else []) + [spec["type"]]


def check_lib(case, ctx):
    spec = case["db"]
    d, name, raw = setup(case, ctx)
    try:
        p = os.path.join(d, name)
        r = run([ctx.bins["asan:probe"], "sort", spec["type"], p, str(case["mem"]), case["order"], str(case["buf"])], cwd=d)
        if r.rc != 0:
            raise Violation("sort of %d records with %d bytes of memory failed: %s" % (spec["n"], case["mem"], r))
        verify(d, name, raw, spec["type"], case["order"], r, r.out.decode())
        chunk = case["mem"] // db.REC[spec["type"]]
        return {"nontrivial": spec["n"] > max(1, chunk), "classes": classes(spec, chunk) + [case["order"]] + ["leftovers of an earlier sort"] * any(case["left"])}
    finally:
        ctx.drop_dir(d)


@st.composite
def tool_cases(draw):
    spec = draw(db.specs(types=("sha1", "ntlm"), n=st.one_of(st.integers(0, 60), st.integers(0, 60), st.sampled_from([43690, 43691, 52428, 52429, 90000, 110000])),
                         orders=("shuffled", "reverse", "nearly"), unique=False))
    mb = draw(st.sampled_from([0, 1, 1000, None, 4096, 2**43] if spec["n"] <= 100 else [1, 1, 2, None, 4095, 4096, 4097, 8192, 2**32, 2**43]))
    per = (1000 if mb is None else mb) * 1048576 // db.REC[spec["type"]]
    return {"db": spec, "left": drawn_left(draw, -(-spec["n"] // max(1, per))), "mb": mb, "count": draw(st.booleans()), "name": draw(st.sampled_from(NAMES)), "elsewhere": draw(st.booleans())}


def check_tool(case, ctx):
    spec = case["db"]
    d, name, raw = setup(case, ctx)
    other = ctx.fresh_dir()
    try:
        argv = [ctx.bins["rel:sort"], "-i", os.path.join(d, name)] + (["--ntlm"] if spec["type"] == "ntlm" else [])
        argv += ["--sort-by-count"] if case["count"] else []
        argv += ["--max-memory", str(case["mb"])] if case["mb"] is not None else []
        r = run(argv, cwd=other if case["elsewhere"] else d)
        if r.rc != 0:
            raise Violation("sort of %d records failed: %s" % (spec["n"], r))
        verify(d, name, raw, spec["type"], "count" if case["count"] else "hash", r, r.err.decode())
        if os.listdir(other):
            raise Violation("files left in the working directory: %s" % os.listdir(other))
        chunk = (case["mb"] if case["mb"] is not None else 1000) * 1048576 // db.REC[spec["type"]]
        return {"nontrivial": spec["n"] > max(1, chunk), "classes": classes(spec, chunk) + ["tool"]}
    finally:
        ctx.drop_dir(d)
        ctx.drop_dir(other)


@st.composite
def many_cases(draw):
    """hundreds or thousands of chunks: more than fit into a byte, than stdio allows by default, than four digits count"""
    chunks = draw(st.sampled_from([120, 255, 256, 257, 258, 300, 511, 513, 600, 1000, 1001, 1030, 1030, 2050, 4100, 9999, 10000, 10001, 10010]))
    per = draw(st.sampled_from([1, 1, 2, 3])) if chunks < 5000 else 1
    n = chunks * per - draw(st.integers(0, per - 1))
    spec = draw(db.specs(n=st.just(n), orders=("shuffled", "nearly", "reverse"), unique=False))
    return {"db": spec, "mem": per * db.REC[spec["type"]] + draw(st.integers(0, db.REC[spec["type"]] - 1)), "order": draw(st.sampled_from(["hash", "hash", "count", "proj", "greater"])),
            "left": [], "buf": draw(st.sampled_from([1, 170, 1000])), "name": draw(st.sampled_from(NAMES)), "chunks": chunks}


def check_many(case, ctx):
    resource.setrlimit(resource.RLIMIT_NOFILE, (1024, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))      # as usual
    info = check_lib(case, ctx)
    k = case["chunks"]
    info["classes"] += ["> 10000 chunks" if k > 10000 else "> 1024 chunks" if k > 1024 else "> 256 chunks" if k > 256 else "100 .. 256 chunks"]
    return info


PROP = Prop("C11", "exploration",
            "Hypothesis draws a database (order, duplicates, ties, sizes around the merge buffers), a memory limit from 0 bytes up, a sort "
            "order, a file name and files which an earlier sort left behind; disksort (library, three record types, four orders) and hibp-sort (two orders) must leave exactly "
            "input and sorted file, the latter a sorted permutation. Non-trivial: more than one chunk had to be merged.",
            ["asan:probe", "rel:sort", "fuzz:fuzz_lib"], [Arm("disksort", lib_cases(), check_lib, 3200, 80000), Arm("tool", tool_cases(), check_tool, 500, 8000), Arm("many chunks", many_cases(), check_many, 240, 4000), FuzzArm("fuzz", "sort", 24000, 2000000)],
            technique="property-based testing (Hypothesis): sortedness and permutation of the output, directory state",
            note="Exploration: each generated sort is decided by sortedness, multiset equality and directory contents; up to about 10000 chunks.",
            assumptions=["the limit on open files is 1024, as usual, or more"])
