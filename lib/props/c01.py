"""hibp-search without table of contents: found exactly when stored."""
import os
from hypothesis import strategies as st
import db, lookup
from driver import Prop, Arm, Violation
from tools import put, get

CH = st.characters(exclude_categories=("Cs",), exclude_characters="\0")
EDGE = st.sampled_from(["\ufeff", "\u200b", " ", "\t", "\n", "\r", "\x7f", "\x1b", "\u00a0", "\u0301", "\U0010ffff", "\"", "'", "\\", "%", "{", "}", "=", "@", ":", "-", "A", "0"])
text = st.one_of(st.text(CH, min_size=1, max_size=12), st.just(""), st.lists(st.one_of(EDGE, EDGE, CH), max_size=12).map("".join), st.lists(st.one_of(EDGE, CH), min_size=1, max_size=3).flatmap(
    lambda l: st.sampled_from([26, 27, 28, 55, 56, 63, 64, 65, 119, 128, 600]).map(lambda n: ("".join(l) * n)[:n])),
    st.text("0123456789ABCDEF", min_size=40, max_size=40), st.text("0123456789ABCDEF", min_size=16, max_size=33)).filter(lambda s: not s.startswith("-"))
QUERY = st.one_of(
    st.tuples(st.sampled_from(["rec", "rec", "next", "prev"]), st.integers(0, 2**31 - 1)).map(list),
    st.tuples(st.sampled_from(["first", "last", "zero", "ones", "before", "after"]), st.just(0)).map(list),
    st.tuples(st.just("random"), st.integers(0, 2**64 - 1)).map(list),
    st.tuples(st.sampled_from(["plain", "plain in"]), text).map(list),
    st.tuples(st.sampled_from(["short", "long", "lower", "nonhex", "othertype"]), st.integers(0, 2**31 - 1)).map(list))


@st.composite
def cases(draw):
    b = db.around(170, 204, 341, 340, 408, 682)
    spec = draw(db.specs(n=st.one_of(st.integers(0, 12), st.integers(0, 300), st.integers(0, 1500), st.sampled_from(b))))
    return {"db": spec, "q": draw(st.lists(QUERY, min_size=2, max_size=5))}


def border(n, k, rs):
    """an index, often at the border of the search buffer"""
    if n == 0:
        return None
    if k % 3 == 0:
        return [0, 1, n - 1, n // 2, 4096 // rs, 4096 // rs - 1, n - 2][k // 3 % 7] % n
    return k % n


def run_query(ctx, typ, path, kind, arg, recs, by, n, rec, d):
    """runs one query; recs by index through rec(i); -> class"""
    hs = db.HS[typ]
    bin = ctx.bins["rel:search"]
    i = border(n, arg, db.REC[typ]) if isinstance(arg, int) else None
    h = None
    if kind in ("rec", "next", "prev", "lower", "short", "long", "nonhex", "othertype"):
        base = rec(i)[0] if i is not None else bytes(range(hs))
        h = {"next": lambda: db.neighbour(base, 1), "prev": lambda: db.neighbour(base, -1)}.get(kind, lambda: base)() or base
    elif kind in ("first", "before"):
        h = rec(0)[0] if n else b"\x12" * hs
        h = (db.neighbour(h, -1) or h) if kind == "before" else h
    elif kind in ("last", "after"):
        h = rec(n - 1)[0] if n else b"\x12" * hs
        h = (db.neighbour(h, 1) or h) if kind == "after" else h
    elif kind in ("zero", "ones"):
        h = (b"\0" if kind == "zero" else b"\xff") * hs
    elif kind == "random":
        h = (arg * 0x9E3779B97F4A7C15F39CC0605CEDC835 % (1 << (8 * hs))).to_bytes(hs, "big")
    if kind in ("plain", "plain in"):
        r = lookup.search(bin, typ, path, arg, False, cwd=d)
        h = lookup.hash_of(typ, arg)
    else:
        q = h.hex().upper()
        bad = None
        if kind == "short":
            bad = q[:-1 - arg % 7]
        elif kind == "long":
            bad = q + "0A1"[:1 + arg % 3]
        elif kind == "lower":
            bad = q.lower() if q.lower() != q else q[:-1] + "a"
        elif kind == "nonhex":
            p = arg % len(q)
            bad = q[:p] + "GZg:/@` "[arg % 8] + q[p + 1:]
        elif kind == "othertype":
            bad = q[:{"sha1": 32, "ntlm": 16, "sha1t64": 16}[typ]] + ("A" * 24 if typ == "sha1t64" else "")
        if bad is not None:
            r = lookup.search(bin, typ, path, bad, True, cwd=d)
            if lookup.answer(r) != ("error",):
                raise Violation("a query that is not a %s hash was answered: %s" % (typ, r))
            return "refused"
        r = lookup.search(bin, typ, path, q, True, cwd=d)
    got = lookup.answer(r)
    want = by(h)
    if got != want:
        raise Violation("%s database of %d records, query %s %r (%s): answer %s, expected %s: %s" % (
            typ, n, kind, arg if not isinstance(arg, int) else i, h.hex(), got, want, r))
    return want[0] + (" plain" if kind.startswith("plain") else "")


def check(case, ctx):
    spec = case["db"]
    typ = spec["type"]
    stored = dict(db.expand(spec))
    for kind, arg in case["q"]:
        if kind == "plain in":
            stored[lookup.hash_of(typ, arg)] = len(arg) + 7
    recs = sorted(stored.items())
    d = ctx.fresh_dir()
    try:
        f = os.path.join(d, "x.bin")
        raw = db.pack(recs)
        put(f, raw)
        cl = set()
        for kind, arg in case["q"]:
            cl.add(run_query(ctx, typ, f, kind, arg, recs, lambda h: lookup.expect(stored, h), len(recs), recs.__getitem__, d))
        if get(f) != raw or os.listdir(d) != ["x.bin"]:
            raise Violation("a plain lookup changed files: %s" % os.listdir(d))
        return {"nontrivial": len(recs) > 1 and len(case["q"]) > 0, "classes": list(cl) + [typ] + ["empty database"] * (not recs) + ["larger than the buffer"] * (len(raw) > 4096)}
    finally:
        ctx.drop_dir(d)


@st.composite
def big_cases(draw):
    return {"type": draw(st.sampled_from(["sha1", "ntlm", "sha1t64"])), "extra": draw(st.integers(1, 3000)), "tail": draw(st.integers(1, 400)),
            "gib": draw(st.sampled_from([2, 4, 4, 5, 9, 30, 52, 104])), "seed": draw(st.integers(0, 2**32 - 1)),
            "q": draw(st.lists(st.one_of(st.tuples(st.sampled_from(["rec", "rec", "next", "prev"]), st.integers(0, 2**31 - 1)).map(list),
                                         st.tuples(st.sampled_from(["first", "last", "zero", "ones", "after"]), st.just(0)).map(list)), min_size=2, max_size=5))}


def check_big(case, ctx):
    import c15
    typ = case["type"]
    d = ctx.fresh_dir()
    try:
        f = os.path.join(d, "big.bin")
        n, rec, _, spots = c15.sparse(case, f)
        first = spots[1]
        by = dict(rec(i) for i in range(first, n))
        by[b"\0" * db.HS[typ]] = by.get(b"\0" * db.HS[typ], 0)

        class Tail:          # queries by index go to the tail of real records
            pass
        m = n - first
        cl = set()
        for kind, arg in case["q"]:
            cl.add(run_query(ctx, typ, f, kind, arg, None, lambda h: lookup.expect(by, h), m, lambda i: rec(first + i), d))
        return {"nontrivial": True, "classes": ["%d GiB" % case["gib"]] + list(cl)}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C01", "exploration",
            "Hypothesis draws a sorted database (type, size, hash pattern, with extreme hashes) and two to five queries: stored hashes, "
            "their neighbours, below the first and above the last, random, extreme, pass phrases (stored or not) and invalid hashes. Each hibp-search answer is "
            "compared with a dictionary. The second arm uses sparse databases of 2 to 104 GiB (up to more than 2^32 records). Non-trivial: at least two records (first arm); all (second arm).",
            ["rel:search"], [Arm("lookup", cases(), check, 5000, 120000), Arm("huge", big_cases(), check_big, 400, 8000)],
            note="Exploration: every generated query is decided against a dictionary of the stored records.",
            assumptions=["SHA1 comes from a stand-in for the hash-library submodule that is absent from this checkout; it is checked against hashlib by every plain text query"])
