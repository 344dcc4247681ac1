"""Databases without prefix gaps, for the table of contents."""
import random
from hypothesis import strategies as st
import db


@st.composite
def dense_specs(draw, types=("sha1", "ntlm", "sha1t64"), complete=True, maxp=300, gaps=True):
    kind = draw(st.sampled_from(["partial"] * 12 + ["wide"] * 2 + (["complete"] if complete else [])))
    bits = draw(st.integers(15, 25))
    if kind == "complete":
        bits = draw(st.sampled_from([15, 15, 16]))
        p = 1 << bits
    elif kind == "wide":
        p = draw(st.integers(1, 3000))
    else:
        p = draw(st.one_of(st.integers(1, 8), st.integers(1, maxp)))
    gap = draw(st.sampled_from([None] * 5 + [draw(st.integers(0, p - 1))])) if gaps and p > 1 else None
    return {"type": draw(st.sampled_from(types)), "bits": bits, "p": p, "gap": gap, "per": draw(st.sampled_from([1, 1, 2, 5])),
            "ends": draw(st.sampled_from([0, 0, 2, 5])), "seed": draw(st.integers(0, 2**32 - 1))}


def records(spec):
    """all prefixes 0..p-1 (but gap) of `bits` bits, each with 1..per records"""
    rnd = random.Random(spec["seed"])
    hs = db.HS[spec["type"]]
    nb = 8 * hs
    rest = nb - spec["bits"]
    out = []
    for p in range(spec["p"]):
        if p == spec["gap"]:
            continue
        lo = p << rest
        vals = set()
        for _ in range(rnd.randint(1, spec["per"])):
            e = rnd.randrange(10)
            if e < spec["ends"]:
                vals.add(rnd.choice((0, (1 << rest) - 1)))
            else:
                vals.add(rnd.getrandbits(rest))
        for v in sorted(vals):
            out.append(((lo | v).to_bytes(hs, "big"), rnd.randint(1, 1 << 20)))
    return out


def prefix(h, bits):
    return int.from_bytes(h[:4], "big") >> (32 - bits)


def buildable(recs, bits):
    if not recs:
        return False
    want = 0
    for h, _ in recs:
        p = prefix(h, bits)
        if p == want:
            want += 1
        elif p > want:
            return False
    return True


QKINDS = ["rec", "rec", "rec", "next", "prev", "lo", "hi", "in", "beyond", "far", "zero", "ones"]


def query(recs, hs, bits, kind, k):
    """a hash to look up; k selects the place"""
    n = len(recs)
    i = [0, n - 1, n // 2, k % n, k * 2654435761 % n][k % 5] if n else None
    base = recs[i][0] if n else b"\x11" * hs
    nb = 8 * hs
    p = prefix(base, bits)
    rest = nb - bits
    if kind == "rec":
        return base
    if kind == "next":
        return db.neighbour(base, 1) or base
    if kind == "prev":
        return db.neighbour(base, -1) or base
    if kind == "lo":
        return (p << rest).to_bytes(hs, "big")
    if kind == "hi":
        return ((p << rest) | ((1 << rest) - 1)).to_bytes(hs, "big")
    if kind == "in":
        return ((p << rest) | (k * 0x9E3779B97F4A7C15F39CC0605CEDC835 % (1 << rest))).to_bytes(hs, "big")
    if kind == "beyond":
        last = prefix(recs[-1][0], bits) if n else 0
        return ((min((1 << bits) - 1, last + 1) << rest) | k % 7).to_bytes(hs, "big")
    if kind == "far":
        return (k * 0x9E3779B97F4A7C15F39CC0605CEDC835 % (1 << nb)).to_bytes(hs, "big")
    return (b"\0" if kind == "zero" else b"\xff") * hs
