"""Database contents: a case holds a small JSON-able specification; `expand` turns it into records.

A record is (hash bytes, count). All randomness comes from the specification's seed, which is drawn
(and shrunk) by Hypothesis."""
import random, struct
from hypothesis import strategies as st

HS = {"sha1": 20, "ntlm": 16, "sha1t64": 8}
REC = {k: v + 4 for k, v in HS.items()}
INT_MIN, INT_MAX = -2**31, 2**31 - 1


def pack(recs):
    return b"".join([h + struct.pack("<i", c) for h, c in recs])


def unpack(typ, data):
    n = HS[typ]
    if len(data) % (n + 4):
        return None
    return [(data[i:i + n], struct.unpack_from("<i", data, i + n)[0]) for i in range(0, len(data), n + 4)]


def line(rec):
    return "%s:%d" % (rec[0].hex().upper(), rec[1])


STYLES = ["uniform", "cluster", "tail", "byte", "edge", "low"]
COUNTS = ["small", "ties", "full", "extreme", "one"]


def _hash(rnd, n, style, i):
    if style == "uniform":
        return rnd.randbytes(n)
    if style == "cluster":          # few distinct 2..8 byte prefixes
        p = rnd.choice((b"\0\0", b"\xff\xff", b"\x7f\xff\xff", b"\x80\0\0", b"\x12\x34\x56\x78\x9a", b"\xfe" * 8))[:n - 1]
        return p + rnd.randbytes(n - len(p))
    if style == "tail":             # differ in the last 4 bytes only
        return b"\x5a" * (n - 4) + rnd.randbytes(4)
    if style == "byte":             # differ in two bytes at any positions
        h = bytearray(b"\x80" * n)
        h[rnd.randrange(n)] = rnd.randrange(256)
        h[rnd.randrange(n)] = rnd.randrange(256)
        return bytes(h)
    if style == "edge":             # bytes at the borders of signed/unsigned
        return bytes(rnd.choice((0, 1, 0x7f, 0x80, 0xfe, 0xff)) for _ in range(n))
    if style == "low":              # counter-like
        return (rnd.randrange(1 << 20)).to_bytes(4, "big") + b"\0" * (n - 4)
    raise ValueError(style)


def _count(rnd, style):
    if style == "small":
        return rnd.randint(1, 1000)
    if style == "ties":
        return rnd.randint(1, 4)
    if style == "full":
        return rnd.randint(INT_MIN, INT_MAX)
    if style == "extreme":
        return rnd.choice((INT_MIN, -1, 0, 1, 2, INT_MAX, INT_MAX - 1))
    return 1


def expand(spec, typ=None):
    """-> list of (hash, count); sorted by hash and free of repeated hashes unless spec says otherwise"""
    typ = typ or spec["type"]
    n = HS[typ]
    rnd = random.Random(spec["seed"])
    out, seen = [], set()
    order = spec.get("order", "sorted")
    want = spec["n"]
    tries = 0
    style = spec["style"]
    unique = order == "sorted" or spec.get("unique", True)
    while len(out) < want:
        h = _hash(rnd, n, style, len(out))
        tries += 1
        if unique and h in seen:
            if tries > 4 * want + 100:      # the style's space is exhausted
                style = "uniform"
            continue
        seen.add(h)
        out.append((h, _count(rnd, spec["counts"])))
    for name in spec.get("ends", ()):
        h = {"zero": b"\0" * n, "ones": b"\xff" * n, "ones8": b"\xff" * 8 + b"\0" * (n - 8)}[name]
        if out and h not in seen:
            seen.add(h)
            out[rnd.randrange(len(out))] = (h, _count(rnd, spec["counts"]))
    if order == "sorted":
        out.sort(key=lambda r: r[0])
    elif order == "reverse":
        out.sort(key=lambda r: r[0], reverse=True)
    elif order == "nearly":
        out.sort(key=lambda r: r[0])
        for _ in range(3):
            if len(out) > 1:
                i, j = rnd.randrange(len(out)), rnd.randrange(len(out))
                out[i], out[j] = out[j], out[i]
    return out


def around(*vals):
    return sorted({v + d for v in vals for d in (-1, 0, 1) if v + d >= 0})


LARGE = [65535, 65536, 65537, 70000, 99999, 100000, 100001, 131071, 131072, 131073, 150000]


def sizes(typ_or_bounds, big=True):
    """sizes: small ones mostly, and the neighbourhood of the code's buffer sizes"""
    bounds = typ_or_bounds
    parts = [st.integers(0, 12), st.integers(0, 300)]
    if bounds:
        parts.append(st.sampled_from(bounds))
    return st.one_of(*parts)


def specs(types=("sha1", "ntlm", "sha1t64"), n=None, orders=("sorted",), unique=True, bounds=()):
    n = n if n is not None else sizes(list(bounds))
    return st.fixed_dictionaries({
        "type": st.sampled_from(types),
        "n": n,
        "seed": st.integers(0, 2**32 - 1),
        "style": st.sampled_from(STYLES),
        "counts": st.sampled_from(COUNTS),
        "order": st.sampled_from(orders),
        "unique": st.booleans() if not unique else st.just(True),
        "ends": st.lists(st.sampled_from(["zero", "ones", "ones8"]), max_size=2, unique=True),
    })


def neighbour(h, d):
    """the hash d steps away, or None"""
    v = int.from_bytes(h, "big") + d
    if v < 0 or v >= 1 << (8 * len(h)):
        return None
    return v.to_bytes(len(h), "big")
