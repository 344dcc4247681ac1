"""Random access and iterators of flat_file::database against a model of positions."""
import bisect, os, zlib, struct
from hypothesis import strategies as st
import db
from driver import Prop, Arm, FuzzArm, Violation
from tools import run, put

OPS = ["g", "*", "*", "->", "c*", "b", "e", "a", "+=", "-=", "++", "--", "p++", "p--", "*p++", "+", "k+", "-",
       "d", "==", "pos", "back", "n", "reopen", "move", "*end", "near", "near"]
ALGO = ["lb", "ub", "lbr", "find", "rfind", "copy", "all", "rev", "rrev", "zip"]
BUFS = [1, 1, 2, 3, 5, 7, 16, 64, 170, 204, 341, 1000, 2730]


class Model:
    """n records; rec(pos) gives one; positions of six iterators"""

    def __init__(self, n, rec, sortedhashes=None, interesting=()):
        self.n, self.rec, self.hs = n, rec, sortedhashes
        self.it = [0] * 6
        self.interesting = list(interesting)

    def show(self, pos):
        h, c = self.rec(pos)
        return "%s:%d" % (h.hex(), c)

    def where(self, k):
        """a position in [0, n) chosen by k: anywhere, or at an interesting place"""
        if self.interesting and k % 3:
            return min(self.n - 1, max(0, self.interesting[k // 3 % len(self.interesting)] + k // 7 % 5 - 2))
        return k * 2654435761 % self.n

    def digest(self, positions):
        b = b"".join(h + struct.pack("<i", c) for h, c in map(self.rec, positions))
        return "%d %08x" % (len(positions), zlib.crc32(b))


def interpret(m, ops, hsize, find):
    """-> script lines, expected answers"""
    script, want = [], []

    def emit(s, w=""):
        script.append(s)
        want.append(w)
    n = m.n
    for op, i, j, k in ops:
        pi, pj = m.it[i], m.it[j]
        if op == "g" and n:
            p = m.where(k)
            emit("g %d" % p, m.show(p))
        elif op == "near" and n:                  # an iterator moves to an interesting place and is read
            p = m.where(k)
            d = p - pi
            emit("%s %d %d" % ("+=" if d >= 0 else "-=", i, abs(d)))
            m.it[i] = p
            emit("* %d" % i, m.show(p))
        elif op == "*end":
            emit("e %d" % i)
            m.it[i] = n
            emit("* %d" % i, "E")
        elif op in ("*", "c*"):
            emit("%s %d" % (op, i), m.show(pi) if pi < n else "E")
        elif op == "->":
            emit("-> %d" % i, str(m.rec(pi)[1]) if pi < n else "E")
        elif op == "b":
            emit("b %d" % i); m.it[i] = 0
        elif op == "e":
            emit("e %d" % i); m.it[i] = n
        elif op == "a":
            emit("a %d %d" % (i, j)); m.it[i] = pj
        elif op == "+=":
            d = k % (n - pi + 1)
            emit("+= %d %d" % (i, d)); m.it[i] += d
        elif op == "-=":
            d = k % (pi + 1)
            emit("-= %d %d" % (i, d)); m.it[i] -= d
        elif op == "++" and pi < n:
            emit("++ %d" % i); m.it[i] += 1
        elif op == "--" and pi > 0:
            emit("-- %d" % i); m.it[i] -= 1
        elif op == "p++" and pi < n:
            emit("p++ %d" % i, m.show(pi)); m.it[i] += 1
        elif op == "*p++" and pi < n:
            emit("*p++ %d" % i, m.show(pi)); m.it[i] += 1
        elif op == "p--" and pi > 0:
            emit("p-- %d" % i, str(pi)); m.it[i] -= 1
        elif op in ("+", "k+"):
            d = k % (n - pj + 1)
            emit("%s %d %d %d" % (op, i, j, d)); m.it[i] = pj + d
        elif op == "-":
            d = k % (pj + 1)
            emit("- %d %d %d" % (i, j, d)); m.it[i] = pj - d
        elif op == "d":
            emit("d %d %d" % (i, j), str(pi - pj))
        elif op == "==":
            emit("== %d %d" % (i, j), "10" if pi == pj else "01")
        elif op == "pos":
            emit("pos %d" % i, str(pi))
        elif op == "n":
            emit("n", "%d %d" % (n, n * (hsize + 4)))
        elif op == "back" and n:
            emit("back", m.show(n - 1))
        elif op == "reopen":
            emit("reopen %d" % (k % 50 + 1))
            m.it = [0] * 6
        elif op == "move":
            p = m.where(k) if n else 0
            emit("move %d" % p, "%d %d 1" % (n, n * (hsize + 4)) + (" " + m.show(p) if n else ""))
            m.it = [0] * 6
        elif op in ("lb", "ub", "lbr", "find", "rfind") and n:
            h = m.rec(m.where(k))[0]
            if k % 4 == 1:
                h = db.neighbour(h, 1) or h
            if k % 4 == 2:
                h = db.neighbour(h, -1) or h
            if op in ("lb", "ub", "lbr"):
                if m.hs is None:
                    continue
                if op == "lb":
                    emit("lb %s" % h.hex(), str(m.hs(h, 0, n, False)))
                elif op == "ub":
                    emit("ub %s" % h.hex(), str(m.hs(h, 0, n, True)))
                else:
                    if pi > pj:
                        i, j, pi, pj = j, i, pj, pi
                    emit("lbr %d %d %s" % (i, j, h.hex()), str(m.hs(h, pi, pj, False)))
            elif find:
                if op == "find":
                    emit("find %s" % h.hex(), str(next((x for x in range(n) if m.rec(x)[0] == h), n)))
                else:
                    emit("rfind %s" % h.hex(), str(next((x + 1 for x in range(n - 1, -1, -1) if m.rec(x)[0] == h), 0)))
        elif op == "copy":
            if pi > pj:
                i, j, pi, pj = j, i, pj, pi
            if pj - pi > 20000:
                emit("a %d %d" % (i, j)); m.it[i] = pi = pj
                d = min(pj, k % 500)
                emit("-= %d %d" % (i, d)); m.it[i] = pi = pj - d
            emit("copy %d %d" % (i, j), m.digest(range(pi, pj)))
        elif op in ("all", "rev", "rrev", "zip") and find:
            if op == "all":
                emit("all", m.digest(range(n)))
            elif op == "zip":
                d = k % 40
                ps = [x for a in range(max(0, n - d)) for x in (a, a + d)] if d <= n else []
                emit("zip %d" % d, m.digest(ps))
            else:
                emit(op, m.digest(range(n - 1, -1, -1)))
    return script, want


def compare(r, script, want, what):
    if r.rc != 0:
        raise Violation("%s: unexpected end: %s" % (what, r))
    got = r.out.decode().split("\n")[:-1]
    for x, (s, w) in enumerate(zip(script, want)):
        g = got[x] if x < len(got) else "<nothing>"
        if g != w:
            raise Violation("%s: after %s: '%s' gives %s, expected %s" % (what, "; ".join(script[max(0, x - 12):x]), s, g, w))
    if len(got) != len(want):
        raise Violation("%s: %d answers for %d operations" % (what, len(got), len(want)))


op_st = st.tuples(st.one_of(st.sampled_from(OPS), st.sampled_from(OPS), st.sampled_from(ALGO)),
                  st.integers(0, 5), st.integers(0, 5), st.integers(0, 2**31 - 1)).map(list)


@st.composite
def small_cases(draw):
    buf = draw(st.sampled_from(BUFS))
    n = draw(st.one_of(st.integers(0, 60), st.sampled_from(db.around(buf, 2 * buf, 3 * buf)), st.integers(buf, 2 * buf + 60), st.integers(0, 400)))
    spec = draw(db.specs(n=st.just(min(n, 6000)), orders=("sorted", "sorted", "shuffled"), unique=False))
    return {"db": spec, "buf": buf, "ops": draw(st.lists(op_st, min_size=6, max_size=40))}


def check_small(case, ctx):
    spec = case["db"]
    typ = spec["type"]
    recs = db.expand(spec)
    d = ctx.fresh_dir()
    try:
        f = os.path.join(d, "x.bin")
        put(f, db.pack(recs))
        hs = [h for h, _ in recs]
        search = None
        if spec["order"] == "sorted":
            search = lambda h, lo, hi, right: (bisect.bisect_right if right else bisect.bisect_left)(hs, h, lo, hi)
        buf = case["buf"]
        m = Model(len(recs), recs.__getitem__, search, [0, len(recs) - 1, buf - 1, buf, 2 * buf])
        script, want = interpret(m, case["ops"], db.HS[typ], True)
        r = run([ctx.bins["asan:probe"], "db", typ, f, str(buf)], stdin="".join(s + "\n" for s in script).encode(), cwd=d)
        compare(r, script, want, "%s, %d records, buffer %d" % (typ, len(recs), buf))
        kinds = set(s.split(" ")[0] for s in script)
        return {"nontrivial": len(recs) > buf and len(script) >= 4,
                "classes": ["beyond one buffer"] * (len(recs) > buf) + ["algorithm"] * bool(kinds & set(ALGO)) +
                ["backwards"] * bool(kinds & {"--", "-=", "-", "rev", "rrev", "rfind"}) + ["end read"] * ("E" in want) + [typ]}
    finally:
        ctx.drop_dir(d)


@st.composite
def big_cases(draw):
    typ = draw(st.sampled_from(["sha1", "ntlm", "sha1t64"]))
    return {"type": typ, "extra": draw(st.integers(1, 3000)), "tail": draw(st.integers(1, 400)),
            "gib": draw(st.sampled_from([2, 4, 4, 5, 9, 30, 52, 104])), "seed": draw(st.integers(0, 2**32 - 1)),
            "buf": draw(st.sampled_from(BUFS)), "ops": draw(st.lists(op_st, min_size=6, max_size=40))}


def sparse(case, path):
    """a huge sorted database: zero records, then a tail of real ones. -> n, rec, search, interesting"""
    typ = case["type"]
    rs = db.REC[typ]
    n = ((case["gib"] << 30) // rs) + case["extra"]
    tail = db.expand({"type": typ, "n": min(case["tail"], n), "seed": case["seed"], "style": "uniform", "counts": "full", "order": "sorted"})
    with open(path, "wb") as f:
        f.truncate(n * rs)
        f.seek((n - len(tail)) * rs)
        f.write(db.pack(tail))
    first = n - len(tail)
    zero = (b"\0" * db.HS[typ], 0)
    hs = [h for h, _ in tail]

    def rec(p):
        return tail[p - first] if p >= first else zero

    def search(h, lo, hi, right):
        bis = bisect.bisect_right if right else bisect.bisect_left
        if h <= zero[0] and not (right and h == zero[0]):
            return lo
        if h == zero[0]:
            return min(max(lo, first), hi)
        return min(hi, max(lo, first + bis(hs, h)))
    return n, rec, search, [0, first, n - 1, (1 << 31) // rs, min(n - 1, (1 << 32) // rs), min(n - 1, 1 << 31), min(n - 1, 1 << 32)]


def check_big(case, ctx):
    d = ctx.fresh_dir()
    try:
        f = os.path.join(d, "big.bin")
        n, rec, search, spots = sparse(case, f)
        m = Model(n, rec, search, spots)
        script, want = interpret(m, case["ops"], db.HS[case["type"]], False)
        r = run([ctx.bins["asan:probe"], "db", case["type"], f, str(case["buf"])], stdin="".join(s + "\n" for s in script).encode(), cwd=d)
        compare(r, script, want, "%s, %d records (%d GiB), buffer %d" % (case["type"], n, case["gib"], case["buf"]))
        return {"nontrivial": len(script) >= 3, "classes": ["> 4 GiB"] * (case["gib"] >= 4) + ["> 2^31 records"] * (n > 1 << 31) + ["> 2^32 records"] * (n > 1 << 32)}
    finally:
        ctx.drop_dir(d)


READS = ["g", "g", "near", "near", "*", "->", "c*", "b", "a", "+=", "-=", "lb", "ub", "back", "d", "pos"]


@st.composite
def fault_cases(draw):
    buf = draw(st.sampled_from(BUFS))
    n = draw(st.one_of(st.integers(1, 60), st.integers(buf, 4 * buf + 60), st.integers(300, 3000)))
    spec = draw(db.specs(n=st.just(min(n, 6000)), orders=("sorted",), unique=True))
    return {"db": spec, "buf": buf, "at": draw(st.integers(0, 2**31 - 1)), "how": draw(st.sampled_from(["once", "once", "stay"])), "err": draw(st.sampled_from([5, 5, 116])),
            "ops": draw(st.lists(st.tuples(st.sampled_from(READS), st.integers(0, 5), st.integers(0, 5), st.integers(0, 2**31 - 1)).map(list), min_size=4, max_size=40))}


def check_fault(case, ctx):
    """a read fails half-way: an error, and no later access yields another record for it"""
    spec = case["db"]
    typ, buf = spec["type"], case["buf"]
    recs = db.expand(spec)
    d = ctx.fresh_dir()
    try:
        f = os.path.join(d, "x.bin")
        put(f, db.pack(recs))
        hs = [h for h, _ in recs]
        m = Model(len(recs), recs.__getitem__, lambda h, lo, hi, right: (bisect.bisect_right if right else bisect.bisect_left)(hs, h, lo, hi), [0, len(recs) - 1, buf - 1, buf, 2 * buf])
        script, want = interpret(m, case["ops"], db.HS[typ], True)
        at = case["at"] % (2 * len(recs) * db.REC[typ] + 1)
        r = run([ctx.bins["rel:probe"], "db", typ, f, str(buf)], stdin="".join(s + "\n" for s in script).encode(), cwd=d,
                env={"LD_PRELOAD": ctx.bins["so:faultio"], "FAULT_PATH": "/x.bin", "FAULT_OP": "read", "FAULT_AT": str(at), "FAULT_ERR": str(case["err"]), "FAULT_HOW": case["how"]})
        got = r.out.decode().split("\n")[:-1]
        failed = sum(g == "E" != w for g, w in zip(got, want))
        if failed:
            want = [g if g == "E" else w for g, w in zip(got, want)] + want[len(got):]
        compare(r, script, want, "%s, %d records, buffer %d, a read fails after %d bytes" % (typ, len(recs), buf, at))
        after = failed and any(g not in ("", "E") for g in got[[g == "E" for g in got].index(True):])
        return {"nontrivial": failed > 0, "classes": ["a read failed"] * (failed > 0) + ["answers after that"] * bool(after) + [case["how"]]}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C15", "exploration",
            "Hypothesis draws a database, a buffer size and a sequence of up to 40 operations (get_record, iterator moves, reads "
            "through six iterators, reopening, standard algorithms); every answer is compared with a model that only knows "
            "positions. The second arm does the same on sparse files of 2 to 104 GiB (up to more than 2^32 records), the third one while a read fails after a drawn number of bytes: each answer must be right or an error. Non-trivial: more records than fit the buffer and "
            "at least four operations (first arm), at least three operations (second arm).",
            ["asan:probe", "rel:probe", "so:faultio", "fuzz:fuzz_lib"], [Arm("history", small_cases(), check_small, 6000, 150000), Arm("huge", big_cases(), check_big, 800, 12000), Arm("failing reads", fault_cases(), check_fault, 2000, 40000), FuzzArm("fuzz", "db", 80000, 8000000)],
            technique="model-based testing of operation sequences (Hypothesis), with ASan/UBSan",
            note="Exploration: every generated operation sequence is decided exactly by a position model; sequences of up to 40 operations over six iterators.",
            assumptions=["references are only used until the next access, as all callers do"])
