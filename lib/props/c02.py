"""hibp-search --toc answers like a dictionary through any history of building, loading and replacing."""
import glob, os, random, select, subprocess, time
from hypothesis import strategies as st
import db, lookup, toc
from driver import Prop, Arm, Violation, Inconclusive
from tools import run, put, get, SAN_ENV, Result, check_sane

T0 = 10**18          # all file times are set by the check
qs = st.lists(st.tuples(st.sampled_from(toc.QKINDS), st.integers(0, 2**31 - 1)).map(list), min_size=1, max_size=8)
# tables which the same process used before: of this database or of another one, and of how many bits
PRE = st.one_of(st.just([]), st.lists(st.tuples(st.booleans(), st.sampled_from([-1, 0, 0, 1, 2])).map(list), max_size=3))
DELTA = [0, 0, 1, 1000, 10**9]


@st.composite
def cases(draw):
    first = draw(toc.dense_specs())
    typ = first["type"]
    ops = []
    big = first["p"] > 4000
    nops = draw(st.integers(1, 3 if big else 6))
    spec = first
    for _ in range(nops):
        op = draw(st.sampled_from(["search"] * 5 + ["replace"] * 2 + ["rmtoc", "touch"]))
        if op == "search":
            ops.append(["search", draw(st.sampled_from(["tool", "probe"])), draw(st.sampled_from([0, 0, 0, -1, 1, 5, "default"])), draw(qs),
                        draw(st.sampled_from([1, 1, 1000, 10**9])), draw(PRE)])
        elif op == "replace":
            how = draw(st.sampled_from(["seed", "same size", "other"]))
            if how == "other" and not big:
                spec = dict(draw(toc.dense_specs(types=(typ,), complete=False)), bits=spec["bits"])
            else:
                spec = dict(spec, seed=draw(st.integers(0, 2**32 - 1)))
                if how == "same size":
                    spec["per"] = 1
                if spec["p"] > 2 and not big and draw(st.integers(0, 3)) == 0:
                    spec["p"] -= 1
                    spec["gap"] = None
            ops.append(["replace", spec, draw(st.sampled_from(DELTA)), draw(st.booleans())])
        elif op == "touch":
            ops.append(["touch", draw(st.sampled_from(DELTA))])
        else:
            ops.append(["rmtoc"])
    ops.append(["search", draw(st.sampled_from(["tool", "probe"])), 0, draw(qs), 1, draw(PRE)])
    return {"db": first, "ops": ops}


def check(case, ctx):
    spec = case["db"]
    typ = spec["type"]
    recs = toc.records(spec)
    d = ctx.fresh_dir()
    cl = {typ}
    found = notfound = 0
    try:
        f = os.path.join(d, "x.bin")
        put(f, db.pack(recs))
        mt = T0
        os.utime(f, ns=(mt, mt))
        g = os.path.join(d, "other.bin")
        if not any(op[0] == "search" and any(o for o, b in op[5]) for op in case["ops"]):
            g = None
        else:
            put(g, db.pack(toc.records(dict(spec, seed=spec["seed"] ^ 1, p=max(1, min(spec["p"], 1 << spec["bits"]) * 2 // 3)))))
        hist = []
        tocs = lambda: glob.glob(glob.escape(f) + ".*")
        built = {}
        for op in case["ops"]:
            hist.append(op[0])
            if op[0] == "replace":
                spec = op[1]
                recs = toc.records(spec)
                mt = max([mt] + [os.stat(t).st_mtime_ns for t in tocs()]) + op[2]
                if op[3]:            # a new inode, as from mv or download
                    put(f + ".new", db.pack(recs))
                    os.rename(f + ".new", f)
                else:
                    put(f, db.pack(recs))
                os.utime(f, ns=(mt, mt))
                cl.add("replaced, table as old as the database" if op[2] == 0 else "replaced, table older")
            elif op[0] == "touch":
                mt = max([mt] + [os.stat(t).st_mtime_ns for t in tocs()]) + op[1]
                os.utime(f, ns=(mt, mt))
            elif op[0] == "rmtoc":
                for t in tocs():
                    os.unlink(t)
            else:
                _, how, db_, queries, newer, pre = op
                bits = 20 if db_ == "default" else min(25, max(15, spec["bits"] + db_))
                ok = toc.buildable(recs, bits)
                by = dict(recs)
                needles = [toc.query(recs, db.HS[typ], bits, k, a) for k, a in queries]
                what = "%s db, %d records, %d bits, history %s" % (typ, len(recs), bits, hist)
                if how == "tool":
                    for h in needles[:3]:
                        r = lookup.search(ctx.bins["rel:search"], typ, f, h.hex().upper(), True, toc=0 if db_ == "default" else bits, cwd=d)
                        got = lookup.answer(r)
                        want = lookup.expect(by, h) if ok else ("error",)
                        if got != want:
                            raise Violation("%s: query %s gives %s, expected %s: %s" % (what, h.hex(), got, want, r))
                        cl.add("loaded" if b"loading" in r.out else "built" if ok else "refused: gap")
                        found += want[0] == "found"
                        notfound += want[0] == "absent"
                        settle(tocs(), mt + newer)
                else:
                    before = ",".join("%s:%d" % (g if o else f, min(25, max(15, spec["bits"] + b))) for o, b in pre)
                    r = run([ctx.bins["asan:probe"], "toc", typ, f, str(bits), "170", before], stdin="".join(h.hex().upper() + "\n" for h in needles).encode(), cwd=d)
                    log = r.out.decode().split("\nLAST\n")[-1]
                    out = log.split("\nREADY\n")
                    cl |= {"several tables in one process"} if pre else set()
                    if ok:
                        got = out[1].upper().split() if len(out) == 2 else None
                        want = ["%s:%d" % (h.hex().upper(), by[h]) if h in by else "-" for h in needles]
                        if got != want:
                            raise Violation("%s: queries %s give %s, expected %s: %s" % (what, [h.hex() for h in needles], got, want, r))
                        found += sum(w != "-" for w in want)
                        notfound += want.count("-")
                    elif len(out) != 1 or "BUILDFAIL" not in log:
                        raise Violation("%s: a table was built although a prefix has no record: %s" % (what, r))
                    cl.add("loaded" if "loading" in log else "built" if ok else "refused: gap")
                    settle(tocs(), mt + newer)
        if not recs:
            cl.add("empty")
        return {"nontrivial": found + notfound > 0 and len(case["ops"]) > 1,
                "classes": list(cl) + ["found"] * (found > 0) + ["absent"] * (notfound > 0) + ["complete database"] * (spec["p"] > 4000)}
    finally:
        ctx.drop_dir(d)


def settle(tocs, t):
    """gives tables which were just written a chosen time, so that they are newer than the database by a nanosecond or more"""
    for p in tocs:
        if os.stat(p).st_mtime_ns > T0 + 10**17:
            os.utime(p, ns=(t, t))


@st.composite
def races(draw):
    spec = draw(toc.dense_specs(complete=False, maxp=40, gaps=False))
    return {"db": spec, "before": draw(st.sampled_from(["none", "none", "whole", "stale", "torn"])), "n": draw(st.sampled_from([2, 2, 3, 3, 4])), "q": draw(qs),
            "sched": draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from([1, 1, 2, 3, 5, 100])).map(list), max_size=25)), "seed": draw(st.integers(0, 2**32 - 1)), "kill": draw(st.sampled_from([0] * 4 + [1, 2]))}


@st.composite
def stops(draw):
    """few switches, at any step: one lookup stops in the middle, others go on, stop in the middle, ..."""
    spec = draw(toc.dense_specs(complete=False, maxp=40, gaps=False))
    stop = st.one_of(st.tuples(st.just("="), st.integers(1, 10)), st.tuples(st.just("<"), st.integers(1, 7)))    # after so many steps; before its nth call which writes
    sched = draw(st.sampled_from(["a k b k a", "a k b k a", "a k b k a", "a k b k c", "a k b c k a", "a k b k x a", "a k x b k a", "a k b k c k b", "a k b k a k c", "a k b k a c", "a k b k a c"])).split()
    sched = [{"a": 0, "b": 1, "c": 2}.get(x) if x in "abc" else x for x in sched]
    plan = []
    for i, x in enumerate(sched):
        if isinstance(x, int):
            o, n = draw(stop) if sched[i + 1:i + 2] == ["k"] else ("=", 100)
            plan.append([o, x, n])
        elif x == "x":
            plan.append(["x", plan[-1][1], 1])
    return {"db": spec, "before": draw(st.sampled_from(["none", "none", "stale", "torn", "whole"])), "n": draw(st.sampled_from([3, 3, 3, 2])), "q": draw(qs), "sched": plan + [["=", x, 100] for x in draw(st.permutations([0, 1, 2]))],
            "seed": draw(st.integers(0, 2**32 - 1)), "kill": 0}


@st.composite
def every_stops(draw):
    c = draw(races())
    c["q"] = draw(st.lists(st.tuples(st.sampled_from(["rec", "rec", "rec", "hi"]), st.integers(0, 2**31 - 1)).map(list), min_size=3, max_size=3))
    return dict(c, n=3, kill=0, before=draw(st.sampled_from(["none", "none", "stale"])), sched=[])


def check_every(case, ctx):
    """one lookup stops before its ith call which writes, another one before its jth, the first goes on, ... for every i and j"""
    cl, good = set(), False
    for i in range(1, 7):
        for j in range(1, 7):
            for rest in ([["=", 0, 100], ["=", 2, 100]], [["=", 2, 100], ["=", 0, 100]], [["x", 1, 1], ["=", 0, 100], ["=", 2, 100]]):
                r = check_race(dict(case, sched=[["<", 0, i], ["<", 1, j]] + rest + [["=", 1, 100]] + [["=", 0, 100]]), ctx)
                cl |= set(r["classes"])
                good |= r["nontrivial"]
    return {"nontrivial": good, "classes": sorted(cl)}


class Proc:
    """a lookup which asks before each call on a table"""

    def __init__(self, ctx, argv, cwd):
        a, b = os.pipe()
        c, e = os.pipe()
        env = dict(os.environ, LD_PRELOAD=ctx.bins["so:sched"], SCHED_PATH=".toc", SCHED_ASK=str(b), SCHED_GO=str(c))
        self.argv, self.ask, self.go = argv, a, e
        self.p = subprocess.Popen(argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=(b, c))
        os.close(b)
        os.close(c)
        self.calls, self.ended, self.killed = "", False, False

    def wait(self):
        """until it asks or has ended -> does it ask?"""
        if not select.select([self.ask], [], [], 60)[0]:
            raise Inconclusive("a lookup neither asks nor ends: %s" % self.argv)
        b = os.read(self.ask, 1)
        self.calls += b.decode()
        self.ended = not b
        return not self.ended

    def result(self):
        out, err = self.p.communicate(timeout=60)
        r = Result(self.p.returncode, out, err, self.argv)
        return r

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.communicate()
        for f in (self.ask, self.go):
            os.close(f)


def check_race(case, ctx):
    """several lookups build, save and load the same table; between any two calls on it another one may go on"""
    spec = case["db"]
    typ, bits = spec["type"], spec["bits"]
    recs = toc.records(spec)
    by = dict(recs)
    d = ctx.fresh_dir()
    ps = []
    try:
        f = put(os.path.join(d, "x.bin"), db.pack(recs))
        os.utime(f, ns=(T0, T0))
        tab = "%s.%d.toc" % (f, bits)
        needles = [toc.query(recs, db.HS[typ], bits, k, a) for k, a in case["q"]]
        argv = lambda h: [ctx.bins["rel:search"], f, h.hex().upper(), "--hash", "--toc", "--toc-bits", str(bits)] + lookup.FLAG[typ]
        if case["before"] != "none":
            run(argv(needles[0]), cwd=d)
            if case["before"] == "torn" and os.path.exists(tab):
                put(tab, get(tab)[:-1])
            elif case["before"] == "stale" and os.path.exists(tab):
                put(tab, bytes(os.path.getsize(tab)))
                os.utime(tab, ns=(T0, T0))
        rnd = random.Random(case["seed"])
        want = [lookup.expect(by, h) for h in needles]
        ps = [Proc(ctx, argv(needles[i % len(needles)]), d) for i in range(case["n"])]
        waiting = [p for p in ps if p.wait()]
        plan = [x for x in case["sched"] for _ in range(100 if x[0] == "<" else x[-1])]
        kills = case["kill"]
        hist = ""
        while waiting:
            k = plan.pop(0) if plan else [rnd.randrange(4)]
            if k[0] in ("=", "x", "<"):
                p = ps[k[1] % len(ps)]
                if p not in waiting or k[0] == "<" and sum(c in "Owcntfu" for c in p.calls) >= k[2]:
                    continue
            else:
                p = waiting[k[0] % len(waiting)]
            hist += "%d%s " % (ps.index(p), p.calls[-1])
            if len(hist) > 60000:
                raise Violation("the lookups don't end: %s" % hist[-200:])
            p.killed = k[0] == "x" or kills > 0 and p.calls[-1] in "Owc" and rnd.random() < .15
            kills -= p.killed
            os.write(p.go, b"k" if p.killed else b"g")
            if not p.wait():
                waiting.remove(p)
        failed = answered = 0
        for i, p in enumerate(ps):
            r = p.result()
            if p.killed:
                continue
            check_sane(r)
            a = lookup.answer(r)
            if a[0] == "error":
                failed += 1
            elif a != want[i % len(needles)]:
                raise Violation("lookup %d of %d at once (%s db, %d bits, %s) gives %s, expected %s, schedule %s: %s" % (i, len(ps), typ, bits, case["before"], a, want[i % len(needles)], hist, r))
            else:
                answered += 1
        for h, w in zip(needles, want):
            r = run(argv(h), cwd=d)
            if lookup.answer(r) != w:
                raise Violation("after %d lookups at once, schedule %s, the lookup of %s gives %s, expected %s: %s" % (len(ps), hist, h.hex(), lookup.answer(r), w, r))
        mixed = len({x for x in (c[0] for c in hist.split())}) > 1
        return {"nontrivial": mixed and answered > 0, "classes": [case["before"]] + ["a lookup failed"] * (failed > 0) + ["a lookup was killed"] * any(p.killed for p in ps) + ["table written twice"] * (sum("O" in p.calls for p in ps) > 1)}
    finally:
        for p in ps:
            p.close()
        ctx.drop_dir(d)


# ---- tables of many prefixes --------------------------------------------------------------------

@st.composite
def wide_cases(draw):
    bits = draw(st.sampled_from([15, 16, 17, 17, 18, 19, 20, 20, 20, 21, 22, 25]))
    p = min(1 << bits, draw(st.one_of(st.sampled_from([65535, 65536, 65537, 1 << 17, (1 << 17) + 1, 99999, 1 << 18, 1 << 20, (1 << 20) + 1, 1 << 21, 1 << bits]), st.integers(60000, 1 << 20))))
    p = min(p, 1 << 21)
    return {"type": draw(st.sampled_from(["sha1", "ntlm", "sha1t64"])), "bits": bits, "p": p, "per": draw(st.sampled_from([1, 2, 3] if p <= 300000 else [1])), "seed": draw(st.integers(0, 2**32 - 1)),
            "q": draw(st.lists(st.tuples(st.sampled_from(["rec"] * 5 + ["next", "prev", "lo", "in", "beyond"]), st.one_of(st.integers(0, 2**31 - 1), st.sampled_from(["first", "last", 65535, 65536, 65537, 131072, 999, 1000, 524288])))
                               .map(list), min_size=6, max_size=25))}


def check_wide(case, ctx):
    import bulk
    typ, bits, p = case["type"], case["bits"], case["p"]
    hs = db.HS[typ]
    b = bulk.Bulk(hs, bits, p, case["per"], case["seed"])
    d = ctx.fresh_dir()
    try:
        f = os.path.join(d, "x.bin")
        b.tofile(f)
        os.utime(f, ns=(T0, T0))
        needles = []
        for kind, k in case["q"]:
            i = 0 if k == "first" else len(b) - 1 if k == "last" else b.first(k) if k in (65535, 65536, 65537, 131072, 999, 1000, 524288) and k < p else k % len(b)
            h = b.hash(min(i, len(b) - 1))
            pre = toc.prefix(h, bits)
            rest = 8 * hs - bits
            needles.append({"rec": h, "next": db.neighbour(h, 1) or h, "prev": db.neighbour(h, -1) or h, "lo": (pre << rest).to_bytes(hs, "big"),
                            "in": (pre << rest | i * 0x9E3779B97F4A7C15F39CC0605CEDC835 % (1 << rest)).to_bytes(hs, "big"), "beyond": (min((1 << bits) - 1, p) << rest | i % 5).to_bytes(hs, "big")}[kind])
        want = [b.find(h) for h in needles]
        what = "%s db, %d records, %d prefixes of %d bits" % (typ, len(b), p, bits)
        for h, w in list(zip(needles, want))[:3]:      # the first one builds the table
            r = lookup.search(ctx.bins["rel:search"], typ, f, h.hex().upper(), True, toc=bits, cwd=d)
            if lookup.answer(r) != (("absent",) if w is None else ("found", h, w)):
                raise Violation("%s: the query %s gives %s, stored is %s: %s" % (what, h.hex(), lookup.answer(r), w, r))
        for fresh in (False, True):
            if fresh:
                for t in glob.glob(glob.escape(f) + ".*"):
                    os.unlink(t)
            r = run([ctx.bins["asan:probe"], "toc", typ, f, str(bits), "170", ""], stdin="".join(h.hex().upper() + "\n" for h in needles).encode(), cwd=d)
            out = r.out.decode().split("\nLAST\n")[-1].split("\nREADY\n")
            got = out[1].upper().split() if len(out) == 2 else None
            if got != ["%s:%d" % (h.hex().upper(), w) if w is not None else "-" for h, w in zip(needles, want)]:
                raise Violation("%s: the queries %s give %s, stored is %s: %s" % (what, [h.hex() for h in needles], got, want, r))
        return {"nontrivial": p > 65536, "classes": [typ, "complete" if p == 1 << bits else "partial", "%d bits" % bits] + ["more than 2^16 prefixes"] * (p > 65536) + ["2^20 prefixes or more"] * (p >= 1 << 20)}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C02", "exploration",
            "Hypothesis draws a database whose prefixes are all present (or, by choice, with a gap), partial or complete, and a history of lookups with "
            "changing numbers of bits (by hibp-search and by the library under ASan), replacements of the database with chosen file times (equal "
            "to the table's, or 1 ns to 1 s newer), touches and removal of tables. Each answer is compared with a dictionary; gaps must be refused. "
            "Arm at once: two to four lookups of the same database run together under a drawn schedule, which decides before each call on the table which of them goes on (or is killed); arms stops and every stop: the same with few switches: one lookup stops before any of its calls, another one starts and stops too, the first goes on (every stop: for each pair of its and the other's calls that write); "
            "each must answer rightly or fail, and later ones answer rightly. Arm wide: tables with up to 2^21 prefixes (as of the complete published databases), built and loaded. Non-trivial: at least two operations and at least one answered query.",
            ["rel:search", "asan:probe", "so:sched"], [Arm("history", cases(), check, 2400, 60000), Arm("at once", races(), check_race, 1600, 40000), Arm("stops", stops(), check_race, 1600, 40000), Arm("every stop", every_stops(), check_every, 24, 800), Arm("wide", wide_cases(), check_wide, 64, 2000)],
            technique="model-based testing of file histories (Hypothesis) against a dictionary",
            note="Exploration: every query of a generated history is decided by a dictionary; complete databases up to 21 bits, partial ones for all widths.",
            assumptions=["the database is not replaced while a lookup runs", "file times have nanosecond resolution (tmpfs)"])
