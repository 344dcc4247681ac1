"""Memory and reads stay within fixed bounds, however large the database and however many requests."""
import hashlib, os, re, socket, time
from hypothesis import strategies as st
import db, httpd, lookup
import rangeserver as rs
from driver import Prop, Arm, Violation, Inconclusive
from tools import run, put

KB = 1024
BASE = 16 * KB               # kB of memory every tool may use ("a few megabytes"; they need about five)
READS = 4 << 20              # bytes a lookup may read (it needs about 0.3 MB)
FLAGS = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}


def table(typ, n, seed, bits=None):
    """n records: sorted, distinct, made fast. bits: as many prefixes of that many bits as fit are present"""
    import numpy as np
    hs, rec = db.HS[typ], db.REC[typ]
    r = np.random.default_rng(seed)
    a = np.zeros((n, rec), np.uint8)
    span = 2**64 if bits is None else min(2**64, (n // 3) << (64 - bits))
    a[:, :8] = (np.arange(n, dtype=np.uint64) * np.uint64(span // n)).astype(">u8").view(np.uint8).reshape(n, 8)
    a[:, 8:hs] = r.integers(0, 256, (n, hs - 8), np.uint8)
    a[:, hs:] = r.integers(1, 1 << 20, n, np.int32).astype("<i4").view(np.uint8).reshape(n, 4)
    return a


def meter(ctx, d, argv, what, stdin=None):
    """runs a tool and -> result, kB of memory at most, bytes read, read calls"""
    m = os.path.join(d, "meter")
    if os.path.exists(m):
        os.unlink(m)
    with open(os.devnull, "wb") as null:
        r = run(argv, cwd=d, env={"LD_PRELOAD": ctx.bins["so:meter"], "METER_OUT": m}, stdout=null if "search" not in argv[0] else None, stdin=stdin)
    if r.rc != 0:
        raise Violation("%s failed: %s" % (what, r))
    try:
        t = open(m).read()
        g = lambda k: int(re.search(r"(?m)^%s:\s*(\d+)" % k, t).group(1))
        return r, g("VmHWM"), g("rchar"), g("syscr")
    except (OSError, AttributeError):
        raise Inconclusive("no measurement: %s" % r)


def within(kb, most, what):
    if kb > most:
        raise Violation("%s: %.1f MB of memory, more than %.1f MB" % (what, kb / KB, most / KB))


@st.composite
def lookups(draw):
    return {"type": draw(st.sampled_from(["sha1", "ntlm", "sha1t64"])), "extra": draw(st.integers(1, 3000)), "tail": draw(st.integers(1, 400)),
            "gib": draw(st.sampled_from([0, 1, 2, 4, 9, 30, 104])), "seed": draw(st.integers(0, 2**32 - 1)),
            "q": draw(st.lists(st.one_of(st.integers(0, 399), st.integers(0, 255).map(lambda x: "%02x" % x)), min_size=1, max_size=4))}


def check_lookup(case, ctx):
    import c15
    typ = case["type"]
    d = ctx.fresh_dir()
    try:
        f = os.path.join(d, "big.bin")
        c = dict(case, gib=case["gib"])
        n, rec, _, spots = c15.sparse(c, f)
        if not case["gib"]:
            put(f, table(typ, 1500000 + case["extra"], case["seed"]).tobytes())
            n = os.path.getsize(f) // db.REC[typ]
        for q in case["q"]:
            h = rec(spots[1] + q % (n - spots[1]))[0] if isinstance(q, int) and case["gib"] else bytes.fromhex(("%02x" % (q % 256) if isinstance(q, int) else q) * db.HS[typ])
            what = "lookup of %s in %d records" % (h.hex(), n)
            r, kb, rchar, calls = meter(ctx, d, [ctx.bins["rel:search"], f, h.hex().upper(), "--hash"] + FLAGS[typ], what)
            within(kb, BASE, what)
            if rchar > READS:
                raise Violation("%s: reads %d bytes" % (what, rchar))
        return {"nontrivial": True, "classes": ["%d GiB" % case["gib"], typ]}
    finally:
        ctx.drop_dir(d)


@st.composite
def tocs(draw):
    return {"type": draw(st.sampled_from(["sha1", "ntlm", "sha1t64"])), "n": draw(st.integers(800000, 2000000)), "bits": draw(st.sampled_from([15, 16, 18, 20, 21])),
            "seed": draw(st.integers(0, 2**32 - 1)), "q": draw(st.lists(st.integers(0, 2**31), min_size=1, max_size=3))}


def check_toc(case, ctx):
    typ = case["type"]
    d = ctx.fresh_dir()
    try:
        a = table(typ, case["n"], case["seed"], case["bits"])
        f = put(os.path.join(d, "x.bin"), a.tobytes())
        os.utime(f, (10**9, 10**9))
        size = 4 << case["bits"]
        for i, q in enumerate(case["q"] + case["q"]):
            h = bytes(a[q % len(a)][:db.HS[typ]])
            what = "lookup %d with %d toc bits in %d records" % (i, case["bits"], len(a))
            r, kb, rchar, calls = meter(ctx, d, [ctx.bins["rel:search"], f, h.hex().upper(), "--hash", "--toc", "--toc-bits", str(case["bits"])] + FLAGS[typ], what)
            if lookup.answer(r)[0] != "found":
                raise Violation("%s: a stored record is not found: %s" % (what, r))
            within(kb, BASE + size // KB, what)
            if i and rchar > READS + size:
                raise Violation("%s: reads %d bytes though there is a table of %d" % (what, rchar, size))
        return {"nontrivial": True, "classes": ["%d bits" % case["bits"], typ]}
    finally:
        ctx.drop_dir(d)


@st.composite
def streams(draw):
    tool = draw(st.sampled_from(["to text", "from text", "dupes", "topn", "diff", "sort", "sort"]))
    return {"tool": tool, "type": draw(st.sampled_from(["sha1", "ntlm", "sha1t64"] if tool == "topn" else ["sha1", "ntlm"])), "n": draw(st.integers(1200000, 2400000)), "seed": draw(st.integers(0, 2**32 - 1)),
            "mb": draw(st.sampled_from([1, 2, 5, 8, 12])), "by": draw(st.booleans()), "N": draw(st.sampled_from([1, 100, 50000, 200000])), "dash": draw(st.booleans())}


def check_stream(case, ctx):
    import numpy as np
    typ, tool = case["type"], case["tool"]
    d = ctx.fresh_dir()
    try:
        n = case["n"]
        if tool == "from text":
            n //= 3
        a = table(typ, n, case["seed"])
        if tool == "sort" and case["dash"]:
            a = a[np.random.default_rng(case["seed"]).permutation(n)]
        f = os.path.join(d, "x.bin")
        most, extra = BASE, FLAGS[typ]
        if tool == "from text":
            hx = a[:, :db.HS[typ]].tobytes().hex().upper()
            w = 2 * db.HS[typ]
            with open(f, "w") as fh:
                fh.write("".join("%s:%d\n" % (hx[i * w:i * w + w], i) for i in range(n)))
            argv = ["convert", "--txt-to-bin", "-i", f] + (["--stdout"] if case["dash"] else ["-o", os.path.join(d, "out")])
        else:
            put(f, a.tobytes())
            argv = {"to text": ["convert", "--bin-to-txt", "-i", f] + (["--stdout"] if case["dash"] else ["-o", os.path.join(d, "out")]),
                    "dupes": ["dupes", f], "topn": ["topn", f, "-N", str(case["N"])] + (["--stdout"] if case["dash"] else ["-o", os.path.join(d, "out")]),
                    "diff": ["diff", f, f + "2"], "sort": ["sort", "-i", f, "--max-memory", str(case["mb"])] + (["--sort-by-count"] if case["by"] else [])}[tool]
        if tool == "topn":
            most += 2 * case["N"] * db.REC[typ] // KB
        elif tool == "sort":
            most += int(2.2 * case["mb"] * KB)          # "about two times this value"
        elif tool == "diff":
            c = a.copy()
            c[::7, db.HS[typ]] ^= 1
            put(f + "2", c.tobytes())
        what = "%s of %d records (%d MB) %s" % (tool, n, os.path.getsize(f) >> 20, argv)
        r, kb, rchar, calls = meter(ctx, d, [ctx.bins["rel:" + argv[0]]] + argv[1:] + extra, what)
        within(kb, most, what)
        return {"nontrivial": os.path.getsize(f) > most * KB, "classes": [tool, typ] + ["chunks"] * (tool == "sort")}
    finally:
        ctx.drop_dir(d)


@st.composite
def servers(draw):
    return {"types": draw(st.sampled_from([["sha1"], ["ntlm"], ["sha1t64"], ["sha1", "ntlm", "sha1t64"]])), "gib": draw(st.sampled_from([1, 4, 30])), "extra": draw(st.integers(1, 3000)),
            "tail": draw(st.integers(1, 400)), "seed": draw(st.integers(0, 2**32 - 1)), "json": draw(st.booleans()), "perf": draw(st.booleans()),
            "how": draw(st.lists(st.sampled_from(["hash", "hash", "plain", "absent", "bad hash", "bad path", "abandon", "half"]), min_size=2, max_size=6)), "keep": draw(st.booleans()),
            "threads": draw(st.sampled_from([1, 1, 2, None])), "batch": draw(st.sampled_from([0, 0, 20, 60]))}


def check_server(case, ctx):
    import c15
    d = ctx.fresh_dir()
    srv = None
    try:
        argv = [ctx.bins["rel:server"]]
        recs = {}
        for t in case["types"]:
            f = os.path.join(d, t + ".bin")
            n, rec, _, spots = c15.sparse(dict(case, type=t), f)
            recs[t] = (n, rec, spots[1])
            argv += ["--%s-db" % t, f]
        argv += ["--json"] * case["json"] + ["--perf-test"] * case["perf"] + (["--threads", str(min(case["threads"], os.cpu_count() or 1))] if case.get("threads") else [])
        srv = httpd.Server(argv, d)
        if srv.failed:
            raise Violation("the server does not start: %s" % srv.failed)

        def state():
            p = "/proc/%d/" % srv.p.pid
            try:
                t = open(p + "status").read() + open(p + "io").read()
                return int(re.search(r"VmHWM:\s*(\d+)", t).group(1)), len(os.listdir(p + "fd")), int(re.search(r"rchar:\s*(\d+)", t).group(1))
            except (OSError, AttributeError):
                raise Inconclusive("no measurement of the server")

        def rounds(k):
            n = 0
            for i in range(k):
                s = socket.create_connection(("127.0.0.1", srv.port), 20)
                s.settimeout(httpd.ANSWER)
                try:
                    for how in case["how"]:
                        t = case["types"][(i + n) % len(case["types"])]
                        total, rec, first = recs[t]
                        url = {"hash": "check/%s/%s" % (t, rec(first + i % (total - first))[0].hex()), "absent": "check/%s/%s" % (t, hashlib.sha1(b"%d" % i).hexdigest()[:2 * db.HS[t]]),
                               "plain": "check/plain/pass%d" % i, "bad hash": "check/%s/xyz%d" % (t, i), "bad path": "nothing/%d" % i}.get(how, "check/plain/p%d" % i)
                        b = b"GET /%s HTTP/1.1\r\nHost: x\r\n\r\n" % url.encode()
                        if how == "half":
                            s.sendall(b[:20])
                            break
                        s.sendall(b)
                        if how == "abandon":
                            break
                        buf = b""
                        while not httpd.parse(buf):
                            x = s.recv(65536)
                            if not x:
                                break
                            buf += x
                        n += 1
                        if not httpd.parse(buf):
                            break
                        if not case["keep"]:
                            s.close()
                            s = socket.create_connection(("127.0.0.1", srv.port), 20)
                            s.settimeout(httpd.ANSWER)
                finally:
                    s.close()
            return n
        def batches(k, m):
            """k connections with m pipelined requests each"""
            n = 0
            for i in range(k):
                with socket.create_connection(("127.0.0.1", srv.port), 20) as s:
                    s.settimeout(httpd.ANSWER)
                    urls = []
                    for j in range(m):
                        t = case["types"][j % len(case["types"])]
                        total, rec, first = recs[t]
                        x = i * m + j + (1 << 20) * (k > 100)
                        urls.append([b"check/%s/%s" % (t.encode(), hashlib.sha1(b"%d" % x).hexdigest()[:2 * db.HS[t]].encode()), b"check/plain/p%d" % x,
                                     b"check/%s/%s" % (t.encode(), rec(first + x % (total - first))[0].hex().encode())][j % 3])
                    s.sendall(b"".join(b"GET /%s HTTP/1.1\r\nHost: x\r\n%s\r\n" % (u, b"Connection: close\r\n" * (u is urls[-1])) for u in urls))
                    got = 0
                    while True:
                        x = s.recv(65536)
                        if not x:
                            break
                        got += x.count(b"HTTP/1.1 ")
                    n += m
            return n
        what = "%s" % argv
        n = rounds(150) + (batches(60, case["batch"]) if case["batch"] else 0)
        before = state()
        within(before[0], 2 * BASE, "after %d requests: %s" % (n, what))
        n2 = batches(400, case["batch"]) if case["batch"] else rounds(2400)
        for _ in range(100):            # connections end with a delay
            after = state()
            if after[1] <= before[1] + 8:
                break
            time.sleep(.05)
        # every thread has an arena of its own
        if after[0] - before[0] > {1: 256, 2: 400}.get(case["threads"], 1200):
            raise Violation("the memory grows from %.1f to %.1f MB with %d further requests: %s" % (before[0] / KB, after[0] / KB, n2, what))
        # every thread opens the databases for itself, when it first needs them
        if after[1] > before[1] + 20 + len(case["types"]) * (os.cpu_count() or 8):
            raise Violation("%d descriptors are open after %d further requests, %d before: %s" % (after[1], n2, before[1], what))
        if n2 and after[2] - before[2] > (n2 + 20) << 20:
            raise Violation("%d bytes are read for %d requests: %s" % (after[2] - before[2], n2, what))
        return {"nontrivial": n2 > 100, "classes": case["types"] + case["how"]}
    finally:
        if srv:
            srv.kill()
        ctx.drop_dir(d)


@st.composite
def downloads(draw):
    c = draw(rs.scenarios())
    c["per"] = draw(st.sampled_from(["few", "some", "gaps"]))
    c.pop("big", None)
    c.update(limit=draw(st.integers(600, 1200)), par=draw(st.sampled_from([2, 5, 20, 60])), fails={}, flags=["--no-progress"] * draw(st.booleans()))
    c["order"] = dict(c["order"], how="fifo", ms=1, batch=50, splits=0)
    if draw(st.booleans()):
        c["fails"] = draw(rs.fails(c["limit"], kinds=rs.CLEAN, most=2))
    return c


def check_download(case, ctx):
    s = rs.server(ctx)
    d = ctx.fresh_dir()
    try:
        s.play(case, rs.Data(case), case["fails"])
        m = os.path.join(d, "meter")
        r = run(rs.argv(ctx, case, os.path.join(d, "out")), cwd=d, env=dict(s.env(), LD_PRELOAD=ctx.bins["so:meter"], METER_OUT=m))
        what = "download of %d prefixes, %d at a time: %s" % (case["limit"], case["par"], r)
        if r.rc != 0:
            raise Violation("failed: %s" % what)
        try:
            kb = int(re.search(r"VmHWM:\s*(\d+)", open(m).read()).group(1))
        except (OSError, AttributeError):
            raise Inconclusive("no measurement: %s" % r)
        # every download has a buffer of 64 kB; twice as many may wait for the writer
        within(kb, 2 * BASE + 400 * case["par"], what)
        return {"nontrivial": True, "classes": [case["type"], "%d at a time" % case["par"]]}
    finally:
        ctx.drop_dir(d)


@st.composite
def long_downloads(draw):
    c = draw(downloads())
    late = draw(st.sampled_from([False, False, True]))
    if c["fmt"]["frame"] == "close":
        c["fmt"] = dict(c["fmt"], frame="length")
    c["per"] = draw(st.sampled_from(["few", "gaps"]))
    c["par"] = draw(st.sampled_from([20, 60] if late else [2, 5, 20, 60]))
    c["limit"] = 20000 if late else {2: 4000, 5: 6000}.get(c["par"], draw(st.integers(8000, 12000)))
    c["fails"] = {p: f for p, f in c["fails"].items() if not late and int(p) < 300}
    if late:                # one response comes when all requests which may be made before it were answered
        c["order"] = dict(c["order"], hold=[draw(st.integers(0, 50))])
    return c


def check_long_download(case, ctx):
    s = rs.server(ctx)
    d = ctx.fresh_dir()
    late = "hold" in case["order"]
    try:
        kb = []
        for limit in ([] if late else [300]) + [case["limit"]]:
            c = dict(case, limit=limit)
            s.play(c, rs.Data(c), c["fails"])
            m = os.path.join(d, "meter")
            r = run(rs.argv(ctx, c, os.path.join(d, "out%d" % limit)), cwd=d, env=dict(s.env(), LD_PRELOAD=ctx.bins["so:meter"], METER_OUT=m))
            what = "download of %d prefixes, %d at a time: %s" % (limit, c["par"], r)
            if r.rc != 0:
                raise Violation("failed: %s" % what)
            try:
                kb.append(int(re.search(r"VmHWM:\s*(\d+)", open(m).read()).group(1)))
            except (OSError, AttributeError):
                raise Inconclusive("no measurement: %s" % r)
        if late:
            within(kb[0], 4 * BASE, "prefix %d came late: %s" % (case["order"]["hold"][0], what))
        elif kb[1] > kb[0] + 3 * KB + 100 * case["par"]:
            raise Violation("%d kB are used for 300 prefixes, %d kB for the %s" % (kb[0], kb[1], what))
        return {"nontrivial": True, "classes": [case["type"], "one response late" if late else "%d at a time" % case["par"]]}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C23", "exploration",
            "Hypothesis draws databases (1 to 104 GiB sparse ones for lookups and servers; 24 to 58 MB for tables and the tools which read everything), tools, options and request mixes; peak resident "
            "memory, bytes read and open descriptors of the real processes are measured and compared with bounds which don't depend on the size (16 MB for every tool, plus table, N records, 2.2 x --max-memory, "
            "400 kB for each parallel request, 3 MB (and 100 kB for each parallel request) more for 4000-12000 prefixes than for 300, 64 MB for 20000 of which one comes last; 4 MiB read per lookup; 0.25 MB growth over thousands of further requests with one thread, 1.2 MB with as many as there are cores). "
            "Non-trivial: lookups and tables always; tools when the file is larger than the bound; servers with more than 100 measured requests.",
            ["rel:" + t for t in ("search", "server", "convert", "dupes", "topn", "diff", "sort", "download")] + ["so:meter"],
            [Arm("lookup", lookups(), check_lookup, 360, 4000), Arm("toc", tocs(), check_toc, 56, 600), Arm("stream", streams(), check_stream, 176, 2000), Arm("server", servers(), check_server, 72, 1000),
             Arm("download", downloads(), check_download, 48, 800), Arm("long download", long_downloads(), check_long_download, 40, 600)],
            technique="property-based testing (Hypothesis): resource measurements of generated runs against size-independent bounds (metamorphic: the same bound for small and huge data)",
            note="Exploration: each run is measured exactly by the kernel; the bounds leave about three times what the tools need.",
            assumptions=["the output takes what is downloaded (downloads wait in memory for a slow one)"])
