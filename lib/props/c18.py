"""Exit status 0 means that the complete output has been written: generated faults at any byte."""
import errno, os, random, re, shutil
from hypothesis import strategies as st
import db, lookup, rangeserver as rs, toc
from driver import Prop, Arm, Violation
from tools import run, put, get

TYPES = {"search": ("sha1", "ntlm", "sha1t64"), "convert": ("sha1", "ntlm"), "sort": ("sha1", "ntlm"), "topn": ("sha1", "ntlm", "sha1t64"), "diff": ("sha1", "ntlm"), "dupes": ("sha1", "ntlm")}
BOUNDS = db.around(170, 204, 1000, 2000, 2730, 3276)


@st.composite
def jobs(draw, tools=("convert", "convert", "search", "sort", "topn", "diff", "dupes")):
    """one run of a tool"""
    tool = draw(st.sampled_from(tools))
    spec = draw(db.specs(types=TYPES[tool], n=st.one_of(st.integers(1, 30), st.integers(1, 700), st.sampled_from(BOUNDS)), orders=("sorted",) if tool in ("search", "diff", "dupes") else ("sorted", "shuffled")))
    j = {"tool": tool, "db": spec}
    if tool == "convert":
        j["mode"] = draw(st.sampled_from(["b2t", "t2b"]))
        j["in"] = draw(st.sampled_from(["file", "stdin"])) if j["mode"] == "t2b" else "file"
        j["out"] = draw(st.sampled_from(["file", "stdout"]))
    elif tool == "topn":
        j["out"] = draw(st.sampled_from(["file", "stdout"]))
        j["N"] = draw(st.integers(0, max(0, spec["n"] - 1)))
    elif tool == "sort":
        j["out"], j["count"] = "file", draw(st.booleans())
        if draw(st.booleans()):
            j["mem"] = 0                    # one record per chunk
            spec["n"] = min(spec["n"], 60)
    elif tool == "search":
        j["out"] = "stdout"
        j["toc"] = draw(st.sampled_from(["load", "build", None] if len(tools) > 1 else ["load", "load", "build"]))
        j["k"] = draw(st.integers(0, 2**31 - 1))
        if j["toc"]:
            j["db"] = draw(toc.dense_specs(types=(spec["type"],), complete=False, gaps=False))
            j["bits"] = j["db"]["bits"]
    else:
        j["out"] = "stdout"
        if tool == "dupes":
            j["dup"] = draw(st.booleans())
    return j


@st.composite
def limit_cases(draw):
    j = draw(jobs())
    if j["tool"] == "sort" and "mem" in j:
        j["where"] = draw(st.integers(0, 30))
    else:
        j["where"] = draw(st.one_of(st.integers(0, 2**31 - 1), st.sampled_from(["first byte", "last byte", "last record", "last byte", "last 1000"])))
    j["fault"] = draw(st.sampled_from(["limit", "limit", "limit", "kill"] + (["full device", "closed", "broken pipe"] if j["out"] == "stdout" else ["full device"] if j["tool"] != "sort" else [])))
    return j


@st.composite
def io_cases(draw, **kw):
    j = draw(jobs(**kw))
    ins = {"convert": ["stdin"] if j.get("in") == "stdin" else ["in.db"], "diff": ["in.db", "new.db"], "sort": ["in.db", ".partial.0000", ".partial.0001"],
           "search": ["in.db"] + [".toc"] * 2 * (j.get("toc") == "load")}.get(j["tool"], ["in.db"])
    outs = {"sort": [".sorted", ".partial.0000", ".partial.0001"], "search": ["stdout"]}.get(j["tool"], ["out" if j["out"] == "file" else "stdout"])
    op = draw(st.sampled_from(["read", "write"]))
    j["io"] = {"op": op, "path": draw(st.sampled_from(ins if op == "read" else outs)), "how": draw(st.sampled_from(["stay", "stay", "once", "short"])),
               "errno": draw(st.sampled_from([errno.EIO, errno.ENOSPC, errno.EDQUOT] if op == "write" else [errno.EIO])),
               "at": draw(st.one_of(st.integers(0, 100), st.integers(0, 2**31 - 1), st.sampled_from(["end", "before end", 4096, 8191, 65536])))}
    return j


def prepare(j, d):
    typ = j["db"]["type"]
    recs = toc.records(j["db"]) if j.get("toc") else db.expand(j["db"])
    raw = db.pack(recs)
    put(os.path.join(d, "in.db"), raw)
    if j.get("mode") == "t2b":
        put(os.path.join(d, "in.db"), "".join(db.line(r) + "\n" for r in recs).encode())
    if j["tool"] == "diff":
        rnd = random.Random(j["db"]["seed"])
        new = dict((h, c if rnd.random() < .5 else (c + 1 if c < db.INT_MAX else 0)) for h, c in recs)
        for h, _ in recs:
            n = db.neighbour(h, 1)
            if n and rnd.random() < .4:
                new.setdefault(n, 7)
        put(os.path.join(d, "new.db"), db.pack(sorted(new.items())))
    os.utime(os.path.join(d, "in.db"), (10**9, 10**9))     # older than its table of contents
    if j["tool"] == "dupes" and j["dup"]:
        put(os.path.join(d, "in.db"), db.pack([r for r in recs for _ in (0, 1)]))
    return recs


def argv(j, d, ctx, recs, out):
    tool, typ = j["tool"], j["db"]["type"]
    a = [ctx.bins["rel:" + tool]]
    i = os.path.join(d, "in.db")
    o = ["--stdout"] if j["out"] == "stdout" else ["-o", out, "-f"]
    if tool == "convert":
        a += ["--bin-to-txt" if j["mode"] == "b2t" else "--txt-to-bin"] + (["--stdin"] if j["in"] == "stdin" else ["-i", i]) + o
    elif tool == "sort":
        a += ["-i", i] + ["--sort-by-count"] * j["count"] + (["--max-memory", "0"] if "mem" in j else [])
    elif tool == "topn":
        a += [i, "-N", str(j["N"])] + o
    elif tool == "search":
        h = toc.query(recs, db.HS[typ], j.get("bits", 20), toc.QKINDS[j["k"] % len(toc.QKINDS)], j["k"])
        a += [i, h.hex().upper(), "--hash"] + (["--toc", "--toc-bits", str(j["bits"])] if j["toc"] else [])
    elif tool == "diff":
        a += [i, os.path.join(d, "new.db")]
    else:
        a += [i]
    return a + {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}[typ]


def answer(b):
    """the part of search's output which is not about time or the table of contents"""
    return [l for l in b.splitlines() if l.startswith((b"needle", b"found", b"not found"))]


def outputs(j, d, stdout):
    o = {}
    if j["tool"] == "search":
        o["stdout"] = answer(stdout)
    elif j["out"] == "stdout":
        o["stdout"] = stdout
    elif j["tool"] == "sort":
        p = os.path.join(d, "in.db.sorted")
        o["file"] = get(p) if os.path.exists(p) else None
    else:
        p = os.path.join(d, "out")
        o["file"] = get(p) if os.path.exists(p) else None
    return o


def execute(j, d, ctx, recs, stdout=None, out=None, **kw):
    stdin = get(os.path.join(d, "in.db")) if j.get("in") == "stdin" else None
    if stdin is not None and kw.pop("stdin_file", False):
        stdin = None
    return run(argv(j, d, ctx, recs, out or os.path.join(d, "out")), cwd=d, stdin=stdin, stdout=stdout, **kw)


def reference(j, d, ctx, recs):
    r = execute(j, d, ctx, recs)
    if r.rc != 0:
        raise Violation("fails without any fault: %s" % r)
    ref = outputs(j, d, r.out)
    if j.get("toc") == "load":
        r = execute(j, d, ctx, recs)
        if r.rc != 0 or outputs(j, d, r.out) != ref:
            raise Violation("the second run differs: %s" % r)
    for f in os.listdir(d):
        if f in ("out", "in.db.sorted") or (f.endswith(".toc") and j["toc"] == "build"):
            os.unlink(os.path.join(d, f))
    return ref, len(r.out)


def judge(j, r, got, ref, what):
    if r.rc == 0 and got != ref:
        k = next(iter(ref))
        raise Violation("reports success, but %s is not complete (%s of %s bytes, %s): %s" % (k, len(got.get(k) or b""), len(ref[k]), what, r))


def check_limit(j, ctx):
    d = ctx.fresh_dir()
    try:
        recs = prepare(j, d)
        ref, outlen = reference(j, d, ctx, recs)
        size = outlen if "stdout" in ref else len(ref["file"])
        w, f = j["where"], j["fault"]
        if not size:
            return {}
        k = {"first byte": 0, "last byte": size - 1, "last record": max(0, size - 20), "last 1000": max(0, size - 1000)}.get(w, w % size if isinstance(w, int) else 0)
        cap = os.path.join(d, "captured")
        r = None
        if f in ("limit", "kill"):
            with open(cap, "wb") as fh:
                r = execute(j, d, ctx, recs, stdout=fh, fsize=k, fsize_kill=f == "kill")
            got = outputs(j, d, get(cap))
            what = "nothing beyond byte %d can be written" % k
        elif f == "full device":
            if j["out"] == "stdout":
                with open("/dev/full", "wb") as fh:
                    r = execute(j, d, ctx, recs, stdout=fh)
                got = {"stdout": b""}
            else:
                r = execute(j, d, ctx, recs, out="/dev/full")
                got = {"file": b""}
            what = "the output is /dev/full"
        elif f == "broken pipe":
            a, b = os.pipe()
            os.close(a)
            r = execute(j, d, ctx, recs, stdout=b)
            os.close(b)
            got, what = {"stdout": b""}, "nobody reads the pipe"
        else:
            # started with standard output closed
            real = argv(j, d, ctx, recs, os.path.join(d, "out"))
            stdin = get(os.path.join(d, "in.db")) if j.get("in") == "stdin" else None
            r = run(["/bin/sh", "-c", 'exec "$@" >&-', "sh"] + real, cwd=d, stdin=stdin)
            got, what = {"stdout": b""}, "standard output is closed"
        judge(j, r, got, ref, what)
        return {"nontrivial": r.rc != 0, "classes": [j["tool"], "%s: %s" % (j["tool"], f), "exit 0" if r.rc == 0 else "exit non-zero"]}
    finally:
        ctx.drop_dir(d)


def check_io(j, ctx):
    d = ctx.fresh_dir()
    try:
        recs = prepare(j, d)
        ref, outlen = reference(j, d, ctx, recs)
        io = j["io"]
        at = io["at"]
        if io["how"] == "short":
            at = at if isinstance(at, int) else 1
        else:
            size = {"in.db": os.path.getsize(os.path.join(d, "in.db")), "new.db": 300}.get(io["path"], outlen if io["path"] == "stdout" else len(ref.get("file") or b"") or 400)
            at = {"end": size, "before end": max(0, size - 1)}.get(at, at % (size + 1) if isinstance(at, int) and at > 100000 else at)
        env = {"LD_PRELOAD": ctx.bins["so:faultio"], "FAULT_PATH": io["path"], "FAULT_OP": io["op"], "FAULT_AT": str(at), "FAULT_ERR": str(io["errno"]), "FAULT_HOW": io["how"]}
        r = execute(j, d, ctx, recs, env=env)
        got = outputs(j, d, r.out)
        what = "%s of %s: %s after %d bytes, %s" % (io["op"], io["path"], io["errno"], at, io["how"])
        judge(j, r, got, ref, what)
        if io["how"] == "short" and r.rc != 0:
            raise Violation("fails only because the system transfers fewer bytes at once: %s" % r)
        return {"nontrivial": r.rc != 0 or io["how"] == "short", "classes": [j["tool"], "%s %s" % (io["op"], io["how"]), "exit 0" if r.rc == 0 else "exit non-zero"]}
    finally:
        ctx.drop_dir(d)


@st.composite
def resource_cases(draw):
    """too few file descriptors, or too little memory"""
    kind = draw(st.sampled_from(["descriptors", "memory"]))
    if draw(st.integers(0, 4)) == 0:
        j = draw(rs.scenarios(minlimit=1, maxlimit=20))
        j["tool"], j["fails"] = "download", {}
    else:
        j = draw(jobs(("sort", "sort", "sort", "topn", "search", "convert", "diff", "dupes")))
    j["kind"] = kind
    # a program that can't be started at all proves little: they need 4 descriptors (hibp-sort one more for each
    # part, hibp-download for each connection) and 6500 kB (hibp-download 25 MB)
    if kind == "descriptors":
        j["limit of"] = draw(st.integers(4, 40) if j["tool"] == "download" else st.sampled_from([4, 5, 6]) | st.integers(4, 70) if j["tool"] == "sort" else st.sampled_from([4, 4, 4, 5, 6]))
    else:
        j["limit of"] = draw(st.integers(26000, 60000) | st.integers(26000, 400000) if j["tool"] == "download" else st.integers(6500, 8000) | st.integers(6500, 30000))
    return j


def check_resources(j, ctx):
    d = ctx.fresh_dir()
    wrap = ["/bin/sh", "-c", 'ulimit %s %d; exec "$@"' % ("-n" if j["kind"] == "descriptors" else "-v", j["limit of"]), "sh"]
    what = "with only %d %s" % (j["limit of"], "descriptors" if j["kind"] == "descriptors" else "kB of memory")
    try:
        if j["tool"] == "download":
            s, data = rs.server(ctx), rs.Data(j)
            s.play(j, data, {})
            out = os.path.join(d, "out")
            r = run(wrap + rs.argv(ctx, j, out), cwd=d, env=s.env(), signals_ok=True)
            want = data.expected(j["txt"])
            ref, got = {"file": want}, {"file": get(out) if os.path.exists(out) else None}
            if got["file"] is not None and got["file"] != want[:len(got["file"])]:
                raise Violation("%s, what was written is not a prefix of the correct output: %s" % (what, r))
        else:
            recs = prepare(j, d)
            ref, outlen = reference(j, d, ctx, recs)
            before = {f: get(os.path.join(d, f)) for f in os.listdir(d)}
            stdin = get(os.path.join(d, "in.db")) if j.get("in") == "stdin" else None
            r = run(wrap + argv(j, d, ctx, recs, os.path.join(d, "out")), cwd=d, stdin=stdin, signals_ok=True)
            got = outputs(j, d, r.out)
            for f, b in before.items():
                if f in ("in.db", "new.db") and get(os.path.join(d, f)) != b:
                    raise Violation("%s, its input %s was changed: %s" % (what, f, r))
        judge(j, r, got, ref, what)
        started = b"error while loading shared" not in r.err and r.rc != 127
        return {"nontrivial": r.rc != 0 and started, "classes": ["%s: %s" % (j["tool"], j["kind"]), j["kind"] + (": not started" if not started else ": exit 0" if r.rc == 0 else ": exit non-zero")]}
    finally:
        ctx.drop_dir(d)


@st.composite
def download_cases(draw):
    c = draw(rs.scenarios(minlimit=1, maxlimit=20))
    c["fails"] = {}
    c["resume"] = None if c["txt"] else draw(st.one_of(st.none(), st.integers(0, 2**31 - 1)))
    c["where"] = draw(st.one_of(st.integers(0, 2**31 - 1), st.sampled_from(["last byte", "first byte"])))
    c["how"] = draw(st.sampled_from(["limit", "stay", "once", "short", "read"]))
    c["errno"] = draw(st.sampled_from([errno.EIO, errno.ENOSPC]))
    return c


def check_download(case, ctx):
    s = rs.server(ctx)
    data = rs.Data(case)
    want = data.expected(case["txt"])
    if not want:
        return {}
    d = ctx.fresh_dir()
    try:
        out = os.path.join(d, "out")
        s.play(case, data, {})
        have = 0
        extra = []
        if case["resume"] is not None:
            first = len(data.expected(False, 0, 1))
            have = case["resume"] % len(want)
            if not first or have < db.REC[case["type"]] or not data.records(int.from_bytes(want[:4], "big") >> 12):
                have = 0
            if have:
                put(out, want[:have])
                extra = ["--resume"]
        w = case["where"]
        k = {"first byte": have, "last byte": len(want) - 1}.get(w, have + w % (len(want) - have) if isinstance(w, int) else 0)
        env = dict(s.env())
        kw = {}
        if case["how"] == "limit":
            kw["fsize"] = k
        else:
            rd = case["how"] == "read"
            env.update({"LD_PRELOAD": ctx.bins["so:faultio"], "FAULT_PATH": "/out", "FAULT_OP": "read" if rd else "write", "FAULT_AT": str(k - have if not rd else k % 50),
                        "FAULT_ERR": str(case["errno"]), "FAULT_HOW": "stay" if rd else case["how"]})
        r = run(rs.argv(ctx, case, out, extra), cwd=d, env=env, **kw)
        got = get(out) if os.path.exists(out) else b""
        covered = extra and b"Nothing to do" in r.err + r.out
        if r.rc == 0 and got != want:
            raise Violation("reports success, but its output is not complete: %d of %d bytes (%s at byte %d): %s" % (len(got), len(want), case["how"], k, r))
        if case["how"] == "short" and r.rc != 0 and not extra:
            raise Violation("fails only because the system transfers fewer bytes at once: %s" % r)
        return {"nontrivial": r.rc != 0, "classes": [case["how"], "resume" if extra else "fresh", "text" if case["txt"] else case["type"], "exit 0" if r.rc == 0 else "exit non-zero"]}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C18", "fault_enumeration",
            "Hypothesis draws a tool, its options and data; the run without a fault gives the complete output. Then the same run meets a fault: a file size limit at a drawn byte (the write fails or the "
            "process is killed), /dev/full, a closed or broken standard output (arm limit), or a read or write of a chosen file which fails after a drawn number of bytes for good, once, or only transfers less "
            "(arms io and toc, an interposed read/write; arm download), or there are too few descriptors or too little memory (arm resources). With exit status 0 the output must be the complete one. Non-trivial: the fault was met (exit non-zero) or a short transfer was survived.",
            ["rel:" + t for t in TYPES] + ["rel:download", "so:faultio"],
            [Arm("limit", limit_cases(), check_limit, 2400, 60000), Arm("io", io_cases(), check_io, 2400, 60000), Arm("toc", io_cases(tools=("search",)), check_io, 800, 20000), Arm("download", download_cases(), check_download, 700, 20000),
             Arm("resources", resource_cases(), check_resources, 800, 20000)],
            technique="generated fault injection (Hypothesis) with the fault-free run as oracle",
            note="Faults are drawn, not enumerated exhaustively: tool, options, file, kind and byte of the fault.",
            assumptions=["errors that only close() would report are not injected"])
