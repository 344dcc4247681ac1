"""Malformed data is refused cleanly: sanitized builds under generated inputs."""
import os, random, re, signal
from hypothesis import strategies as st
import c17, db, httpd, lookup, rangeserver as rs, toc, tools
from driver import Prop, Arm, Violation
from tools import put, get

TOOLS = ("search", "convert", "sort", "topn", "diff", "dupes", "download", "server")
HASHES = {"search": ("sha1", "ntlm", "sha1t64"), "topn": ("sha1", "ntlm", "sha1t64"), "server": ("sha1", "ntlm", "sha1t64")}
FLAG = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}


def run(*a, **kw):
    r = tools.run(*a, timeout=120, **kw)
    if r.rc == -signal.SIGABRT:
        raise Violation("crash (abort): %s" % r)
    return r


def db_args(ctx, tool, typ, d, f, case):
    """a run which reads the database f"""
    a = [ctx.bins["asan:" + tool]]
    k = case["k"]
    if tool == "search":
        a += [f, ["0" * (2 * db.HS[typ]), "F" * (2 * db.HS[typ]), "7F" * db.HS[typ]][k % 3], "--hash"] + (["--toc", "--toc-bits", str(15 + k % 3)] if case["toc"] else [])
    elif tool == "convert":
        a += ["--bin-to-txt", "-i", f, "--stdout"] + (["-l", str(k % 300)] if k % 4 == 0 else [])
    elif tool == "sort":
        a += ["-i", f] + ["--sort-by-count"] * (k % 2) + (["--max-memory", "0"] if k % 3 == 0 and os.path.getsize(f) < 5000 else [])
    elif tool == "topn":
        a += [f, "-N", str(k % 50), "--stdout"]
    elif tool == "diff":
        other = put(os.path.join(d, "other"), db.pack(db.expand(dict(case["db"], seed=k), typ)) if k % 5 else b"")
        a += [f, other] if k % 2 else [other, f]
    elif tool == "dupes":
        a += [f, "--bits", str(32 + k % 33)]
    return a + (FLAG[typ] if tool != "server" else [])


@st.composite
def sizes(draw):
    tool = draw(st.sampled_from([t for t in TOOLS if t != "download"]))
    typ = draw(st.sampled_from(HASHES.get(tool, ("sha1", "ntlm"))))
    return {"tool": tool, "db": draw(db.specs(types=(typ,), n=st.one_of(st.integers(0, 5), st.integers(0, 400), st.sampled_from(db.around(170, 204, 341, 1000, 2730))))), "over": draw(st.integers(1, db.REC[typ] - 1)),
            "k": draw(st.integers(0, 999)), "toc": draw(st.booleans())}


def check_size(case, ctx):
    tool, typ = case["tool"], case["db"]["type"]
    d = ctx.fresh_dir()
    try:
        f = put(os.path.join(d, "in"), db.pack(db.expand(case["db"])) + b"\x42" * case["over"])
        if tool == "server":
            s = httpd.Server([ctx.bins["asan:server"], "--%s-db" % typ, f] + ["--toc"] * case["toc"], d)
            s.kill()
            if not s.failed:
                raise Violation("the server starts with a database of %d bytes (%s)" % (os.path.getsize(f), typ))
            r = s.failed
            tools.check_sane(r)
        else:
            r = run(db_args(ctx, tool, typ, d, f, case), cwd=d)
        if r.rc == 0:
            raise Violation("accepts a database of %d bytes (%s): %s" % (os.path.getsize(f), typ, r))
        return {"nontrivial": True, "classes": [tool, typ]}
    finally:
        ctx.drop_dir(d)


@st.composite
def contents(draw):
    """databases of valid size with any content"""
    tool = draw(st.sampled_from(["search", "search", "convert", "sort", "topn", "diff", "diff", "dupes"]))
    typ = draw(st.sampled_from(HASHES.get(tool, ("sha1", "ntlm"))))
    return {"tool": tool, "db": draw(db.specs(types=(typ,), n=st.one_of(st.integers(0, 5), st.integers(0, 400)), orders=("sorted", "shuffled", "reverse", "nearly"), unique=False)),
            "k": draw(st.integers(0, 999)), "toc": draw(st.booleans())}


def check_content(case, ctx):
    tool, typ = case["tool"], case["db"]["type"]
    d = ctx.fresh_dir()
    try:
        f = put(os.path.join(d, "in"), db.pack(db.expand(case["db"])))
        r = run(db_args(ctx, tool, typ, d, f, case), cwd=d)
        return {"nontrivial": case["db"]["n"] > 1, "classes": [tool, "exit 0" if r.rc == 0 else "exit non-zero"]}
    finally:
        ctx.drop_dir(d)


# text lines: [kind, seed]
LINE = st.tuples(st.sampled_from(["good", "good", "good", "no count", "long hash", "lower", "short", "shorter", "badchar", "badchar last", "empty", "cr", "colon", "text", "bytes", "nul", "huge", "prefix", "spaces", "utf16", "bad count", "huge count"]),
                 st.integers(0, 2**32 - 1)).map(list)
BADLINES = {"short", "shorter", "badchar", "badchar last", "empty", "cr", "colon", "text", "bytes", "nul", "prefix", "spaces", "utf16"}


def text_line(kind, seed, digits):
    rnd = random.Random(seed)
    h = "%0*X" % (digits, rnd.getrandbits(4 * digits))
    if kind == "badchar" or kind == "badchar last":
        i = digits - 1 if kind == "badchar last" else rnd.randrange(digits)
        c = rnd.choice(("G", "g", "/", ":", "@", "`", " ", "\x7f", "\x80", "\xff", "-", "\t", "Z", "x", "\0"))
        return (h[:i] + c + h[i + 1:] + ":%d" % rnd.randint(0, 99)).encode("latin-1")
    if kind == "bytes":
        b = rnd.randbytes(rnd.randint(1, 90)).replace(b"\n", b"\xfe")
        return b if not re.match(rb"[0-9a-fA-F]{%d}" % digits, b) else b"\xff"
    return {"good": h + ":%d" % rnd.randint(0, 2**31 - 1), "no count": h, "long hash": h + "0123456789" * 3 + ":5", "lower": h.lower() + ":7", "short": h[:-1] + "", "shorter": h[:rnd.randrange(1, digits)],
            "empty": "", "cr": "\r", "colon": ":", "text": rnd.choice(("<html><body>404 not found, try again later please</body></html>", "Too many requests, please slow down your downloads", "hash:count")),
            "nul": "\0" * rnd.randint(1, 60), "huge": h + ":1" + "9" * 100000, "prefix": h[:5], "spaces": " " + h + ":1", "utf16": "\0".join(h[:30]), "bad count": h + ":x1", "huge count": h + ":" + "9" * rnd.randint(10, 40)}[kind].encode()


@st.composite
def texts(draw):
    kinds = draw(st.lists(LINE, min_size=1, max_size=6))
    return {"type": draw(st.sampled_from(["sha1", "ntlm"])), "lines": kinds, "pad": draw(st.sampled_from([0, 0, 0, 3, 998, 1000, 1001])), "eol": draw(st.sampled_from(["\n", "\r\n"])), "end": draw(st.booleans()),
            "stdin": draw(st.booleans()), "where": draw(st.sampled_from(["end", "start"]))}


def check_text(case, ctx):
    typ = case["type"]
    digits = 2 * db.HS[typ]
    pad = [text_line("good", i, digits) for i in range(case["pad"])]
    odd = [text_line(k, s, digits) for k, s in case["lines"]]
    lines = pad + odd if case["where"] == "end" else odd + pad
    eol = case["eol"].encode()
    data = eol.join(lines) + (eol if case["end"] else b"")
    # the last line counts only when there is anything of it
    kinds = [k for k, _ in case["lines"]]
    if not case["end"] and lines[-1] == b"" and (case["where"] == "end" or not pad):
        kinds = kinds[:-1]
    bad = [k for k in kinds if k in BADLINES]
    d = ctx.fresh_dir()
    try:
        f = put(os.path.join(d, "in"), data)
        r = run([ctx.bins["asan:convert"], "--txt-to-bin", "--stdout"] + (["--stdin"] if case["stdin"] else ["-i", f]) + FLAG[typ], cwd=d, stdin=data if case["stdin"] else None)
        if bad and r.rc == 0:
            raise Violation("accepts %s: %r: %s" % (bad, [l[:80] for l in odd], r))
        if not bad and r.rc != 0:
            raise Violation("refuses %s: %r: %s" % (kinds, [l[:80] for l in odd], r))
        if not bad:
            want = [bytes.fromhex(l[:digits].decode()) for l in lines[:len(lines) - (len(case["lines"]) - len(kinds))]]
            got = [h for h, _ in db.unpack(typ, r.out) or []]
            if got != want:
                raise Violation("%d records instead of %d: %s" % (len(got), len(want), r))
        return {"nontrivial": bool(bad), "classes": bad or ["all lines valid"]}
    finally:
        ctx.drop_dir(d)


ARG = st.one_of(st.binary(min_size=1, max_size=60).filter(lambda b: b"\0" not in b), st.text(st.characters(exclude_categories=("Cs",), exclude_characters="\0"), max_size=40).map(lambda s: s.encode()),
                st.tuples(st.sampled_from([b"A", b"0", b"f", b"\xff", b"\xc3\xa9", b"\xf0\x9f\x98\x80", b"G"]), st.sampled_from([1, 15, 16, 17, 31, 32, 33, 39, 40, 41, 63, 64, 65, 1000, 100000])).map(lambda t: (t[0] * t[1])[:120000])).map(lambda b: b.hex())
ARGS = st.fixed_dictionaries({"type": st.sampled_from(["sha1", "ntlm", "sha1t64"]), "query": ARG, "hash": st.booleans(), "n": st.integers(0, 3), "seed": st.integers(0, 999), "toc": st.sampled_from([False, False, True])})


def check_args(case, ctx):
    typ = case["type"]
    d = ctx.fresh_dir()
    try:
        rnd = random.Random(case["seed"])
        recs = sorted({b"\0\0" + rnd.randbytes(db.HS[typ] - 2): 5 for _ in range(case["n"])}.items())
        f = put(os.path.join(d, "in"), db.pack(recs))
        q = bytes.fromhex(case["query"])
        r = run([ctx.bins["asan:search"], f] + FLAG[typ] + ["--hash"] * case["hash"] + ["--toc", "--toc-bits", "15"] * case["toc"] + ["--", q], cwd=d)
        ok = re.fullmatch(rb"[0-9A-F]{%d}" % (2 * db.HS[typ]), q) if case["hash"] else True
        if typ == "ntlm" and not case["hash"]:
            try:
                q.decode()
            except UnicodeDecodeError:
                ok = False
        if r.rc == 0 and not ok:
            raise Violation("answers: %s" % r)
        return {"nontrivial": not ok or not q.isascii(), "classes": ["refused" if not ok else "fine"]}
    finally:
        ctx.drop_dir(d)


@st.composite
def tocs(draw):
    s = draw(toc.dense_specs(complete=False, maxp=40, gaps=False))
    s["p"] = min(s["p"], 2000)
    return {"db": s, "entries": draw(st.sampled_from(["random", "huge", "shuffled", "beyond", "ones", "zero", "reverse", "one wrong"])), "extra": draw(st.sampled_from([0, 0, 0, 0, 1, 4, -1, -4])), "k": draw(st.integers(0, 2**31 - 1)),
            "q": draw(st.sampled_from(toc.QKINDS)), "seed": draw(st.integers(0, 2**32 - 1))}


def check_toc(case, ctx):
    s = case["db"]
    recs = toc.records(s)
    rnd = random.Random(case["seed"])
    d = ctx.fresh_dir()
    try:
        f = put(os.path.join(d, "in"), db.pack(recs))
        os.utime(f, (10**9, 10**9))
        starts = []
        for i, (h, _) in enumerate(recs):
            while len(starts) <= toc.prefix(h, s["bits"]):
                starts.append(i)
        e = case["entries"]
        n = len(starts)
        if e == "random":
            t = [rnd.getrandbits(32) for _ in starts]
        elif e == "huge":
            t = [2**32 - 1 - i for i in range(n)]
        elif e == "shuffled":
            t = rnd.sample(starts, n)
        elif e == "beyond":
            t = [len(recs) + rnd.randint(0, 3) for _ in starts]
        elif e in ("ones", "zero"):
            t = [2**32 - 1 if e == "ones" else 0] * n
        elif e == "reverse":
            t = starts[::-1]
        else:
            t = list(starts)
            t[rnd.randrange(n)] = rnd.choice((len(recs), len(recs) - 1, 2**32 - 1, 2**31, 0))
        b = b"".join(x.to_bytes(4, "little") for x in t)
        b = b + b"\7" * case["extra"] if case["extra"] >= 0 else b[:case["extra"]]
        put(f + ".%d.toc" % s["bits"], b)
        q = toc.query(recs, db.HS[s["type"]], s["bits"], case["q"], case["k"])
        r = run([ctx.bins["asan:search"], f, q.hex().upper(), "--hash", "--toc", "--toc-bits", str(s["bits"])] + FLAG[s["type"]], cwd=d)
        if r.rc == 0 and case["extra"] and lookup.answer(r) != lookup.expect(dict(recs), q):
            raise Violation("a table of contents of the wrong size is trusted: %s" % r)
        return {"nontrivial": True, "classes": [e, "exit 0" if r.rc == 0 else "exit non-zero"]}
    finally:
        ctx.drop_dir(d)


@st.composite
def downloads(draw):
    c = draw(rs.scenarios(minlimit=1, maxlimit=8))
    c["per"], c["flags"] = draw(st.sampled_from(["few", "some"])), []
    c["limit"] = min(8, c["limit"])
    c["lines"] = draw(st.lists(LINE, min_size=1, max_size=4))
    c["bad"] = draw(st.integers(0, c["limit"] - 1))
    c["at"] = draw(st.sampled_from(["end", "start", "only"]))
    c["resume"] = draw(st.sampled_from([None, None, None, "cut", "odd", "random", "empty", "one"])) if not c["txt"] else None
    return c


class OddData(rs.Data):
    def odd(self):
        full = 40 if self.kind == "sha1" else 32
        return [text_line(k, s, full)[5 if k in ("good", "no count", "long hash", "lower", "huge", "bad count", "huge count") else 0:] for k, s in self.case["lines"]]

    def body(self, p, kind=None):
        b = super().body(p, kind)
        if p == self.case["bad"]:
            eol = b"\r\n" if self.case["fmt"]["eol"] == "crlf" else b"\n"
            o = eol.join(self.odd())
            b = {"only": o, "start": o + eol + b, "end": (b if b.endswith(b"\n") or not b else b + eol) + o}[self.case["at"]]
        return b


def line_is_bad(l, digits):
    """the line lacks its five-digit prefix"""
    l = l.rstrip(b"\r")
    return bool(l) and not re.match(rb"[0-9A-Fa-f]{%d}" % (digits - 5), l)


def check_download(case, ctx):
    s = rs.server(ctx)
    data = OddData(case)
    typ = case["type"]
    d = ctx.fresh_dir()
    try:
        out = os.path.join(d, "out")
        s.play(case, data, {})
        extra = []
        good = rs.Data(case).expected(False)
        if case["resume"]:
            rec = db.REC[typ]
            rnd = random.Random(case["seed"])
            put(out, {"cut": good[:rnd.randrange(len(good) + 1)], "odd": good[:rnd.randrange(len(good) + 1) // rec * rec] + b"\3" * 5, "random": rnd.randbytes(rec * rnd.randint(1, 50)), "empty": b"", "one": good[:rec]}[case["resume"]])
            extra = ["--resume"]
        r = run(rs.argv(ctx, case, out, extra, bin="asan:download"), cwd=d, env=s.env())
        bad = any(line_is_bad(l, 2 * db.HS[typ]) for l in data.body(case["bad"]).split(b"\n")) and not case["txt"]
        if not case["resume"] and not case["txt"]:
            if bad and r.rc == 0:
                raise Violation("stores lines which are no hashes: %r: %s" % (data.odd(), r))
            if not bad and r.rc != 0:
                raise Violation("refuses valid lines: %r: %s" % (data.odd(), r))
        return {"nontrivial": bad or bool(case["resume"]), "classes": [k for k, _ in case["lines"]] + (["resume " + case["resume"]] if case["resume"] else [])}
    finally:
        ctx.drop_dir(d)


def sessions_case():
    return c17.cases()


def check_requests(case, ctx):
    info = c17.check(case, ctx, bin="asan:server")
    r = info.pop("result", None)
    if r and (b"Sanitizer" in r.err or b"runtime error" in r.err):
        raise Violation("memory error: %s" % r)
    return info


MUT = st.lists(st.one_of(st.tuples(st.just("flip"), st.integers(0, 10**6), st.integers(1, 255)), st.tuples(st.just("cut"), st.integers(0, 10**6), st.integers(1, 30)), st.tuples(st.just("dup"), st.integers(0, 10**6), st.integers(1, 3000)),
                         st.tuples(st.just("ins"), st.integers(0, 10**6), st.sampled_from(["%", "%0", "%zz", "%00", "%C3", "\\", "..", "//", "?", "#", "\r\n", "\r", "\n", "\0", "\xff", " ", "HTTP/1.1", "[", "(", "A" * 300]))).map(list), max_size=4)
RAW = st.lists(st.fixed_dictionaries({"base": st.sampled_from(["/check/plain/abc", "/check/plain/%C3%A9%20x", "/check/sha1/" + "0" * 40, "/check/ntlm/" + "A" * 32, "/check/sha1t64/" + "F" * 16, "/check/", "*"]),
                                      "method": st.sampled_from(["GET", "GET", "GET", "HEAD", "POST", "OPTIONS", "X"]), "mut": MUT, "random": st.sampled_from([None, None, None, 1, 2, 3])}), min_size=4, max_size=40)
RAWCASE = st.fixed_dictionaries({"reqs": RAW, "seed": st.integers(0, 2**32 - 1), "ntlm": st.booleans()})


def mutate(q, seed):
    b = bytearray(("%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n" % (q["method"], q["base"])).encode())
    if q["random"]:
        b = bytearray(random.Random(q["random"] + seed).randbytes(200))
    for kind, at, x in q["mut"]:
        i = at % (len(b) + 1)
        if kind == "flip" and i < len(b):
            b[i] ^= x
        elif kind == "cut":
            del b[i:i + x]
        elif kind == "dup":
            b[i:i] = bytes(b[i:i + 3]) * x
        elif kind == "ins":
            b[i:i] = x.encode("latin-1")
    return bytes(b)


def check_raw(case, ctx):
    """mutated requests, one connection each; then a good one"""
    d = ctx.fresh_dir()
    srv = None
    try:
        t = "ntlm" if case["ntlm"] else "sha1"
        h = lookup.hash_of(t, "password")
        f = put(os.path.join(d, "in"), db.pack(sorted([(h, 77), (b"\0" * db.HS[t], 1)])))
        srv = httpd.Server([ctx.bins["asan:server"], "--%s-db" % t, f, "--threads", "2"], d)
        if srv.failed:
            raise Violation("the server does not start: %s" % srv.failed)
        import socket
        for q in case["reqs"]:
            s = socket.create_connection(("127.0.0.1", srv.port), 20)
            try:
                s.sendall(mutate(q, case["seed"]))
                s.shutdown(socket.SHUT_WR)
                s.settimeout(.3)
                while s.recv(65536):
                    pass
            except OSError:
                pass
            finally:
                s.close()
            if srv.p.poll() is not None:
                break
        last = httpd.Session([b"GET /check/plain/password HTTP/1.1\r\nHost: x\r\n\r\n"], 1)
        if srv.p.poll() is None:
            httpd.converse(srv.port, [last], 0)
        if not last.replies or last.replies[0] != (200, b"77\n"):
            raise Violation("after %r: a good request is answered %s: %s" % ([mutate(q, case["seed"])[:200] for q in case["reqs"]], last.replies, srv.result()))
        r = srv.stop()
        if b"Sanitizer" in r.err or b"runtime error" in r.err:
            raise Violation("memory error: %s" % r)
        return {"nontrivial": any(q["mut"] or q["random"] for q in case["reqs"]), "classes": ["%d requests" % (len(case["reqs"]) // 10 * 10)]}
    finally:
        if srv:
            srv.kill()
        ctx.drop_dir(d)


PROP = Prop("C20", "exploration",
            "Hypothesis feeds all tools and the server, built with address and undefined behaviour sanitizers: databases of every wrong size (size) and of any content (content), text lines that are no hashes among "
            "ones that are (text), any bytes as pass phrase or hash (args), tables of contents with any entries (toc), response bodies with such lines and any existing file to resume (download), the requests of C17 (requests) and "
            "mutated raw bytes (raw). A model says what must be refused; nothing may crash, abort or trip a sanitizer. Non-trivial: something malformed was in the input.",
            ["asan:" + t for t in TOOLS],
            [Arm("size", sizes(), check_size, 700, 20000), Arm("content", contents(), check_content, 700, 20000), Arm("text", texts(), check_text, 1000, 30000), Arm("args", ARGS, check_args, 800, 25000),
             Arm("toc", tocs(), check_toc, 600, 20000), Arm("download", downloads(), check_download, 400, 10000), Arm("requests", c17.cases(), check_requests, 80, 4000), Arm("raw", RAWCASE, check_raw, 60, 4000)],
            technique="structured fuzzing (Hypothesis) of sanitized builds with a model of what must be refused",
            note="Exploration. Alignment is not checked: the comparison code loads unaligned words by design. Memory errors that the sanitizers cannot see are out of reach.")
