"""Every request is answered from the right database, in any mix of connections."""
import hashlib, os, random, re
from hypothesis import strategies as st
import db, httpd, lookup, toc
from driver import Prop, Arm, Violation
from tools import put

SAFE = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~!$&'()*+,;=:@")
PW = st.one_of(st.text(st.characters(exclude_categories=("Cs",)), min_size=1, max_size=10), st.text("abcXYZ019 +%/?#&=;:@!'()*~._-\\\"<>\t", min_size=1, max_size=8),
               st.sampled_from(["password", "p\u00e4ss w\u00f6rd", "100%", "a/b", "a+b", "\U0001f600", "%41", "..", "?", "#"]))
USUAL = [
    st.tuples(st.just("hash"), st.sampled_from(["sha1", "ntlm", "sha1t64"]), st.sampled_from(["rec", "rec", "rec", "next", "prev", "random", "first", "last"]), st.integers(0, 2**31 - 1)),
    st.tuples(st.just("hash"), st.sampled_from(["sha1", "ntlm", "sha1t64"]), st.sampled_from(["rec", "rec", "next", "random"]), st.integers(0, 2**31 - 1)),
    st.tuples(st.sampled_from(["plain", "plain", "plain stored"]), st.just(""), PW, st.integers(0, 2**31 - 1)),
    st.tuples(st.just("plain"), st.just(""), st.tuples(st.sampled_from([50, 60, 120, 250, 1000, 1020, 2600]), st.sampled_from("aZ\u00e9\u20ac")).map(lambda t: t[1] * (t[0] // len(t[1].encode()))), st.just(0)),
]
ODD = [
    st.tuples(st.just("bad hash"), st.sampled_from(["sha1", "ntlm", "sha1t64"]), st.sampled_from(["short", "long", "lower", "nonhex", "othertype", "mixed"]), st.integers(0, 2**31 - 1)),
    st.tuples(st.just("bytes"), st.just(""), st.binary(min_size=1, max_size=6).map(bytes.hex), st.just(0)),
    st.tuples(st.just("path"), st.just(""), st.sampled_from(["/", "/check", "/check/sha1", "/check/md5/%s" % ("A" * 32), "/check/plain/a/b", "/other/plain/x", "/check/sha256/x", "/checks/plain/x", "/check/plaintext/x", "/favicon.ico"]), st.just(0)),
    st.tuples(st.just("raw"), st.just(""), st.sampled_from(["garbage", "half", "post", "head", "http10", "longheader", "badversion", "nohost", "longpath", "overlongpath", "binary", "lf", "chunked", "control"]), st.integers(0, 2**31 - 1)),
]
# nothing of this has a say in the answer
HEADERS = ["Accept: */*", "Accept: application/json", "Accept: text/html,application/xhtml+xml;q=0.9", "Accept: text/plain", "Connection: keep-alive", "User-Agent: x", "User-Agent: Mozilla/5.0 (X11; Linux x86_64)",
           "Accept-Encoding: gzip, deflate, br", "Accept-Language: de-DE", "Accept-Charset: utf-16", "If-None-Match: \"1\"", "If-None-Match: *", "If-Modified-Since: Fri, 01 Jan 2100 00:00:00 GMT", "Range: bytes=0-0",
           "Cache-Control: no-cache", "Cache-Control: only-if-cached", "Cookie: a=b", "Cookie: " + "c" * 3000, "Authorization: Basic eDp5", "Origin: http://elsewhere.example", "Referer: http://elsewhere.example/check/plain/x",
           "X-Forwarded-For: 198.51.100.1", "X-Real-IP: 127.0.0.1", "Content-Length: 0", "Content-Type: application/json", "X-HTTP-Method-Override: DELETE", "DNT: 1", "Hibp-Count: 1", "Forwarded: for=198.51.100.1", "Keep-Alive: timeout=1, max=1"]
HOSTS = ["localhost", "localhost", "127.0.0.1:8082", "example.com", "[::1]", "LOCALHOST:1"]
# (not by a filter, which would reject most of the larger cases)
GOOD = st.one_of(*USUAL, *USUAL, *ODD).map(list)


@st.composite
def sessions(draw):
    return draw(st.lists(st.fixed_dictionaries({"reqs": st.sampled_from([1, 2, 3, 5, 8]).flatmap(lambda n: st.lists(GOOD, min_size=n, max_size=n)),
                                                "how": st.sampled_from(["each", "each", "pipelined", "pieces"])}), min_size=1, max_size=6))


@st.composite
def cases(draw):
    use = draw(st.sampled_from([["sha1"], ["ntlm"], ["sha1t64"], ["sha1", "ntlm"], ["sha1", "sha1t64"], ["ntlm", "sha1t64"], ["sha1", "ntlm", "sha1t64"]]))
    tocbits = draw(st.sampled_from([None, None, 15, 16, 20, "default"]))
    dbs = {}
    for t in use:
        if tocbits:
            s = draw(toc.dense_specs(types=(t,), complete=tocbits == 15, gaps=False))
            if s["p"] > 3000:
                s["p"], s["bits"] = 1 << 15, 15
            else:
                s["bits"] = 20 if tocbits == "default" else tocbits
            dbs[t] = s
        else:
            dbs[t] = draw(db.specs(types=(t,), n=st.one_of(st.integers(1, 20), st.integers(0, 600))))
    return {"dbs": dbs, "toc": tocbits, "json": draw(st.booleans()), "threads": draw(st.sampled_from([1, 2, 3, 4, None])), "sessions": draw(sessions()), "seed": draw(st.integers(0, 2**32 - 1))}


def encode(pw, rnd):
    return "".join(chr(c) if c in SAFE and rnd.random() < .9 else "%%%02X" % c if rnd.random() < .8 else "%%%02x" % c for c in pw)


class Model:
    def __init__(self, case):
        self.case = case
        self.recs = {}
        for t, s in case["dbs"].items():
            self.recs[t] = dict(toc.records(s) if case["toc"] else db.expand(s, t))
        self.plaintype = [t for t in ("sha1", "sha1t64", "ntlm") if t in self.recs][0]
        self.rnd = random.Random(case["seed"])
        for s in case["sessions"]:              # store what "plain stored" asks for
            for r in s["reqs"]:
                if r[0] == "plain stored":
                    self.store(r)
        self.lists = {t: sorted(r) for t, r in self.recs.items()}

    def store(self, r):
        t = self.plaintype
        if self.case["toc"]:
            # only a password whose prefix the table has already
            spec = self.case["dbs"][t]
            for i in range(2000 if t != "ntlm" else 300):
                pw = r[2] + (str(i) if i else "")
                h = lookup.hash_of(t, pw)
                if toc.prefix(h, spec["bits"]) < spec["p"]:
                    r[2] = pw
                    break
            else:
                return
        else:
            h = lookup.hash_of(t, r[2])
        self.recs[t].setdefault(h, 1 + len(r[2]) * 3)

    def answer(self, t, h):
        return (200, self.recs[t].get(h, -1))

    def request(self, r):
        """-> bytes, expectation: (200, count) | (400,) | (404,) | ('not 200',) | None (no complete request)"""
        kind, t, what, k = r
        if kind in ("hash", "bad hash"):
            hs = db.HS[t]
            l = self.lists.get(t) or [hashlib.sha512(b"%d" % k).digest()[:hs]]
            base = l[[0, len(l) - 1, k % len(l)][k % 3] if what not in ("first", "last") else 0 if what == "first" else -1]
            h = {"next": db.neighbour(base, 1), "prev": db.neighbour(base, -1), "random": hashlib.sha512(b"%d" % k).digest()[:hs]}.get(what, base) or base
            x = h.hex().upper()
            if kind == "hash":
                return self.get("/check/%s/%s" % (t, x)), self.answer(t, h) if t in self.recs else (400,)
            if what == "short":
                x = x[:-1 - k % 5]
            elif what == "long":
                x += "0A1"[:1 + k % 3]
            elif what == "lower":
                x = x.lower() if x.lower() != x else x[:-1] + "a"
            elif what == "mixed":
                x = x[:-1] + "f"
            elif what == "nonhex":
                p = k % len(x)
                x = x[:p] + "GZgz:@-"[k % 7] + x[p + 1:]
            else:
                x = {"sha1": x[:32], "ntlm": x + "01234567", "sha1t64": x + "0" * 24}[t]
            return self.get("/check/%s/%s" % (t, x)), (400,)
        if kind in ("plain", "plain stored"):
            t = self.plaintype
            return self.get("/check/plain/" + encode(what.encode(), self.rnd)), self.answer(t, lookup.hash_of(t, what))
        if kind == "bytes":
            b = bytes.fromhex(what)
            t = self.plaintype
            try:
                b.decode()
                exp = self.answer(t, lookup.ntlm(b.decode()) if t == "ntlm" else hashlib.sha1(b).digest()[:db.HS[t]])
            except UnicodeDecodeError:           # restinio ends the connection, without any reply
                exp = ("maybe", None if t == "ntlm" else self.answer(t, hashlib.sha1(b).digest()[:db.HS[t]]))
            return self.get("/check/plain/" + encode(b, self.rnd)), exp
        if kind == "path":
            return self.get(what), (404,)
        x = "/check/plain/password"
        good = self.answer(self.plaintype, lookup.hash_of(self.plaintype, "password"))
        if what == "http10":
            return ("GET %s HTTP/1.0\r\nConnection: keep-alive\r\n\r\n" % x).encode(), good
        if what == "nohost":
            return ("GET %s HTTP/1.1\r\n\r\n" % x).encode(), good
        if what == "post":
            return ("POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: 3\r\n\r\nabc" % x).encode(), ("not 200",)
        if what == "head":
            return ("HEAD %s HTTP/1.1\r\nHost: x\r\n\r\n" % x).encode(), None
        raw = {"garbage": b"this is not http\r\n\r\n", "half": b"GET /check/pl", "longheader": b"GET / HTTP/1.1\r\nX: " + b"a" * 100000 + b"\r\n\r\n",
               "badversion": b"GET /check/plain/x HTTP/9.9\r\n\r\n", "longpath": b"GET /check/plain/" + b"a" * 70000 + b" HTTP/1.1\r\n\r\n", "overlongpath": b"GET /check/plain/" + b"b" * (200000 + k % 100000) + b" HTTP/1.1\r\n\r\n",
               "binary": random.Random(k).randbytes(200), "lf": b"GET /check/plain/x HTTP/1.1\n\n", "chunked": b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzzz\r\n",
               "control": b"GET /check/plain/\x00\x01 HTTP/1.1\r\n\r\n"}[what]
        return raw, None

    def get(self, path):
        v = "".join(h + "\r\n" for h in self.rnd.sample(HEADERS, self.rnd.choice((0, 0, 1, 1, 2, 5))))
        return ("GET %s HTTP/1.1\r\nHost: %s\r\n%s\r\n" % (path, self.rnd.choice(HOSTS), v)).encode()


def right(reply, exp, json):
    status, body = reply
    if exp[0] == "maybe":
        if status != 200:
            return True
        if not exp[1]:
            return False
        exp = exp[1]
    if exp[0] == "not 200":
        return status != 200
    if status != exp[0]:
        return False
    if status != 200:
        return True
    return (re.fullmatch(rb'\{\s*"?count"?\s*:\s*(-?\d+)\s*\}\s*', body) if json else re.fullmatch(rb"(-?\d+)\s*", body)) is not None and \
        int(re.search(rb"-?\d+", body).group()) == exp[1]


def plan(case, model):
    """-> Sessions with their expectations"""
    out = []
    for s in case["sessions"]:
        reqs = [model.request(r) for r in s["reqs"]]
        cut = next((i for i, (_, e) in enumerate(reqs) if e is None or e[0] == "maybe"), None)
        if cut is not None:                      # malformed: nothing follows it
            reqs = reqs[:cut + 1]
        if cut is None and s["reqs"][-1][0] in ("hash", "plain", "path") and model.rnd.random() < .3:
            b, e = reqs[-1]                      # the client announces that this was its last request
            reqs[-1] = (b[:-2] + b"Connection: close\r\n\r\n" if b"Connection:" not in b else b, e)
        exps = [e for _, e in reqs if e is not None]
        sure = [e for e in exps if e[0] != "maybe"]
        # the server closes after an error: at least the replies up to the first error are due
        due = next((i + 1 for i, e in enumerate(sure) if e[0] != 200), len(sure))
        blob = b"".join(b for b, _ in reqs)
        if s["how"] == "each":
            pieces = [b for b, _ in reqs]
        elif s["how"] == "pipelined":
            pieces = [blob]
        else:
            cuts = sorted({model.rnd.randrange(len(blob)) for _ in range(model.rnd.randint(1, 6))} - {0})
            pieces = [blob[a:b] for a, b in zip([0] + cuts, cuts + [len(blob)])]
        x = httpd.Session(pieces, due, gate=s["how"] == "each")
        x.exps, x.reqs, x.due, x.more = exps, s["reqs"], due, due < len(reqs)
        x.how = s["how"]
        x.malformed = cut is not None
        out.append(x)
    return out


def argv(ctx, case, files, bin):
    a = [ctx.bins[bin]]
    for t, f in files.items():
        a += ["--%s-db" % t, f]
    a += ["--json"] if case["json"] else []
    if case["toc"]:
        a += ["--toc"] + (["--toc-bits", str(case["toc"])] if case["toc"] != "default" else [])
    a += ["--perf-test"] if case.get("perf") else []
    n = case["threads"]
    if n and n <= (os.cpu_count() or 1):
        a += ["--threads", str(n)]
    return a


def check(case, ctx, bin="rel:server"):
    import copy
    case = copy.deepcopy(case)
    model = Model(case)
    d = ctx.fresh_dir()
    srv = None
    try:
        files = {}
        for t in case["dbs"]:
            files[t] = put(os.path.join(d, t + ".bin"), db.pack(sorted(model.recs[t].items())))
        srv = httpd.Server(argv(ctx, case, files, bin), d)
        if srv.failed:
            raise Violation("the server does not start: %s" % srv.failed)
        ss = plan(case, model)
        fin = httpd.converse(srv.port, ss, case["seed"])
        cl = set()
        for x in ss:
            what = "requests %s (%s) of %d sessions" % (x.reqs, x.how, len(ss))
            for i, rep in enumerate(x.replies):
                if i < len(x.exps):
                    if not right(rep, x.exps[i], case["json"]):
                        raise Violation("%s: reply %d is %s, expected %s: %s" % (what, i, rep, x.exps[i], srv.result()))
                elif rep[0] == 200 and not x.malformed:
                    raise Violation("%s: %d replies to %d requests" % (what, len(x.replies), len(x.exps)))
            # restinio ends connections on which more than a few requests are pipelined: those after the first may stay without
            # an answer; and an error reply can be overtaken by the reset when further requests follow it
            lost = x.closed and x.how != "each" and (len(x.replies) >= min(x.due, 1) or x.more)
            if len(x.replies) < x.due and not lost:
                raise Violation("%s: %d replies, expected %d (closed: %s): %s" % (what, len(x.replies), x.due, x.closed, srv.result()))
            cl |= {"%s" % r[0] for r in x.reqs} | {x.how} | {"reply %s" % e[0] for e in x.exps} | {"found"} if any(e[0] == 200 and e[1] != -1 for e in x.exps) else {x.how}
        # and it still answers
        b, e = model.request(["plain", "", "password", 0])
        last = httpd.Session([b], 1)
        httpd.converse(srv.port, [last], 0)
        if not last.replies or not right(last.replies[0], e, case["json"]):
            raise Violation("afterwards, a good request is answered %s, expected %s: %s" % (last.replies, e, srv.result()))
        r = srv.stop()
        import tools
        tools.check_sane(r)
        n = sum(len(x.exps) for x in ss)
        return {"nontrivial": n >= 2, "result": r, "classes": list(cl) + ["concurrent sessions"] * (len(ss) > 1) + ["toc"] * bool(case["toc"]) + ["json"] * case["json"] + ["plain: " + model.plaintype] + ["%s database" % t for t in files]}
    finally:
        if srv:
            srv.kill()
        ctx.drop_dir(d)


@st.composite
def storms(draw):
    use = draw(st.sampled_from([["sha1"], ["ntlm"], ["sha1t64"], ["sha1", "ntlm", "sha1t64"]]))
    bits = draw(st.sampled_from([None, None, 15]))
    dbs = {t: {"type": t, "bits": 15, "p": draw(st.sampled_from([700, 1 << 15])), "gap": None, "per": draw(st.sampled_from([1, 5])), "ends": 0, "seed": draw(st.integers(0, 2**32 - 1))} for t in use}
    return {"dbs": dbs, "toc": bits, "json": draw(st.booleans()), "threads": draw(st.sampled_from([2, 3, 4, None])), "perf": draw(st.integers(0, 3)) == 0, "sessions": [], "conns": draw(st.integers(2, 24)), "rounds": draw(st.integers(20, 80)), "seed": draw(st.integers(0, 2**32 - 1))}


def storm(case, ctx, bin="rel:server"):
    """many connections have a request under way at every moment"""
    import socket, threading
    model = Model(dict(case, toc=15))
    model.plaintype = [t for t in ("sha1", "sha1t64", "ntlm") if t in case["dbs"]][0]
    perf = {-1} | set(model.recs[model.plaintype].values())
    d = ctx.fresh_dir()
    srv = None
    rnd = random.Random(case["seed"])
    try:
        files = {t: put(os.path.join(d, t + ".bin"), db.pack(sorted(model.recs[t].items()))) for t in case["dbs"]}
        srv = httpd.Server(argv(ctx, case, files, bin), d)
        if srv.failed:
            raise Violation("the server does not start: %s" % srv.failed)
        ss = [socket.create_connection(("127.0.0.1", srv.port), 20) for _ in range(case["conns"])]
        for s in ss:
            s.settimeout(httpd.ANSWER)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        try:
            for _ in range(case["rounds"]):
                rs = []
                for s in ss:
                    r = ["hash", rnd.choice(sorted(case["dbs"])), rnd.choice(("rec", "rec", "rec", "next", "random")), rnd.getrandbits(31) | 2]
                    if rnd.random() < .1:
                        r = ["plain", "", "pw%d" % rnd.getrandbits(20), 0]
                    rs.append((r,) + model.request(r))
                for s, (_, b, _) in zip(ss, rs):
                    s.sendall(b)
                for s, (r, _, e) in zip(ss, rs):
                    buf = b""
                    while True:
                        x = httpd.parse(buf)
                        if x:
                            break
                        try:
                            y = s.recv(65536)
                        except OSError as err:
                            y = b""
                        if not y:
                            raise Violation("request %s of %d concurrent ones stays without answer: %s" % (r, len(ss), srv.result()))
                        buf += y
                    if case.get("perf") and r[0] == "plain" and not x[2] and any(right(x[:2], (200, c), case["json"]) for c in perf):
                        continue            # the password is altered on purpose
                    if x[2] or not right(x[:2], e, case["json"]):
                        raise Violation("request %s of %d concurrent ones is answered %s, expected %s" % (r, len(ss), x, e))
        finally:
            for s in ss:
                s.close()
        r = srv.stop()
        import tools
        tools.check_sane(r)
        return {"nontrivial": True, "result": r, "classes": ["%d requests" % (len(ss) * case["rounds"] // 200 * 200), "toc" if case["toc"] else "no toc"]}
    finally:
        if srv:
            srv.kill()
        ctx.drop_dir(d)


PROP = Prop("C17", "exploration",
            "Hypothesis draws one to three databases, options, and up to six concurrent connections with up to eight requests each (stored, absent, neighbouring and invalid hashes, "
            "pass phrases over all of Unicode and raw bytes with different percent-encodings, wrong paths, malformed requests), sent one by one, pipelined or in pieces in a drawn interleaving. "
            "Each reply is compared with a dictionary model; afterwards the server must still answer. Arm storm keeps a request under way on up to 24 connections at once for up to 80 rounds. Non-trivial: at least two requests with an expected reply.",
            ["rel:server"], [Arm("requests", cases(), check, 1600, 40000), Arm("storm", storms(), storm, 80, 3000)],
            technique="model-based testing (Hypothesis) of concurrent request sequences against a dictionary",
            note="Exploration: every reply in a generated set of sessions is decided; the server's thread schedule is the machine's.",
            assumptions=["SHA1 comes from a stand-in for the hash-library submodule that is absent from this checkout",
                         "restinio closes a connection with more than about three pipelined requests: pipelined requests after the first may stay unanswered (then the connection is closed)"])
