"""A range server under control of a generated scenario: it decides in which order the responses to the parallel
requests proceed, how they are framed and split, and which attempts fail and how."""
import os, random, selectors, socket, struct, threading, time
from hypothesis import strategies as st
import db
from driver import Inconclusive

SUFFIX = {"sha1": 35, "ntlm": 27}
FAILS = ["500 empty", "503 text", "404 records", "429 records", "301 records", "500 records", "206 records", "cut", "cut at line", "cut late", "chunk cut", "chunk cut at line",
         "reset", "reset early", "garbage", "empty"]
CLEAN = ["500 empty", "503 text", "404 records", "429 records", "500 records"]      # complete responses: seen as exactly one attempt each


class Data:
    """the records behind each prefix, made on demand"""

    def __init__(self, case):
        self.case, self.cache = case, {}
        self.kind = "ntlm" if case["type"] == "ntlm" else "sha1"

    def records(self, p, kind=None):
        kind = kind or self.kind
        key = (p, kind)
        if key not in self.cache:
            c = self.case
            rnd = random.Random("%d/%d/%s" % (c["seed"], p, kind))
            n = rnd.choice({"few": (1, 1, 2, 3), "some": (1, 2, 5, 9, 20), "gaps": (0, 0, 1, 2, 3), "many": (1, 2, 3)}[c["per"]])
            if c["per"] == "many" and p % 3 == c["seed"] % 3:
                n = c["big"]
            full = 40 if kind == "sha1" else 32
            hs = set()
            while len(hs) < n:
                if rnd.random() < .2:       # extremes and near neighbours
                    hs.add("%05X" % p + rnd.choice(("0" * (full - 5), "F" * (full - 5), "0" * (full - 6) + "1")))
                else:
                    hs.add("%05X" % p + "%0*X" % (full - 5, rnd.getrandbits(4 * (full - 5))))
            if c["type"] == "sha1t64":      # some of them with the same first 64 bits
                hs = list({h[:16]: h for h in hs}.values())
                for h in sorted(hs) if c.get("twins") else ():
                    hs += [h[:16] + "%024X" % rnd.getrandbits(96) for _ in range(rnd.choice((0, 0, 1, 1, 2)))]
                hs = set(hs)
            self.cache[key] = [(h, rnd.choice((rnd.randint(1, 99), rnd.randint(1, 10**7), 2**31 - 1, 1, 0))) for h in sorted(hs)]
        return self.cache[key]

    def body(self, p, kind=None):
        f = self.case["fmt"]
        eol = {"crlf": "\r\n", "lf": "\n"}[f["eol"]]
        s = eol.join("%s:%d" % (h[5:], c) for h, c in self.records(p, kind))
        if s and f["last"] != "none":
            s += eol * (2 if f["last"] == "two" else 1)
        return s.encode()

    def expected(self, txt, start=0, limit=None):
        limit = self.case["limit"] if limit is None else limit
        n = db.HS[self.case["type"]]
        out = []
        for p in range(start, limit):
            for h, c in self.records(p):
                out.append(b"%s:%d\n" % (h.encode(), c) if txt else bytes.fromhex(h)[:n] + struct.pack("<i", c))
        return b"".join(out)


class Conn:
    def __init__(self, s):
        self.s, self.inb, self.pieces, self.end, self.prio, self.out, self.held, self.good = s, b"", [], None, None, b"", False, None


class RangeServer:
    """one per worker process; `play` sets the scenario"""

    def __init__(self):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(512)
        self.l.setblocking(False)
        self.port = self.l.getsockname()[1]
        self.sel = selectors.DefaultSelector()
        self.sel.register(self.l, selectors.EVENT_READ)
        self.rp, self.wp = os.pipe()
        self.sel.register(self.rp, selectors.EVENT_READ)
        self.lock = threading.Lock()
        self.conns = {}
        self.next = None
        self.case = None
        self.idle = threading.Event()
        self.stop = False
        self.error = None
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def env(self):
        return {"http_proxy": "http://127.0.0.1:%d" % self.port}

    def play(self, case, data, fails):
        """fails: {prefix: [kind per attempt]}, the last kind '*' repeats the one before it forever, 'hang' never answers"""
        self.idle.clear()
        self.next = (case, data, {int(k): list(v) for k, v in fails.items()})
        os.write(self.wp, b"x")
        if not self.idle.wait(30):
            raise Inconclusive("the range server does not react: %s" % self.error)

    def close(self):
        self.stop = True
        os.write(self.wp, b"x")
        self.t.join(5)

    def drop(self, c, reset=False):
        if reset:
            c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.conns.pop(c.s, None)
        try:
            self.sel.unregister(c.s)
        except KeyError:
            pass
        c.s.close()

    def loop(self):
        try:
            self.loop_()
        except BaseException as e:
            import traceback
            self.error = traceback.format_exc()

    def loop_(self):
        while not self.stop:
            if self.next:
                for c in list(self.conns.values()):
                    self.drop(c)
                self.case, self.data, self.fails = self.next
                self.rnd = random.Random(self.case["order"]["seed"])
                self.attempts, self.log, self.modes, self.most, self.done, self.short, self.next = {}, [], set(), 0, set(), None, None
                quiet = time.time()
                self.idle.set()
            waiting = [c for c in self.conns.values() if c.prio is not None]
            free = [c for c in waiting if not c.held]     # the held ones only go on when nothing else happens any more
            ev = self.sel.select(0.001 * self.case["order"]["ms"] if free else 0.05 if waiting else 1)
            for k, m in ev:
                if k.fileobj is self.l:
                    try:
                        s, _ = self.l.accept()
                    except OSError:
                        continue
                    s.setblocking(False)
                    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                    self.conns[s] = Conn(s)
                    self.sel.register(s, selectors.EVENT_READ)
                elif k.fileobj == self.rp:
                    os.read(self.rp, 100)
                else:
                    c = self.conns.get(k.fileobj)
                    if c and m & selectors.EVENT_READ:
                        self.readable(c)
                    if c and c.s.fileno() >= 0 and m & selectors.EVENT_WRITE:
                        self.flush(c)
            if ev:
                quiet = time.time()
            if waiting and self.done and self.case["order"].get("barrier"):     # libcurl looks at the first response before it opens more connections
                # nothing proceeds before there are as many requests as there should be, or they fail to come
                want = min(self.case["par"] or 300, self.case["limit"] - self.case.get("first", 0) - len(self.done))
                if len(waiting) < want:
                    if time.time() - quiet < 3:
                        continue
                    self.short = self.short or (len(waiting), want)
            if not ev and waiting:
                waiting = free or waiting
                waiting.sort(key=lambda c: c.prio)
                for c in waiting[:self.case["order"]["batch"]]:
                    self.advance(c)

    def readable(self, c):
        try:
            b = c.s.recv(65536)
        except BlockingIOError:
            return
        except OSError:
            b = b""
        if not b:
            return self.drop(c)
        c.inb += b
        self.request(c)

    def request(self, c):
        if c.prio is None and not c.out and b"\r\n\r\n" in c.inb:
            head, c.inb = c.inb.split(b"\r\n\r\n", 1)
            path = head.split(b"\r\n")[0].split(b" ")[1].decode("latin-1")
            path = path.split("//", 1)[-1].split("/", 1)[-1]
            mode = "ntlm" if path.endswith("?mode=ntlm") else "sha1"
            pre = path.split("?")[0]
            try:
                p = int(pre, 16)
            except ValueError:
                p = -1
            if p < 0 or len(pre) != 5:
                c.pieces, c.end = [b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"], "keep"
            else:
                a = self.attempts[p] = self.attempts.get(p, 0) + 1
                self.log.append(p)
                self.modes.add(mode)
                fl = self.fails.get(p, [])
                kind = None
                if a <= len(fl):
                    kind = fl[a - 1]
                elif fl and fl[-1] == "*":
                    kind = "*"
                if kind == "*":
                    cyc = fl[:-1]
                    kind = cyc[(a - 1) % len(cyc)]
                self.respond(c, p, mode, kind)
            c.held = p in self.case["order"].get("hold", ())
            c.prio = self.rnd.random()
            self.most = max(self.most, sum(x.prio is not None for x in self.conns.values()))
            if self.case["order"]["how"] == "fifo":
                c.prio = len(self.log)
            elif self.case["order"]["how"] == "lifo":
                c.prio = -len(self.log)

    def respond(self, c, p, mode, kind):
        f = self.case["fmt"]
        body = self.data.body(p, mode)
        line_end = body.rfind(b"\n", 0, max(1, len(body) - 1)) + 1
        c.end = "keep"
        c.good = p if kind is None else None
        half = self.rnd.randrange(len(body)) if body else 0
        H = b"HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\n"
        if kind is None:
            if f["frame"] == "length":
                h, b = H + b"Content-Length: %d\r\n\r\n" % len(body), [body]
            elif f["frame"] == "chunked":
                b, i = [], 0
                while i < len(body):
                    n = self.rnd.randint(1, 1 + len(body) // 2)
                    b.append(b"%x\r\n%s\r\n" % (len(body[i:i + n]), body[i:i + n]))
                    i += n
                h, b = H + b"Transfer-Encoding: chunked\r\n\r\n", b + [b"0\r\n\r\n"]
            else:
                h, b, c.end = H + b"Connection: close\r\n\r\n", [body], "close"
            c.pieces = self.split([h] + b)
        elif kind[:3].isdigit():
            b = {"empty": b"", "text": b"Service: unavailable, try: again later\r\n", "records": body[:max(half, line_end)]}[kind[4:]]
            c.pieces = self.split([b"HTTP/1.1 %s Status\r\nContent-Length: %d\r\n" % (kind[:3].encode(), len(b)) + (b"Location: http://localhost:8090/%05X\r\n" % p if kind[0] == "3" else b"") + b"\r\n", b])
        elif kind in ("cut", "cut at line", "cut late"):
            n = {"cut": half, "cut at line": line_end, "cut late": max(0, len(body) - 1)}[kind]
            c.pieces, c.end = self.split([H + b"Content-Length: %d\r\n\r\n" % (len(body) + (not body)), body[:n]]), "close"
        elif kind in ("chunk cut", "chunk cut at line"):
            n = half if kind == "chunk cut" else line_end
            c.pieces, c.end = self.split([H + b"Transfer-Encoding: chunked\r\n\r\n"] + ([b"%x\r\n%s\r\n" % (n, body[:n])] if n else [])), "close"
        elif kind == "reset":
            c.pieces, c.end = self.split([H + b"Content-Length: %d\r\n\r\n" % (len(body) + 1), body[:half]]), "reset"
        elif kind == "reset early":
            c.pieces, c.end = [], "reset"
        elif kind == "garbage":
            c.pieces, c.end = [b"\0\1\2 no http at all \r\n\r\n" + body], "close"
        elif kind == "empty":
            c.pieces, c.end = [], "close"
        elif kind == "hang early":
            c.pieces, c.end = [b""], "hang"
        elif kind == "hang":
            c.pieces, c.end = [H + b"Content-Length: %d\r\n\r\n" % (len(body) + 1000), body], "hang"
        else:
            raise ValueError(kind)

    def split(self, parts):
        data = b"".join(parts)
        k = self.rnd.randint(0, self.case["order"]["splits"])
        cuts = sorted({self.rnd.randrange(len(data)) for _ in range(k)} - {0}) if data else []
        return [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]

    def advance(self, c):
        """sends the next piece of this response, or ends it"""
        if c.out:
            return
        if c.pieces:
            c.out = c.pieces.pop(0)
            self.flush(c)
            if c.s.fileno() < 0:
                return
            if self.case["order"]["how"] == "random" and c.prio is not None:
                c.prio = self.rnd.random()
        if not c.pieces and not c.out:
            self.finish(c)

    def finish(self, c):
        if c.prio is None:
            return
        if c.good is not None:
            self.done.add(c.good)
        if c.end == "keep":
            c.prio = None
            self.request(c)
        elif c.end == "hang":
            c.prio = None
            c.end = None
        else:
            self.drop(c, c.end == "reset")

    def flush(self, c):
        try:
            n = c.s.send(c.out)
        except BlockingIOError:
            n = 0
        except OSError:
            return self.drop(c)
        c.out = c.out[n:]
        self.sel.modify(c.s, selectors.EVENT_READ | (selectors.EVENT_WRITE if c.out else 0))
        if not c.out and not c.pieces and c.prio is not None:
            self.finish(c)


def server(ctx):
    if "range" not in ctx.store:
        ctx.store["range"] = RangeServer()
    return ctx.store["range"]


ORDER = st.fixed_dictionaries({"seed": st.integers(0, 2**32 - 1), "how": st.sampled_from(["random", "random", "lifo", "fifo"]), "batch": st.sampled_from([1, 1, 2, 5, 50]),
                               "splits": st.sampled_from([0, 0, 1, 3]), "ms": st.sampled_from([1, 1, 1, 2])})
FMT = st.fixed_dictionaries({"eol": st.sampled_from(["crlf", "crlf", "lf"]), "last": st.sampled_from(["none", "one", "two"]), "frame": st.sampled_from(["length", "length", "chunked", "close"])})


@st.composite
def scenarios(draw, txt=True, maxlimit=40, minlimit=0):
    typ = draw(st.sampled_from(["sha1", "ntlm", "sha1t64"]))
    limit = draw(st.sampled_from([minlimit, 1] + [2, 3, 4, 5, 6, 7, 8] * 2 + [10, 12, 15, 16, 17, 20, 25, 30, 33, maxlimit]))
    per = draw(st.sampled_from(["few", "few", "some", "gaps", "some", "many"]))
    c = {"type": typ, "txt": draw(st.sampled_from([False, False, True])) if txt and typ != "sha1t64" else False, "limit": limit,
         "par": draw(st.one_of(st.integers(1, 6), st.integers(1, 60), st.sampled_from([None, None, None, None, 300, 1000, 65536, 2**32, 2**32 + 1, 2**63]))), "seed": draw(st.integers(0, 2**32 - 1)), "per": per,
         "fmt": draw(FMT), "order": draw(ORDER), "flags": draw(st.sampled_from([[], ["--no-progress"], ["--debug"]]))}
    if per == "many":
        c["limit"] = min(limit, 9)
        c["big"] = draw(st.sampled_from([300, 900, 3000, 3400, 10001]))
    return c


def fails(limit, kinds=FAILS, most=5, upto=4):
    if limit == 0:
        return st.just({})
    seq = st.sampled_from(list(range(1, most + 1)) + [most] * 2).flatmap(lambda n: st.lists(st.sampled_from(kinds), min_size=n, max_size=n))
    return st.sampled_from(list(range(1, min(upto, limit) + 1))).flatmap(lambda n: st.dictionaries(st.integers(0, limit - 1).map(str), seq, min_size=n, max_size=n))


def argv(ctx, case, out, extra=(), bin="rel:download"):
    a = [ctx.bins[bin], out, "--testing"] + (["--limit", str(case["limit"])] if case["limit"] != 0x100000 else ["--limit", str(case["over"])] if case.get("over") else []) + list(case["flags"])
    a += ["--parallel-max", str(case["par"])] if case["par"] else []
    a += {"ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"], "sha1": []}[case["type"]]
    a += ["--txt-out"] if case["txt"] else []
    return a + list(extra)
