"""The server serves where it is told to, as long as it is told to, whoever else is connected."""
import os, random, re, resource, signal, socket, struct, subprocess, time
from hypothesis import strategies as st
import db, httpd, lookup, toc
from driver import Prop, Arm, Violation, Inconclusive
from tools import SAN_ENV, Result, check_sane, put

SOON = 30          # seconds within which it must have started, answered or ended; it takes milliseconds
SLOTS = 3
CONFIG = st.fixed_dictionaries({
    "use": st.sampled_from([["sha1"], ["ntlm"], ["sha1t64"], ["sha1", "ntlm"], ["ntlm", "sha1t64"], ["sha1", "ntlm", "sha1t64"]]),
    "addr": st.sampled_from(["own", "own", "own", "other", "all", "default"]), "port": st.integers(0, 1), "threads": st.sampled_from([1, 1, 2, None]), "json": st.booleans(),
    "toc": st.booleans(), "cwd": st.sampled_from(["here", "here", "root"]), "spell": st.sampled_from(["plain", "plain", "equals", "reordered"]),
    # what is wrong
    "bad": st.sampled_from([None] * 12 + ["no db", "missing db", "missing second db", "short db", "directory", "addr", "foreign addr", "port", "threads", "bits", "toc gap", "unknown option", "extra argument"]),
    "k": st.integers(0, 10**6)})
SLOT = st.integers(0, SLOTS - 1)
OP = st.one_of(
    st.tuples(st.just("start"), SLOT, CONFIG), st.tuples(st.just("start"), SLOT, CONFIG),
    st.tuples(st.just("stop"), SLOT, st.sampled_from(["INT", "INT", "INT", "KILL"])), st.tuples(st.just("restart"), SLOT, st.sampled_from(["INT", "INT", "KILL"])),
    st.tuples(st.just("idle"), SLOT, st.integers(1, 60)), st.tuples(st.just("half"), SLOT, st.integers(1, 60)), st.tuples(st.just("reset"), SLOT, st.integers(1, 40)),
    st.tuples(st.just("crowd"), SLOT, st.sampled_from([70, 130, 270, 530, 1100, 2100])),
    st.tuples(st.just("unread"), SLOT, st.integers(1, 20)), st.tuples(st.just("keep"), SLOT, st.integers(1, 8)), st.tuples(st.just("finish"), SLOT, st.integers(1, 60)),
    st.tuples(st.just("ask"), SLOT, st.integers(0, 10**6)), st.tuples(st.just("ask"), SLOT, st.integers(0, 10**6)), st.tuples(st.just("close"), SLOT, st.integers(0, 2)),
    st.tuples(st.just("elsewhere"), SLOT, st.integers(0, 2)), st.tuples(st.just("occupy"), st.just(0), st.integers(0, 1)),
).map(list)


@st.composite
def cases(draw):
    dbs = {}
    bits = draw(st.sampled_from([15, 16, 20]))
    for t in ("sha1", "ntlm", "sha1t64"):
        s = draw(toc.dense_specs(types=(t,), complete=False, gaps=False))
        dbs[t] = dict(s, bits=bits, p=min(s["p"], 3000))
    ops = [["start", 0, dict(draw(CONFIG), bad=None)]] * draw(st.booleans()) + draw(st.lists(OP, min_size=3, max_size=14))
    return {"dbs": dbs, "bits": bits, "ops": ops, "nofile": draw(st.sampled_from([None, None, None, None, None, 60])), "seed": draw(st.integers(0, 2**32 - 1))}


class Slot:
    def __init__(self):
        self.p = None
        self.conns = []             # [socket, kind, request left to send or None]


def connect(addr, port, t=SOON):
    s = socket.create_connection((addr, port), t)
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return s


def refused(addr, port):
    try:
        socket.create_connection((addr, port), 5).close()
        return False
    except ConnectionRefusedError:
        return True
    except OSError:
        return True


class World:
    def __init__(self, case, ctx, d):
        self.case, self.ctx, self.d = case, ctx, d
        self.slots = [Slot() for _ in range(SLOTS)]
        self.rnd = random.Random(case["seed"])
        me = os.getpid() % 60000
        self.addr = {"own": "127.%d.%d.1" % (1 + me // 250, me % 250), "other": "127.%d.%d.2" % (1 + me // 250, me % 250), "all": "0.0.0.0", "default": "localhost"}
        self.ports, self.holders = [], []
        while len(self.ports) < 2:
            p = httpd.free_port()
            if p not in self.ports:
                self.ports.append(p)
        self.occupied = {}
        self.recs, self.files = {}, {}
        for t, s in case["dbs"].items():
            self.recs[t] = dict(toc.records(s))
            self.files[t] = put(os.path.join(d, t + ".bin"), db.pack(sorted(self.recs[t].items())))
            os.utime(self.files[t], (10**9, 10**9))
        self.classes = set()

    # -- starting

    def argv(self, c):
        use, files = list(c["use"]), dict(self.files)
        bad = c["bad"]
        if bad == "missing db":
            files[use[0]] += ".none"
        if bad == "missing second db":
            use = ["sha1", "ntlm", "sha1t64"]
            files["sha1t64"] += ".none"
        if bad == "short db":
            files[use[-1]] = put(os.path.join(self.d, "short"), b"x" * (db.REC[use[-1]] * 3 + 1 + c["k"] % (db.REC[use[-1]] - 1)))
        if bad == "directory":
            files[use[-1]] = self.d
        if bad == "no db":
            use = []
        if bad == "toc gap":
            f = files[use[-1]] = os.path.join(self.d, "gap")
            put(f, db.pack([(b"\x12\x34" + bytes(db.HS[use[-1]] - 2), 1)]))
        opts = [["--%s-db" % t, files[t]] for t in use]
        addr = self.addr[c["addr"]]
        if c["addr"] != "default" or bad in ("addr", "foreign addr"):
            opts.append(["--bind-address", {"addr": ["256.1.1.1", "nonsense", "127.0.0.1.1", "127.0.0.1:80", "http://127.0.0.1"][c["k"] % 5], "foreign addr": "198.51.100.7"}.get(bad, addr)])
        port = self.ports[c["port"]]
        opts.append(["--port", {"port": ["65536", "-1", "x", "99999999999", "80.5"][c["k"] % 5]}.get(bad, str(port))])
        n = {"threads": ["0", "-1", "x", "100000"][c["k"] % 4]}.get(bad, c["threads"] and str(min(c["threads"], os.cpu_count() or 1)))
        opts += [["--threads", n]] * bool(n) + [["--json"]] * c["json"]
        bits = {"bits": ["14", "26", "x", "-15"][c["k"] % 4]}.get(bad, c["toc"] and self.case["bits"])
        if bad == "toc gap" and not bits:
            bits = self.case["bits"]
        if bits:
            opts += [["--toc"], ["--toc-bits", str(bits)]]
        if bad == "unknown option":
            opts.append([["--nothing"], ["-x"], ["--Port", "1"]][c["k"] % 3])
        if bad == "extra argument":
            opts.append(["more"])
        if c["spell"] == "reordered":
            self.rnd.shuffle(opts)
        if c["spell"] == "equals":
            opts = [["=".join(o)] for o in opts]
        return [self.ctx.bins["rel:server"]] + [x for o in opts for x in o]

    def blocked(self, c):
        """is the address and port taken?"""
        p, a = self.ports[c["port"]], c["addr"]
        for b, q in [(s.c["addr"], s.port) for s in self.slots if s.p] + [(b, q) for q, b in self.occupied.items()]:
            if q == p and (a == b or "all" in (a, b)):
                return True
        return False

    def start(self, i, c, again=False):
        s = self.slots[i]
        if s.p:
            return
        bad = c["bad"]
        argv = self.argv(c)
        env = dict(os.environ, **SAN_ENV)
        out, err = open(os.path.join(self.d, "out%d" % i), "w+b"), open(os.path.join(self.d, "err%d" % i), "w+b")
        n = self.case["nofile"]
        pre = (lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (n, n))) if n else None
        p = subprocess.Popen(argv, cwd="/" if c["cwd"] == "root" else self.d, env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=err, preexec_fn=pre)
        s.out, s.err, s.argv, s.c, s.port, s.conns, s.opened = out, err, argv, c, self.ports[c["port"]], [], 0
        addr = self.addr[c["addr"]]
        s.addr = {"0.0.0.0": "127.0.0.1"}.get(addr, addr)
        taken = self.blocked(c)
        what = "%s" % argv[1:]
        s.p = p
        end = time.time() + SOON
        up = False
        while time.time() < end and p.poll() is None:
            if not taken and not bad and self.up(s):
                up = True
                break
            time.sleep(.003)
        r = self.result(s)
        if bad or taken:
            if p.poll() is None:
                raise Violation("does not end, though %s: %s" % ("the address is taken" if taken and not bad else bad, what))
            s.p = None
            check_sane(r)
            if r.rc == 0 or not r.err:
                raise Violation("ends with %d and %d bytes of explanation, though %s: %s" % (r.rc, len(r.err), "the address is taken" if taken and not bad else bad, r))
            self.classes.add("refused: " + (bad or "address taken"))
            return
        if not up:
            s.p = None
            if p.poll() is None:
                p.kill()
                p.wait()
            elif b"in use" in r.err and (c["addr"] in ("all", "default") or not again):
                raise Inconclusive("somebody else has taken the port")
            raise Violation("does not serve (again: %s): %s" % (again, r))
        self.classes |= {"started", "on " + c["addr"]}
        self.ask(i, 0)

    def up(self, s):
        """is the process the one which listens there?"""
        s.opened += 1
        try:
            socket.create_connection((s.addr, s.port), 1).close()
        except OSError:
            return False
        return s.p.poll() is None

    def result(self, s):
        out = []
        for f in (s.out, s.err):
            f.seek(0)
            out.append(f.read())
        rc = s.p.poll()
        return Result(rc if rc is not None else 0, out[0], out[1], s.argv)

    # -- using

    def request(self, s, k):
        """-> request, expected body"""
        rnd = random.Random(k)
        c = s.c
        t = rnd.choice(c["use"])
        if k % 3 == 0:
            t = [x for x in ("sha1", "sha1t64", "ntlm") if x in c["use"]][0]
            h = lookup.hash_of(t, "p%d" % k)
            url = "plain/p%d" % k
        else:
            l = sorted(self.recs[t])
            h = rnd.choice(l) if k % 3 == 1 else rnd.randbytes(db.HS[t])
            if c["toc"] and k % 3 == 2:
                h = db.neighbour(rnd.choice(l), 1) or h
            url = "%s/%s" % (t, h.hex().upper())
        return b"GET /check/%s HTTP/1.1\r\nHost: x\r\n\r\n" % url.encode(), self.recs[t].get(h, -1)

    def answer(self, s, conn, t):
        conn.settimeout(t)
        buf = b""
        try:
            while not httpd.parse(buf):
                x = conn.recv(65536)
                if not x:
                    return None
                buf += x
        except OSError:
            return None
        return httpd.parse(buf)

    def right(self, s, rep, want):
        if not rep or rep[0] != 200:
            return False
        n = re.search(rb"-?\d+", rep[1])
        return n is not None and int(n.group()) == want and (b"count" in rep[1]) == s.c["json"]

    def alive(self, i, s):
        if s.p.poll() is not None:
            r = self.result(s)
            check_sane(r)
            raise Violation("the server %d has ended: %s" % (i, r))

    def over(self, s):
        """may the server have run out of descriptors? Then it never accepts a connection again: a listed finding"""
        n = s.c["threads"] or os.cpu_count()
        return bool(self.case["nofile"]) and s.opened + 17 + n * len(s.c["use"]) > self.case["nofile"]

    def ask(self, i, k):
        s = self.slots[i]
        if not s.p:
            return
        self.alive(i, s)
        b, want = self.request(s, k)
        end = time.time() + 1
        while True:
            s.opened += 1
            try:
                with connect(s.addr, s.port, 1 if self.over(s) else SOON) as c:
                    c.sendall(b)
                    rep = self.answer(s, c, 1 if self.over(s) else SOON)
            except OSError as e:
                rep = e
            if isinstance(rep, tuple) and self.right(s, rep, want):
                break
            if self.over(s) and time.time() > end and not (isinstance(rep, tuple) and rep[0] == 200):
                self.classes.add("finding: out of descriptors")
                return
            if not self.over(s) or (isinstance(rep, tuple) and rep[0] == 200):
                self.alive(i, s)
                raise Violation("with %d other connections, %s is answered %s, expected %d: %s" % (len(s.conns), b[:60], rep, want, self.result(s)))
            time.sleep(.05)
        self.classes.add("asked beside %s connections" % ("no" if not s.conns else "other"))

    def step(self, op):
        kind, i, x = op
        at = [j for j, s in enumerate(self.slots) if (s.p is None) == (kind == "start")]       # free ones to start, running ones for all else
        if at and kind != "occupy":
            i = at[i % len(at)]
        s = self.slots[i]
        if kind == "start":
            return self.start(i, x)
        if kind == "occupy":
            p = self.ports[x]
            c = {"addr": "own", "port": x}
            if not self.blocked(c):
                l = socket.socket()
                l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                l.bind((self.addr["own"], p))
                l.listen()
                self.holders.append(l)
                self.occupied[p] = "own"
            return
        if not s.p:
            return
        if kind in ("stop", "restart"):
            n = len(s.conns)
            self.stop(i, x)
            self.classes.add("stopped beside %s connections" % ("no" if not n else "other"))
            if kind == "restart":
                self.start(i, s.c, again=True)
        elif kind == "elsewhere":
            for a in ("own", "other", "default"):
                if s.c["addr"] not in ("all", a) and not any(t.p and t.port == s.port and t.c["addr"] in ("all", a) for t in self.slots) and self.occupied.get(s.port) != a:
                    if not refused({"localhost": "127.0.0.1"}.get(self.addr[a], self.addr[a]), s.port) and a != "default":
                        raise Violation("listens on %s though it is bound to %s: %s" % (self.addr[a], self.addr[s.c["addr"]], s.argv[1:]))
                    self.classes.add("elsewhere")
        elif kind == "crowd":
            room = resource.getrlimit(resource.RLIMIT_NOFILE)[0] // 2 - 200 - sum(len(t.conns) for t in self.slots)
            if not self.case["nofile"] and room > 50:
                self.step(["idle", i, min(x, room)])
                self.ask(i, x)
                self.classes.add("asked beside %s" % ("over 1000" if len(s.conns) > 1000 else "over 250" if len(s.conns) > 250 else "up to 250"))
        elif kind == "ask":
            self.ask(i, x)
        elif kind == "close":
            self.drop(s, x)
        elif kind == "finish":
            for e in s.conns:
                if e[1] in ("half", "idle", "keep") and x:
                    x -= 1
                    b, want = e[2] if e[2] else self.request(s, x)
                    if e[1] == "half" and not e[2]:
                        continue
                    try:
                        e[0].sendall(b)
                        rep = self.answer(s, e[0], 1 if self.over(s) else SOON)
                    except OSError as err:
                        rep = err
                    e[2] = None
                    if e[1] == "half":
                        e[1] = "keep"
                    if not self.over(s) and (not isinstance(rep, tuple) or not self.right(s, rep, want)):
                        self.alive(i, s)
                        raise Violation("a %s connection, opened before, is answered %s, expected %d: %s" % (e[1], rep, want, self.result(s)))
                    self.classes.add("finished")
        else:
            for k in range(x):
                s.opened += 1
                if self.over(s) and s.opened > self.case["nofile"] + 40:
                    break
                try:
                    c = connect(s.addr, s.port, 2 if self.over(s) else SOON)
                except OSError as e:
                    self.alive(i, s)
                    if self.over(s):
                        break
                    raise Violation("a connection is refused (%s) beside %d others: %s" % (e, len(s.conns), self.result(s)))
                b, want = self.request(s, k)
                left = None
                try:
                    if kind == "half":
                        n = self.rnd.randrange(1, len(b))
                        c.sendall(b[:n])
                        left = (b[n:], want)
                    elif kind == "unread":
                        c.sendall(b * 3)
                    elif kind == "keep":
                        c.sendall(b)
                        rep = self.answer(s, c, 1 if self.over(s) else SOON)
                        if not self.right(s, rep, want) and not self.over(s):
                            raise Violation("beside %d connections, %s is answered %s, expected %d: %s" % (len(s.conns), b[:60], rep, want, self.result(s)))
                    elif kind == "reset":
                        c.sendall(b[:self.rnd.randrange(len(b) + 1)] * self.rnd.choice((1, 1, 3)))
                        c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                        c.close()
                        continue
                except OSError:
                    pass
                s.conns.append([c, kind, left])

    def drop(self, s, how):
        for k, e in enumerate(s.conns):
            if how == 2 or (how + k) % 3 == 0:
                e[0].setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            e[0].close()
        s.conns = []

    def stop(self, i, how):
        s = self.slots[i]
        self.alive(i, s)
        if how == "INT":        # restinio's shutdown has a race with connections which are just being accepted
            self.ask(i, 7)
            self.settled(s)
        s.p.send_signal(getattr(signal, "SIG" + how))
        try:
            s.p.wait(SOON)
        except subprocess.TimeoutExpired:
            raise Violation("does not end at SIG%s with %d connections: %s" % (how, len(s.conns), self.result(s)))
        r = self.result(s)
        if how == "INT":
            check_sane(r)
            if r.rc != 0:
                raise Violation("ends with %d at SIGINT: %s" % (r.rc, r))
            text = r.out.decode("utf-8", "replace")
            for t in ("sha1", "ntlm", "sha1t64"):
                if ("/check/%s/" % t in text) != (t in s.c["use"]):
                    raise Violation("says it serves other databases than %s: %s" % (s.c["use"], text))
            if ":%d/" % s.port not in text:
                raise Violation("doesn't tell its port %d: %s" % (s.port, text))
        s.p = None
        self.drop(s, 0)

    def settled(self, s):
        """until all threads run: restinio loses a signal which comes earlier"""
        n = int((s.argv[s.argv.index("--threads") + 1] if "--threads" in s.argv else re.search(r"--threads=(\d+)|$", " ".join(s.argv)).group(1)) or os.cpu_count())
        end = time.time() + 5
        while time.time() < end and len(os.listdir("/proc/%d/task" % s.p.pid)) <= n:
            time.sleep(.002)
        time.sleep(.01)

    def end(self):
        for i, s in enumerate(self.slots):
            if s.p:
                self.ask(i, i)
                self.stop(i, "INT")

    def kill(self):
        for s in self.slots:
            if s.p and s.p.poll() is None:
                s.p.kill()
            if s.p:
                s.p.wait()
            for e in s.conns:
                e[0].close()
        for l in self.holders:
            l.close()


def check(case, ctx):
    d = ctx.fresh_dir()
    w = World(case, ctx, d)
    try:
        for op in case["ops"]:
            w.step(op)
        w.end()
        return {"nontrivial": "started" in w.classes or any(c.startswith("refused") for c in w.classes), "classes": sorted(w.classes) + ["few descriptors"] * bool(case["nofile"])}
    finally:
        w.kill()
        ctx.drop_dir(d)


PROP = Prop("C26", "exploration",
            "Hypothesis draws histories of up to 14 operations on up to three servers over two ports and several addresses: starting with right and wrong options, files and addresses, connections which stay silent, send half a "
            "request, never read the answer or are reset, keep-alive connections, queries, SIGINT and SIGKILL, starting again on the same port, other programs on the port, few descriptors. A model says which servers must be "
            "up, which starts must be refused, and what each query must be answered. Non-trivial: at least one start was decided.",
            ["rel:server"], [Arm("life", cases(), check, 2400, 60000)],
            technique="stateful model-based testing (Hypothesis) of real server processes",
            note="Exploration: every start, stop and answer of a generated history is decided.",
            assumptions=["loopback addresses 127.0.0.0/8 can be bound", "SIGINT comes when no connection is just being accepted and all threads run (restinio 0.6.19 closes its acceptor without synchronisation, and loses a stop before its pool has started)"])
