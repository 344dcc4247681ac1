"""The published API as hibp-download sees it: a scripted range server over TLS (lib/h2/server.js), HTTP/2 or HTTP/1.1."""
import json, os, re, shutil, subprocess, threading
from hypothesis import strategies as st
import rangeserver as rs
from driver import Inconclusive

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "h2")
NODE = shutil.which("node") or "/usr/bin/node"
CLEAN = ["500 empty", "503 text", "404 records", "429 records", "301 records", "500 records", "206 records"]
STREAM = CLEAN + ["reset 2", "reset 8", "reset 11", "midreset 2", "midreset 8", "midreset 11", "short"]
SESSION = ["cut", "goaway", "shut"]         # the other requests on the connection fail too


class H2Server:
    """one per worker process"""

    def __init__(self):
        self.p = subprocess.Popen([NODE, os.path.join(HERE, "server.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.ports = self.line()

    def line(self):
        t = threading.Timer(60, self.p.kill)
        t.start()
        l = self.p.stdout.readline()
        t.cancel()
        if not l:
            raise Inconclusive("the HTTP/2 server has ended")
        return json.loads(l)

    def ask(self, x):
        try:
            self.p.stdin.write(json.dumps(x).encode() + b"\n")
            self.p.stdin.flush()
        except OSError:
            raise Inconclusive("the HTTP/2 server has ended")
        return self.line()

    def play(self, case, data, fails):
        o = case["order"]
        bodies = {"%05X" % p: data.body(p).decode("latin-1") for p in range(case.get("base", 0), case["limit"])}
        self.ask({"play": {"seed": o["seed"], "ms": o["ms"], "how": o["how"], "batch": o["batch"], "splits": o["splits"], "frame": case["fmt"]["frame"],
                           "early": case.get("early", False), "want": case.get("want", 0), "certs": case.get("certs", ["good"]), "bodies": bodies, "fails": {"%05X" % int(p): v for p, v in fails.items()}}})

    def close(self):
        self.p.stdin.close()
        self.p.kill()
        self.p.wait()

    def look(self):
        """what happened: as RangeServer has it, and more"""
        self.history = h = self.ask({"log": 1})
        self.requests = [x for x in h["log"] if "path" in x]
        self.most, self.connections, self.handshakes = h["most"], h["connections"], h["handshakes"]
        self.attempts, self.modes = {}, set()
        for x in self.requests:
            m = re.match(r"/range/([0-9A-F]{5})(\?mode=ntlm)?$", x["path"])
            if m:
                p = int(m[1], 16)
                self.attempts[p] = self.attempts.get(p, 0) + 1
                self.modes.add("ntlm" if m[2] else "sha1")
        self.short = (h["most"], "wanted") if h["short"] else None

    def env(self, ctx, proto="h2"):
        return {"LD_PRELOAD": ctx.bins["so:tls"], "H2_PORT": str(self.ports[proto]), "H2_CA": os.path.join(HERE, "ca.pem")}


def server(ctx):
    s = ctx.store.get("h2")
    if s is None or s.p.poll() is not None:
        s = ctx.store["h2"] = H2Server()
    return s


def argv(*a, **k):
    return [x for x in rs.argv(*a, **k) if x != "--testing"]


def link(case, ctx):
    """-> server, argv function, environment: by TLS to the published URL for a case with a protocol, otherwise --testing's way"""
    if "proto" in case:
        s = server(ctx)
        return s, argv, s.env(ctx, case["proto"])
    s = rs.server(ctx)
    return s, rs.argv, s.env()


@st.composite
def over_tls(draw, scenarios):
    """the scenario as one of this server"""
    c = draw(scenarios)
    c["fmt"] = dict(c["fmt"], frame=draw(st.sampled_from(["length", "none"])))
    if c["per"] == "many":
        c["big"] = min(c["big"], 3400)
    c["early"] = draw(st.sampled_from([False, False, False, True]))
    c["proto"] = draw(st.sampled_from(["h2"] * 5 + ["h1"]))
    return c


@st.composite
def fails(draw, limit):
    # a connection which ends counts as a failure of every request on it: five failures in all, if there are such ones
    if draw(st.integers(0, 2)) == 0:
        f = {}
        for kind in draw(st.lists(st.sampled_from(SESSION * 2 + STREAM), min_size=1, max_size=5)):
            f.setdefault(str(draw(st.integers(0, limit - 1))), []).append(kind)
        return f
    return draw(rs.fails(limit, kinds=STREAM))
