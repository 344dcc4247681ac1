"""Starting hibp-server and talking to it."""
import os, random, re, selectors, signal, socket, subprocess, time
from driver import Violation, Inconclusive
from tools import SAN_ENV, Result, check_sane, CRASH

ANSWER = 40        # seconds within which a reply must have come; replies take milliseconds


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Server:
    def __init__(self, argv, d):
        self.argv = None
        for _ in range(8):
            self.port = free_port()
            self.argv = argv + ["--bind-address", "127.0.0.1", "--port", str(self.port)]
            env = dict(os.environ)
            env.update(SAN_ENV)
            self.errf = open(os.path.join(d, "server.err"), "w+b")
            self.outf = open(os.path.join(d, "server.out"), "w+b")
            self.p = subprocess.Popen(self.argv, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=self.outf, stderr=self.errf)
            end = time.time() + ANSWER
            while time.time() < end:
                if self.p.poll() is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port), 1).close()
                    return
                except OSError:
                    time.sleep(.002)
            r = self.result()
            if self.p.poll() is None:
                self.kill()
                raise Violation("the server does not start listening: %s" % r)
            if b"in use" not in r.err:
                break
        self.failed = r

    failed = None

    def result(self):
        out = []
        for f in (self.outf, self.errf):
            f.seek(0)
            out.append(f.read())
        return Result(self.p.poll() if self.p.poll() is not None else 0, out[0], out[1], self.argv)

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()

    def stop(self):
        """ends the server as a user would (SIGTERM via SIGINT), -> result"""
        if self.p.poll() is not None:
            r = self.result()
            check_sane(r)
            raise Violation("the server ended: %s" % r)
        if "tsan_" in self.argv[0]:         # restinio's shutdown has races of its own
            r = self.result()
            self.kill()
            return r
        self.p.send_signal(signal.SIGINT)
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.kill()
        return self.result()


def parse(buf):
    """-> (status, body, rest) of the first complete response in buf, or None"""
    i = buf.find(b"\r\n\r\n")
    if i < 0:
        return None
    head = buf[:i].decode("latin-1")
    m = re.match(r"HTTP/1\.[01] (\d{3})", head)
    if not m:
        raise Violation("not an http response: %r" % buf[:200])
    l = re.search(r"(?im)^content-length:\s*(\d+)", head)
    n = int(l.group(1)) if l else 0
    if len(buf) < i + 4 + n:
        return None
    return int(m.group(1)), buf[i + 4:i + 4 + n], buf[i + 4 + n:]


class Session:
    """one connection: pieces to send, responses received"""

    def __init__(self, pieces, expected, gate=False):
        self.pieces, self.expected, self.gate = list(pieces), expected, gate
        self.replies, self.buf, self.closed, self.s, self.broken, self.sent = [], b"", False, None, None, 0

    def done(self):
        return self.closed or (not self.pieces and len(self.replies) >= self.expected)


def converse(port, sessions, seed, hold=False):
    """runs all sessions at once; which one goes on next is drawn from seed. hold: nothing is sent before all are connected"""
    rnd = random.Random(seed)
    sel = selectors.DefaultSelector()
    for x in sessions:
        x.s = socket.create_connection(("127.0.0.1", port), 20)
        x.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        x.s.setblocking(False)
        sel.register(x.s, selectors.EVENT_READ, x)
    end = time.time() + ANSWER
    try:
        while not all(x.done() for x in sessions):
            if time.time() > end:
                return False
            can = [x for x in sessions if x.pieces and not x.closed and not (x.gate and len(x.replies) < x.sent)]
            if can:
                x = rnd.choice(can)
                p = x.pieces.pop(0)
                try:
                    n = x.s.send(p)
                    if n < len(p):
                        x.pieces.insert(0, p[n:])
                    else:
                        x.sent += 1
                except BlockingIOError:
                    x.pieces.insert(0, p)
                except OSError:
                    x.closed = True
            for k, _ in sel.select(0 if can else .2):
                x = k.data
                try:
                    b = x.s.recv(65536)
                except BlockingIOError:
                    continue
                except OSError:
                    b, x.broken = b"", True
                x.buf += b
                while True:
                    r = parse(x.buf)
                    if not r:
                        break
                    x.replies.append(r[:2])
                    x.buf = r[2]
                if not b:
                    x.closed = True
                    sel.unregister(x.s)
        return True
    finally:
        sel.close()
        for x in sessions:
            x.s.close()
