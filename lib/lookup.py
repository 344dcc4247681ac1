"""Running hibp-search and reading its answer."""
import re
from driver import Violation
from tools import run
import db, hashlib

FLAG = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}


def md4(data):
    """MD4 (RFC 1320), written for these checks; verified against the RFC's vectors in selftest()"""
    import struct
    mask = 0xffffffff
    msg = data + b"\x80" + b"\0" * ((55 - len(data)) % 64) + struct.pack("<Q", 8 * len(data))
    a0, b0, c0, d0 = 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476
    rol = lambda x, n: ((x << n) | (x >> (32 - n))) & mask
    for o in range(0, len(msg), 64):
        x = struct.unpack("<16I", msg[o:o + 64])
        a, b, c, d = a0, b0, c0, d0
        for i in range(16):
            f = (b & c) | (~b & mask & d)
            a, b, c, d = d, rol((a + f + x[i]) & mask, (3, 7, 11, 19)[i % 4]), b, c
        for i in range(16):
            g = (b & c) | (b & d) | (c & d)
            a, b, c, d = d, rol((a + g + x[i % 4 * 4 + i // 4] + 0x5a827999) & mask, (3, 5, 9, 13)[i % 4]), b, c
        for i in range(16):
            h = b ^ c ^ d
            k = (0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15)[i]
            a, b, c, d = d, rol((a + h + x[k] + 0x6ed9eba1) & mask, (3, 9, 11, 15)[i % 4]), b, c
        a0, b0, c0, d0 = (a0 + a) & mask, (b0 + b) & mask, (c0 + c) & mask, (d0 + d) & mask
    return struct.pack("<4I", a0, b0, c0, d0)


assert md4(b"").hex() == "31d6cfe0d16ae931b73c59d7e0c089c0"
assert md4(b"message digest").hex() == "d9130a8164549fe818874806e1c7014b"
assert md4(b"1234567890" * 8).hex() == "e33b4ddc9c38f2199c3e7b164fcc0536"


def ntlm(text):
    return md4(text.encode("utf-16-le"))


def hash_of(typ, text):
    """the hash under which a pass phrase is stored"""
    if typ == "ntlm":
        return ntlm(text)
    h = hashlib.sha1(text.encode()).digest()
    return h[:8] if typ == "sha1t64" else h


def search(bin, typ, path, query, hash_query=True, toc=None, cwd=None, **kw):
    argv = [bin, path, query] + FLAG[typ] + (["--hash"] if hash_query else [])
    if toc is not None:
        argv += ["--toc"] + (["--toc-bits", str(toc)] if toc else [])
    return run(argv, cwd=cwd, **kw)


def answer(r):
    """-> ('found', hash, count) | ('absent',) | ('error',) ; a Violation when it is contradictory"""
    found = re.findall(r"^found\s*=\s*([0-9A-Fa-f]+):(-?\d+)\s*$", r.text(), re.M)
    absent = re.findall(r"^not found\s*$", r.text(), re.M)
    if r.rc != 0:
        if found or absent:
            raise Violation("fails, but gives an answer: %s" % r)
        return ("error",)
    if len(found) + len(absent) != 1:
        raise Violation("no clear answer: %s" % r)
    if absent:
        return ("absent",)
    return ("found", bytes.fromhex(found[0][0]), int(found[0][1]))


def expect(recs_by_hash, h):
    return ("found", h, recs_by_hash[h]) if h in recs_by_hash else ("absent",)
