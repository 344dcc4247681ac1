"""The ntlm hash of any password."""
from hypothesis import strategies as st
import lookup
from driver import Prop, Arm, FuzzArm, Violation, Inconclusive
from tools import run, put

CH = st.characters(exclude_categories=("Cs",))
EDGE = st.sampled_from(["\0", "\x7f", "\x80", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\ufeff", "\ufffd", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff", "a"])
# not st.text(one_of(...)): that draws from the union of the alphabets, the edges would hardly ever appear
chars = lambda s, **kw: st.lists(s, **kw).map("".join)
short = chars(st.one_of(CH, EDGE, st.characters(max_codepoint=127)), max_size=40)
# around MD4's padding borders (28 code units of 64 bytes) and longer than one read
sized = st.tuples(chars(st.one_of(CH, EDGE), min_size=1, max_size=6), st.sampled_from([26, 27, 28, 29, 31, 32, 33, 59, 60, 61, 63, 64, 65, 96, 127, 128, 129, 500, 2000])).map(
    lambda t: (t[0] * t[1])[:t[1]])
VALID = st.lists(st.one_of(short, short, sized), min_size=1, max_size=12).map(lambda l: {"texts": l})


def ask(ctx, lines):
    r = run([ctx.bins["asan:probe"], "ntlm"], stdin=b"".join(l.hex().encode() + b"\n" for l in lines))
    out = r.out.decode().split("\n")[:-1]
    if len(out) != len(lines):
        raise Violation("%d answers for %d passwords: %s" % (len(out), len(lines), r))
    return out


def check_valid(case, ctx):
    out = ask(ctx, [t.encode() for t in case["texts"]])
    for t, o in zip(case["texts"], out):
        if o != lookup.ntlm(t).hex():
            raise Violation("ntlm of %r is %s, expected %s" % (t, o, lookup.ntlm(t).hex()))
    ts = case["texts"]
    return {"nontrivial": any(t for t in ts), "classes": ["non-ascii"] * any(not t.isascii() for t in ts) + ["surrogate pairs"] * any(ord(c) > 0xffff for t in ts for c in t) +
            ["several md4 blocks"] * any(len(t.encode("utf-16-le")) > 55 for t in ts) + ["embedded nul"] * any("\0" in t for t in ts)}


def check_all(case, ctx):
    """every code point of a range, 27 to a password"""
    cps = [chr(c) for c in range(case["from"], case["to"]) if not 0xd800 <= c < 0xe000]
    check_valid({"texts": ["".join(cps[i:i + 27]) for i in range(0, len(cps), 27)] or ["x"]}, ctx)
    return {"nontrivial": True}


BROKEN = st.sampled_from([b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc2", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xe1\x80", b"\xe1", b"\xed\xa0\x80", b"\xed\xbf\xbf",
                          b"\xed\xa0\xbd\xed\xb8\x80", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf0\x9f\x98", b"\xf0\x9f", b"\xf0", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80",
                          b"\xf8\x88\x80\x80\x80", b"\xfc\x84\x80\x80\x80\x80", b"\xfe", b"\xff", b"\xc3\x28", b"\xe2\x28\xa1", b"\xe2\x82\x28", b"\xf0\x28\x8c\xbc"])
piece = st.one_of(BROKEN, BROKEN, st.binary(max_size=4), short.map(lambda s: s[:6].encode()))
cut = st.tuples(short, st.integers(1, 3)).map(lambda t: t[0].encode()[:-t[1]])
BYTES = st.lists(st.one_of(st.lists(piece, min_size=1, max_size=4).map(b"".join), cut, st.binary(min_size=1, max_size=20)), min_size=1, max_size=12).map(lambda l: {"hex": [b.hex() for b in l]})


def check_bytes(case, ctx):
    lines = [bytes.fromhex(x) for x in case["hex"]]
    bad = 0
    for b, o in zip(lines, ask(ctx, lines)):
        try:
            want = lookup.ntlm(b.decode("utf-8")).hex()
        except UnicodeDecodeError:
            want, bad = "E", bad + 1
        if o != want:
            raise Violation("ntlm of the bytes %s is %s, expected %s" % (b.hex(), o, "a refusal" if want == "E" else want))
    return {"nontrivial": bad > 0, "classes": ["not utf-8"] * (bad > 0) + ["valid among them"] * (bad < len(lines))}


STEP = 0x110000 // 64
PROP = Prop("C10", "exploration",
            "Hypothesis draws passwords over all of Unicode (lengths around the MD4 block borders, embedded NUL, surrogate pairs), and byte strings "
            "that are not UTF-8 (overlong, cut, encoded surrogates, too large, stray bytes) mixed with valid ones; every code point is covered once by enumeration. "
            "Oracle: a separate MD4 (checked against the RFC's vectors) of Python's UTF-16LE encoding, and Python's strict UTF-8 decoder. "
            "Non-trivial: a non-empty password (valid), at least one invalid byte string (bytes).",
            ["asan:probe", "fuzz:fuzz_lib"],
            [Arm("valid", VALID, check_valid, 3200, 80000),
             Arm("code points", st.just({"from": 0, "to": 2}), check_all, 0, 0, examples=[{"from": a, "to": min(0x110000, a + STEP)} for a in range(0, 0x110000, STEP)]),
             Arm("bytes", BYTES, check_bytes, 5000, 120000), FuzzArm("fuzz", "ntlm", 60000, 8000000)],
            technique="differential testing (Hypothesis, enumeration of code points) against an independent MD4 and UTF-8 decoder",
            note="Every code point is enumerated; strings are explored by generation.")
