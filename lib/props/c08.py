"""Text and binary form of a record."""
import random
from hypothesis import strategies as st
import db
from driver import Prop, Arm, FuzzArm, Violation
from tools import run

SPECIAL = sorted({s * v + d for s in (1, -1) for v in [10**k for k in range(10)] + [2**k for k in range(32)] for d in (-1, 0, 1)
                  if db.INT_MIN <= s * v + d <= db.INT_MAX} | {db.INT_MIN, db.INT_MAX})
count = st.one_of(st.sampled_from(SPECIAL), st.integers(db.INT_MIN, db.INT_MAX), st.integers(0, 99999))
ITEM = st.fixed_dictionaries({"seed": st.integers(0, 2**32 - 1), "style": st.sampled_from(db.STYLES), "count": st.one_of(count, count, count, st.none()),
                              "case": st.sampled_from(["upper", "upper", "lower", "mixed"]), "full": st.booleans(),
                              "tail": st.sampled_from(["", "", "", "\r"])})
CASES = st.fixed_dictionaries({"type": st.sampled_from(["sha1", "ntlm", "sha1t64"]), "items": st.lists(ITEM, min_size=1, max_size=24)})


def check(case, ctx):
    typ = case["type"]
    texts, want, cl = [], [], {typ}
    for it in case["items"]:
        full = typ == "sha1t64" and it["full"]
        rnd = random.Random(it["seed"])
        h = db._hash(rnd, 20 if full else db.HS[typ], it["style"], 0)
        x = h.hex()
        x = {"upper": x.upper(), "lower": x, "mixed": "".join(rnd.choice((c.upper(), c)) for c in x)}[it["case"]]
        h = h[:db.HS[typ]]
        c = it["count"]
        if c is None:
            t = x + rnd.choice(("", "", ":"))
            exp = -1
        else:
            t = "%s:%d%s" % (x, c, it["tail"])
            exp = c
        texts.append(t)
        line = "%s:%d" % (h.hex().upper(), exp)
        want.append("%s %d %s %s 1%s" % (h.hex(), exp, line, line, "v" if len(t) == 2 * db.HS[typ] and it["case"] != "lower" and t == t.upper() else "-"))
        cl |= {it["case"], "full sha1 line" if full else typ, "no count" if c is None else "negative count" if c < 0 else "count"}
    r = run([ctx.bins["asan:probe"], "codec", typ], stdin="".join(t.encode().hex() + "\n" for t in texts).encode())
    got = r.out.decode().split("\n")[:-1]
    for i, (t, w) in enumerate(zip(texts, want)):
        g = got[i] if i < len(got) else "<nothing>"
        if g[:-1] != w[:-1]:
            raise Violation("%s record from %r is '%s', expected '%s' (hash, count, to_string, stream, round trip)" % (typ, t, g, w))
    return {"nontrivial": any(it["count"] is not None for it in case["items"]), "classes": list(cl)}


PROP = Prop("C08", "exploration",
            "Hypothesis draws up to 24 texts per case: hashes (random and extreme, upper, lower or mixed case, for sha1t64 also full sha1 lines), counts over the "
            "whole 32-bit range with all powers of ten and two and their neighbours, missing counts and characters after the count. Parsed hash and count, the two printed forms and "
            "the round trip are compared with the text's construction. Non-trivial: at least one text with a count.",
            ["asan:probe", "fuzz:fuzz_lib"], [Arm("codec", CASES, check, 8000, 250000), FuzzArm("fuzz", "codec", 160000, 20000000)],
            technique="property-based testing (Hypothesis): round trip and reference construction",
            note="Exploration: each generated text is decided exactly; about 90 000 texts in the quick tier.")
