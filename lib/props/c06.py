"""Resuming after any interruption converges to the uninterrupted result."""
import os
from hypothesis import strategies as st
import db, h2, rangeserver as rs
from c04 import first_difference
from driver import Prop, Arm, Violation
from tools import run, put, get

HOW = ["truncate", "truncate", "truncate", "record", "prefix", "kill", "write fails", "request fails"]
STOP = st.tuples(st.sampled_from(HOW), st.integers(0, 2**31 - 1), st.sampled_from(rs.FAILS)).map(list)
TLS_STOP = st.tuples(st.sampled_from(HOW), st.integers(0, 2**31 - 1), st.sampled_from(h2.STREAM * 2 + h2.SESSION)).map(list)


@st.composite
def cases(draw, scenarios=rs.scenarios(txt=False, minlimit=1), stop=STOP):
    c = draw(scenarios)
    if draw(st.integers(0, 3)) == 0:
        c["per"] = "some"
    c["stops"] = draw(st.lists(stop, min_size=1, max_size=3))
    c["twins"] = draw(st.sampled_from([0, 0, 1]))       # sha1t64: several hashes with the same first 64 bits
    c["pars"] = draw(st.lists(st.sampled_from([1, 2, 7, None]), min_size=4, max_size=4))
    c["smaller"] = draw(st.sampled_from([0, 0, 0, 0, 1]))
    c["base"] = draw(st.sampled_from([0, 0, 0, 0, 0x100000 - c["limit"], 0x10000 - 2, 0x80000 - 1, 0xABCDE]))
    c["over"] = draw(st.sampled_from([0, 0x100001, 0x100010, 2**32, 2**63]))      # --limit, for all prefixes there are
    if c["base"]:                       # the file holds nothing of the prefixes below it
        c["stops"][0][0] = draw(st.sampled_from(["truncate", "record", "prefix"]))
    return c


def check(case, ctx):
    s, argv, env = h2.link(case, ctx)
    data = rs.Data(case)
    base, typ = case["base"], case["type"]
    limit = base + case["limit"]
    case = dict(case, limit=limit)
    want = data.expected(False, base, limit)
    rs_ = db.REC[typ]
    d = ctx.fresh_dir()
    cl = set()
    interrupted = 0
    try:
        if len(want) < rs_:
            return {}
        out = os.path.join(d, "out")
        starts = [len(data.expected(False, base, p)) for p in range(base, limit + 1)]
        hist = []

        def true_prefix(what, r):
            got = get(out) if os.path.exists(out) else b""
            if got != want[:len(got)]:
                raise Violation("%s: the file is not a prefix of the correct one: %s: %s" % (what, first_difference(got, want, False, typ), r))
            return got

        def download(i, fails, resume, **kw):
            s.play(dict(case, order=dict(case["order"], seed=case["order"]["seed"] + i)), data, fails)
            r = run(argv(ctx, dict(case, par=case["pars"][i % 4]), out, ["--resume"] if resume else ["--force"]), cwd=d, env=env, **kw)
            return r

        for i, (how, k, kind) in enumerate(case["stops"]):
            have = len(get(out)) if os.path.exists(out) else 0
            resume = i > 0
            hist.append(how)
            lo = max(rs_, have // rs_ * rs_)
            cut = lo + k % (len(want) - lo + 1) if len(want) > lo else len(want)
            if how == "record":
                cut = cut // rs_ * rs_
            elif how == "prefix":
                cut = [x for x in starts if x >= lo][k % len([x for x in starts if x >= lo])]
            if how in ("truncate", "record", "prefix"):
                if not resume:
                    put(out, want[:cut])
                else:           # goes on, and loses the end again
                    r = download(i, {}, True)
                    got = true_prefix("resume after %s" % hist, r)
                    with open(out, "r+b") as f:
                        f.truncate(min(cut, len(got)))
            else:
                fails, kw = {}, {}
                if how == "request fails":
                    fails = {str(base + k % (limit - base)): [kind, "*"]}
                else:
                    kw = {"fsize": cut, "fsize_kill": how == "kill"}
                r = download(i, fails, resume, **kw)
                true_prefix("after %s" % hist, r)
                if r.rc == 0 and get(out) != want:
                    raise Violation("%s: reports success with %d of %d bytes: %s" % (hist, len(get(out)), len(want), r))
            cl.add(how)
            interrupted += len(get(out)) < len(want) if os.path.exists(out) else 1
        have = get(out) if os.path.exists(out) else None
        if have is not None and len(have) % rs_:
            cl.add("torn record")
        if have and len(have) // rs_ * rs_ not in starts:
            cl.add("torn prefix")
        if case["smaller"] and have and len(have) >= rs_:
            # the file covers a smaller limit: refused, and nothing below that limit is lost
            last = max(p for p in range(limit - base) if starts[p] < len(have) // rs_ * rs_)
            small = k % (last + 1)
            s.play(case, data, {})
            r = run(argv(ctx, dict(case, limit=base + small), out, ["--resume"]), cwd=d, env=env)
            got = true_prefix("resume with --limit %d" % small, r)
            if r.rc == 0 or len(got) < min(len(have) // rs_ * rs_, starts[small]):
                raise Violation("--resume --limit %d of a file of %d bytes which covers prefixes up to %d left %d bytes: %s" % (base + small, len(have), base + last, len(got), r))
            cl.add("smaller limit")
            have = get(out)
            if len(have) < rs_:
                return {"nontrivial": True, "classes": list(cl)}
        if base and (have is None or len(have) < rs_):
            return {"nontrivial": False, "classes": ["no complete record"]}
        r = download(3, {}, True)
        if have is None or len(have) < rs_:          # nothing to go on from: may be refused
            if r.rc == 0 and get(out) != want:
                raise Violation("%s, then --resume: %s: %s" % (hist, first_difference(get(out), want, False, typ), r))
            return {"nontrivial": False, "classes": ["no complete record"]}
        got = get(out)
        if got != want:
            raise Violation("%s, %d of %d bytes, then --resume: %s: %s" % (hist, len(have), len(want), first_difference(got, want, False, typ), r))
        done = max(p for p in range(limit - base) if starts[p] < len(have)) == limit - base - 1 and len(have) // rs_ * rs_ == len(want)
        if done and r.rc == 0:
            raise Violation("%s: nothing to do, but --resume reports success: %s" % (hist, r))
        if not done and r.rc != 0:
            raise Violation("%s: --resume fails: %s" % (hist, r))
        if done:
            cl.add("nothing to do")
        if os.listdir(d) != ["out"]:
            raise Violation("other files were left: %s" % os.listdir(d))
        return {"nontrivial": interrupted > 0 and limit > base + 1, "classes": list(cl) + [typ] + ["high prefixes"] * (base > 0) + ["limit beyond the last prefix"] * (limit == 0x100000 and case["over"] > 0) + ["equal truncated hashes"] * (typ == "sha1t64" and case["twins"]) + ["repeatedly interrupted"] * (interrupted > 1)}
    finally:
        ctx.drop_dir(d)


@st.composite
def flaky_cases(draw):
    c = draw(rs.scenarios(txt=False, minlimit=1, maxlimit=12))
    c["cut"] = draw(st.integers(0, 2**31 - 1))
    c["twins"] = draw(st.sampled_from([0, 0, 1]))
    c["fails"] = draw(rs.fails(c["limit"]))
    c["base"] = draw(st.sampled_from([0, 0, 0, 0x100000 - c["limit"], 0x10000 - 2]))
    c["over"] = draw(st.sampled_from([0, 0, 0x100001, 2**32]))
    c["foreign"] = draw(st.sampled_from([None, None, "last prefix", "other type"]))
    return c


def check_flaky(case, ctx):
    """the requests of the resumed run fail transiently, or the file is not one that can be resumed: refused or right, never wrong"""
    s = rs.server(ctx)
    data = rs.Data(case)
    base, typ = case["base"], case["type"]
    limit = base + case["limit"]
    case = dict(case, limit=limit, fails={str(base + int(k)): v for k, v in case["fails"].items()})
    want = data.expected(False, base, limit)
    rs_ = db.REC[typ]
    d = ctx.fresh_dir()
    try:
        if len(want) < rs_:
            return {}
        out = os.path.join(d, "out")
        raw = want[:rs_ + case["cut"] % (len(want) - rs_ + 1)]
        if case["foreign"] == "last prefix":         # the last records come from other range data
            other = rs.Data(dict(case, seed=case["seed"] + 1)).expected(False, base, limit)
            n = len(raw) // rs_ * rs_
            raw = other[:n] or raw
        elif case["foreign"] == "other type":
            t = "ntlm" if typ != "ntlm" else "sha1"
            raw = rs.Data(dict(case, type=t)).expected(False, base, limit)[:len(raw)]
        fails = case["fails"]
        if case["foreign"]:
            fails = {}
        last = int(raw[len(raw) // rs_ * rs_ - rs_:][:3].hex()[:5], 16) if len(raw) >= rs_ else 0
        if case["foreign"] and last < base - 1000:      # by chance a record of low prefixes, which might be known there: a long download
            return {}
        put(out, raw)
        s.play(case, data, fails)
        r = run(rs.argv(ctx, case, out, ["--resume"]), cwd=d, env=s.env())
        got = get(out)
        if case["foreign"] in ("last prefix", "other type") and raw != want[:len(raw)]:
            recs = len(raw) // rs_ * rs_
            if raw[:recs] != want[:recs] and len(got) > len(raw):
                # some range data may coincide; then what lies before the last prefix stays, and it is the user's
                last = raw[recs - rs_:recs]
                hit = any(bytes.fromhex(h)[:rs_ - 4] in raw for h, _ in data.records(int(last[:3].hex()[:5], 16)))
                if not hit:
                    raise Violation("a file which is not from these range data was extended from %d to %d bytes: %s" % (len(raw), len(got), r))
            return {"nontrivial": True, "classes": ["foreign file: " + ("refused" if r.rc else "extended at a known record")]}
        if got != want[:len(got)]:
            raise Violation("the file is not a prefix of the correct one: %s: %s" % (first_difference(got, want, False, typ), r))
        if r.rc == 0 and got != want:
            raise Violation("reports success with %d of %d bytes: %s" % (len(got), len(want), r))
        if r.rc != 0:
            if base and len(got) < rs_:
                return {}
            s.play(case, data, {})
            r2 = run(rs.argv(ctx, case, out, ["--resume"]), cwd=d, env=s.env())
            if len(got) >= rs_ and get(out) != want:
                raise Violation("%s; resumed once more: %s: %s" % (r, first_difference(get(out), want, False, typ), r2))
        return {"nontrivial": len(fails) > 0 and limit > base + 1, "classes": ["failed, resumed again" if r.rc else "succeeded in spite of failures"]}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C06", "fault_enumeration",
            "Hypothesis draws a data set and up to three interruptions: the correct file cut at any byte (also exactly at a record or prefix border), a killed or failing write at a drawn byte, "
            "or a prefix failing for good, also while resuming, with changing parallelism; then an undisturbed --resume must give exactly the uninterrupted file, "
            "or refuse when nothing is missing. After every step the file must be a prefix of the correct one. The second arm resumes while requests fail transiently, "
            "and files from other data. In a third of the histories the file begins at a high prefix (up to FFFFF, also without --limit). Non-trivial: really interrupted, two or more prefixes.",
            ["rel:download", "so:tls"], [Arm("interrupt", cases(), check, 1500, 40000),
                               Arm("tls", cases(h2.over_tls(rs.scenarios(txt=False, minlimit=1)), TLS_STOP), check, 240, 10000), Arm("flaky", flaky_cases(), check_flaky, 1000, 20000)],
            technique="generated fault injection (Hypothesis): histories of interruptions and resumes against the data set",
            note="Interruption points and kinds are drawn; up to three interruptions per history.",
            assumptions=["most cases by plain HTTP/1.1, some by HTTP/2 over TLS", 
                         "what reached the file before an interruption is a prefix of what was written"])
