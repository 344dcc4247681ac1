"""The tools agree with each other: different routes to the same result give the same result."""
import os, random, re
from hypothesis import strategies as st
import db, httpd, lookup, toc
import rangeserver as rs
import c13, c14, c17
from driver import Prop, Arm, Violation
from tools import run, put, get

NTLM = {"sha1": [], "ntlm": ["--ntlm"]}


def need(r, what):
    if r.rc != 0:
        raise Violation("%s fails: %s" % (what, r))
    return r


def same(a, b, what):
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        raise Violation("%s: %d and %d bytes, first difference at %d" % (what, len(a), len(b), i))


# ---- downloads ----------------------------------------------------------------------------------

@st.composite
def downloads(draw):
    c = draw(rs.scenarios(txt=False, maxlimit=30, minlimit=1))
    alt = draw(st.fixed_dictionaries({"order": rs.ORDER, "fmt": rs.FMT, "par": st.one_of(st.integers(1, 40), st.just(None)), "flags": st.sampled_from([[], ["--no-progress"], ["--debug"]])}))
    return dict(c, alt=alt, k=draw(st.integers(1, max(1, c["limit"] - 1))), cut=draw(st.integers(0, 2**31 - 1)), retry=draw(rs.fails(c["limit"], kinds=rs.CLEAN, most=2)))


def check_download(case, ctx):
    typ = case["type"]
    s = rs.server(ctx)
    d = ctx.fresh_dir()
    cl = []
    try:
        def dl(name, extra=(), fails={}, **kw):
            c = dict(case, **kw)
            s.play(c, rs.Data(dict(case, fmt=c["fmt"])), fails)
            need(run(rs.argv(ctx, c, os.path.join(d, name), extra), cwd=d, env=s.env()), "a download (%s)" % name)
            return get(os.path.join(d, name))

        def conv(src, dst, how, *extra):
            need(run([ctx.bins["rel:convert"], how, "-i", os.path.join(d, src), "-o", os.path.join(d, dst)] + NTLM[typ] + list(extra), cwd=d), "conversion of %s" % src)
            return get(os.path.join(d, dst))
        a = dl("a")
        same(dl("b", fails=case["retry"], **case["alt"]), a, "the same download in another order, with failing requests")
        if typ == "sha1t64":
            full = dl("full", type="sha1")
            same(b"".join(full[i:i + 8] + full[i + 20:i + 24] for i in range(0, len(full), 24)), a, "the sha1 download cut to 64 bits, and the sha1t64 one")
        else:
            t = dl("t", txt=True)
            same(conv("t", "tb", "--txt-to-bin"), a, "text download converted to binary, and binary download")
            same(conv("a", "at", "--bin-to-txt"), t, "binary download converted to text, and text download")
            cl.append("text")
        rec = db.REC[typ]
        if len(a) >= rec:
            # an interrupted download is a prefix of the file
            cut = rec + case["cut"] % (len(a) - rec + 1)
            first = int(a[(cut // rec - 1) * rec:][:3].hex()[:5], 16)
            if first + 1 < case["limit"] or cut // rec * rec < len(a):
                put(os.path.join(d, "r"), a[:cut])
                s.play(case, rs.Data(case), {})
                r = run(rs.argv(ctx, case, os.path.join(d, "r"), ["--resume"]), cwd=d, env=s.env())
                # all records may be there already
                if r.rc == 0 or first + 1 < case["limit"]:
                    need(r, "resuming a download cut at byte %d" % cut)
                    same(get(os.path.join(d, "r")), a, "the download cut at byte %d and resumed, and the whole one" % cut)
                    cl.append("resumed")
            k = case["k"]
            short = dl("s", limit=k)
            same(short, a[:len(short)], "the download of %d prefixes, and of %d" % (k, case["limit"]))
            if short and k < case["limit"]:
                s.play(case, rs.Data(case), {})
                need(run(rs.argv(ctx, case, os.path.join(d, "s"), ["--resume"]), cwd=d, env=s.env()), "resuming a download of %d prefixes" % k)
                same(get(os.path.join(d, "s")), a, "the download of %d prefixes resumed to %d, and the whole one" % (k, case["limit"]))
                cl.append("extended")
        return {"nontrivial": len(a) > rec, "classes": [typ] + cl}
    finally:
        ctx.drop_dir(d)


# ---- histories of tools -------------------------------------------------------------------------

OPS = ["to text", "to binary", "to binary", "sort", "sort", "sort by count", "topn", "topn", "diff", "diff", "shuffle", "join", "head", "search", "dupes", "round", "edit"]


@st.composite
def histories(draw):
    typ = draw(st.sampled_from(["sha1", "ntlm"]))
    big = draw(st.integers(0, 11)) == 0
    spec = draw(db.specs(types=(typ,), n=st.sampled_from([44000, 66000]) if big else st.one_of(st.integers(1, 30), st.integers(1, 400), st.sampled_from(db.around(1000, 2730, 3276)))))
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 2**31 - 1), st.integers(0, 2**31 - 1)).map(list), min_size=2, max_size=6 if big else 12))
    return {"db": spec, "ops": ops}


def check_history(case, ctx):
    spec, typ = case["db"], case["db"]["type"]
    d = ctx.fresh_dir()
    F = NTLM[typ]
    B = ctx.bins
    pool = []           # name, is text, records
    done, log = [], []
    try:
        def add(name, txt, recs, what):
            p = os.path.join(d, name)
            want = "".join(db.line(r) + "\n" for r in recs).encode() if txt else db.pack(recs)
            got = get(p)
            if got != want:
                same(got, want, "%s after %s" % (what, log))
            pool.append((p, txt, recs))
            log.append(what)
        put(os.path.join(d, "f0"), db.pack(db.expand(spec)))
        add("f0", False, db.expand(spec), "the start")
        for n, (op, i, k) in enumerate(case["ops"]):
            bins = [x for x in pool if not x[1]]
            txts = [x for x in pool if x[1]]
            src, txt, recs = (txts if op == "to binary" else bins or pool)[i % len(txts if op == "to binary" else bins)] if (txts if op == "to binary" else bins) else (None, 0, 0)
            if src is None or sum(len(x[2]) for x in pool) > 400000:
                continue
            out = os.path.join(d, "o%d" % n)
            what = "%s(%s)" % (op, os.path.basename(src))
            keys = [r[0] for r in recs]
            dups = len(set(keys)) != len(keys)
            issorted = keys == sorted(keys)
            if op == "to text":
                need(run([B["rel:convert"], "--bin-to-txt", "-i", src, "-o", out] + F, cwd=d), what)
                add("o%d" % n, True, recs, what)
            elif op == "to binary":
                if k % 2:
                    r = need(run([B["rel:convert"], "--txt-to-bin", "--stdin", "-o", out] + F, cwd=d, stdin=get(src)), what)
                else:
                    put(out, need(run([B["rel:convert"], "--txt-to-bin", "-i", src, "--stdout"] + F, cwd=d), what).out)
                add("o%d" % n, False, recs, what)
            elif op == "head":
                lim = k % (len(recs) + 2)
                need(run([B["rel:convert"], "--bin-to-txt", "-i", src, "-o", out, "--limit", str(lim)] + F, cwd=d), what)
                add("o%d" % n, True, recs[:lim], what + " %d" % lim)
            elif op in ("sort", "sort by count"):
                if os.path.exists(src + ".sorted"):
                    continue
                need(run([B["rel:sort"], "-i", src, "--max-memory", str(1 + k % 3)] + ["--sort-by-count"] * (op != "sort") + F, cwd=d), what)
                want = sorted(recs, key=lambda r: r[0] if op == "sort" else (-r[1], r[0]))
                if dups:        # records of the same hash are in no defined order
                    got = db.unpack(typ, get(src + ".sorted")) or []
                    if sorted(got) != sorted(recs) or [r[0] for r in got] != [r[0] for r in want]:
                        raise Violation("%s gives other records after %s" % (what, log))
                    want = got
                add(os.path.basename(src) + ".sorted", False, want, what)
            elif op == "topn":
                if len(recs) < 2 or dups:
                    continue
                N = 1 + k % (len(recs) - 1)
                need(run([B["rel:topn"], src, "-N", str(N), "-o", out] + F, cwd=d), what)
                add("o%d" % n, False, sorted(sorted(recs, key=lambda r: (-r[1], r[0]))[:N]), what + " %d" % N)
            elif op == "shuffle":
                recs = list(recs)
                random.Random(k).shuffle(recs)
                put(out, db.pack(recs))
                add("o%d" % n, False, recs, what)
            elif op == "edit":
                recs = [(h, (c + 1) % 1000 if random.Random(k + j).random() < .3 else c) for j, (h, c) in enumerate(recs)]
                put(out, db.pack(recs))
                add("o%d" % n, False, recs, what)
            elif op == "join":
                other = bins[k % len(bins)]
                put(out, db.pack(recs) + db.pack(other[2]))
                add("o%d" % n, False, recs + other[2], what)
            elif op == "round":
                a = need(run([B["rel:convert"], "--bin-to-txt", "-i", src, "--stdout"] + F, cwd=d), what)
                b = need(run([B["rel:convert"], "--txt-to-bin", "--stdin", "--stdout"] + F, cwd=d, stdin=a.out), what)
                same(b.out, get(src), "conversion to text and back of %s" % what)
            elif op == "diff":
                other = bins[k % len(bins)]
                keys2 = [r[0] for r in other[2]]
                if not issorted or dups or keys2 != sorted(set(keys2)):
                    continue
                # one of the two ways round is more likely to be no deletion
                old, new = sorted([recs, other[2]], key=len)
                fo, fn = (src, other[0]) if old is recs else (other[0], src)
                r = run([B["rel:diff"], fo, fn] + F, cwd=d)
                gone = {x[0] for x in old} - {x[0] for x in new}
                if gone:
                    if r.rc == 0:
                        raise Violation("%d records are deleted, but not refused: %s" % (len(gone), r))
                else:
                    need(r, what)
                    lines = r.text().split("\n")
                    if lines.pop() != "" or c13.apply(old, lines, what)[0] != new:
                        raise Violation("the diff does not turn one into the other after %s: %s" % (log, r))
                    if fo == fn and lines:
                        raise Violation("a database differs from itself: %s" % r)
            elif op == "dupes":
                r = need(run([B["rel:dupes"], src] + F, cwd=d), what)
                want = [db.line(recs[j]) for j in range(1, len(recs)) if keys[j][:8] == keys[j - 1][:8]]
                got = [m.group(2) for m in map(c14.LINE.match, r.text().split("\n")) if m]
                if got != want:
                    raise Violation("%d repetitions are reported, %d expected, after %s: %s" % (len(got), len(want), log, r))
            elif op == "search":
                if not issorted or dups:
                    continue
                for h in [keys[k % len(keys)] if keys else b"\5" * db.HS[typ], random.Random(k).randbytes(db.HS[typ])] + [x[2][k % len(x[2])][0] for x in bins if x[2]]:
                    r = lookup.search(B["rel:search"], typ, src, h.hex().upper(), cwd=d)
                    if lookup.answer(r) != lookup.expect(dict(recs), h):
                        raise Violation("looking up %s after %s: %s" % (h.hex(), log, r))
            done.append(op)
        for p, txt, recs in pool:
            same(get(p), "".join(db.line(r) + "\n" for r in recs).encode() if txt else db.pack(recs), "%s has changed, %s" % (p, log))
        return {"nontrivial": len(done) > 2 and len(set(done)) > 1, "classes": set(done) | {typ} | ({"several chunks"} if spec["n"] > 40000 else set())}
    finally:
        ctx.drop_dir(d)


SPACE = st.sampled_from([" ", "  ", "\t", "\n", "\r", "\r\n", "\u00a0", "\u3000", "\ufeff", "\x0b", "\x7f", "\x01"])
EDGY = st.one_of(c17.PW, st.tuples(c17.PW, SPACE).map("".join), st.tuples(SPACE, c17.PW).map("".join), st.sampled_from([" ", "\t", "\n", '"a"', "'a'", "$HOME", "a\\n", "%n%s", "{}", "A" * 40, "0" * 32, "a" * 16, "F" * 40, "0x0", "@file", "=", "x" * 300]),
                 st.sampled_from(["PASSWORD", "Password", "password ", "p\u0061\u0308", "p\u00e4", "\u017f\u0131\u0130", "\ufb01", "\u212b", "\u0000a"]), st.text(st.sampled_from("a\u00e9\u20ac\U0001f600\uffff\U0010ffff"), min_size=20, max_size=70))


# ---- answers ------------------------------------------------------------------------------------

@st.composite
def answers(draw):
    typ = draw(st.sampled_from(["sha1", "ntlm", "sha1t64"]))
    bits = draw(st.sampled_from([15, 16, 18, 20]))
    s = dict(draw(toc.dense_specs(types=(typ,), complete=False, gaps=False)), bits=bits)
    plain = draw(st.integers(0, 2)) == 0          # mostly passwords; no table, so that all of them can be in the database
    if plain:
        s = dict(draw(db.specs(types=(typ,), n=st.integers(1, 60))), bits=20)
    return {"db": s, "plain": plain, "pw": draw(st.lists(EDGY, min_size=3, max_size=12) if plain else st.lists(c17.PW, max_size=6)), "stored": draw(st.integers(0, 2)), "q": draw(st.lists(st.integers(0, 2**31 - 1), min_size=1, max_size=10)), "seed": draw(st.integers(0, 2**32 - 1)),
            "threads": draw(st.sampled_from([1, 2, 4])), "json": draw(st.booleans())}


def check_answers(case, ctx):
    spec, typ = case["db"], case["db"]["type"]
    d = ctx.fresh_dir()
    srv = []
    try:
        rnd = random.Random(case["seed"])
        recs = dict(db.expand(spec) if case["plain"] else toc.records(spec))
        pws = [p for p in case["pw"] if "\0" not in p and p and not p.startswith("-")]
        for i, p in enumerate(pws[:case["stored"] * (6 if case["plain"] else 1)]):
            h = lookup.hash_of(typ, p)
            if case["plain"] or toc.prefix(h, spec["bits"]) < spec["p"]:
                recs[h] = 77 + i
        lst = sorted(recs.items())
        f = put(os.path.join(d, "x.bin"), db.pack(lst))
        os.utime(f, (10**9, 10**9))
        hs = []
        for q in case["q"]:
            h = lst[q % len(lst)][0]
            hs.append(rnd.choice([h, h, db.neighbour(h, 1) or h, db.neighbour(h, -1) or h, rnd.randbytes(len(h))]))
        urls = ["/check/%s/%s" % (typ, h.hex().upper()) for h in hs] + ["/check/plain/" + c17.encode(p.encode(), rnd) for p in pws]
        ask = [(h.hex().upper(), True) for h in hs] + [(p, False) for p in pws]
        given = {}
        for way in ("search", "search with a table", "search with the saved table")[:1 if case["plain"] else 3]:
            given[way] = []
            for q, ishash in ask:
                r = lookup.search(ctx.bins["rel:search"], typ, f, q, hash_query=ishash, toc=spec["bits"] if way != "search" else None, cwd=d)
                a = lookup.answer(r)
                if a[0] == "error":
                    raise Violation("%s of %r fails: %s" % (way, q, r))
                given[way].append(a[2] if a[0] == "found" else -1)
                if way == "search with a table":
                    os.unlink("%s.%d.toc" % (f, spec["bits"]))
        for way, extra in (("server", []), ("server with a table", ["--toc", "--toc-bits", str(spec["bits"])]))[:1 if case["plain"] else 2]:
            s = httpd.Server([ctx.bins["rel:server"], "--%s-db" % typ, f, "--threads", str(case["threads"])] + extra + ["--json"] * case["json"], d)
            srv.append(s)
            if s.failed:
                raise Violation("the server does not start: %s" % s.failed)
            x = httpd.Session([b"GET %s HTTP/1.1\r\nHost: x\r\n\r\n" % u.encode() for u in urls], len(urls), gate=True)
            httpd.converse(s.port, [x], 1)
            if len(x.replies) != len(urls):
                raise Violation("%d replies to %d requests: %s" % (len(x.replies), len(urls), s.result()))
            given[way] = [int(m.group(0)) if r[0] == 200 and m else r for r in x.replies for m in [re.search(rb"-?\d+", r[1])]]
            s.kill()
        for i, q in enumerate(ask):
            want = recs.get(hs[i] if i < len(hs) else lookup.hash_of(typ, q[0]), -1)
            if any(g[i] != want for g in given.values()):
                raise Violation("%r (%s, %d records, %d bits): %d is stored, the answers are %s" % (q, typ, len(lst), spec["bits"], want, {k: g[i] for k, g in given.items()}))
        return {"nontrivial": any(a != -1 for a in given["search"]), "classes": [typ, "%d bits" % spec["bits"]] + ["plain"] * bool(pws)}
    finally:
        for s in srv:
            s.kill()
        ctx.drop_dir(d)


PROP = Prop("C24", "exploration",
            "Hypothesis draws (download) range data and two ways of delivering them, a cut and a smaller limit; (history) sequences of up to 12 tool runs over a growing pool of files, "
            "each run's output compared with a model of the pool and all files once more at the end; (answers) a database with hash and plain queries asked of hibp-search without, with a new and with a saved table, "
            "and of hibp-server without and with a table. Non-trivial: downloads of more than one record; histories of at least three runs of two tools; answer cases in which something is found.",
            ["rel:" + t for t in ("search", "server", "convert", "dupes", "topn", "diff", "sort", "download")],
            [Arm("download", downloads(), check_download, 360, 8000), Arm("history", histories(), check_history, 1600, 40000), Arm("answers", answers(), check_answers, 480, 10000)],
            technique="property-based testing (Hypothesis): differential and metamorphic relations between the tools, stateful histories of tool runs against a model of the files",
            note="Exploration: every relation is checked on the complete output of every generated case.")
