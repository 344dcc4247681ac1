"""What the tools report about their work is true."""
import os, random, re
from hypothesis import strategies as st
import db, lookup, toc
import rangeserver as rs
from driver import Prop, Arm, Violation
from tools import run, put, get

PROGRESS = re.compile(rb"(\d+)\s*/\s*(\d+)\s*files.*?([\d.]+|-?nan|inf)\s*%")
WROTE = re.compile(rb"wrote (\d+) \w* ?records with prefix ([0-9A-F]{5})")


@st.composite
def downloads(draw):
    c = draw(rs.scenarios())
    c["fails"] = draw(rs.fails(c["limit"], kinds=rs.CLEAN)) if c["limit"] and draw(st.booleans()) else {}
    if c["fails"] and draw(st.integers(0, 2)) == 0:
        k = draw(st.sampled_from(sorted(c["fails"])))
        c["fails"][k] = [c["fails"][k][0], "*"]
        if c["fmt"]["frame"] == "close":
            c["fmt"] = dict(c["fmt"], frame="length")
    if not c["txt"] and c["limit"] and draw(st.booleans()):
        c["have"] = draw(st.integers(1, 2**31))
        c["at"] = draw(st.sampled_from(["byte", "record", "prefix", "prefix"]))
    return c


def check_download(case, ctx):
    s = rs.server(ctx)
    data = rs.Data(case)
    limit, rec = case["limit"], db.REC[case["type"]]
    want = data.expected(case["txt"])
    starts = [0]
    for p in range(limit):
        starts.append(starts[-1] + rec * len(data.records(p)))
    d = ctx.fresh_dir()
    cl = []
    try:
        out = os.path.join(d, "out")
        extra, n = [], 0
        if case.get("have") and len(want) >= rec:
            n = 1 + case["have"] % len(want)
            if case["at"] == "record":
                n = n // rec * rec
            elif case["at"] == "prefix":
                n = starts[1:][case["have"] % limit]
            if n >= rec:
                put(out, want[:n])
                extra = ["--resume"]
        s.play(case, data, case["fails"])
        r = run(rs.argv(ctx, case, out, extra), cwd=d, env=s.env())
        start = 0
        if extra:
            whole = n // rec * rec
            last = max(p for p in range(limit) if starts[p] < whole)
            complete = starts[last + 1] == whole
            looked = case["fails"].get(str(last), [])
            cl.append("resumed after a complete prefix" if complete else "resumed in a prefix")
            m = re.search(rb"trimmed off (\d+) bytes", r.err)
            if (int(m[1]) if m else 0) != n % rec:
                raise Violation("%d bytes of a file of %d don't belong to a record, reported: %s: %s" % (n % rec, n, m and m[0], r))
            start = last + complete
            m = re.search(rb"Resuming from file (\d+)", r.err)
            if m and int(m[1]) != start:
                raise Violation("a file of %d bytes is resumed at prefix %d, reported: %s: %s" % (n, start, m[0], r))
            if r.rc == 0 and not m:
                raise Violation("resumes a file, but doesn't report where: %s" % r)
            t = re.search(rb"trimming file to (\d+)", r.err)
            if t and (complete or int(t[1]) != starts[last]):
                raise Violation("the last prefix of the file of %d bytes starts at %d, reported: %s: %s" % (n, starts[last], t[0], r))
            if m and not complete and not t:
                raise Violation("the incomplete last prefix is removed, but this is not reported: %s" % r)
            if looked and not m:
                return {"nontrivial": True, "classes": cl + ["the look at the last prefix fails"]}
        todo = limit - start
        seen = [(int(m[1]), int(m[2]), m[3]) for m in PROGRESS.finditer(r.err)]
        if case["flags"] and seen:
            raise Violation("a progress display despite %s: %s" % (case["flags"], r))
        prev = 0
        for a, b, pc in seen:
            if b != todo or a < prev or a > b:
                raise Violation("%d prefixes are to do, the progress says %d / %d after %d: %s" % (todo, a, b, prev, r))
            prev = a
            if abs(float(pc) - 100 * a / b) > .06:
                raise Violation("%d / %d prefixes are done, the progress says %s%%: %s" % (a, b, pc.decode(), r))
        if seen:
            cl.append("progress")
            cl += ["progress of more than one step"] * (len({a for a, _, _ in seen}) > 1)
        if r.rc == 0 and todo > 0 and not case["flags"] and prev != todo:
            raise Violation("all %d prefixes are done, but the progress ends with %d: %s" % (todo, prev, r))
        if r.rc != 0 and not extra and seen:
            done = len(get(out)) if os.path.exists(out) else 0
            sizes, at = [len(data.expected(case["txt"], p, p + 1)) for p in range(prev)], 0
            # what is done according to the display is in the file, or at least was answered
            if any(s.attempts.get(p, 0) <= len([f for f in case["fails"].get(str(p), [])]) and "*" not in case["fails"].get(str(p), []) or "*" in case["fails"].get(str(p), []) for p in range(prev)):
                raise Violation("the progress says that %d prefixes are done, but one of them never was answered (%d bytes written): %s" % (prev, done, r))
        wrote = [(int(m[1]), int(m[2], 16)) for m in WROTE.finditer(r.err)]
        if "--debug" in case["flags"]:
            true = [(len(data.records(p)), p) for p in range(start, limit)]
            if wrote != true[:len(wrote)] or r.rc == 0 and wrote != true:
                raise Violation("what was written per prefix is %s, reported: %s: %s" % (true[:20], wrote[:20], r))
            cl += ["log"] * bool(wrote)
        if r.rc != 0:
            m = re.search(rb"prefix: ([0-9A-F]{5}), curl result: .*?http resp code: (\d+), after (\d+) retries(?![\s\S]*curl result)", r.err)
            bad = {int(k): v for k, v in case["fails"].items() if "*" in v or len(v) > 5}
            if not bad and not extra:
                raise Violation("fails: %s" % r)
            if bad and m:
                p = int(m[1], 16)
                if p not in bad or int(m[2]) != int(bad[p][0][:3]) or int(m[3]) != 5:
                    raise Violation("a prefix of %s always fails, reported: %s: %s" % ({"%05X" % k: v for k, v in bad.items()}, m[0], r))
                cl.append("failure")
        return {"nontrivial": bool(cl), "classes": cl + [case["type"]]}
    finally:
        ctx.drop_dir(d)


@st.composite
def works(draw):
    tool = draw(st.sampled_from(["sort", "sort", "topn", "toc", "toc", "search", "dupes", "convert"]))
    typ = draw(st.sampled_from(["sha1", "ntlm", "sha1t64"] if tool in ("search", "toc", "topn") else ["sha1", "ntlm"]))
    c = {"tool": tool, "type": typ, "k": draw(st.integers(0, 2**31 - 1)), "name": draw(st.sampled_from(["x.bin", "with space", "a{b}c", "\u00e4.db"]))}
    if tool == "toc":
        c["db"] = dict(draw(toc.dense_specs(types=(typ,), complete=False)), bits=draw(st.sampled_from([15, 15, 16, 17, 20, 25])))
        if draw(st.integers(0, 11)) == 0:       # complete, or nearly
            c["db"].update(bits=15, per=1, gap=None, p=(1 << 15) - draw(st.sampled_from([0, 0, 1, 2, 3, 17, 200, 2000])))
    else:
        c["db"] = draw(db.specs(types=(typ,), n=st.one_of(st.integers(1, 40), st.integers(1, 400), st.sampled_from(db.around(1000, 2730))), orders=("shuffled",) if tool in ("sort", "topn") else ("sorted",)))
        if tool == "sort" and draw(st.integers(0, 3)) == 0:
            c["db"]["n"] = draw(st.sampled_from([43690, 43691, 52428, 52429, 60000, 87380, 90000, 104857]))
    return c


def number(r, out, label):
    m = re.search(re.escape(label) + rb"\D*?(\d+)", out)
    if not m:
        raise Violation("doesn't report its %s: %s" % (label.decode(), r))
    return int(m[1])


def check_work(case, ctx):
    tool, typ, k = case["tool"], case["type"], case["k"]
    F = lookup.FLAG[typ]
    recs = toc.records(case["db"]) if tool == "toc" else db.expand(case["db"])
    n = len(recs)
    d = ctx.fresh_dir()
    cl = [tool, typ]
    try:
        name = case["name"]
        put(os.path.join(d, name), db.pack(recs))
        B = lambda t: [ctx.bins["rel:" + t]]
        if not n:
            return {}
        if tool == "sort":
            mb = 1 + k % 3
            r = run(B("sort") + ["-i", name, "--max-memory", str(mb)] + F + ["--sort-by-count"] * (k % 2), cwd=d)
            if r.rc:
                raise Violation("fails: %s" % r)
            if number(r, r.err, b"records to sort") != n:
                raise Violation("sorts %d records, but reports another number: %s" % (n, r))
            if number(r, r.err, b"max memory usage") != mb << 20:
                raise Violation("may use %d MB, but reports another number: %s" % (mb, r))
            parts = [(int(a), int(b)) for a, b in re.findall(rb"sorting \[\s*(\d+),\s*(\d+)\)", r.err)]
            if [a for a, b in parts] != [0] + [b for a, b in parts[:-1]] or parts[-1][1] != n or any(a >= b for a, b in parts):
                raise Violation("the reported parts %s are not a partition of %d records: %s" % (parts, n, r))
            size = number(r, r.err, b"chunk size")
            if number(r, r.err, b"number of chunks") != len(parts) or any(b - a > size for a, b in parts) or size * db.REC[typ] > mb << 20:
                raise Violation("%d parts, at most %d records each, %d MB: %s" % (len(parts), max(b - a for a, b in parts), mb, r))
            m = re.search(rb"data was written to (.*)\n", r.err)
            if not m or not os.path.exists(os.path.join(d, os.fsdecode(m[1]))) or m[1] != os.fsencode(name) + b".sorted":
                raise Violation("the sorted data is in %s.sorted, reported: %s: %s" % (name, m and m[0], r))
            cl.append("parts: %d" % len(parts))
        elif tool == "topn":
            N = 1 + k % (2 * n)
            r = run(B("topn") + [name, "-N", str(N), "--stdout"] + F, cwd=d)
            if (r.rc != 0) != (N >= n):
                raise Violation("-N %d of %d records: %s" % (N, n, r))
            if N >= n:
                nums = {int(x) for x in re.findall(rb"\d+", r.err)}
                if not {n, N} <= nums:
                    raise Violation("-N %d of %d records is refused, but with other numbers: %s" % (N, n, r))
                cl.append("refused")
        elif tool == "toc":
            bits = case["db"]["bits"]
            q = recs[k % n][0]
            a = B("search") + [name, q.hex().upper(), "--hash", "--toc", "--toc-bits", str(bits)] + F
            r = run(a, cwd=d)
            if r.rc:
                if toc.buildable(recs, bits):
                    raise Violation("fails: %s" % r)
                if not re.search(rb"prefix 0*%X\b" % missing(recs, bits), r.err):
                    raise Violation("the first prefix without a record is %X, reported otherwise: %s" % (missing(recs, bits), r))
                return {"nontrivial": True, "classes": cl + ["missing prefix"]}
            entries = toc.prefix(recs[-1][0], bits) + 1
            for label, v in ((b"DB size", n), (b"Number of bits in ToC prefix", bits), (b"Number of ToC entries", entries)):
                if number(r, r.out, label) != v:
                    raise Violation("%s is %d, reported otherwise: %s" % (label.decode(), v, r))
            partial = b"artial" in r.out
            if partial != (entries < 1 << bits):
                raise Violation("%d entries of %d bits, %sreported as partial: %s" % (entries, bits, "" if partial else "not ", r))
            m = re.search(rb"saving table of contents: (.*)\n", r.out)
            f = "%s.%d.toc" % (name, bits)
            if not m or m[1].strip(b'"') != os.fsencode(f) or not os.path.exists(os.path.join(d, f)):
                raise Violation("the table is in %s, reported: %s: %s" % (f, m and m[0], r))
            cl.append("partial" if partial else "complete")
        elif tool == "search":
            text = "pw%d" % k
            hashed = k % 2
            h = random.Random(k).choice([recs[k % n][0], random.Random(k).randbytes(db.HS[typ])]) if hashed else lookup.hash_of(typ, text)
            r = run(B("search") + [name, h.hex().upper() if hashed else text] + ["--hash"] * hashed + F, cwd=d)
            m = re.search(rb"needle = ([0-9A-F]+)", r.out)
            if r.rc or not m or m[1] != h.hex().upper().encode():
                raise Violation("looks for %s, reported: %s: %s" % (h.hex().upper(), m and m[0], r))
            m = re.search(rb"found\s*= ([0-9A-F]+)", r.out)
            if m and m[1] != h.hex().upper().encode():
                raise Violation("looks for %s, reported: %s: %s" % (h.hex().upper(), m[0], r))
        elif tool == "dupes":
            bits = 32 + k % 33
            r = run(B("dupes") + [name, "--bits", str(bits)] + F, cwd=d)
            if r.rc or number(r, r.out.split(b"\n")[0], b"") != bits:
                raise Violation("looks at %d bits, reported otherwise: %s" % (bits, r))
        else:
            back = k % 2
            if back:
                put(os.path.join(d, name), "".join(db.line(x) + "\n" for x in recs).encode())
            out = "out" if k % 3 else None
            r = run(B("convert") + ["--txt-to-bin" if back else "--bin-to-txt", "-i", name] + (["-o", out] if out else ["--stdout"]) + F, cwd=d)
            e = r.err
            if r.rc or os.fsencode(name) not in e or (out or "standard_output").encode() not in e or not re.search(rb"binary.*text" if not back else rb"text.*binary", e):
                raise Violation("converts %s to %s, reported otherwise: %s" % (name, out or "stdout", r))
        return {"nontrivial": n > 1, "classes": cl}
    finally:
        ctx.drop_dir(d)


def missing(recs, bits):
    have = {toc.prefix(h, bits) for h, _ in recs}
    return next(p for p in range(1 << bits) if p not in have)


PROP = Prop("C28", "exploration",
            "Hypothesis draws downloads (data, limit, parallelism, order and framing of the responses, failing ones, files to resume; with progress display, --debug or neither) and runs of the other tools. Everything they report about their work is "
            "read from their output and compared with what the data, the range server's record and the file system say. Non-trivial: something was reported (arm works: about at least two records).",
            ["rel:download", "rel:sort", "rel:topn", "rel:search", "rel:dupes", "rel:convert"],
            [Arm("downloads", downloads(), check_download, 1600, 40000), Arm("works", works(), check_work, 1200, 30000)],
            technique="property-based testing (Hypothesis): reports compared with a model of the work and with the recorded requests",
            note="Exploration: every report of each generated run is decided exactly.")
