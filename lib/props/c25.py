"""A result depends on what the inputs contain, not on names, places, environment or what was done before."""
import os, random, subprocess
from hypothesis import strategies as st
import db, lookup, toc
import rangeserver as rs
from driver import Prop, Arm, Violation
from tools import run, put, get

NAMES = ["x.bin", "with space", " lead", "{}", "{0}{1}", "{:d}", "%s%n%d", "a\nb", "t\tb", "\u00e4\u4e2d\U0001f600", b"\xff\xfe\x80".decode("utf-8", "surrogateescape"), "-dash", "--force", "#h", "$HOME", "*?[", "'q\"", "back\\slash",
         "n" * 120, ".hidden", "x.toc", "x.sorted", "x.20.toc", "x.partial.0000", "CON", "a:b", "~", "x.bin.", "1", "null", "stdin", "=a=", "a,b;c", "&|<>"]
FORMS = ["plain", "dot", "abs", "up", "link", "dirlink", "deep", "double", "via proc"]
ENVS = [{}, {}, {"LC_ALL": "de_DE.UTF-8", "LANG": "de_DE.UTF-8"}, {"LC_ALL": "C.utf8"}, {"LANG": "no_SUCH.locale", "LC_ALL": "no_SUCH.locale"}, {"LC_ALL": "POSIX"}, {"TZ": "Pacific/Kiritimati"}, {"TZ": ":/none"}, {"COLUMNS": "1"},
        {"POSIXLY_CORRECT": "1"}, {"TMPDIR": "/nonexistent"}, {"HOME": "/nonexistent"}, {"PATH": ""}, {"MALLOC_PERTURB_": "90"}, {"MALLOC_PERTURB_": "165"}, {"MALLOC_ARENA_MAX": "1", "MALLOC_TOP_PAD_": "0"}, {"TERM": "dumb"}, {"USER": "x" * 5000}, None]
AROUND = ["nothing", "other data", "stale parts", "old result", "other tocs", "old sorted"]

PLACE = st.fixed_dictionaries({"name": st.sampled_from(NAMES), "out": st.sampled_from(NAMES), "form": st.sampled_from(FORMS), "cwd": st.sampled_from(["here", "here", "sub", "root"]), "env": st.sampled_from(ENVS),
                               "umask": st.sampled_from([0o22, 0o22, 0, 0o77]), "stdin": st.sampled_from(["null", "null", "closed", "pipe", "file"]), "stdout": st.sampled_from(["pipe", "file", "append"]),
                               "mtime": st.sampled_from([None, None, 1, 2**31 + 5, 4 * 10**9]), "around": st.sampled_from(AROUND), "mode": st.sampled_from([0o644, 0o644, 0o400, 0o600]), "again": st.booleans()})


@st.composite
def cases(draw):
    tool = draw(st.sampled_from(["search", "search", "toc", "toc", "to text", "to binary", "topn", "sort", "sort", "diff", "dupes", "download"]))
    typ = draw(st.sampled_from(["sha1", "ntlm", "sha1t64"] if tool in ("search", "toc", "topn", "download") else ["sha1", "ntlm"]))
    c = {"tool": tool, "type": typ, "k": draw(st.integers(0, 2**31 - 1)), "to": draw(st.sampled_from(["file", "file", "stdout"])), "place": draw(PLACE)}
    if tool == "toc":
        c["db"] = dict(draw(toc.dense_specs(types=(typ,), complete=False, gaps=False)), bits=draw(st.sampled_from([15, 16, 20])))
    elif tool == "download":
        s = draw(rs.scenarios(maxlimit=8, minlimit=1))
        c["scenario"] = dict(s, type=typ, txt=s["txt"] and typ != "sha1t64", limit=min(8, s["limit"]))
    else:
        c["db"] = draw(db.specs(types=(typ,), n=st.one_of(st.integers(2, 40), st.integers(2, 400), st.sampled_from(db.around(1000, 2730))), orders=("shuffled",) if tool == "sort" else ("sorted",)))
        if tool == "sort" and draw(st.integers(0, 9)) == 0:
            c["db"]["n"] = 60000
    return c


HOME = {"name": "x.bin", "out": "out", "form": "abs", "cwd": "here", "env": {}, "umask": 0o22, "stdin": "null", "stdout": "pipe", "mtime": 10**9, "around": "nothing", "mode": 0o644, "again": False}


def act(case, place, ctx, d):
    """-> the result of the run at that place: exit status, answer, output file"""
    tool, typ, k = case["tool"], case["type"], case["k"]
    F = lookup.FLAG[typ]
    data = os.path.join(d, "data")
    other = os.path.join(d, "sub", "further")
    os.makedirs(data)
    os.makedirs(other)
    os.symlink("../data", os.path.join(d, "sub", "ln"))
    name, out = place["name"], place["out"] if place["out"] != place["name"] else place["out"] + "2"
    deep = os.path.join(data, *["d" * 100] * 8)
    at = deep if place["form"] == "deep" else data
    os.makedirs(at, exist_ok=True)
    stored = []

    def store(n, b):
        p = os.path.join(at, n)
        put(p, b)
        if place["form"] == "link":
            os.rename(p, os.path.join(other, "real" + str(len(stored))))
            os.symlink(os.path.join(other, "real" + str(len(stored))), p)
        if place["mtime"]:
            os.utime(p, (place["mtime"], place["mtime"]))
        os.chmod(p, place["mode"])
        stored.append((p, b))
        return n
    cwd = {"here": at, "sub": other, "root": "/"}[place["cwd"]]

    def path(n):
        p = os.path.join(at, n)
        f = place["form"]
        if f in ("plain", "dot") and cwd == at and not (f == "plain" and n.startswith("-")):
            return n if f == "plain" else "./" + n
        if f == "dirlink":
            return os.path.join(d, "sub", "ln", n)
        if f == "up":
            return os.path.join(data, "..", "sub", "further", "..", "..", "data", n)
        if f == "double":
            return d + "//data/././/" + n
        if f == "via proc":
            return "/proc/self/root" + p
        if cwd != "/" and f in ("plain", "dot"):
            p = os.path.relpath(p, cwd)
            return "./" + p if p.startswith("-") else p
        return p
    env, stdin = {}, None
    if tool == "download":
        s = rs.server(ctx)
        sc = case["scenario"]
        s.play(sc, rs.Data(sc), {})
        env.update(s.env())
        argv = rs.argv(ctx, sc, path(out))
    else:
        recs = toc.records(case["db"]) if tool == "toc" else db.expand(case["db"])
        raw = "".join(db.line(r) + "\n" for r in recs).encode() if tool == "to binary" else db.pack(recs)
        store(name, raw)
        f = path(name)
        h = recs[k % len(recs)][0] if k % 3 else random.Random(k).randbytes(db.HS[typ])
        argv = {"search": ["search", f, h.hex().upper(), "--hash"] + F, "toc": ["search", f, h.hex().upper(), "--hash", "--toc", "--toc-bits", str(case["db"].get("bits", 20))] + F,
                "to text": ["convert", "--bin-to-txt", "-i", f] + F, "to binary": ["convert", "--txt-to-bin", "-i", f] + F, "topn": ["topn", f, "-N", str(1 + k % max(1, len(recs) - 1))] + F,
                "sort": ["sort", "-i", f, "--max-memory", "1"] + F + ["--sort-by-count"] * (k % 2), "dupes": ["dupes", f, "--bits", "32"] + F, "diff": ["diff", f, f] + F}[tool]
        if tool == "diff":
            new = [(hh, c if (i + k) % 5 else c ^ 1) for i, (hh, c) in enumerate(recs)] + [(b"\xff" * db.HS[typ], 9)] * (recs[-1][0] != b"\xff" * db.HS[typ])
            argv[2] = path(store(out, db.pack(new)))
        if argv[0] in ("convert", "topn"):
            argv += ["--stdout"] if case["to"] == "stdout" else ["-o", path(out)]
            if case["to"] == "stdout":
                pass
        argv[0] = ctx.bins["rel:" + argv[0]]
    product = {"sort": name + ".sorted", "download": out}.get(tool, out if tool in ("to text", "to binary", "topn") and case["to"] == "file" else None)
    tocfile = "%s.%d.toc" % (name, case["db"]["bits"]) if tool == "toc" else None
    if place["around"] == "other data":
        for n in ("y.bin", "out.tmp", "x.bin.bak", "core"):
            if n not in (name, out, product):
                put(os.path.join(at, n), b"unrelated")
    elif place["around"] == "stale parts" and tool == "sort":
        # of a run over other contents: sorted records, as many as this run has in each part, or any number of bytes
        per = min(len(recs), (1 << 20) // db.REC[typ])
        for i in range(4):
            n = min(per, max(0, len(recs) - i * per)) or per
            hs = sorted(random.Random(k + i).randbytes(db.HS[typ]) for _ in range(n))
            b = b"".join(h + b"\0\0\0\7" for h in hs) if k % 4 else random.Random(i).randbytes(2400)
            for where in {at} | ({other} if cwd == other else set()):
                put(os.path.join(where, "%s.partial.%04d" % (name, i)), b)
    elif place["around"] == "other tocs" and tool != "toc":
        put(os.path.join(at, name + ".20.toc"), random.Random(1).randbytes(4000))
    elif place["around"] == "other tocs":
        put(os.path.join(at, "%s.%d.toc" % (name, case["db"]["bits"] + 1)), random.Random(1).randbytes(4000))
    elif place["around"] == "old sorted" and tool == "sort":
        # longer, or just as long: of other contents, or of the same in another order; newer than the input
        n = len(raw) // db.REC[typ]
        put(os.path.join(at, name + ".sorted"), [b"z" * 3000000, raw, b"".join(h + b"\0\0\0\7" for h in sorted(random.Random(k).randbytes(db.HS[typ]) for _ in range(n)))][k // 2 % 3])
    elif place["around"] == "old result" and product and tool not in ("sort",):
        put(os.path.join(at, product), b"z" * 100000)
        argv += ["--force"]
    if place["env"] is None:
        full = ["/usr/bin/env", "-i"] + ["%s=%s" % x for x in env.items()] + argv
    else:
        env.update(place["env"])
        full = argv
    if place["env"] and place["env"].get("PATH") == "":
        full = argv
    for p, b in place.get("plant", ()):
        p = os.path.join(d, p)
        if not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            put(p, b)
    before = set(os.listdir(at))
    elsewhere = set(os.listdir(other))
    res = []
    for turn in range(2 if place["again"] and tool in ("search", "toc", "diff", "dupes") else 1):
        so = None
        sp = None
        if place["stdout"] in ("file", "append"):
            sp = os.path.join(d, "stdout%d" % turn)
            so = open(sp, "wb" if place["stdout"] == "file" else "ab")
        if place["stdin"] == "closed":
            full2 = ["/bin/sh", "-c", 'exec "$0" "$@" <&-'] + full
        elif place["stdin"] == "file":
            full2 = ["/bin/sh", "-c", 'f=$0; exec "$@" < "$f"', __file__] + full
        else:
            full2 = full
        old = os.umask(place["umask"])
        try:
            r = run(full2, cwd=cwd, env=env, stdin=b"0000\n" * 50 if place["stdin"] == "pipe" else None, stdout=so)
        finally:
            os.umask(old)
            if so:
                so.close()
        if sp:
            r.out = get(sp)
        if tool in ("search", "toc"):
            res.append((r.rc, lookup.answer(r)))
        elif product:
            res.append((r.rc, "product", get(os.path.join(at, product)) if os.path.exists(os.path.join(at, product)) else None))
        elif tool == "dupes":
            res.append((r.rc, [l for l in r.out.split(b"\n") if b"is a dupe" in l]))
        else:
            res.append((r.rc, r.out))
    if any(x != res[0] for x in res):
        raise Violation("a second run gives another result: %s" % r)
    if res[0][0] != 0:
        raise Violation("fails at %r: %s" % (place, r))
    for p, b in stored:
        if get(p) != b:
            raise Violation("an input has changed: %s" % r)
    litter = set(os.listdir(at)) - before - {product, tocfile}
    if litter or set(os.listdir(other)) - elsewhere:
        raise Violation("further files appear: %r %r: %s" % (litter, set(os.listdir(other)) - elsewhere, r))
    return res[0], r


def check(case, ctx):
    d = ctx.fresh_dir()
    try:
        os.makedirs(os.path.join(d, "1"))
        os.makedirs(os.path.join(d, "2"))
        a, ra = act(case, HOME, ctx, os.path.join(d, "1"))
        b, rb = act(case, case["place"], ctx, os.path.join(d, "2"))
        if a != b:
            show = lambda x: repr(x)[:400]
            raise Violation("another result at %r: %s instead of %s\n%s\n%s" % (case["place"], show(b), show(a), rb, ra))
        p = case["place"]
        return {"nontrivial": sum(p[k] != HOME[k] for k in HOME) > 3, "classes": [case["tool"], case["type"], p["form"], p["around"], "stdin " + p["stdin"], "stdout " + p["stdout"]]}
    finally:
        ctx.drop_dir(d)


# what these libraries look at is theirs; proxies and certificates are the user's way to reach the server
THEIRS = ("GLIBCXX_", "EVENT_", "GNUTLS_", "NETTLE_", "OPENSSL_", "P11_", "SSL", "CURL_", "SPY_", "LD_", "MALLOC_", "GCONV", "ASAN_", "UBSAN_", "LSAN_", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "NO_PROXY")
VALUES = st.sampled_from(["", "0", "1", "2", "7", "32", "1000000", "true", "x", "ntlm", "--ntlm", "/nonexistent", "/", ".", "de_DE.UTF-8", "a=b", "%s", "-1"])
CONTENTS = [b"", b"1\n", b"7", b"ntlm=true\n", b"ntlm=1\nN=1\ntopn=1\nlimit=1\nbits=33\nsort-by-count=true\nforce=true\ntoc=true\ntoc-bits=15\nmax-memory=1\n", b"--ntlm\n", b"{}", b"\0" * 24, bytes(range(256)) * 15, b"0" * 4096]


def check_consulted(case, ctx):
    """the run shows which environment variables and paths it looks at: these get contents of their own"""
    d = ctx.fresh_dir()
    log = os.path.join(d, "log")
    try:
        for x in "123":
            os.makedirs(os.path.join(d, x))
        spy = {"LD_PRELOAD": ctx.bins["so:spy"]}
        home = lambda x: {"HOME": os.path.join(d, x, "home"), "XDG_CONFIG_HOME": os.path.join(d, x, "xdg")}
        a, ra = act(case, dict(HOME, env=dict(spy, SPY_LOG=log, **home("1"))), ctx, os.path.join(d, "1"))
        seen = {e for e in get(log).decode(errors="surrogateescape").split("\0") if e} if os.path.exists(log) else set()
        names = sorted(e[2:] for e in seen if e[0] == "E" and not e[2:].upper().startswith(THEIRS))
        top = os.path.join(d, "1")
        at = os.path.join(top, "data")
        paths = [os.path.relpath(p, top) for p in sorted(os.path.normpath(os.path.join(at, e[2:])) for e in seen if e[0] == "P") if p.startswith(top + "/") and not os.path.lexists(p)]
        env = dict(spy, SPY_CLOCK=str(case["clock"]), **home("2"))
        rnd = random.Random(case["k"])
        for n in names:
            env[n] = rnd.choice(case["values"])
        b, rb = act(case, dict(HOME, env=env, plant=[(p, CONTENTS[rnd.choice(case["contents"])]) for p in paths]), ctx, os.path.join(d, "2"))
        if a != b:
            show = lambda x: repr(x)[:400]
            raise Violation("another result with the clock off by %d s, in the environment %r, and with the files %r: %s instead of %s\n%s\n%s" % (case["clock"], {n: env[n] for n in names}, paths, show(b), show(a), rb, ra))
        return {"nontrivial": bool(seen), "classes": [case["tool"], "variables: %d" % len(names), "absent files: %d" % len(paths), "clock: " + ("changed" if case["clock"] else "right")]}
    finally:
        ctx.drop_dir(d)


@st.composite
def consulting(draw):
    c = draw(cases())
    del c["place"]
    c["values"], c["contents"] = draw(st.lists(VALUES, min_size=1, max_size=4)), draw(st.lists(st.integers(0, len(CONTENTS) - 1), min_size=1, max_size=4))
    c["clock"] = draw(st.sampled_from([0, 1, -3600, 86400 * 400, -86400 * 400, 2 * 10**9, -15 * 10**8]))
    return c


PROP = Prop("C25", "exploration",
            "Hypothesis draws a tool run and a place for it: file names (spaces, braces, percent signs, newlines, no UTF-8, option-like, long), the form of the paths, working directory, environment (locales, also missing ones, time zone, "
            "allocator patterns, none at all), umask, kinds of standard input and output, file times and modes, files left around by earlier runs (also parts of a sort of other contents, of just the size this sort would write), repetition; result, exit status and the list of files are compared with the same run at a plain place. "
            "Arm consulted: the run is watched for the environment variables and the absent files it asks for; these get drawn values and contents, and the clock is set, for the second run. "
            "Non-trivial: the place differs in at least four of its twelve parts; arm consulted: the run was watched.",
            ["so:spy"] + ["rel:" + t for t in ("search", "convert", "dupes", "topn", "diff", "sort", "download")],
            [Arm("place", cases(), check, 4000, 100000), Arm("consulted", consulting(), check_consulted, 800, 20000)],
            technique="property-based testing (Hypothesis): metamorphic relation between the same run at two places",
            note="Exploration: the complete result of every generated pair of runs is compared.")
