"""Inputs stay as they are; existing files are overwritten on request only; refused runs change nothing."""
import os, random
from hypothesis import strategies as st
import db, rangeserver as rs
from driver import Prop, Arm, Violation
from tools import run, put, get

INPUTS = ["a.sha1", "a.sha1", "a.sha1", "a.sha1", "b.sha1", "sym", "hard", "b.sha1", "a.ntlm", "a.t64", "a.txt", "a.txt", "n.txt", "sym", "hard", "symtxt", "odd.bin", "empty.bin", "dir", "nope", "nope", "nodir/x", "old.out"]
OUTPUTS = ["new.out", "new.out", "new.out", "old.out", "old.out", "old.out", "SAME", "SAME", "sym", "hard", "symtxt", "b.sha1", "a.txt", "dir", "nodir/out", "dir/new", "symnew", "empty.bin", "odd.bin"]
OLD = ["precious", "precious", "", "", "\n", "0", "records", "text", "hidden"]
FORMS = ["plain", "plain", "dot", "abs", "dotdot"]
JUNK = [None] * 24 + ["unknown", "extra", "novalue", "badnumber"]
BAD = ["abc", "-1", "1.5", "99999999999999999999999", "1x", "--"]

INPUT = st.tuples(st.sampled_from(INPUTS), st.sampled_from(FORMS)).map(list)
OUTPUT = st.tuples(st.sampled_from(OUTPUTS), st.sampled_from(FORMS)).map(list)
some = lambda s, often=4: st.sampled_from([True] * often + [False]).flatmap(lambda b: s if b else st.none())
rarely = lambda n=5: st.sampled_from([False] * n + [True])


@st.composite
def cases(draw):
    tool = draw(st.sampled_from(["convert"] * 4 + ["topn"] * 4 + ["download"] * 3 + ["sort", "diff", "dupes", "search", "search", "server"]))
    c = {"tool": tool, "n": draw(st.integers(1, 12)), "seed": draw(st.integers(0, 2**32 - 1)), "junk": draw(st.sampled_from(JUNK)), "bad": draw(st.sampled_from(BAD)), "sorted": draw(st.booleans())}
    c["type"] = draw(st.sampled_from(["sha1"] * 12 + ["ntlm", "ntlm", "sha1t64", "sha1t64", "both"]))
    c["force"], c["old"] = draw(st.booleans()), draw(st.sampled_from(OLD))
    if tool == "convert":
        c["mode"] = draw(st.sampled_from([["b2t"]] * 12 + [["t2b"]] * 12 + [["b2t", "t2b"], []]))
        c["in"] = draw(some(INPUT))
        c["stdin"] = draw(rarely(12)) if c["in"] else draw(rarely(1))
        c["out"] = draw(some(OUTPUT, 10))
        c["stdout"] = draw(rarely(12)) if c["out"] else draw(rarely(1))
        c["limit"] = draw(some(st.integers(0, 9), 1))
    elif tool == "topn":
        c["in"], c["out"] = draw(some(INPUT, 12)), draw(some(OUTPUT, 10))
        c["stdout"] = draw(rarely(12)) if c["out"] else draw(rarely(1))
        c["N"] = draw(some(st.one_of(st.integers(0, c["n"] - 1), st.integers(0, c["n"] - 1), st.integers(0, 13)), 20))
    elif tool == "download":
        c["out"] = draw(some(OUTPUT, 12))
        c["txt"], c["resume"], c["par"] = draw(rarely(2)), draw(rarely(2)), draw(st.sampled_from([None, None, 0, 1, 3]))
        c["force"] = draw(rarely(1)) and (not c["resume"] or draw(rarely(2)))
        c["scenario"] = dict(draw(rs.scenarios(maxlimit=4)), par=None, txt=False, flags=[], fails={})
        c["scenario"]["limit"] = min(4, c["scenario"]["limit"])
    elif tool == "diff":
        c["in"], c["in2"] = draw(some(INPUT, 12)), draw(some(INPUT, 12))
    elif tool == "search":
        c["in"], c["query"] = draw(some(INPUT, 12)), draw(some(st.sampled_from(["password", "0" * 40, "A" * 32, "A" * 16, "x", ""]), 12))
        c["hash"], c["toc"], c["bits"] = draw(st.booleans()), draw(rarely(1)), draw(st.sampled_from([None, 15, 16, 14, 26, 0]))
    elif tool == "server":
        c["dbs"] = draw(st.lists(st.tuples(st.sampled_from(["sha1", "ntlm", "sha1t64"]), INPUT).map(list), max_size=3, unique_by=lambda t: t[0]))
        c["toc"], c["bits"], c["threads"] = draw(rarely(1)), draw(st.sampled_from([None, None, 15, 14, 26])), draw(st.sampled_from([None, None, 0, 100000]))
    else:
        c["in"] = draw(some(INPUT, 12))
        c["bits"] = draw(st.sampled_from([None, None, 32, 64, 31, 65])) if tool == "dupes" else None
        c["count"] = draw(st.booleans())
    return c


def world(c, d):
    rnd = random.Random(c["seed"])
    recs = {t: sorted({rnd.randbytes(db.HS[t]): rnd.randint(1, 50) for _ in range(c["n"])}.items()) for t in db.HS}
    if not c["sorted"]:
        for t in recs:
            rnd.shuffle(recs[t])
    p = lambda n: os.path.join(d, n)
    for t, n in (("sha1", "a.sha1"), ("ntlm", "a.ntlm"), ("sha1t64", "a.t64")):
        put(p(n), db.pack(recs[t]))
    put(p("b.sha1"), db.pack(sorted(recs["sha1"] + [(rnd.randbytes(20), 3)])))
    put(p("a.txt"), "".join(db.line(r) + "\n" for r in recs["sha1"]).encode())
    put(p("n.txt"), "".join(db.line(r) + "\r\n" for r in recs["ntlm"]).encode())
    put(p("odd.bin"), db.pack(recs["sha1"]) + b"1234567")
    put(p("empty.bin"), b"")
    put(p("old.out"), {"precious": b"precious old contents, 40 bytes or more....", "records": db.pack(recs["sha1"][:2]), "hidden": b"\0" * 100,
                       "text": "".join(db.line(r) + "\n" for r in recs["sha1"]).encode()}.get(c["old"], c["old"].encode()))
    os.mkdir(p("dir"))
    put(p("dir/x"), b"x")
    os.symlink("a.sha1", p("sym"))
    os.symlink("a.txt", p("symtxt"))
    os.symlink("created-through-link", p("symnew"))
    os.link(p("a.sha1"), p("hard"))


def look(d):
    out = {}
    for dp, dn, fn in os.walk(d):
        for f in fn + dn:
            p = os.path.join(dp, f)
            k = os.path.relpath(p, d)
            out[k] = ("link", os.readlink(p)) if os.path.islink(p) else ("dir",) if os.path.isdir(p) else ("file", get(p), os.stat(p).st_mode, os.stat(p).st_mtime_ns)
    return out


def path(d, nf):
    name, form = nf
    return {"plain": name, "dot": "./" + name, "abs": os.path.join(d, name), "dotdot": "dir/../" + name}[form]


def flags(c):
    return {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"], "both": ["--ntlm", "--sha1t64"]}[c["type"]]


def plan(c, d, ctx):
    """-> argv, reason of refusal or None, names that may change, stdin"""
    tool = c["tool"]
    a = [ctx.bins["rel:" + tool]]
    why, may, stdin = None, set(), None
    ex = lambda nf: os.path.exists(os.path.join(d, nf[0]))
    isfile = lambda nf: os.path.isfile(os.path.join(d, nf[0]))
    size = lambda nf: os.path.getsize(os.path.join(d, nf[0]))
    same = lambda x, y: ex(x) and ex(y) and os.path.samefile(os.path.join(d, x[0]), os.path.join(d, y[0]))
    target = lambda nf: os.path.relpath(os.path.realpath(os.path.join(d, nf[0])), os.path.realpath(d))
    typ = {"both": "ntlm"}.get(c["type"], c["type"])
    rec = db.REC[typ]
    if c.get("out") and c["out"][0] == "SAME":
        c["out"][0] = c["in"][0] if c.get("in") else "old.out"
    out = c.get("out")

    def output():
        """refusals because of the output"""
        if out and not c.get("stdout"):
            if ex(out) and not c["force"]:
                return "the output exists"
            if c.get("in") and not c.get("stdin") and same(c["in"], out):
                return "input and output are the same"
            if out[0].startswith("nodir") or (ex(out) and not isfile(out)):
                return "the output can't be opened"

    if tool == "convert":
        a += ["--bin-to-txt"] * ("b2t" in c["mode"]) + ["--txt-to-bin"] * ("t2b" in c["mode"])
        a += (["-i", path(d, c["in"])] if c["in"] else []) + ["--stdin"] * c["stdin"] + (["-o", path(d, out)] if out else []) + ["--stdout"] * c["stdout"]
        a += ["--ntlm"] * (typ == "ntlm") + ["-f"] * c["force"] + (["-l", str(c["limit"])] if c["limit"] is not None else [])
        if len(c["mode"]) != 1 or bool(c["in"]) == c["stdin"] or bool(out) == c["stdout"] or ("b2t" in c["mode"] and c["stdin"]):
            why = "conflicting options"
        elif c["in"] and not ex(c["in"]):
            why = "the input is missing"
        else:
            why = output()
        if c["stdin"]:
            stdin = get(os.path.join(d, "a.txt"))
    elif tool == "topn":
        a += ([path(d, c["in"])] if c["in"] else []) + (["-o", path(d, out)] if out else []) + ["--stdout"] * c["stdout"] + flags(c) + ["-f"] * c["force"]
        a += ["-N", str(c["N"])] if c["N"] is not None else []
        N = 50_000_000 if c["N"] is None else c["N"]
        if not c["in"] or bool(out) == c["stdout"] or c["type"] == "both":
            why = "conflicting options"
        elif not isfile(c["in"]) or size(c["in"]) % rec or size(c["in"]) // rec <= N:
            why = "the input is not usable"
        else:
            why = output()
    elif tool == "download":
        s = dict(c["scenario"], type=typ)
        c["scenario"] = s
        a += ([path(d, out)] if out else []) + ["--testing", "--limit", str(s["limit"])] + flags(c) + ["--txt-out"] * c["txt"] + ["--resume"] * c["resume"] + ["--force"] * c["force"]
        a += ["--parallel-max", str(c["par"])] if c["par"] is not None else []
        if not out or c["type"] == "both" or (c["resume"] and (c["txt"] or c["force"])) or c["par"] == 0:
            why = "conflicting options"
        elif c["resume"]:
            why = None if isfile(out) else "nothing to resume"
        else:
            why = output()
    elif tool == "search":
        a += ([path(d, c["in"])] if c["in"] else []) + ([c["query"]] if c["query"] is not None else []) + ["--hash"] * c["hash"] + flags(c) + ["--toc"] * c["toc"]
        a += ["--toc-bits", str(c["bits"])] if c["bits"] is not None else []
        if not c["in"] or c["query"] is None or c["bits"] in (14, 26, 0):
            why = "invalid options"
        elif not isfile(c["in"]) or size(c["in"]) % rec:
            why = "the input is not usable"
        elif c["toc"]:
            may.add("%s.%d.toc" % (c["in"][0], c["bits"] or 20))
    elif tool == "server":
        for t, nf in c["dbs"]:
            a += ["--%s-db" % t, path(d, nf)]
        a += ["--toc"] * c["toc"] + (["--toc-bits", str(c["bits"])] if c["bits"] else []) + (["--threads", str(c["threads"])] if c["threads"] is not None else [])
        if not c["dbs"] or c["bits"] in (14, 26) or c["threads"] is not None:
            why = "invalid options"
        elif any(not isfile(nf) or size(nf) % db.REC[t] for t, nf in c["dbs"]):
            why = "the input is not usable"
        may = {"%s.%d.toc" % (nf[0], c["bits"] or 20) for t, nf in c["dbs"] if isfile(nf) and size(nf) % db.REC[t] == 0} if c["toc"] and why == "the input is not usable" else set()
    elif tool == "diff":
        a += [path(d, x) for x in (c["in"], c["in2"]) if x] + ["--ntlm"] * (typ == "ntlm")
        rec = 20 if typ == "ntlm" else 24
        if not c["in"] or not c["in2"]:
            why = "missing arguments"
        elif any(not isfile(x) or size(x) % rec for x in (c["in"], c["in2"])):
            why = "the input is not usable"
    elif tool == "dupes":
        a += ([path(d, c["in"])] if c["in"] else []) + ["--ntlm"] * (typ == "ntlm") + (["--bits", str(c["bits"])] if c["bits"] else [])
        rec = 20 if typ == "ntlm" else 24
        if not c["in"] or c["bits"] in (31, 65):
            why = "invalid options"
        elif not isfile(c["in"]) or size(c["in"]) % rec:
            why = "the input is not usable"
    else:
        a += (["-i", path(d, c["in"])] if c["in"] else []) + ["--ntlm"] * (typ == "ntlm") + ["--sort-by-count"] * c["count"]
        rec = 20 if typ == "ntlm" else 24
        if not c["in"]:
            why = "missing arguments"
        elif not isfile(c["in"]) or size(c["in"]) % rec:
            why = "the input is not usable"
        else:
            may.add(c["in"][0] + ".sorted")
    if c["junk"]:
        num = {"convert": "--limit", "topn": "-N", "download": "--parallel-max", "search": "--toc-bits", "server": "--port", "dupes": "--bits", "sort": "--max-memory"}.get(tool)
        if c["junk"] == "extra" and tool in ("convert", "sort", "server"):
            a += ["surplus"]
        elif c["junk"] == "extra":
            a += ["surplus1", "surplus2", "surplus3"]
        elif c["junk"] == "unknown" or not num:
            a += ["--no-such-option"]
        elif num not in a:
            a += [num] + ([c["bad"]] if c["junk"] == "badnumber" else [])
        else:
            a += ["--no-such-option"]
        why, may = "invalid options", set()
    if why is None and out and not c.get("stdout"):
        may |= {target(out)}
        # what another name of it shows
        may |= {n for n in ("a.sha1", "hard") if same([n], out)}
    return a, why, may, stdin


def check(case, ctx):
    import copy
    c = copy.deepcopy(case)
    d = ctx.fresh_dir()
    try:
        world(c, d)
        argv, why, may, stdin = plan(c, d, ctx)
        if c["tool"] == "server" and not why:
            return {}
        env = None
        if c["tool"] == "download":
            s = rs.server(ctx)
            data = rs.Data(c["scenario"])
            s.play(c["scenario"], data, {})
            env = s.env()
        before = look(d)
        r = run(argv, cwd=d, stdin=stdin, env=env)
        after = look(d)
        changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        if why and r.rc == 0:
            raise Violation("accepted, although %s: %s" % (why, r))
        bad = [k for k in changed if k not in may]
        if bad:
            raise Violation("%s%s changed: %s" % ("refused (%s), but " % why if why else "", ", ".join("%s %s" % ("created" if k not in before else "removed" if k not in after else "modified", k) for k in bad), r))
        if r.rc == 0 and c["tool"] in ("convert", "topn", "download") and c.get("out") and not c.get("stdout") and not may & set(after):
            raise Violation("exit 0, but there is no output: %s" % r)
        return {"nontrivial": bool(why) or r.rc == 0, "classes": [c["tool"], "%s: %s" % (c["tool"], why or ("done" if r.rc == 0 else "failed")), "refused" if why else "not refused"] + ["with --force"] * c["force"]}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C19", "exploration",
            "Hypothesis draws an invocation of any tool over a small world of files (databases, text, symbolic and hard links, existing outputs, malformed and missing inputs, directories; several spellings of "
            "each path) with any subset of options, bad numbers, unknown and surplus arguments. A model says whether the invocation must be refused and which names may change; everything else in the world is compared "
            "before and after. Non-trivial: refused, or carried out with exit 0.",
            ["rel:" + t for t in ("convert", "topn", "download", "sort", "diff", "dupes", "search", "server")], [Arm("invocations", cases(), check, 18000, 300000)],
            technique="property-based testing (Hypothesis) of random invocations with a frame condition on the file system",
            note="Exploration: every file, link and directory in the world is compared after every generated invocation.")
