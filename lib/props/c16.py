"""stream_writer and file_writer: any history of writes, flushes, moves and destructions."""
import os, struct
from hypothesis import strategies as st
import db
from driver import Prop, Arm, FuzzArm, Violation
from tools import run, get

BUFS = [0, 1, 2, 3, 10, 100, 1000, 10000]     # 0: the default (1000)
OPS = ["w", "w", "wn", "wn", "f", "F", "mv", "del", "new"]


def nrec(typ, c, n):
    hs = db.HS[typ]
    return b"".join(bytes(((c + i) * 31 + k * 7) & 255 for k in range(hs)) + struct.pack("<i", c + i) for i in range(n))


@st.composite
def cases(draw):
    return {"type": draw(st.sampled_from(["sha1", "ntlm", "sha1t64"])),
            "kind": draw(st.sampled_from(["ss", "ss", "fs", "fw", "fw"])),
            "buf": draw(st.sampled_from(BUFS)),
            "ops": draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 7), st.integers(0, 2**31 - 1),
                                           st.integers(db.INT_MIN, db.INT_MAX)).map(list), min_size=3, max_size=25))}


def check(case, ctx):
    typ, kind, buf = case["type"], case["kind"], case["buf"]
    d = ctx.fresh_dir()
    try:
        path = os.path.join(d, "out.bin")
        script, want = [], []

        def emit(s, w=""):
            script.append(s); want.append(w)
        model = b""                 # bytes of all records written, in order
        counter = 0                 # ids of writers
        dead = []                   # moved-from writers, still alive
        size = buf or 1000
        if kind == "fw":
            emit("fnew 1 %s" % path)
            size = 1000
        else:
            emit("%s 0%s" % (kind, "" if kind == "ss" else " " + path))
            emit("new 1 0 %d" % buf)
        cur, counter = 1, 1
        synced = 0
        moves = flushes = 0
        pending = 0
        for op, a, k, c in case["ops"]:
            if op == "w" and cur:
                h = bytes((k >> (8 * (i % 4)) & 255) ^ (i * 37 & 255) for i in range(db.HS[typ]))
                emit("w %d %s %d" % (cur, h.hex(), c))
                model += h + struct.pack("<i", c)
                pending += 1
            elif op == "wn" and cur:
                n = [1, 2, 5, size - 1, size, size + 1, 2 * size, k % 3000][a] % 12000
                c = c % 1000000
                emit("wn %d %d %d" % (cur, c, n))
                model += nrec(typ, c, n)
                pending += n
            elif op == "f" and cur:
                emit("f %d" % cur)
                flushes += 1
            elif op == "F" and cur:
                emit("F %d" % cur)
                flushes += 1
                if kind == "ss":
                    emit("len 0", str(len(model)))
                else:
                    emit("size 0 %s" % path, str(len(model)))
            elif op == "mv" and cur:
                counter += 1
                emit("mv %d %d" % (cur, counter))
                dead.append(cur)
                cur = counter
                moves += 1
            elif op == "del":
                if dead and a % 2:
                    emit("del %d" % dead.pop(k % len(dead)))
                elif cur and a == 0:
                    emit("del %d" % cur)
                    cur = 0
                    if kind == "ss":
                        emit("len 0", str(len(model)))
                    else:
                        # file_writer: the file is closed only with the last holder of the stream
                        emit("size 0 %s" % path, str(len(model)))
            elif op == "new" and not cur and kind != "fw":
                counter += 1
                cur = counter
                emit("new %d 0 %d" % (cur, buf))
        if kind == "ss":
            for x in dead + [cur]:
                if x:
                    emit("del %d" % x)
            emit("dump 0", model.hex())
        r = run([ctx.bins["asan:probe"], "writer", typ], stdin="".join(s + "\n" for s in script).encode(), cwd=d)
        if r.rc != 0:
            raise Violation("writer history ends with exit %d: %s\n%s" % (r.rc, "; ".join(script), r))
        got = r.out.decode().split("\n")[:-1]
        for x, (s, w) in enumerate(zip(script, want)):
            g = got[x] if x < len(got) else "<nothing>"
            if g != w:
                raise Violation("%s %s buffer %d: after %s: '%s' gives %s, expected %s" % (
                    typ, kind, buf, "; ".join(script[:x])[-600:], s, g[:200], w[:200]))
        if kind != "ss":
            data = get(path)
            if data != model:
                i = next((i for i, (p, q) in enumerate(zip(data, model)) if p != q), min(len(data), len(model)))
                raise Violation("%s %s: after %s the file has %d bytes, expected %d; first difference at byte %d" % (
                    typ, kind, "; ".join(script)[-800:], len(data), len(model), i))
        return {"nontrivial": len(model) > 0 and (moves + flushes > 0 or pending > size),
                "classes": [kind, typ] + ["move"] * bool(moves) + ["flush"] * bool(flushes) + ["buffer overrun"] * (pending > size)}
    finally:
        ctx.drop_dir(d)


PROP = Prop("C16", "exploration",
            "Hypothesis draws the kind of writer (stream_writer on a string stream or file stream, file_writer), its buffer size, "
            "the record type and up to 25 operations (single writes, bursts around the buffer size, flush, flush(true), move, "
            "destroy, new writer on the same stream); the bytes that arrive are compared with the concatenation of the records "
            "written. Non-trivial: something was written, and it was flushed, moved or exceeded the buffer.",
            ["asan:probe", "fuzz:fuzz_lib"], [Arm("history", cases(), check, 6000, 150000), FuzzArm("fuzz", "writer", 80000, 8000000)],
            technique="model-based testing of operation sequences (Hypothesis), with ASan/UBSan",
            note="Exploration: every generated history is compared byte for byte with the records written.")
