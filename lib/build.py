"""Builds what a check needs from /repo's current working tree.

Objects live in /verif/build/<key>/, where key hashes every source file below /repo/app, /repo/src,
/repo/include and /verif/cpp plus this file, so that a changed tree never meets old objects."""
import glob, hashlib, os, shutil, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor, wait, FIRST_COMPLETED

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HIBP_REPO", "/repo")
ROOT = os.path.join(VERIF, "build")


class BuildError(Exception):
    pass


def tree_key():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, d) for d in ("app", "src", "include")] + [os.path.join(VERIF, "cpp")]
    for root in roots:
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, os.path.dirname(root)).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:16]


COMMON = ["-std=c++20", "-DCLI11_COMPILE", "-I" + os.path.join(VERIF, "cpp", "shim"),
          "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "cpp"), "-w"]

ASAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
        "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined"]
# the record types are compared with unaligned loads by design (x86 only): alignment is not checked

VARIANTS = {
    # as shipped: RelWithDebInfo is -O2 -g -DNDEBUG
    "rel": dict(cxx="g++", cc="gcc", cflags=["-O2", "-DNDEBUG"], lflags=[]),
    "asan": dict(cxx="clang++", cc="clang", cflags=ASAN,
                 lflags=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="clang++", cc="clang", cflags=["-O1", "-g", "-fsanitize=thread", "-DNDEBUG"],
                 lflags=["-fsanitize=thread"]),
    "fuzz": dict(cxx="clang++", cc="clang", cflags=ASAN + ["-fsanitize=fuzzer-no-link"],
                 lflags=["-fsanitize=address,undefined,fuzzer"]),
    "sse": dict(cxx="g++", cc="gcc", cflags=["-O2", "-DNDEBUG"], lflags=[]),
    "avx2": dict(cxx="g++", cc="gcc", cflags=["-O2", "-DNDEBUG", "-mavx2"], lflags=[]),
    "avx512": dict(cxx="clang++", cc="clang", cflags=["-O2", "-DNDEBUG", "-mavx512bw", "-mavx512f"],
                   lflags=[]),
    "so": dict(cxx="g++", cc="gcc", cflags=["-O2", "-fPIC"], lflags=["-shared"]),
    "clang": dict(cxx="clang++", cc="clang", cflags=["-O2", "-DNDEBUG"], lflags=[]),
}


def R(*p):
    return os.path.join(REPO, *p)


def V(*p):
    return os.path.join(VERIF, "cpp", *p)


CLI = V("cli11.cpp")
HASHSRC = [R("src/ntlm.cpp"), R("src/md4.c")]
TOOLS = {
    "search": ([R("app/hibp_search.cpp"), R("src/toc.cpp"), CLI] + HASHSRC, []),
    "server": ([R("app/hibp_server.cpp"), R("src/toc.cpp"), CLI] + sorted(glob.glob(R("src/srv/*.cpp"))) + HASHSRC,
               ["-lhttp_parser"]),
    "download": ([R("app/hibp_download.cpp"), CLI] + sorted(glob.glob(R("src/dnl/*.cpp"))), ["-lcurl", "-levent"]),
    "diff": ([R("app/hibp_diff.cpp"), R("src/diffutils.cpp"), CLI], []),
    "sort": ([R("app/hibp_sort.cpp"), CLI], []),
    "topn": ([R("app/hibp_topn.cpp"), CLI], []),
    "convert": ([R("app/hibp_convert.cpp"), CLI], []),
    "dupes": ([R("app/hibp_dupes.cpp"), CLI], []),
    "probe": ([V("probe.cpp"), V("probe_sha1.cpp"), V("probe_ntlm.cpp"), V("probe_sha1t64.cpp"), R("src/toc.cpp"), R("src/diffutils.cpp")] + HASHSRC, []),
    "faultio": ([V("faultio.c")], ["-ldl"]),
    "meter": ([V("meter.c")], []),
    "sched": ([V("sched.c")], ["-ldl"]),
    "tls": ([V("tls.c")], ["-ldl"]),
    "spy": ([V("spy.c")], ["-ldl"]),
    "arrcmp": ([V("arrcmp.cpp")], []),
    "fuzz_lib": ([V("fuzz_lib.cpp"), R("src/diffutils.cpp")] + HASHSRC, []),
}


STANDALONE = ("faultio", "sched", "arrcmp", "tls", "spy")
# sources which a changed tree may have added: in an archive, from which the linker takes what is needed
EXTRA = sorted(f for d, dirs, files in os.walk(R("src")) for f in (os.path.join(d, x) for x in files)
               if f.endswith((".c", ".cc", ".cpp", ".cxx")) and not any(f in t[0] for t in TOOLS.values())) + \
    sorted(f for f in glob.glob(R("app/*.cpp")) if not os.path.basename(f).startswith("hibp_"))


def _obj_name(variant, src):
    v = variant
    if src == CLI and variant in ("rel", "sse"):
        v = "rel"
    return "%s_%s.o" % (v, hashlib.sha1(src.encode()).hexdigest()[:8] + "_" + os.path.basename(src))


def _run(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        with open(log, "wb") as f:
            f.write(" ".join(cmd).encode() + b"\n" + r.stdout)
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def build(targets):
    """targets: list of "variant:name". Returns {target: path}."""
    t0 = time.time()
    key = tree_key()
    bdir = os.path.join(ROOT, key)
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(ROOT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _prune(key)
        os.utime(bdir)
        objs, links = {}, {}
        for t in targets:
            variant, name = t.split(":")
            v = VARIANTS[variant]
            srcs, libs = TOOLS[name]
            out = os.path.join(bdir, "%s_%s" % (variant, name))
            links[t] = out
            if os.path.exists(out):
                continue
            for s in srcs + (EXTRA if name not in STANDALONE else []):
                o = os.path.join(bdir, _obj_name(variant, s))
                if os.path.exists(o) or o in objs:
                    continue
                iscc = s.endswith(".c")
                flags = list(v["cflags"])
                if s == CLI and variant in ("rel",):
                    flags = ["-O0"]
                cmd = ([v["cc"]] if iscc else [v["cxx"]]) + flags + \
                      (["-w", "-I" + R("include")] if iscc else COMMON) + ["-c", s, "-o", o + ".tmp"]
                objs[o] = cmd
        # longest first
        order = sorted(objs, key=lambda o: -sum(w in o for w in ("server", "search", "topn", "probe", "arrcmp")))
        with ThreadPoolExecutor(8) as ex:
            def job(o):
                _run(objs[o], o + ".log")
                os.rename(o + ".tmp", o)
            list(ex.map(job, order))

            def link(t):
                variant, name = t.split(":")
                out = links[t]
                if os.path.exists(out):
                    return
                v = VARIANTS[variant]
                srcs, libs = TOOLS[name]
                extra = [os.path.join(bdir, _obj_name(variant, s)) for s in (EXTRA if name not in STANDALONE else [])]
                if extra:
                    _run(["ar", "rc", out + ".a"] + extra, out + ".log")
                    extra = [out + ".a"]
                _run([v["cxx"]] + v["lflags"] + [os.path.join(bdir, _obj_name(variant, s)) for s in srcs] + extra +
                     libs + ["-lfmt", "-pthread", "-o", out + ".tmp"], out + ".log")
                os.rename(out + ".tmp", out)
            list(ex.map(link, links))
    if os.environ.get("VERBOSE"):
        print("build %s: %.1fs" % (targets, time.time() - t0), file=sys.stderr)
    return links


def _prune(keep):
    dirs = [os.path.join(ROOT, d) for d in os.listdir(ROOT)
            if d != keep and os.path.isdir(os.path.join(ROOT, d))]
    dirs.sort(key=os.path.getmtime)
    for d in dirs[:-2]:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    print(build(sys.argv[1:]))
