"""Generated-input search: shards Hypothesis arms over worker processes, collects statistics, saves
and replays minimal failing cases, writes the evidence file."""
import hashlib, json, multiprocessing as mp, os, queue, random, shutil, signal, subprocess, sys, tempfile
import time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = 8
SHRINK_SECONDS = 25
# A safety net only: generation stops early (and says so in the evidence) when a machine is so slow
# that the fixed number of cases would not fit into a check's time limit.
BUDGET = {"quick": 420, "thorough": 6 * 3600}


class Violation(Exception):
    """the property does not hold for this case"""


class Observed(Violation):
    """one which was observed in a way that needs no reproduction (a sanitizer's report)"""


class Hang(Violation):
    """one which takes long: not shrunk"""


class Inconclusive(Exception):
    """this case could not be decided (harness or machine trouble); counted, never a violation"""


class Ctx:
    """what a case's check function gets: binaries, a private scratch directory, a stable worker id"""

    def __init__(self, bins, scratch, wid):
        self.bins, self.scratch, self.wid = bins, scratch, wid
        self.n = 0
        self.store = {}       # per-worker cache (servers etc.)

    def fresh_dir(self):
        self.n += 1
        d = os.path.join(self.scratch, "c%d" % self.n)
        os.makedirs(d)
        return d

    def drop_dir(self, d):
        assert d.startswith(self.scratch + "/")
        shutil.rmtree(d, ignore_errors=True)

    def close(self):
        for v in self.store.values():
            if hasattr(v, "close"):
                v.close()


class Arm:
    """a generator (Hypothesis strategy of JSON-able cases) with a check function"""

    def __init__(self, name, strategy, check, quick, thorough, shards=None, examples=()):
        self.name, self.strategy, self.check = name, strategy, check
        self.n = {"quick": quick, "thorough": thorough}
        self.shards = shards
        self.examples = list(examples)


class NativeArm:
    """a native program (rapidcheck or exhaustive) which prints one JSON object of statistics on its
    last stdout line and exits 0, or prints a line 'FAIL <json case>' and exits 1.
    argv(tier, seed) -> args ; replay(case) -> args"""

    def __init__(self, name, target, argv, replay, env=None, cpu=None):
        self.name, self.target, self.argv, self.replay, self.env = name, target, argv, replay, env
        self.cpu = cpu           # needed instruction set; skipped (and said so) where it is missing

    def usable(self):
        return not self.cpu or self.cpu in open("/proc/cpuinfo").read().split()


class FuzzArm(NativeArm):
    """coverage-guided search with libFuzzer: NPROC processes, each with its own seed and starting corpus of random
    inputs; a failing input is minimised. The runs are pinned by the seed only approximately, the saved input exactly"""

    def __init__(self, name, mode, quick, thorough, target="fuzz:fuzz_lib"):
        self.name, self.mode, self.n, self.target, self.cpu = name, mode, {"quick": quick, "thorough": thorough}, target, None

    def _env(self, d):
        from tools import SAN_ENV
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update({"HIBP_FUZZ": self.mode, "HIBP_FUZZ_STATS": os.path.join(d, "stats.json")})
        return e

    def start(self, exe, d, args):
        return subprocess.Popen([exe, "-timeout=120", "-rss_limit_mb=3000", "-artifact_prefix=./"] + args, cwd=d, env=self._env(d),
                                stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "log"), "wb"))

    def search(self, exe, tier, rnd):
        base = tempfile.mkdtemp(prefix="hibpv-", dir=scratch_root())
        try:
            ps = []
            for i in range(NPROC):
                d = os.path.join(base, str(i))
                os.makedirs(os.path.join(d, "corpus"))
                for k in range(60):
                    few = [0, 1, 2, 3, 0x7f, 0x80, 0xff, rnd.getrandbits(8), 0x30, 0x41]
                    b = bytes(rnd.choice(few) if k % 3 == 0 else rnd.getrandbits(8) for _ in range(rnd.choice((20, 60, 120, 300, 600))))
                    with open(os.path.join(d, "corpus", str(k)), "wb") as f:
                        f.write(b)
                ps.append((d, self.start(exe, d, ["-runs=%d" % (self.n[tier] // NPROC), "-seed=%d" % (1 + rnd.getrandbits(30)), "-max_len=600", "-len_control=0", "corpus"])))
            total = {"evaluations": 0, "nontrivial": 0, "classes": {}, "samples": []}
            fail = None
            for d, p in ps:
                p.wait()
                found = sorted(f for f in os.listdir(d) if f.split("-")[0] in ("crash", "timeout", "oom", "leak"))
                if p.returncode and not found:
                    raise RuntimeError("%s: exit %d: %s" % (self.name, p.returncode, open(d + "/log", errors="replace").read()[-2000:]))
                if found:
                    if not fail:
                        fail = self.minimise(exe, d, found[0])
                    continue
                with open(d + "/stats.json") as f:
                    st = json.load(f)
                for k in ("evaluations", "nontrivial", "samples"):
                    total[k] += st[k]
                for k, v in st["classes"].items():
                    total["classes"][k] = total["classes"].get(k, 0) + v
            return (None, ({"hex": fail.hex()}, "%s: fuzzed input fails" % self.name)) if fail is not None else (total, None)
        finally:
            shutil.rmtree(base, ignore_errors=True)

    def minimise(self, exe, d, name):
        with open(os.path.join(d, name), "rb") as f:
            data = f.read()
        if name.startswith("crash"):
            self.start(exe, d, ["-minimize_crash=1", "-runs=20000", "-max_total_time=%d" % SHRINK_SECONDS, "-exact_artifact_path=min", name]).wait()
            try:
                with open(os.path.join(d, "min"), "rb") as f:
                    small = f.read()
                if len(small) <= len(data) and self.replay_bytes(exe, d, small)[0]:
                    return small
            except OSError:
                pass
        return data

    def replay_bytes(self, exe, d, data):
        with open(os.path.join(d, "input"), "wb") as f:
            f.write(data)
        rc = self.start(exe, d, ["input"]).wait()
        with open(os.path.join(d, "log"), errors="replace") as f:
            log = f.read()
        i = max(log.find("WRONG "), 0) or max(log.find("ERROR: "), 0) or max(log.find("runtime error"), 0)
        return rc, log[i:i + 2000].split("\n==")[0] if log[i:].startswith("WRONG") else log[i:i + 2000]


class Prop:
    def __init__(self, id, level, rule, targets, arms, assumptions=(), technique=None, note=""):
        self.id, self.level, self.rule, self.targets, self.arms = id, level, rule, targets, arms
        self.assumptions = list(assumptions)
        self.technique = technique or "property-based testing (Hypothesis) against a reference model"
        self.note = note
        fz = [a for a in arms if isinstance(a, FuzzArm)]
        if fz:
            self.technique += "; coverage-guided fuzzing (libFuzzer with ASan/UBSan) of the same oracle inside the library"
            self.rule += (" Arm %s: libFuzzer decodes its bytes to the same kind of case (cpp/fuzz_lib.cpp, mode %s), starting from random inputs; the oracle is "
                          "recomputed in C++ and a case counts as non-trivial by the same rule, once per distinct input." % (fz[0].name, fz[0].mode))

    def arm(self, name):
        return [a for a in self.arms if a.name == name][0]


def scratch_root():
    for base in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize > 4 << 30 and os.access(base, os.W_OK):
                return base
        except OSError:
            pass
    return None


def canon(case):
    return json.dumps(case, sort_keys=True)


def _h(s):
    return hashlib.blake2b(s.encode(), digest_size=8).digest()


def judged(arm, case, ctx):
    """the check of one case. What the check function trips over (an output that is not there, an answer of no form) is
    the doing of the code under test and counts as a failure, which must be reproduced like any other"""
    import errno
    try:
        return arm.check(case, ctx) or {}
    except (Violation, Inconclusive, MemoryError):
        raise
    except OSError as e:
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN, errno.EADDRINUSE, errno.EADDRNOTAVAIL):
            raise Inconclusive(repr(e))
        raise Violation("the check can't go on: " + traceback.format_exc()[-1500:])
    except Exception:
        raise Violation("the check can't go on: " + traceback.format_exc()[-1500:])


def run_shard(prop, arm, n, seed, ctx, stop, deadline, examples):
    """runs n examples; returns a statistics dict"""
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    from hypothesis import errors as herr
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    warnings.simplefilter("ignore")
    st = dict(evals=0, nontrivial=set(), classes={}, samples=[], fail=None, inconclusive=0,
              inconclusive_why=[], late=False)
    best = [None, None, None, False]        # smallest case, message, time of the first failure, certain
    first = []

    def one(case):
        if best[0] is not None:
            if time.time() > best[2] + SHRINK_SECONDS:
                return
        elif stop.is_set():
            return
        elif time.time() > deadline:
            st["late"] = True
            return
        st["evals"] += 1
        try:
            info = judged(arm, case, ctx)
        except Inconclusive as e:
            st["inconclusive"] += 1
            if len(st["inconclusive_why"]) < 3:
                st["inconclusive_why"].append(str(e)[:300])
            return
        except Violation as e:
            c = canon(case)
            if best[0] is None:
                best[2] = time.time()
                first.append((case, str(e), isinstance(e, Observed)))
                stop.set()
            if best[0] is None or len(c) <= len(canon(best[0])):
                best[0], best[1] = case, str(e)
            best[3] |= isinstance(e, Observed)
            if isinstance(e, Hang):
                best[2] = 0
            raise
        if info.get("nontrivial"):
            st["nontrivial"].add(_h(canon(case)))
            if len(st["samples"]) < 2 and len(canon(case)) < 1500:
                st["samples"].append(case)
        for c in info.get("classes", ()):
            st["classes"][c] = st["classes"].get(c, 0) + 1

    try:
        for case in examples:
            one(case)
        if n > 0:
            test = given(arm.strategy)(one)
            test = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                            suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                            phases=(Phase.generate, Phase.shrink))(test)
            test = hseed(seed)(test)
            test()
    except Violation:
        pass
    except BaseException as e:
        if best[0] is None:
            raise
    st["fail"] = [(best[0], best[1], best[3])] + first if best[0] is not None else None
    return st


def _worker(prop, bins, scratch, wid, tasks, results, stop, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    d = os.path.join(scratch, "w%d" % wid)
    os.makedirs(d, exist_ok=True)
    ctx = Ctx(bins, d, wid)
    devnull = open(os.devnull, "w")
    sys.stdout = sys.stderr = devnull            # hypothesis is chatty on failures
    try:
        while True:
            t = tasks.get()
            if t is None:
                break
            armname, n, seed, examples = t
            arm = prop.arm(armname)
            try:
                results.put((armname, run_shard(prop, arm, n, seed, ctx, stop, deadline, examples), None))
            except BaseException:
                results.put((armname, None, traceback.format_exc()))
    finally:
        try:
            ctx.close()
        except BaseException:
            pass
        results.put((None, None, None))


def run_native(prop, arm, bins, tier, seed):
    env = dict(os.environ)
    env.update(arm.env or {})
    r = subprocess.run([bins[arm.target]] + arm.argv(tier, seed), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env)
    out = r.stdout.decode(errors="replace")
    err = r.stderr.decode(errors="replace")
    fails = [l[5:] for l in out.splitlines() if l.startswith("FAIL ")]
    if fails:
        # the last one is the smallest: rapidcheck shrinks downwards
        return None, (json.loads(fails[-1]), "%s: generated case fails" % arm.name)
    if r.returncode != 0:
        if "Sanitizer" in err or "runtime error" in err or r.returncode < 0:
            return None, ({"argv": arm.argv(tier, seed)}, "%s: crash: %s" % (arm.name, err[-1500:]))
        raise RuntimeError("%s: exit %d\n%s\n%s" % (arm.name, r.returncode, out[-3000:], err[-3000:]))
    return json.loads(out.strip().splitlines()[-1]), None


def replay_case(prop, armname, case, bins, times=3):
    """stops at the first failing replay -> number of failing replays, message"""
    arm = prop.arm(armname)
    bad, msg = 0, ""
    base = tempfile.mkdtemp(prefix="hibpv-", dir=scratch_root())
    try:
        for i in range(times):
            if bad:
                break
            if isinstance(arm, FuzzArm):
                d = os.path.join(base, "r%d" % i)
                os.makedirs(d)
                rc, m = arm.replay_bytes(bins[arm.target], d, bytes.fromhex(case["hex"]))
                if rc:
                    bad, msg = bad + 1, m
            elif isinstance(arm, NativeArm):
                env = dict(os.environ)
                env.update(arm.env or {})
                argv = case["argv"] if "argv" in case else arm.replay(case)
                r = subprocess.run([bins[arm.target]] + argv, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, env=env)
                if r.returncode != 0:
                    bad += 1
                    msg = (r.stdout + r.stderr).decode(errors="replace")[-2000:]
            else:
                ctx = Ctx(bins, os.path.join(base, "r%d" % i), 90 + i)
                os.makedirs(ctx.scratch)
                try:
                    judged(arm, case, ctx)
                except Violation as e:
                    bad += 1
                    msg = str(e)
                except Inconclusive:
                    pass
                finally:
                    ctx.close()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return bad, msg


def search(prop, bins, tier, rnd, seed, deadline, agg, per_arm):
    """one round of generation over all arms; -> failures (arm, case, message, certain), errors"""
    base = tempfile.mkdtemp(prefix="hibpv-", dir=scratch_root())
    failures, errors = [], []
    try:
        mpc = mp.get_context("fork")
        tasks, results, stop = mpc.Queue(), mpc.Queue(), mpc.Event()
        ntasks = 0
        lists = []
        for arm in prop.arms:
            if isinstance(arm, NativeArm):
                continue
            n = arm.n[tier]
            shards = arm.shards or NPROC
            shards = min(shards, max(1, n, len(arm.examples)))
            per = -(-n // shards)
            ex = arm.examples
            lists.append([(arm.name, per, rnd.getrandbits(63), ex[i::shards]) for i in range(shards)])
        # interleave the arms
        while any(lists):
            for l in lists:
                if l:
                    tasks.put(l.pop())
                    ntasks += 1
        procs = []
        nw = min(NPROC, ntasks)
        for w in range(nw):
            tasks.put(None)
        for w in range(nw):
            p = mpc.Process(target=_worker, args=(prop, bins, base, w, tasks, results, stop, deadline))
            p.start()
            procs.append(p)
        alive = nw
        while alive:
            try:
                name, st, err = results.get(timeout=5)
            except queue.Empty:
                if not any(p.is_alive() for p in procs):
                    if results.empty():
                        errors.append("a worker died")
                        break
                continue
            if name is None:
                alive -= 1
                continue
            if err:
                errors.append(err)
                stop.set()
                continue
            agg["evals"] += st["evals"]
            agg["nontrivial"] |= set((name, x) for x in st["nontrivial"])
            for k, v in st["classes"].items():
                agg["classes"][name + ":" + k] = agg["classes"].get(name + ":" + k, 0) + v
            agg["samples"] += [{"arm": name, "case": c} for c in st["samples"]]
            agg["inconclusive"] += st["inconclusive"]
            agg["inconclusive_why"] += st["inconclusive_why"]
            agg["late"] |= st["late"]
            per_arm[name] = per_arm.get(name, 0) + st["evals"]
            if st["fail"]:
                failures += [(name,) + f for f in st["fail"]]
        for p in procs:
            p.join(10)
            if p.is_alive():
                p.kill()
        for arm in prop.arms:
            if isinstance(arm, NativeArm) and not failures and not errors:
                if not arm.usable():
                    agg["classes"][arm.name + ":skipped, this cpu lacks " + arm.cpu] = 1
                    continue
                if isinstance(arm, FuzzArm):
                    st, fail = arm.search(bins[arm.target], tier, rnd)
                else:
                    st, fail = run_native(prop, arm, bins, tier, seed)
                if fail:
                    failures.append((arm.name, fail[0], fail[1], False))
                    break
                agg["evals"] += st["evaluations"]
                agg["native_nontrivial"] += st["nontrivial"]
                per_arm[arm.name] = per_arm.get(arm.name, 0) + st["evaluations"]
                for k, v in st.get("classes", {}).items():
                    agg["classes"][arm.name + ":" + k] = v
                agg["samples"] += [{"arm": arm.name, "case": c} for c in st.get("samples", [])[:3]]
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return failures, errors


def _replay_job(q, prop, name, case, bins, times):
    sys.stdout = sys.stderr = open(os.devnull, "w")
    try:
        q.put(replay_case(prop, name, case, bins, times))
    except BaseException as e:
        q.put((0, str(e)))


def confirm(prop, failures, bins, agg):
    """-> (arm, case, message) of a failure which was certain, or which fails again"""
    # the smallest first; then the others, which may reproduce more easily
    failures = sorted(failures, key=lambda f: (not f[3], len(canon(f[1]))))
    for name, case, msg, certain in failures[:3] + failures[3:][-1:]:
        if certain:
            return name, case, msg
        bad, m2 = replay_case(prop, name, case, bins, times=3)
        if bad == 0:                    # it may need a busy machine
            q = mp.Queue()
            ps = [mp.Process(target=_replay_job, args=(q, prop, name, case, bins, 4)) for _ in range(NPROC)]
            for p in ps:
                p.start()
            for _ in ps:
                try:
                    x = q.get(timeout=300)
                except queue.Empty:
                    break
                bad, m2 = bad + x[0], x[1] or m2
            for p in ps:
                p.join(1)
                if p.is_alive():
                    p.kill()
        if bad:
            return name, case, m2 or msg
        agg["inconclusive"] += 1
        agg["inconclusive_why"].append("did not reproduce: %s %s %s" % (name, msg[:300], canon(case)[:600]))
    return None


def check(prop, tier, seed):
    import build as B
    t0 = time.time()
    bins = B.build(prop.targets)
    tbuild = time.time() - t0
    deadline = t0 + BUDGET[tier]
    agg = dict(evals=0, nontrivial=set(), classes={}, samples=[], inconclusive=0,
               inconclusive_why=[], late=False, native_nontrivial=0)
    per_arm, confirmed = {}, []
    rnd = random.Random("%s/%d/%s" % (prop.id, seed, tier))
    for i in range(3):                  # a failure which never comes back must not end the search
        failures, errors = search(prop, bins, tier, rnd, seed, deadline, agg, per_arm)
        c = confirm(prop, failures, bins, agg) if failures else None
        confirmed += [c] if c else []
        if not failures or c or errors or time.time() > deadline:
            break

    # one or two samples of each arm
    samples, seen = [], {}
    for s in sorted(agg["samples"], key=lambda s: -len(canon(s))):
        if seen.get(s["arm"], 0) < 2:
            seen[s["arm"]] = seen.get(s["arm"], 0) + 1
            samples.append(s)
    known = load_known(prop.id)
    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": agg["evals"],
            "distinct_nontrivial": len(agg["nontrivial"]) + agg["native_nontrivial"],
            "rule": prop.rule,
            "samples": samples,
            "evaluations_per_arm": per_arm,
            "classes": dict(sorted(agg["classes"].items())),
            "inconclusive": agg["inconclusive"],
            "inconclusive_examples": agg["inconclusive_why"][:5],
            "stopped_early_by_time_limit": agg["late"],
            "build_s": round(tbuild, 1),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if confirmed:
        name, case, msg = confirmed[0]
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (prop.id, hashlib.sha1(canon([name, case]).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"property": prop.id, "arm": name, "case": case, "message": msg}, f, indent=1)
        print("".join(c if c.isprintable() or c == "\n" else "?" for c in msg[:3000]).encode("ascii", "replace").decode())
        print("VIOLATION property=%s replay=%s" % (prop.id, path), flush=True)
        return 1
    if errors:
        print("\n".join(errors[:3])[:6000], file=sys.stderr)
        return 2
    total = agg["evals"]
    if agg["inconclusive"] > total * 0.05 + 3:
        print("%s: %d of %d cases inconclusive: %s" % (prop.id, agg["inconclusive"], total,
                                                       agg["inconclusive_why"][:3]), file=sys.stderr)
        if agg["inconclusive"] > total * 0.5:
            return 2                    # this decides nothing
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop.id, k))
    print("%s %s: held on %d cases (%d distinct non-trivial), build %.1fs, total %.1fs" %
          (prop.id, tier, total, ev["coverage"]["distinct_nontrivial"], tbuild, time.time() - t0))
    return 0


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % pid):
                out.append(l.split(" ", 2)[2].strip())
    return out
