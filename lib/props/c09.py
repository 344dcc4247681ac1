"""Array comparison, for each instruction set level it can be compiled for."""
from driver import Prop, NativeArm

ARGV = lambda tier, seed: ["gen", str(seed), "3000" if tier == "quick" else "400000"]
REPLAY = lambda c: ["replay", str(c["n"]), c["a"], c["b"]]
ARMS = [NativeArm(v, v + ":arrcmp", ARGV, REPLAY, cpu=cpu) for v, cpu in
        (("sse", None), ("clang", None), ("avx2", "avx2"), ("avx512", "avx512bw"))]

PROP = Prop("C09", "exploration",
            "A generator makes pairs of arrays for every length from 0 to 80 and fifteen lengths up to 1000: equal ones, one difference at each position "
            "with all pairs of extreme bytes, two opposite differences at each pair of positions, and random bytes and tails, with a seed. "
            "The three forms, both argument orders, and (for 8, 16 and 20 bytes) all operators of the record types with differing counts "
            "are compared with a byte by byte comparison; both arrays end at an inaccessible page. Built with gcc (SSE), clang, AVX2 and AVX-512. "
            "Non-trivial: longer than one byte and not equal.",
            [a.target for a in ARMS], ARMS,
            technique="property-based testing (native generator with shrinking) against a byte by byte reference",
            note="Exploration: positions of one and two differences are enumerated for each length, byte values are drawn; levels the machine lacks are skipped and listed.",
            assumptions=["x86-64; the build without any vector instructions (maxvec 8) is not reachable on x86-64 compilers"])
