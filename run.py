#!/usr/bin/env python3
"""run.py check C01 [--tier quick|thorough] | replay FILE | setup | list"""
import importlib, json, os, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python3"
try:
    import hypothesis
except ImportError:
    os.execv(PY, [PY] + sys.argv)
sys.path[:0] = [os.path.join(VERIF, "lib"), os.path.join(VERIF, "lib", "props")]
sys.dont_write_bytecode = True
import driver, build


def prop(pid):
    return importlib.import_module(pid.lower()).PROP


def ids():
    return sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "lib", "props")) if f.startswith("c") and f.endswith(".py"))


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if a[0] == "check":
        return driver.check(prop(a[1]), tier, seed)
    if a[0] == "setup":
        t = sorted({t for i in ids() for t in prop(i).targets})
        build.build(t)
        return 0
    if a[0] == "list":
        print("\n".join(ids())); return 0
    if a[0] == "replay":
        r = json.load(open(a[1]))
        p = prop(r["property"])
        bins = build.build(p.targets)
        bad, msg = driver.replay_case(p, r["arm"], r["case"], bins, times=3)
        print(msg)
        if bad:
            print("VIOLATION property=%s replay=%s" % (r["property"], os.path.abspath(a[1])))
            return 1
        print("not reproduced")
        return 0
    print(__doc__); return 2


if __name__ == "__main__":
    sys.exit(main())
