#!/usr/bin/env python3
"""run.py <property> [options]: build the check of a property from /repo's working tree and run it.

The tier is --thorough, or taken from VERIF_TIER (quick, thorough). --replay FILE re-runs a reported case."""
import os, sys, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
import build

# property -> (main source, build variant, options for build())
CHECKS = {
    "P01": ("checks/P01.cpp", "plain", {}),
    "P02": ("checks/P02.cpp", "plain", {}),
    "P03": ("checks/P03.cpp", "plain", {}),
    "P04": ("checks/P04.cpp", "plain", {}),
    "P05": ("checks/P05.cpp", "plain", {}),
    "P06": ("checks/P06.cpp", "asan", {}),
    "P07": ("checks/P07.cpp", "plain", {}),
    "P08": ("checks/P08.cpp", "plain", {}),
    "P09": ("checks/P09.cpp", "plain", {}),
    "P10": ("checks/P10.cpp", "plain", {}),
    "P11": ("checks/P11.cpp", "plain", {}),
    "P12": ("checks/P12.cpp", "plain", {}),
    "P13": ("checks/P13.cpp", "plain", {"extra_src": ["mc/sysio.cpp"]}),
    "P14": ("checks/P14.cpp", "plain", {"extra_src": ["mc/sysio.cpp"]}),
    "P15": ("checks/P15.cpp", "plain", {}),
    "P16": ("checks/P16.cpp", "plain", {}),
    "P17": ("checks/P17.cpp", "plain", {}),
    "P18": ("checks/P18.cpp", "plain", {"extra_src": ["mc/sysio.cpp"]}),
    "P19": ("checks/P19.cpp", "asan", {}),
    "P20": ("checks/P20.cpp", "plain", {}),
    "P21": ("checks/P21.cpp", "plain", {}),
    "P22": ("checks/P22.cpp", "plain", {}),
}


def tools(prop):
    """the command line tool and the shared library of the tree, for the check that compares them"""
    if prop == "P18":
        return {"P18_MEM": build.build("p18_mem", "checks/P18_mem.cpp", "tsan", with_common=False)}
    if prop != "P21":
        return {}
    return {"P21_CLI": build.build("geodiffinfo", os.path.join(build.SRC, "geodiffinfo.cpp"), "plain", with_common=False),
            "P21_LIB": build.build("libgeodiff.so", None, "pic", shared=True, with_common=False),
            "P21_PKG": os.path.join(build.REPO, "pygeodiff"),
            "P21_SERVER": os.path.join(HERE, "harness/checks/P21.py"),
            "P21_PYTHON": "/usr/bin/python3" if os.path.exists("/usr/bin/python3") else sys.executable}


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--build-all":
        for prop in sorted(CHECKS):
            src, variant, kw = CHECKS[prop]
            build.build(prop.lower(), src, variant, **kw)
            tools(prop)
        build.locales()
        return 0
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: run.py {%s} [options]" % ",".join(sorted(CHECKS)))
        return 2
    prop = sys.argv[1]
    src, variant, kw = CHECKS[prop]
    exe = build.build(prop.lower(), src, variant, **kw)
    extra = tools(prop)
    if "--build-only" in sys.argv:
        return 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    env = dict(os.environ, **extra)
    env["MC_LOCPATH"] = build.locales()
    args = [a for a in sys.argv[2:] if a != "--thorough"]
    env["VERIF_TIER"] = "thorough" if len(args) < len(sys.argv) - 2 else env.get("VERIF_TIER", "quick")
    env.setdefault("VERIF_SEED", "1")
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=1"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1"
    cmd = [exe, "--evidence", os.path.join(HERE, "evidence", prop + ".json"),
           "--replays", os.path.join(HERE, "evidence", "replays"),
           "--known", os.path.join(HERE, "known_findings.txt")] + args
    return subprocess.call(cmd, env=env)


if __name__ == "__main__":
    sys.exit(main())
