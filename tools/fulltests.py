#!/usr/bin/env python3
"""Builds and runs the repository's whole gtest suite (also the parts that need libgpkg, through the
stand-in) against /repo's working tree. Used while preparing fixes; no check depends on it.
Postgres tests are left out (no server)."""
import os, sys, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "../harness"))
import build
T = os.path.join(build.REPO, "geodiff/tests")
bad = 0
os.environ["GEODIFF_LOGGER_LEVEL"] = os.environ.get("GEODIFF_LOGGER_LEVEL", "0")
for t in ["single_commit", "concurrent_commits", "modified_scheme", "changeset_reader", "changeset_utils", "driver_sqlite"]:
    exe = build.build("full_" + t, os.path.join(T, "test_%s.cpp" % t), "plain", extra_src=[os.path.join(T, "geodiff_testutils.cpp")],
                      extra_flags=['-DTEST_DATA_DIR="%s/testdata/"' % T, "-I" + T], link_flags=["-lgtest", "-lgmock"], with_common=False)
    p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    fails = sorted({l.split("]")[1].split("(")[0].strip() for l in p.stdout.splitlines() if l.startswith("[  FAILED  ]")})
    ok = p.stdout.count("[       OK ]")
    print(t, "rc", p.returncode, "ok", ok, "FAILED", fails)
    if "-v" in sys.argv: print(p.stdout)
    bad |= p.returncode != 0
sys.exit(bad)
