#!/usr/bin/env python3
"""Makes planted bugs:  seed.py SPEC.py [id...]

SPEC.py defines SEEDS: a list of dicts with id, property, edits [(file, old, new)],
needs, breaks, demo (C++ source; CHECK(x) is provided), and optionally flags.
With web=True the demonstration gets its own copy of the stand-ins and demo_web.hpp.
Each is confirmed in the working tree SEED_REPO (/repo, or a scratch copy built with a
driver of its own, SEED_DRIVER; it is restored straight afterwards):
the patch builds, the stable tests pass, the demonstration fails with it and passes
without it.  Only then is it kept in seeded/<id>/.
"""
import importlib.util, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEED_REPO", "/repo")
BASE = "a8c65b8"
DRIVER = os.environ.get("SEED_DRIVER")
PRE = """#include <cstdio>
#include <cstdlib>
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::fprintf(stderr, "failed, line %d: %s\\n", __LINE__, #__VA_ARGS__); std::exit(1); } } while (0)
"""
WEB_SH = """#!/bin/bash
# exit 0 when the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
tar -xf "$here/standin.tar.xz" -C "$out" || exit 2
g++-13 -std=c++20 -g -w -DFITORIA_HAS_FMT -DFITORIA_HAS_ZLIB -DFITORIA_HAS_BROTLI %s -I"$out/standin" -I"$here" -Iinclude \\
  "$here/demo.cpp" -o "$out/demo" -lfmt -lz -lbrotlienc -lbrotlidec -lpcre2-8 -lpthread %s || exit 2
cd "$out" && timeout 100 "$out/demo"
"""
SH = """#!/bin/bash
# exit 0 when the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++-13 -std=c++20 -g -w -DFITORIA_HAS_FMT %s -Iinclude "$here/demo.cpp" -o "$out/demo" %s || exit 2
timeout 60 "$out/demo"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def restore():
    sh("git -C %s checkout -- ." % REPO)


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = set(sys.argv[2:])
    assert not sh("git -C %s status --porcelain" % REPO).stdout.strip(), REPO + " is not clean"
    for s in m.SEEDS:
        if want and s["id"] not in want:
            continue
        d = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "demo.cpp"), "w").write(PRE + s["demo"])
        if s.get("web"):
            open(os.path.join(d, "demo.sh"), "w").write(WEB_SH % (s.get("flags", ""), s.get("libs", "")))
            shutil.copy(os.path.join(V, "tools/demo_web.hpp"), d)
            sh("tar --sort=name --mtime=@0 --owner=0 --group=0 -cJf %s/standin.tar.xz -C %s standin" % (d, V))
        else:
            open(os.path.join(d, "demo.sh"), "w").write(SH % (s.get("flags", ""), s.get("libs", "-lfmt")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok = False
        try:
            r = sh("bash %s/demo.sh" % d, cwd=REPO)
            if r.returncode != 0:
                print(s["id"], "REJECTED: demo fails on the unchanged tree:", r.stdout[-1500:])
                continue
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, "include/fitoria", f)
                t = open(p).read()
                if t.count(old) != s.get("count", 1):
                    print(s["id"], "REJECTED: text found %d times in %s" % (t.count(old), f))
                    break
                open(p, "w").write(t.replace(old, new))
            else:
                open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % REPO).stdout)
                diff, cur, foreign = open(os.path.join(d, "patch.diff")).read(), "", []
                for l in diff.splitlines():
                    if l.startswith("--- a/"):
                        cur = sh("git -C %s show %s:%s" % (REPO, BASE, l[6:])).stdout.splitlines()
                    elif l.startswith("-") and l[1:].strip() and l[1:] not in cur:
                        foreign.append(l)
                if foreign:
                    print(s["id"], "NOTE: not lines of the original repository:", foreign)
                r = sh("bash %s/demo.sh" % d, cwd=REPO)
                if r.returncode == 0:
                    print(s["id"], "REJECTED: demo passes with the change")
                    continue
                if r.returncode == 2:
                    print(s["id"], "REJECTED: demo does not compile with the change", r.stdout[-1500:])
                    continue
                demo = r.stdout.strip()[-200:]
                if DRIVER:
                    r = sh("ninja -C %s/_build -j8" % REPO)
                else:
                    r = sh("bash /opt/vp/build.sh")
                if r.returncode:
                    print(s["id"], "REJECTED: does not build", r.stdout[-1500:])
                    continue
                if DRIVER:
                    shutil.rmtree("/tmp/seed-reports", ignore_errors=True)
                    os.makedirs("/tmp/seed-reports")
                    r = sh("python3 %s/run_tests.py %s/_build/tests.txt /tmp/seed-reports; "
                           "python3 /opt/vp/results.py /tmp/seed-out.json 'junit:/tmp/seed-reports/*.xml' 'lines:/tmp/seed-reports/*.lines'" % (DRIVER, REPO))
                else:
                    r = sh("bash /opt/vp/test.sh /tmp/seed-out.json")
                t = r.stdout.strip().splitlines()[-1]
                if "200 passed, 0 failed" not in t:
                    print(s["id"], "REJECTED: tests:", t, [l for l in r.stdout.splitlines() if "exit" in l and "exit 0" not in l])
                    continue
                ok = True
                print(s["id"], "kept;", demo)
        finally:
            restore()
            if not ok:
                shutil.rmtree(d, ignore_errors=True)
            sys.stdout.flush()
    sh("ninja -C %s/_build -j8" % REPO if DRIVER else "bash /opt/vp/build.sh")


main()
