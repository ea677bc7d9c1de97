#!/usr/bin/env python3
"""Runs each planted bug's own check against a scratch copy with the bug:  trials.py [id...] [--all]
Prints the catch table (also written to build/trials.json)."""
import json, os, shutil, subprocess, sys, re, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
res = {}
for i in ids:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = "/tmp/trial-" + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run("git -C /repo archive HEAD include | tar -x -C " + w, shell=True, check=True)
    r = subprocess.run(["git", "apply", "--directory", w[1:], os.path.join(d, "patch.diff")], cwd="/", capture_output=True, text=True)
    if r.returncode:
        r = subprocess.run(["patch", "-p1", "-i", os.path.join(d, "patch.diff")], cwd=w, capture_output=True, text=True)
    if r.returncode:
        print(i, "patch does not apply", r.stdout, r.stderr)
        continue
    props = [meta["property"]]
    if "--all" in sys.argv:
        props = sorted({c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]})
    out = {}
    for p in props:
        r = subprocess.run([sys.executable, os.path.join(V, "check.py"), p], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=w))
        fails = [l for l in r.stdout.splitlines() if l.startswith("# what fails") or l.startswith("section ")]
        tm = re.findall(r"(\d+\.\d)s \(build", r.stdout)
        out[p] = r.returncode
        print(i, p, {0: "MISSED", 1: "caught", 2: "ERROR"}.get(r.returncode, r.returncode), tm[:1], " | ".join(fails)[:220])
        if r.returncode == 2:
            print(r.stdout[-800:])
        sys.stdout.flush()
    res[i] = {"property": meta["property"], "result": out}
    shutil.rmtree(w, ignore_errors=True)
for b in os.listdir(os.path.join(V, "build")):
    if "." in b:
        shutil.rmtree(os.path.join(V, "build", b), ignore_errors=True)
old = {}
f = os.path.join(V, "build", "trials.json")
if os.path.exists(f):
    old = json.load(open(f))
old.update(res)
json.dump(old, open(f, "w"), indent=1)
miss = [i for i in res if res[i]["result"][res[i]["property"]] != 1]
print(len(res) - len(miss), "of", len(res), "caught; missed:", miss)
