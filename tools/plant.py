#!/usr/bin/env python3
"""Development helper: turn a directory of bug descriptions into confirmed /verif/seeded entries.

A bug is a python file defining ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS and DEMO (C++ source), PYDEMO
(python using plantkit/imp.py: importer and generated networks) or FILES={name: text} with a demo.sh.  Everything is confirmed in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, runpy

SEEDED = os.environ.get("SEEDED") or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
SCRATCH = "/tmp/plant/repo"
DEMO_SH = r'''#!/bin/bash
# run with cwd = /repo (after the build); exit 0: the property holds, anything else: it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
srcs=$(find "$PWD/pico-cnn" -name '*.cpp')
g++ -std=c++11 -O1 -g %s -I"$PWD" -I"$PWD/pico-cnn" -w -o "$tmp/demo" "$here/demo.cpp" $srcs -ljpeg >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 3; }
cd "$tmp" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''


PY_SH = r'''#!/bin/bash
# run with cwd = /repo (after the build); exit 0: the property holds, anything else: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export REPO=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
py=/opt/veriftools/pyvenv/bin/python3; [ -x $py ] || py=python3-vt
cd "$tmp" && PYTHONPATH="$here" timeout 280 $py "$here/demo.py"
'''
KIT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "plantkit")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def script(path):
    t = open(path).read().replace("/repo", SCRATCH)
    p = "/tmp/plant/" + os.path.basename(path)
    open(p, "w").write(t.replace("/opt/vp/build.sh", "/tmp/plant/build.sh"))
    return p


def plant(path):
    b = runpy.run_path(path)
    out = os.path.join(SEEDED, b["ID"])
    sh("rm -rf %s; mkdir -p /tmp/plant; cp -a /repo %s; rm -rf %s/_build; git -C %s checkout -q -- ." % ((SCRATCH,) * 4))
    build, test = script("/opt/vp/build.sh"), script("/opt/vp/test.sh")
    tmp = "/tmp/plant/entry"
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    files = dict(b.get("FILES", {}))
    if "DEMO" in b:
        files["demo.cpp"] = b["DEMO"].lstrip()
        files["demo.sh"] = DEMO_SH % b.get("CXXFLAGS", "")
    if "PYDEMO" in b:
        files["demo.py"] = b["PYDEMO"].lstrip()
        files["imp.py"] = open(os.path.join(KIT, "imp.py")).read()
        files["demo.sh"] = PY_SH
        shutil.copytree(os.path.join(os.path.dirname(os.path.dirname(KIT)), "importer", "stubs"), os.path.join(tmp, "stubs"), ignore=shutil.ignore_patterns("__pycache__"))
    for n, t in files.items():
        open(os.path.join(tmp, n), "w").write(t)
    os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
    demo = "cd %s && timeout 300 bash %s/demo.sh" % (SCRATCH, tmp)
    r = sh(demo)
    if r.returncode != 0:
        print(b["ID"], "REJECTED: demo fails on the unchanged tree\n", r.stdout[-2000:]); return False
    for f, old, new in b["EDITS"]:
        p = os.path.join(SCRATCH, f)
        s = open(p).read()
        if s.count(old) < 1:
            print(b["ID"], "REJECTED: text not found in", f, repr(old[:60])); return False
        if s.count(old) > 1:
            print(b["ID"], "note: %d occurrences, all replaced" % s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C %s diff" % SCRATCH).stdout
    # only lines of the original repository may be changed
    for f in {e[0] for e in b["EDITS"]}:
        bl = sh("git -C %s diff -U0 -- %s" % (SCRATCH, f)).stdout
        for l in bl.splitlines():
            if l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                n = int(a[1]) if len(a) > 1 else 1
                if n:
                    blame = sh("git -C %s blame -s -L%s,+%d HEAD -- %s" % (SCRATCH, a[0], n, f)).stdout
                    for x in blame.splitlines():
                        if not x.startswith("^"):
                            h = x.split()[0]
                            if sh("git -C %s merge-base --is-ancestor %s 9ba1441" % (SCRATCH, h)).returncode:
                                print(b["ID"], "WARNING: touches a line of our own:", x)
    r = sh("bash " + test + " /tmp/plant/out.json", cwd=SCRATCH)
    try:
        res = json.load(open("/tmp/plant/out.json"))
    except Exception:
        res = {"passed": [], "failed": ["?"]}
    if res["failed"] or len(res["passed"]) < 38:
        print(b["ID"], "REJECTED: tests", res["failed"], r.stdout[-1500:]); return False
    r = sh(demo)
    if r.returncode == 0 or r.returncode == 3:
        print(b["ID"], "REJECTED: demo rc=%d with the change" % r.returncode, r.stdout[-1000:]); return False
    open(os.path.join(tmp, "patch.diff"), "w").write(diff)
    json.dump({"property": b["PROP"], "needs": b["NEEDS"], "what_it_breaks": b["BREAKS"]}, open(os.path.join(tmp, "meta.json"), "w"), indent=1)
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    print(b["ID"], "OK  (demo rc %d: %s)" % (r.returncode, r.stdout.strip()[-150:]))
    return True


ok = [plant(p) for p in sys.argv[1:]]
sh("rm -rf " + SCRATCH)
sys.exit(0 if all(ok) else 1)
