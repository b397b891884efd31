#!/usr/bin/env python3
"""Development helper: apply each given seeded bug to a copy of /repo and run the check of its property on it.
SEEDED: where the bugs lie, JOB: name of the copy."""
import glob, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SEEDED", V + "/seeded")
R = "/tmp/runseed-" + os.environ.get("JOB", "0")
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(S + "/*"))
for i in ids:
    d = os.path.join(S, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    shutil.rmtree(R, ignore_errors=True); subprocess.check_call(["git", "clone", "-q", "/repo", R])
    subprocess.check_call(["git", "-C", R, "apply", d + "/patch.diff"])
    t = time.time()
    try:
        r = subprocess.run(["python3", V + "/check.py", prop], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", PICO_REPO=R))
    finally:
        shutil.rmtree(R, ignore_errors=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    caught = r.returncode == 1 and any("property=" + prop in l for l in v)
    print("%-40s %s rc=%d %.0fs %s" % (i, "CAUGHT" if caught else "MISSED", r.returncode, time.time() - t, (v or [r.stdout[-200:]])[0][:110]), flush=True)
