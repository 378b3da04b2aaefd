#!/usr/local/bin/python3
"""catch.py [ID...] -- run each planted bug's check against a scratch copy of /repo with the patch applied."""
import json, os, subprocess, sys, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))
claimed = json.load(open(ROOT + "/harness/checks.json"))
for i in ids:
    d = ROOT + "/seeded/" + i
    if not os.path.exists(d + "/meta.json"): continue
    prop = json.load(open(d + "/meta.json"))["property"]
    if prop not in claimed:
        print("%-40s %s not claimed" % (i, prop)); continue
    w = "/tmp/catch-" + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    a = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w)
    if a.returncode: print("%-40s PATCH DOES NOT APPLY" % i); shutil.rmtree(w); continue
    t = time.time()
    env = dict(os.environ, VERIF_REPO=w, VERIF_SEED="1")
    r = subprocess.run([ROOT + "/check", prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
    s = [l.strip()[:150] for l in r.stdout.splitlines() if l.startswith("  sig=")]
    ok = r.returncode == 1 and v
    print("%-40s %s %s rc=%d %.0fs %s" % (i, prop, "CAUGHT" if ok else "MISSED", r.returncode, time.time() - t, s[:2] if ok else r.stdout[-400:]), flush=True)
    shutil.rmtree(w)
