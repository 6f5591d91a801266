#!/usr/bin/env python3
"""Development aid: run each planted change's own check on a scratch copy carrying it. usage: seedcheck.py [id substrings]
Writes one line per change: caught / missed and the violation key."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(ROOT, "seeded")
def one(i):
    d = os.path.join(S, i); prop = json.load(open(os.path.join(d, "meta.json")))["property"]; w = "/tmp/sc-" + i
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % w, shell=True, check=True)
    a = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=w, capture_output=True, text=True)
    if a.returncode: shutil.rmtree(w); return i, prop, "DOES NOT APPLY", a.stderr[:100]
    e = dict(os.environ, VP_REPO=w, VP_OUT=w + "/vpout"); p = subprocess.run([sys.executable, ROOT + "/run.py", prop, "quick"], env=e, capture_output=True, text=True)
    v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
    k = os.path.basename(v[0].split("replay=")[1]).rsplit(".json", 1)[0] if v else p.stdout.strip().splitlines()[-1][:120] if p.stdout.strip() else p.stderr[-120:]
    shutil.rmtree(w, ignore_errors=True)
    return i, prop, "caught" if p.returncode == 1 and v else "MISSED rc=%d" % p.returncode, k
ids = sorted(x for x in os.listdir(S) if os.path.isdir(os.path.join(S, x)) and (len(sys.argv) < 2 or any(a in x for a in sys.argv[1:])))
with ThreadPoolExecutor(int(os.environ.get("SC_PAR", "2"))) as ex:
    for r in ex.map(one, ids): print("%-34s %s %-10s %s" % r, flush=True)
