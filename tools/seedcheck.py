#!/usr/bin/env python3
"""seedcheck.py [-a] [ID...]: run the property's check (or -a: all checks) against planted bugs, in a copy of /repo"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = "-a" in args
args = [a for a in args if a != "-a"]
ids = [next((x for x in sorted(os.listdir(os.path.join(V, "seeded"))) if x == a or x.startswith(a + "-")), a) for a in args] or sorted(os.listdir(os.path.join(V, "seeded")))
man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]} if os.path.exists(os.path.join(V, "MANIFEST.json")) else {}
tot = 0
for i in ids:
    d = os.path.join(V, "seeded", i) if not os.path.exists(i) else i
    meta = json.load(open(os.path.join(d, "meta.json"))) if os.path.exists(os.path.join(d, "meta.json")) else {"property": "-"}
    w = tempfile.mkdtemp(prefix="sc-", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C " + w, shell=True, check=True)
        pf = os.path.join(d, "patch.diff") if os.path.isdir(d) else d
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory", w, pf], check=True, cwd="/")
        ps = sorted(man) if allc or meta["property"] == "-" else [meta["property"]]
        for p in ps:
            t = time.time()
            r = subprocess.run(["timeout", "900", "python3", os.path.join(V, "check.py"), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, LABY_REPO=w, SA_DEBUG="1"), cwd=V)
            hit = "VIOLATION property=%s " % p in r.stdout and r.returncode == 1
            lines = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")]
            print("%-34s %s %s rc=%d %.0fs | %s" % (i if meta["property"] != "-" else os.path.basename(i), p, "CAUGHT" if hit else "missed" if r.returncode == 0 else "ERROR", r.returncode, time.time() - t, " // ".join(lines)[:330]), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
