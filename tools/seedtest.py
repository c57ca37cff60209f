#!/usr/bin/env python3
"""seedtest.py [-a] [id...]   runs the checks against the planted bugs under /verif/seeded.
Applies each to /repo (which must be clean), runs the check of its property (-a: all
checks), and undoes it.  A development tool: no check uses it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir(V + "/seeded"))
man = json.load(open(V + "/MANIFEST.json"))
pids = [c["property"] for c in man["checks"]]
for i in ids:
    d = V + "/seeded/" + i
    want = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "diff", "--quiet"], check=True)
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        for p in (pids if every else [want]):
            t = time.time()
            r = subprocess.run(["python3", "check.py", p], cwd=V, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            hit = any(l.startswith("VIOLATION property=%s " % p) for l in r.stdout.splitlines())
            s = {0: "quiet", 1: "caught" if hit else "exit 1 without a line"}.get(r.returncode, "NO ANSWER")
            print("%-28s %s%s %-9s %4.0f s  %s" % (i, p, "*" if p == want else " ", s, time.time() - t,
                  "" if r.returncode < 2 else r.stdout[-300:]), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
