#!/usr/bin/env python3
"""Runs checks against an edited scratch copy of /repo (for trying out changes; see also plant.py).
usage: mut.py EDITS.py ID...   where EDITS.py defines NAME = [(file, old, new), ...] lists; one run for each list and ID.
"""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = os.environ.get("ONLY")
for name, edits in ns.items():
    if name.startswith("_") or not isinstance(edits, list) or (only and name not in only.split(",")): continue
    t = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        r, w = os.path.join(t, "repo"), os.path.join(t, "verif")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        shutil.copytree(V, w, ignore=shutil.ignore_patterns(".git", "build", "out", "seeded", "evidence"))
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if old not in s: print(name, "edit not found:", old[:60]); break
            open(p, "w").write(s.replace(old, new, 1))
        else:
            for i in sys.argv[2:]:
                p = subprocess.run([sys.executable, os.path.join(w, "check.py"), i], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r))
                o = p.stdout.strip().splitlines()
                print(name, i, "rc=%d" % p.returncode, "|", (o[-1] if p.returncode == 0 else " ".join(o[:3]))[:500], flush=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)
