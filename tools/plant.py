#!/usr/bin/env python3
"""Confirms the planted bugs in /verif/seeded (and optionally runs the check of the property against each).
usage: plant.py [--check] [--tier quick|thorough] [ID...]
A scratch copy of /repo is made under /tmp, patched, built, tested and removed."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "a9836fd"

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as t:
        return 124, "timeout"

def original_lines(patch):
    """true when the patch removes at least one line that the pinned commit already had"""
    cur = None; lines = []
    for l in open(patch, errors="replace"):
        if l.startswith("--- "): cur = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if l.startswith("-") and not l.startswith("---"): lines.append((cur, n)); n += 1
        elif l.startswith(" "): n += 1
    for f, n in lines:
        rc, o = sh(["git", "-C", REPO, "blame", "-s", "-l", "-L%d,%d" % (n, n), BASE + "..HEAD", "--", f])
        if o.startswith("^"): return True
    return False

def one(i, check, tier):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    out = [i, meta["property"]]
    t = tempfile.mkdtemp(prefix="plant-%s-" % i, dir="/tmp")
    try:
        r = os.path.join(t, "repo")
        sh(["git", "clone", "-q", "--no-hardlinks", REPO, r])
        rc, o = sh(["bash", os.path.join(d, "demo.sh")], cwd=r, timeout=300)
        if rc != 0: return out + ["BAD demo fails on the unchanged tree: " + o[-400:]]
        patch = os.path.join(d, "patch.diff")
        if not original_lines(patch):
            if not check: return out + ["BAD changes no original line"]
            out.append("(no original line)")
        rc, o = sh(["git", "apply", patch], cwd=r)
        if rc != 0: return out + ["BAD does not apply: " + o]
        rc, o = sh(
                   ["bash", "-c", "cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTS=ON -DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C _build && for h in $(find include -name '*.hpp'); do echo \"#include \\\"$h\\\"\" | g++ -std=c++17 -Iinclude -I. -fsyntax-only -x c++ - || exit 1; done && ctest --test-dir _build"], cwd=r,
                   env={"CC": "gcc", "CXX": "g++"})
        if rc != 0: return out + ["BAD build or tests fail: " + o[-800:]]
        rc, o = sh(["bash", os.path.join(d, "demo.sh")], cwd=r, timeout=300)
        if rc == 0: return out + ["BAD demo passes with the patch"]
        out.append("counts")
        if check:
            w = os.path.join(t, "verif")
            shutil.copytree(V, w, ignore=shutil.ignore_patterns(".git", "build", "out", "seeded", "evidence"))
            rc, o = sh([sys.executable, os.path.join(w, "check.py"), meta["property"]], env={"VERIF_REPO": r, "VERIF_TIER": tier, "VERIF_JOBS": "3"}, timeout=1500)
            v = [l for l in o.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
            out.append("CAUGHT" if rc == 1 and v else "MISSED rc=%d" % rc)
            m = re.search(r"key=\S+", o)
            out.append(m.group(0) if m else o.strip().splitlines()[-1][:150] if o.strip() else "")
        return out
    finally:
        shutil.rmtree(t, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]; check = "--check" in a; tier = "quick"
    if "--tier" in a: k = a.index("--tier"); tier = a[k + 1]; del a[k:k + 2]
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(os.path.join(V, "seeded")))
    with ThreadPoolExecutor(3 if check else 6) as ex:
        for r in ex.map(lambda i: one(i, check, tier), ids): print("  ".join(r), flush=True)
