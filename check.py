#!/usr/bin/env python3
"""Runs the model-checking harness of one property against /repo's working tree.

  check.py <ID>                    explore (tier from VERIF_TIER, default quick)
  check.py <ID> --replay FILE      rebuild and replay a recorded counterexample
Exit 0: the property held on everything explored.  Exit 1: VIOLATION line.
Exit 2: the check could not be run (toolchain or engine trouble).
"""
import concurrent.futures as cf
import atexit, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

CXX = "g++"
BASE_FLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
              "-D_GLIBCXX_ASSERTIONS", "-fmax-errors=5",
              "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]
PLAIN_FLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-fmax-errors=5"]
ASAN = ("detect_leaks=0:exitcode=99:malloc_context_size=4:quarantine_size_mb=8:max_malloc_fill_size=65536:"
        "malloc_fill_byte=190:allocator_may_return_null=1:max_allocation_size_mb=1024:detect_stack_use_after_return=0:"
        "handle_abort=1:print_stats=0:allocation_dealloc_mismatch=1")
ENV = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="print_stacktrace=1", LC_ALL="C")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
# Files that the explored executions write.
SCRATCH = tempfile.mkdtemp(prefix="malg-")
atexit.register(shutil.rmtree, SCRATCH, True)
ENV["VERIF_SCRATCH"] = SCRATCH


def log(*a):
    print(*a, flush=True)


def compile_cmd(src, obj, flags):
    return [CXX] + flags + ["-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "harness"),
                            "-I" + os.path.join(REPO, "include"), "-c", src, "-o", obj]


def column_major(bdir):
    """A copy of the headers in the other storage order: without the definition of ROW_MAJOR."""
    dst = os.path.join(bdir, "column")
    shutil.copytree(os.path.join(REPO, "include"), dst)
    for f in glob.glob(os.path.join(dst, "**", "*.hpp"), recursive=True):
        with open(f) as h:
            t = h.read()
        t2 = re.sub(r"(?m)^[ \t]*#[ \t]*define[ \t]+ROW_MAJOR\b.*$", "", t)
        if t2 != t:
            with open(f, "w") as h:
                h.write(t2)


PREPARE = {"column_major": column_major}


def build(pid, meta, bdir):
    """Returns (binary, None) or (None, (command, stderr, is_code))."""
    flags = (PLAIN_FLAGS if meta.get("plain") else BASE_FLAGS) + meta.get("flags", [])
    if meta.get("prepare"):
        PREPARE[meta["prepare"]](bdir)
    srcs = [os.path.join(HERE, "harness", s) for s in meta.get("sources", [pid + ".cpp"])]
    srcs.append(os.path.join(HERE, "engine", "main.cpp"))
    jobs = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for s in srcs:
            o = os.path.join(bdir, os.path.basename(s) + ".o")
            own = meta.get("source_flags", {}).get(os.path.basename(s), [])
            cmd = compile_cmd(s, o, flags + [f.replace("@BUILD@", bdir) for f in own])  # own -I come first
            jobs.append((s, o, cmd, ex.submit(subprocess.run, cmd, capture_output=True, text=True)))
        done = [(s, o, c, f.result()) for s, o, c, f in jobs]
    engine_ok = done[-1][3].returncode == 0
    for s, o, c, r in done:
        if r.returncode != 0:
            # A compiler killed for lack of memory or a broken toolchain is not the code's fault.
            is_code = engine_ok and s != srcs[-1] and r.returncode == 1 and ": error:" in r.stderr \
                and "internal compiler error" not in r.stderr and "fatal error: Killed" not in r.stderr
            return None, (" ".join(c), r.stderr, is_code)
    binary = os.path.join(bdir, "check")
    link = [CXX] + flags + [o for _, o, _, _ in done] + ["-o", binary] + meta.get("ldflags", []) + ["-lpthread"]
    r = subprocess.run(link, capture_output=True, text=True)
    if r.returncode != 0:
        return None, (" ".join(link), r.stderr, "multiple definition" in r.stderr or "undefined reference" in r.stderr)
    return binary, None


def known_findings(pid):
    out = {}
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def read_jsonl(path):
    res = []
    if os.path.exists(path):
        with open(path, errors="replace") as f:
            for line in f:
                try:
                    res.append(json.loads(line))
                except ValueError:
                    pass
    return res


def run_binary(binary, out, tier, meta, extra=(), timeout=None):
    cmd = [binary, "--out", out, "--jobs", str(JOBS), "--tier", tier, "--hang", str(meta.get("hang", 60)),
           "--budget", str(meta.get("budget_" + tier, 240 if tier == "quick" else 6000))] + list(extra)
    if not os.environ.get("VERIF_FAST"):
        return cmd, subprocess.run(cmd, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=timeout)
    # For mutation testing: end at the first report.
    p = subprocess.Popen(cmd, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    while p.poll() is None:
        time.sleep(0.3)
        for f in glob.glob(out + ".*"):
            if not f.endswith(".sum") and ".err." not in f and ".states." not in f:
                with open(f, errors="replace") as h:
                    t = h.read()
                if '"t":"violation"' in t or '"t":"crash"' in t:
                    if all(k not in t for k in known_findings(os.path.basename(os.path.dirname(out)))):
                        os.killpg(p.pid, 9)
                        print("VIOLATION (fast mode)")
                        shutil.rmtree(SCRATCH, True)
                        os._exit(1)
    return cmd, subprocess.CompletedProcess(cmd, p.returncode, "", "")


def replay_once(binary, tier, scn, choices, limit):
    try:
        r = subprocess.run([binary, "--tier", tier, "--replay", scn, choices], env=ENV, capture_output=True,
                           text=True, errors="replace", timeout=limit)
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return "hang", (o.decode(errors="replace") if isinstance(o, bytes) else o) + "\n(no end after %d s)" % limit
    txt = r.stdout + r.stderr
    if r.returncode == 0:
        return "ok", txt
    if r.returncode == 77 or r.returncode == 3:
        return "internal", txt
    m = re.search(r"REPLAY-VIOLATION key=(\S+)", r.stdout)
    return ("violation:" + m.group(1)) if m else "crash", txt


def crash_key(text):
    m = re.search(r"(AddressSanitizer: \S+|runtime error: [^\n]{0,60}|Assertion [^\n]{0,80})", text)
    return re.sub(r"\s+", "_", m.group(1)) if m else "crash"


def explore(pid, meta, tier, seed):
    t0 = time.time()
    bdir = os.path.join(HERE, "build", pid)
    odir = os.path.join(HERE, "out", pid)
    for d in (bdir, odir):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    ev_path = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    level = meta["level"]

    def evidence(cov, nviol):
        d = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
             "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
        with open(ev_path, "w") as f:
            json.dump(d, f, indent=1)

    def empty_cov(why):
        if level == "fault_enumeration":
            return {"evaluations": 0, "distinct_nontrivial": 0, "rule": why, "samples": []}
        return {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "explanation": why}

    # Independent extra passes of the property (e.g. a free-running race-detector run).
    binary, err = build(pid, meta, bdir)
    if err:
        cmd, text, is_code = err
        path = os.path.join(odir, "compile-error.txt")
        with open(path, "w") as f:
            f.write(cmd + "\n\n" + text)
        log(text[:3000])
        if is_code:
            evidence(empty_cov("the harness that instantiates the public operations of the property no longer compiles against the tree"), 1)
            log("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        log("check %s could not be built" % pid)
        return 2
    t_build = time.time() - t0
    out = os.path.join(odir, "run")
    cmd, r = run_binary(binary, out, tier, meta)
    if r.returncode != 0:
        log(r.stderr[-2000:])
        log("the explorer failed with exit %d" % r.returncode)
        return 2
    viol, scns, samples, done = [], {}, [], 0
    for w in range(JOBS):
        for x in read_jsonl("%s.%d" % (out, w)):
            t = x["t"]
            if t == "violation":
                viol.append(x)
            elif t == "sample":
                samples.append(x)
            elif t == "scenario":
                s = scns.setdefault(x["scenario"], {"executions": 0, "transitions": 0, "max_choices": 0, "complete": True, "secs": 0.0, "states_capped": False})
                s["executions"] += x["execs"]
                s["transitions"] += x["steps"]
                s["max_choices"] = max(s["max_choices"], x["maxdepth"])
                s["complete"] &= x["complete"]
                s["states_capped"] |= x["capped"]
                s["secs"] = max(s["secs"], round(x["secs"], 2))
            elif t == "done":
                done += 1
    crashes = read_jsonl(out + ".crash")
    merged = read_jsonl(out + ".sum")
    states = merged[-1]["states"] if merged else 0
    known = known_findings(pid)

    confirmed, known_seen, unconfirmed, internal = [], {}, [], []
    tries = {}
    for x in crashes + viol:
        kind = x.get("kind", "violation")
        if kind == "internal":
            errf = "%s.err.%d" % (out, x["worker"])
            internal.append((x, open(errf, errors="replace").read()[-1500:] if os.path.exists(errf) else ""))
            continue
        key = x.get("key") or kind
        if key in known:
            known_seen[key] = known_seen.get(key, 0) + 1
            continue
        tk = (x["scenario"], key)
        if any(c["scenario"] == x["scenario"] and c["key"] == key for c in confirmed) or tries.get(tk, 0) >= 4 or len(confirmed) >= 12:
            continue
        tries[tk] = tries.get(tk, 0) + 1
        limit = 3 * meta.get("hang", 60)
        if kind == "hang" and confirmed:
            limit = meta.get("hang", 60)
        res, txt = replay_once(binary, tier, x["scenario"], x["choices"], limit)
        how = "fresh process"
        ok = res not in ("ok", "internal")
        if ok and kind == "violation" and res.startswith("violation:") and res[10:] in known:
            ok = False
        if not ok:
            # The outcome may depend on the executions before it in the same process: repeat the whole shard.
            try:
                o2 = os.path.join(odir, "shard")
                for f in glob.glob(o2 + ".*"):
                    os.remove(f)
                c2, r2 = run_binary(binary, o2, tier, meta, ["--only", x["scenario"], "--shard", str(x["worker"])], timeout=600)
                again = read_jsonl("%s.%d" % (o2, x["worker"])) + read_jsonl(o2 + ".crash")
                hit = [y for y in again if y["t"] in ("violation", "crash") and (y.get("key") or y.get("kind")) == key]
                if hit:
                    ok, how = True, "same sequence of executions in one process: " + " ".join(c2)
                    txt = json.dumps(hit[0])
            except subprocess.TimeoutExpired:
                pass
        if ok:
            if key == "crash":
                errf = "%s.err.%d" % (out, x["worker"])
                key2 = crash_key(txt)
            else:
                key2 = key
            confirmed.append({"scenario": x["scenario"], "key": key, "detail_key": key2, "choices": x["choices"],
                              "msg": x.get("msg", x.get("detail", "")), "how": how, "text": txt})
        else:
            unconfirmed.append({"scenario": x["scenario"], "key": key, "choices": x["choices"], "msg": x.get("msg", ""), "replay": txt[-800:]})

    execs = sum(s["executions"] for s in scns.values())
    trans = sum(s["transitions"] for s in scns.values())
    complete = all(s["complete"] for s in scns.values()) and done == JOBS and not crashes
    smp = []
    seen = {}
    for x in samples:
        if seen.get(x["scenario"], 0) < 2 and len(smp) < 40:
            seen[x["scenario"]] = seen.get(x["scenario"], 0) + 1
            smp.append({"scenario": x["scenario"], "case": x["text"][:700]})
    if level == "fault_enumeration":
        cov = {"evaluations": execs, "distinct_nontrivial": states,
               "rule": meta.get("rule", ""), "samples": smp}
    else:
        cov = {"states": states, "transitions": trans, "traces_validated_against_impl": execs, "samples": smp}
    cov["exhaustive"] = bool(complete)
    cov["scenarios"] = scns
    cov["explanation"] = meta.get("counts", "Every trace is an execution of the real code of /repo/include compared step by step with the reference; "
                                  "'states' are distinct canonical inputs/object states reached, 'transitions' library operations executed and checked.")
    cov["bounds"] = meta.get("bounds", "")
    cov["build_s"] = round(t_build, 2)
    if unconfirmed:
        cov["unreproducible_reports"] = unconfirmed[:5]
    evidence(cov, len(confirmed))

    for k in known_seen:
        log("KNOWN-FINDING: property=%s key=%s %s" % (pid, k, known[k]))
    n = 0
    for c in confirmed:
        path = os.path.join(odir, "violation-%d.json" % n)
        n += 1
        c["property"] = pid
        c["tier"] = tier
        c["replay_cmd"] = "%s/check.py %s --replay %s" % (HERE, pid, path)
        with open(path, "w") as f:
            json.dump(c, f, indent=1)
        log("%s: scenario %s, %s: %s" % (pid, c["scenario"], c["detail_key"], c["msg"][:600]))
        log("VIOLATION property=%s replay=%s" % (pid, path))
    if confirmed:
        return 1
    for x, t in internal:
        log("engine trouble in scenario %s: %s %s" % (x["scenario"], x["choices"], t))
    if internal:
        return 2
    for u in unconfirmed[:5]:
        log("note: a report could not be reproduced and is not believed: %s %s %s" % (u["scenario"], u["key"], u["msg"][:300]))
    if done != JOBS and not crashes:
        log("some workers ended early")
        return 2
    log("%s %s: held on %d executions, %d transitions, %d distinct states%s (%.1f s, build %.1f s)" % (
        pid, tier, execs, trans, states, "" if complete else " (NOT complete: budget)", time.time() - t0, t_build))
    if os.environ.get("VERIF_VERBOSE"):
        for k, s in scns.items():
            log("  %-28s %s" % (k, s))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(bdir, ignore_errors=True)
    return 0


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        log("usage: check.py <ID> [--replay FILE]")
        return 2
    pid = sys.argv[1]
    meta = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--replay" in sys.argv:
        v = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        bdir = os.path.join(HERE, "build", pid + "-replay")
        shutil.rmtree(bdir, ignore_errors=True)
        os.makedirs(bdir)
        binary, err = build(pid, meta, bdir)
        if err:
            log(err[1])
            return 2
        res, txt = replay_once(binary, v.get("tier", tier), v["scenario"], v["choices"], 180)
        log(txt)
        log("replay: " + res)
        return 0 if res == "ok" else 1
    return explore(pid, meta, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
