#!/usr/bin/env python3
"""Mutation testing of the checks: small syntactic changes of /repo's headers, each run against the checks of the
function it is in.  usage: mutate.py LOG N SEED [FILE-REGEX [NAME-REGEX]].  Survivors are printed for inspection (equivalent or missed)."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo/include/malg"
FILES = {"vector.hpp": ["C01"], "matrix.hpp": ["C02", "C33"], "view.hpp": ["C03", "C33"], "matrix_base.hpp": ["C02", "C03"], "feq.hpp": ["C07", "C08"], "complex_math.hpp": ["C29"],
         "io.hpp": ["C18", "C19", "C20"], "eigen.hpp": ["C30"], "type_traits.hpp": ["C04", "C29"], "math.hpp": ["C04"], "linalg.hpp": ["C09"], "utility.hpp": ["C14"], "control/control.hpp": ["C22"]}
NAMES = {
    "io.hpp": {"operator>>": ["C19", "C18"], "operator<<": ["C20", "C18"], ".*": ["C20"]},
    "math.hpp": {"operator[*]=?$": ["C05", "C04", "C06"], "dot|projection": ["C05", "C06"], "operator(==|!=|<=?|>=?)$": ["C07", "C06"], "infinity_norm|square_norm|sub_norm|log2_ceil|trace|sum|vector_length": ["C17", "C06"],
                 "max|min|all|any": ["C16"], ".*": ["C04", "C06"]},
    "linalg.hpp": {"transpose|hermitian_transpose|conjugate_transpose|cofactor": ["C15"], "determinant": ["C09"], "adjoint|inverse|div": ["C10"], "lu_dec.*": ["C11"], "qr_dec.*": ["C12"], "solve": ["C13"],
                   "powm": ["C05", "C06"], "exp|expm": ["C21"], "factorial": ["C27"], ".*": ["C12"]},
    "utility.hpp": {"is_.*": ["C08"], "vstack|hstack|extract.*|remove.*|swap.*|diag|to_.*|ravel|concatenate": ["C14", "C06"], "view|row|col": ["C03"], "rand.*": ["C28"], "find|flatnonzero|compare": ["C16"], "all_close": ["C07"],
                    "linspace|logspace|eye|zeros|ones|identity|accumulate|inner_product|vector|linear_.*": ["C27"], "basis": ["C28", "C22"], ".*": ["C27", "C14", "C16"]},
    "control/control.hpp": {"c2d": ["C22"], "simulate.*|generate.*": ["C23"], "ctrb|obsv": ["C24", "C06"], "poly.*": ["C25"], "acker": ["C26", "C06"], "StateSpace|Discrete.*": ["C22", "C23"], ".*": ["C22"]},
}
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
       (r"\+=", "-="), (r"-=", "+="), (r"\*=", "+="), (r"/=", "*="), (r"rows\(\)", "cols()"), (r"cols\(\)", "rows()"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\(r, c\)", "(c, r)"), (r"\(i, j\)", "(j, i)"),
       (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"if \((?!constexpr)", "if (!("), (r"std::abs\(", "("), (r"std::conj\(", "("), (r"\+\+", "--"), (r"\.real\(\)", ".imag()")]

def functions(lines):
    """name of the function that each line is in"""
    out, name = [], ""
    for i, l in enumerate(lines):
        m = re.match(r"^(?:    )?(?:(?:static |inline |explicit |virtual |constexpr )*)(?:[\w:<>&,\* ]+[ &\*])?(operator *[^\s(]+|operator\(\)|~?\w+)\(", l)
        if m and not re.match(r"\s*(return|if|for|while|switch|throw|else|std::)", l) and not l.rstrip().endswith(";") and (l[:4] != "    " or l[4] != " "):
            name = m.group(1).replace(" ", "")
        out.append(name)
    return out

def mutants(pat, npat):
    res = []
    for f in FILES:
        if pat and not re.search(pat, f): continue
        lines = open(os.path.join(R, f)).read().split("\n")
        fn = functions(lines)
        for i, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith(("//", "#", "template", "using", "/*", "*")) or (npat and not re.search(npat, fn[i])): continue
            code = l.split("//")[0]
            for a, b in OPS:
                for m in re.finditer(a, code):
                    if re.match(r"\s*(inline|auto|static|virtual|explicit)\b.*\)\s*(const)?$", code): continue
                    new = code[:m.start()] + b + code[m.end():]
                    if b == "if (!(":
                        k = new.rfind(")")
                        if not new.rstrip().endswith("{"): continue
                        new = new[:k] + "))" + new[k + 1:]
                    res.append((f, i, fn[i], l, new))
            if s.endswith(";") and not re.match(r"(return|auto|std::size_t|const|T |break|continue|throw|typename|static|Matrix|Vector|[\w:<>]+ \w+( =|;|\())", s) and i + 1 < len(lines):
                res.append((f, i, fn[i], l, "    ;"))
    return res

def checks_for(f, n):
    for k, v in NAMES.get(f, {}).items():
        if re.fullmatch(k, n) or re.match(k + "$", n): return v
    return FILES[f]

def try_one(mu):
    f, i, n, old, new = mu
    t = tempfile.mkdtemp(prefix="mm-", dir="/tmp")
    try:
        inc = os.path.join(t, "include")
        shutil.copytree("/repo/include", inc)
        p = os.path.join(inc, "malg", f)
        lines = open(p).read().split("\n")
        assert lines[i] == old
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        # does it compile at all?
        src = os.path.join(t, "x.cpp")
        open(src, "w").write("".join('#include "malg/%s"\n' % g for g in FILES))
        if subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-w", "-I" + inc, src], capture_output=True).returncode: return "nocompile", []
        log = []
        for c in checks_for(f, n):
            w = os.path.join(t, "verif")
            if not os.path.exists(w): shutil.copytree(V, w, ignore=shutil.ignore_patterns(".git", "build", "out", "seeded", "evidence"))
            e = dict(os.environ, VERIF_REPO=t, VERIF_JOBS="2", VERIF_FAST="1")
            try:
                r = subprocess.run([sys.executable, os.path.join(w, "check.py"), c], capture_output=True, text=True, env=e, timeout=400)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 1
                log.append((c, "timeout"))
                return "killed", log
            if rc == 1:
                log.append((c, "compile" if "compile-error" in r.stdout else "violation"))
                return "killed", log
            log.append((c, "rc=%d" % rc))
        return "SURVIVED", log
    finally:
        shutil.rmtree(t, ignore_errors=True)

if __name__ == "__main__":
    logf, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    ms = mutants(sys.argv[4] if len(sys.argv) > 4 else "", sys.argv[5] if len(sys.argv) > 5 else "")
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants", flush=True)
    ms = ms[:n]
    cnt = {}
    with ThreadPoolExecutor(5) as ex, open(logf, "a") as lf:
        for mu, (st, log) in zip(ms, ex.map(try_one, ms)):
            cnt[st] = cnt.get(st, 0) + 1
            lf.write(json.dumps([st, log, mu]) + "\n"); lf.flush()
            if st == "SURVIVED": print("SURVIVED %s:%d %s %s\n   - %s\n   + %s" % (mu[0], mu[1] + 1, mu[2], log, mu[3].strip(), mu[4].strip()), flush=True)
    print(cnt, flush=True)
