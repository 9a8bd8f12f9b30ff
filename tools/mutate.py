#!/usr/bin/env python3
"""Development aid: random one-line mutants of the library, each run through the checks which should notice it.
tools/mutate.py BASE SEED COUNT [FILE-REGEX]; results appended to /tmp/mut.jsonl"""
import sys, re, os, random, subprocess, shutil, json, time
base, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); rx = sys.argv[4] if len(sys.argv) > 4 else "."
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
 (r"clustering/tree_builder/(splitting|direction)|misc/evp", ["C02", "C01"]), (r"clustering/tree_builder/recursive", ["C01", "C02", "C15"]), (r"clustering/cluster_node", ["C01", "C17", "C16", "C14"]), (r"clustering/cluster_output", ["C16"]),
 (r"basic_types/vector", ["C16"]), (r"basic_types/tree", ["C01", "C03", "C18", "C14"]),
 (r"hmatrix/tree_builder", ["C03", "C04", "C15", "C18"]), (r"hmatrix/hmatrix_output|hmatrix_distributed", ["C18", "C13"]), (r"hmatrix/hmatrix_tree_data", ["C15", "C18"]),
 (r"hmatrix/hmatrix\.hpp", ["C03", "C17", "C14", "C18", "C06", "C07"]), (r"hmatrix/interfaces", ["C04", "C17", "C03"]),
 (r"lrmat/(SVD|fullACA|partialACA|sympartialACA)", ["C05", "C04"]), (r"SVD_truncation", ["C05", "C10"]), (r"lrmat/lrmat", ["C10", "C14", "C05"]), (r"lrmat/utils", ["C10"]), (r"lrmat/linalg", ["C10", "C07", "C06"]),
 (r"hmatrix/linalg/(add_hmatrix_(vector|matrix)_product)", ["C06", "C07"]), (r"hmatrix/linalg/(scale|add_lrmat_hmatrix\.)", ["C07"]), (r"hmatrix/linalg/add_", ["C07"]), (r"hmatrix/linalg/(tri|fact)", ["C08"]),
 (r"matrix/matrix\.hpp", ["C09", "C14", "C16"]), (r"matrix/linalg", ["C09"]), (r"matrix/utils", ["C10", "C05"]), (r"wrapper_(blas|lapack)", ["C09", "C10"]), (r"wrapper_mpi", ["C11"]),
 (r"distributed_operator/", ["C11", "C13"]), (r"local_operators/", ["C11"]), (r"geneo/coarse_op", ["C13"]), (r"solvers/(ddm|utility)|wrapper_hpddm", ["C19"]), (r"local_solvers/", ["C20", "C19"]), (r"geneo/coarse_space", ["C21"]), (r"misc/(misc|user|logger)", ["C09", "C18"]),
]
inc = base + "/include/htool"
files = []
for d, _, fs in os.walk(inc):
    for f in fs:
        rel = os.path.relpath(os.path.join(d, f), inc)
        m = next((c for r, c in MAP if re.search(r, rel)), None)
        if m and re.search(rx, rel): files.append((rel, m))
files.sort()
OPS = [(r"(?<![+eE])\+(?![+=])", "-"), (r"(?<![-eE(,= <])-(?![-=>])", "+"), (r"\+=", "="), (r"-=", "+="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" > ", " < "), (r" < ", " > "), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
 (r"(?<![\w.\[<])0(?![\w.x])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"), (r"'N'", "'T'"), (r"'T'", "'N'"), (r"'C'", "'T'"), (r"'T'", "'C'"), (r"'L'", "'U'"), (r"'U'", "'L'"), (r"'S'", "'H'"), (r"'H'", "'S'"),
 (r"nb_rows", "nb_cols"), (r"nb_cols", "nb_rows"), (r"get_target_cluster", "get_source_cluster"), (r"get_source_cluster", "get_target_cluster"), (r"target_", "source_"), (r"source_", "target_"), (r"get_offset", "get_size"), (r"std::max\(", "std::min("), (r"std::min\(", "std::max("), (r"conj\(", "("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"CoefficientPrecision\(1\)", "CoefficientPrecision(0)"), (r"CoefficientPrecision\(-1\)", "CoefficientPrecision(1)"), (r"alpha", "beta"), (r"beta", "alpha"), (r"transa", "transb"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\* ", "+ "), (r"__DEL__", "")]
rnd = random.Random(seed)
def candidates(rel):
    L = open(os.path.join(inc, rel)).read().split("\n"); out = []; comment = False
    for n, l in enumerate(L):
        s = l.strip()
        if s.startswith("/*"): comment = True
        if comment:
            if "*/" in s: comment = False
            continue
        if not s or "infos[" in s or s.startswith("//") or s.startswith("#") or s.startswith("template") or "Logger" in s or "std::cout" in s or s.startswith("namespace") or s.startswith("typedef") or s.startswith("class ") or s.startswith("using "): continue
        code = l.split("//")[0]
        for i, (r, t) in enumerate(OPS):
            if r == "__DEL__":
                if re.match(r"^\s+[\w\.\->\[\]\(\)\*:]+(\(.*\)|\s*[-+*]?=\s.*);\s*$", code) and not re.match(r"\s*(return|const|int|auto|std::vector|Matrix|bool|char|double|public|break)", code): out.append((n, i, None))
                continue
            for m in re.finditer(r, code): out.append((n, i, m.span()))
    return L, out
pool = []
for rel, m in files:
    L, c = candidates(rel)
    lines = sorted(set(x[0] for x in c))
    for n in lines: pool.append((rel, m, n))
rnd.shuffle(pool)
done = set(); k = 0
wd = "/tmp/mut%d" % seed
for rel, checks, n in pool:
    if k >= count: break
    L, c = candidates(rel); c = [x for x in c if x[0] == n]; _, i, span = rnd.choice(c); r, t = OPS[i]
    old = L[n]; new = "" if span is None else old[:span[0]] + re.sub(r, t, old[span[0]:span[1]]) + old[span[1]:]
    if new == old: continue
    shutil.rmtree(wd, True); shutil.copytree(base + "/include", wd + "/include")
    L[n] = new; open(os.path.join(wd, "include/htool", rel), "w").write("\n".join(L))
    env = dict(os.environ, VERIF_REPO=wd, VERIF_FAST="1", VERIF_TAG="-m%d" % seed); env.setdefault("VERIF_TYPES", r"double|std::complex<float>")
    res = "MISSED"; t0 = time.time(); by = ""
    for ck in checks:
        p = subprocess.run(["timeout", "800", "python3", V + "/bin/check.py", ck], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if "compilation failed" in p.stdout or "link failed" in p.stdout: res = "invalid"; break
        if p.returncode == 1 and "VIOLATION" in p.stdout: res = "caught"; by = ck; break
        if p.returncode not in (0, 1): res = "ERROR " + p.stdout[-300:]; by = ck; break
    k += res != "invalid"
    rec = dict(file=rel, line=n + 1, old=old.strip(), new=new.strip(), res=res, by=by, checks=checks, t=round(time.time() - t0))
    open("/tmp/mut.jsonl", "a").write(json.dumps(rec) + "\n")
    print("%-7s %s:%d [%s] %ds\n    - %s\n    + %s" % (res, rel, n + 1, by, rec["t"], rec["old"][:200], rec["new"][:200]), flush=True)
shutil.rmtree(wd, True)
