#!/usr/bin/env python3
"""Makes a planted bug from a spec file (python: dict S): writes /verif/seeded/<id>/ and checks the demo on both trees."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
for spec in sys.argv[1:]:
    ns = {}; exec(open(spec).read(), ns)
    for S in ns["SEEDS"]:
        out = os.path.join(root, "seeded", S["id"]); os.makedirs(out, exist_ok=True)
        w = tempfile.mkdtemp(prefix="seed_"); a, b = w + "/a", w + "/b"
        for x in (a, b): os.makedirs(x); shutil.copytree(os.environ.get("VERIF_REPO", "/repo") + "/include", x + "/include")
        for f, old, new in S["edits"]:
            p = b + "/include/htool/" + f; t = open(p).read()
            n = S.get("count", 1)
            assert t.count(old) == n, (S["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        d = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, capture_output=True, text=True).stdout
        open(out + "/patch.diff", "w").write(d.replace(" a/a/", " a/").replace(" b/b/", " b/"))
        L = []
        for l in d.split("\n"):
            if l.startswith("diff --git"): q = l.split(); l = "diff --git a/" + q[2][2:] + " b/" + q[3][2:]
            elif l.startswith("--- a/") : l = "--- a/" + l[6:]
            elif l.startswith("+++ b/"): l = "+++ b/" + l[6:]
            L.append(l)
        open(out + "/patch.diff", "w").write("\n".join(L))
        hdr = open(here + "/seedlib/demo.hpp").read()
        open(out + "/demo.cpp", "w").write(S.get("pre", "") + hdr + S["demo"].strip() + "\n")
        shutil.copy(here + "/seedlib/demo.sh", out + "/demo.sh"); os.chmod(out + "/demo.sh", 0o755)
        if "run" in S: open(out + "/demo.sh", "w").write(open(here + "/seedlib/demo.sh").read().replace("./demo;", S["run"] + ";"))
        if S.get("hpddm"):  # the stand-in for HPDDM, on the real MPI
            h = open(root + "/engine/hpddm/HPDDM.hpp").read().replace('#include "../mpi_shim.hpp"\n', "").replace("mpimc::self()", "0")
            open(out + "/HPDDM.hpp", "w").write(h)
            d = open(out + "/demo.sh").read().replace("-I include ", '-I include -I "$d" '); open(out + "/demo.sh", "w").write(d)
        json.dump(dict(property=S["property"], needs=S["needs"], what_it_breaks=S["breaks"]), open(out + "/meta.json", "w"), indent=1)
        ok = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "apply", "--check", out + "/patch.diff"], capture_output=True, text=True)
        r = [subprocess.run([out + "/demo.sh"], cwd=x, capture_output=True, text=True) for x in (a, b)]
        good = ok.returncode == 0 and r[0].returncode == 0 and r[1].returncode not in (0, 2, 126, 127)
        print(S["id"], "OK" if good else "BAD", "apply", ok.returncode, ok.stderr[:300], "clean", r[0].returncode, "patched", r[1].returncode, r[1].stdout[-200:], (r[0].stdout + r[0].stderr)[-600:] if r[0].returncode else "", r[1].stderr[-300:] if r[1].returncode == 2 else "")
        shutil.rmtree(w)
