#!/usr/bin/env python3
"""against.py REPO ID [ID...]: run the checks of properties against another copy of
the repository (for people; quick case counts; exit 1 when one fails)."""
import os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from registry import CHECKS

def run(repo, ids, seed=1, cases=None, quiet=True):
    """-> {id: 'pass' | 'fail: ...'}"""
    tmp = tempfile.mkdtemp(prefix="against-")
    out = {}
    try:
        s = open(V + "/pbt/go.mod").read().replace("=> /repo", "=> " + repo)
        open(tmp + "/go.mod", "w").write(s)
        shutil.copy(V + "/pbt/go.sum", tmp + "/go.sum")
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
        if cases: env["VERIF_CASES"] = str(cases)
        for i in ids:
            c = CHECKS[i]
            b = tmp + "/t.test"
            cmd = ["go", "test", "-modfile", tmp + "/go.mod", "-vet=off", "-c", "-o", b] + (["-race"] if c.get("race") else []) + ["./" + c["pkg"]]
            p = subprocess.run(cmd, cwd=V + "/pbt", env=env, capture_output=True, text=True)
            if p.returncode:
                out[i] = "BUILD: " + (p.stdout + p.stderr)[-500:]
                continue
            os.makedirs(tmp + "/w", exist_ok=True)
            e2 = {"PATH": os.environ["PATH"], "HOME": tmp, "GORACE": "halt_on_error=1 exitcode=66", **({"VERIF_CASES": str(cases)} if cases else {})}
            p = subprocess.run([b, "-test.run", "^Test%s(_|$)" % i, "-test.timeout=600s", "-rapid.seed=%d" % seed, "-rapid.shrinktime=3s"],
                               cwd=tmp + "/w", env=e2, capture_output=True, text=True, errors="replace")
            t = p.stdout + p.stderr
            if p.returncode == 0:
                out[i] = "pass"
            else:
                m = re.search(r"^.*(failed after|panic after|DATA RACE|VERIF-HANG|fatal error|^panic:|--- FAIL).*$", t, re.M)
                out[i] = "fail: " + (m.group(0).strip()[:220] if m else t[-300:])
                if not quiet: print(t[-6000:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out

if __name__ == "__main__":
    r = run(os.path.abspath(sys.argv[1]), sys.argv[2:], quiet=False)
    for k, v in r.items(): print(k, v)
    sys.exit(any(v != "pass" for v in r.values()))
