#!/usr/bin/env python3
"""confirm.py [ID...]: for every planted bug of /verif/seeded, confirm in scratch copies of /repo that the
demonstration passes on the unchanged tree and fails with the patch, that the stable tests pass with it,
that it changes lines of the original repository only, and which checks report it (for people)."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import against
BASE = "24cd03c"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, errors="replace", **k)

def original(repo, diff):
    """removed lines must all be of the base commit (blame), and there must be one."""
    own = sh("git", "-C", repo, "rev-list", BASE + "..HEAD").stdout.split()
    f, n, removed = None, 0, []
    for l in diff.splitlines():
        m = re.match(r"--- a/(.*)", l)
        if m: f = m.group(1); continue
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if l.startswith("-"): removed.append((f, n)); n += 1
        elif l.startswith(" "): n += 1
    bad = []
    for f, n in removed:
        h = sh("git", "-C", repo, "blame", "-l", "-L%d,%d" % (n, n), f).stdout.split()[0].lstrip("^")
        if any(o.startswith(h) or h.startswith(o) for o in own): bad.append((f, n))
    return len(removed), bad

def one(i, checks=True):
    d = os.path.join(V, "seeded", i)
    t = tempfile.mkdtemp(prefix="confirm-")
    r = {}
    try:
        meta = json.load(open(d + "/meta.json"))
        repo = t + "/r"
        sh("cp", "-a", "/repo", repo)
        os.makedirs(t + "/demo")
        for f in os.listdir(d):
            if f in ("meta.json",) or f.endswith((".diff", ".patch")): continue
            s = d + "/" + f
            shutil.copytree(s, t + "/demo/" + f) if os.path.isdir(s) else shutil.copy(s, t + "/demo/" + f)
        demo = lambda: sh("bash", t + "/demo/demo.sh", cwd=repo, env=ENV, timeout=280)
        p = demo()
        if p.returncode: r["demo-clean"] = p.stdout[-1500:] + p.stderr[-500:]
        diff = open(d + "/patch.diff").read()
        n, bad = original(repo, diff)
        if not n or bad: r["lines"] = "%d removed, not original: %s" % (n, bad)
        p = sh("git", "-C", repo, "apply", d + "/patch.diff")
        if p.returncode: r["apply"] = p.stderr; return i, meta, r
        p = sh("go", "build", "./...", cwd=repo, env=ENV)
        if p.returncode: r["build"] = p.stderr; return i, meta, r
        p = sh("gofmt", "-l", *re.findall(r"^\+\+\+ b/(.*)$", diff, re.M), cwd=repo)
        if set(p.stdout.split()) - set(sh("gofmt", "-l", ".", cwd="/repo").stdout.split()): r["gofmt"] = p.stdout
        pk = [x for x in sh("go", "list", "./...", cwd=repo, env=ENV).stdout.split() if not re.search(r"/strip/(caches|sessions)$", x)]
        out = sh("go", "test", "-json", "-vet=off", "-count=1", *pk, cwd=repo, env=ENV).stdout
        ok = set()
        for l in out.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
        if STABLE - ok: r["tests"] = sorted(STABLE - ok)[:5]
        p = demo()
        if p.returncode == 0: r["demo-bug"] = "passes with the patch"
        elif "FAIL" not in p.stdout: r["demo-bug?"] = p.stdout[-800:] + p.stderr[-300:]
        else: r["-demo"] = " ".join(re.findall(r"^\s+\S+_test.go:\d+: (.*)$", p.stdout, re.M))[:150]
        if checks:
            r["-check"] = against.run(repo, [meta["property"]])[meta["property"]]
            if not r["-check"].startswith("fail"): r["MISSED"] = meta["property"]
        return i, meta, r
    finally:
        shutil.rmtree(t, ignore_errors=True)

if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    with ThreadPoolExecutor(4) as ex:
        for i, m, r in ex.map(one, ids):
            bad = {k: v for k, v in r.items() if not k.startswith("-")}
            print("ok " if not bad else "BAD", i, m["property"], r.get("-check", "")[:120] if not bad else r, flush=True)
