#!/usr/bin/env python3
"""unfix.py [MATCH]: for every "fix:" commit of /repo, take it back in a scratch worktree and
see that the check of its property reports it again (for people)."""
import os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import against
fixed = {}
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fixed.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def one(c):
    d = tempfile.mkdtemp(prefix="unfix-")
    try:
        sh("git", "-C", "/repo", "worktree", "add", "--detach", d + "/r", "HEAD")
        p = sh("git", "-C", d + "/r", "revert", "--no-commit", c)
        if p.returncode: return c, "CONFLICT", p.stderr[-200:]
        if sh("go", "build", "./...", cwd=d + "/r").returncode: return c, "NOBUILD", ""
        r = against.run(d + "/r", sorted({i for i, _ in fixed[c] if i in against.CHECKS}))
        ok = all(v.startswith("fail") for v in r.values())
        return c, "ok" if ok else "MISSED", r
    finally:
        sh("git", "-C", "/repo", "worktree", "remove", "--force", d + "/r")
        shutil.rmtree(d, ignore_errors=True)
cs = [c for c in fixed if len(sys.argv) < 2 or any(sys.argv[1] in (i + t + c) for i, t in fixed[c])]
with ThreadPoolExecutor(4) as ex:
    for c, s, r in ex.map(one, cs):
        print(s, c, [t for _, t in fixed[c]], r if s != "ok" else {k: v[:100] for k, v in r.items()}, flush=True)
