#!/usr/bin/env python3
"""campaign.py OUT [FILE...]: a mutation campaign (for people).  Every simple change of the given files of
/repo (all non-test sources by default) is made in a scratch copy; of those which compile and pass the stable
tests, it records which checks report it.  The survivors are for reading: most change nothing observable."""
import json, os, random, re, shutil, subprocess, sys, tempfile, queue, threading, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, V + "/tools")
from registry import CHECKS
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod")
MAP = {
 "app.go": "appx web router conf reqx paramsx", "app_util.go": "conf utilx", "context.go": "appx router web injectx reqx", "default.go": "appx web",
 "recovery.go": "web logx", "response.go": "web gz", "router.go": "router web", "router_action.go": "router web", "router_action_out.go": "web router",
 "router_filter.go": "router", "router_method.go": "router", "router_util.go": "router", "log.go": "logx reqx web",
 "caches/caches.go": "kv sess", "caches/provider_memcache.go": "kv kvc sess", "caches/provider_mgo.go": "kv kvc sess", "caches/provider_redis.go": "kv kvc sess",
 "config.go": "conf", "config/config.go": "conf", "config/config_parse.go": "conf", "gzip/gzip.go": "gz",
 "inject/inject.go": "injectx router", "inject/inject_provider.go": "injectx router",
 "params/binder.go": "paramsx", "params/params.go": "paramsx", "params/real.go": "paramsx",
 "request-logger/logger.go": "reqx appx", "request-logger/reqid.go": "reqx", "static-serve/static.go": "stat",
 "utils/apires/error.go": "web", "utils/apires/raw.go": "web", "utils/apires/res.go": "web", "utils/context.go": "utilx reqx", "utils/converter.go": "utilx conf",
 "utils/converter_value_to.go": "utilx sess", "utils/rand.go": "utilx", "utils/worker.go": "workx",
 "utils/helpers/config.go": "conf", "utils/helpers/filters.go": "appx web router paramsx", "utils/helpers/log.go": "appx reqx logx", "utils/helpers/providers.go": "appx paramsx web",
}
SKIP = set(os.environ.get("SKIP", "args drop-if").split())
def files():
    for f in subprocess.run(["git", "-C", "/repo", "ls-files", "*.go"], capture_output=True, text=True).stdout.split():
        if not f.endswith("_test.go") and f != "assert.go": yield f
def pkgs(f):
    if f.startswith("sessions/"): return ["sess"]
    return MAP[f].split()
def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **k)

def worker(q, out, lock, gen):
    t = tempfile.mkdtemp(prefix="mut-")
    repo = t + "/r"
    sh(["cp", "-a", "/repo", repo])
    open(t + "/go.mod", "w").write(open(gen + "/pbt/go.mod").read().replace("=> /repo", "=> " + repo))
    shutil.copy(gen + "/pbt/go.sum", t + "/go.sum")
    os.makedirs(t + "/w")
    plist = [p for p in sh(["go", "list", "./..."], cwd=repo, env=ENV).stdout.split() if not re.search("/strip/(caches|sessions)$", p)]
    while True:
        try: f, m = q.get_nowait()
        except queue.Empty: break
        src = open("/repo/" + f, "rb").read()
        new = src[:m["from"]] + m["text"].encode() + src[m["to"]:]
        open(repo + "/" + f, "wb").write(new)
        r = None
        try:
            p = sh(["go", "build", "./..."], cwd=repo, env=ENV)
            if p.returncode: r = "build"
            else:
                try:
                    p = sh(["go", "test", "-json", "-vet=off", "-timeout", "20s"] + plist, cwd=repo, env=ENV, timeout=60)
                    ok = set()
                    for l in p.stdout.splitlines():
                        try: d = json.loads(l)
                        except ValueError: continue
                        if d.get("Action") == "pass" and d.get("Test"): ok.add(d["Package"] + "/" + d["Test"])
                    if STABLE - ok: r = "tests"
                except subprocess.TimeoutExpired: r = "tests"
            if r is None:
                full = pkgs(f)
                for pk, cases in [(pk, "700") for pk in full] + ([] if os.environ.get("FAST") else [(pk, None) for pk in full]):
                    race = any(c.get("race") for c in CHECKS.values() if c["pkg"] == pk)
                    b = t + "/t.test"
                    p = sh(["go", "test", "-modfile", t + "/go.mod", "-vet=off", "-c", "-o", b] + (["-race"] if race else []) + ["./" + pk], cwd=gen + "/pbt", env=ENV)
                    if p.returncode: r = "CHECK BUILD " + p.stdout[-300:]; break
                    try:
                        p = sh([b, "-test.failfast", "-test.timeout=200s", "-rapid.seed=1", "-rapid.shrinktime=1s"], cwd=t + "/w", timeout=300,
                               env={"PATH": os.environ["PATH"], "HOME": t, "TMPDIR": t + "/w", "GORACE": "halt_on_error=1 exitcode=66", "VERIF_TIER": "quick", **({"VERIF_CASES": cases} if cases else {})})
                        if p.returncode:
                            x = re.search(r"--- FAIL: Test(\w+)", p.stdout + p.stderr)
                            r = "caught " + (x.group(1) if x else pk + " rc %s " % p.returncode + (p.stdout + p.stderr)[:100])
                    except subprocess.TimeoutExpired: r = "caught timeout " + pk
                    shutil.rmtree(t + "/w", ignore_errors=True); os.makedirs(t + "/w", exist_ok=True)
                    if r: break
            if r is None: r = "SURVIVED"
        finally:
            open(repo + "/" + f, "wb").write(src)
        with lock:
            m = dict(m, file=f, result=r, source=src.split(b"\n")[m["line"] - 1].decode(errors="replace").strip())
            out.write(json.dumps(m) + "\n"); out.flush()
    shutil.rmtree(t, ignore_errors=True)

def main():
    n = int(os.environ.get("WORKERS", "6"))
    q = queue.Queue()
    todo = []
    done = set()
    if os.path.exists(sys.argv[1]):
        for l in open(sys.argv[1]):
            d = json.loads(l); done.add((d["file"], d["from"], d["to"], d["text"]))
    tool = tempfile.mkdtemp(prefix="mutool-")
    sh(["go", "build", "-o", tool + "/mutate", V + "/tools/mutate/main.go"], env=dict(ENV, GO111MODULE="off"))
    gen = tool + "/verif"
    shutil.copytree(V + "/pbt", gen + "/pbt")
    for f in sys.argv[2:] or files():
        for l in sh([tool + "/mutate", "/repo/" + f]).stdout.splitlines():
            m = json.loads(l)
            if m["kind"] in SKIP: continue
            if (f, m["from"], m["to"], m["text"]) not in done: todo.append((f, m))
    random.Random(7).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    for x in todo: q.put(x)
    lock = threading.Lock()
    with open(sys.argv[1], "a") as out:
        ts = [threading.Thread(target=worker, args=(q, out, lock, gen)) for _ in range(n)]
        [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(tool, ignore_errors=True)
main()
