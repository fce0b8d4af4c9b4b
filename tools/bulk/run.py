"""usage: run.py FILE.py [-j N] [names]   applies each change of FILE to a copy of /repo, keeps those that compile and pass the stable
tests, and runs the listed checks until one reports a violation"""
import json, os, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
N = 2
args = sys.argv[1:]
if "-j" in args:
    i = args.index("-j"); N = int(args[i+1]); del args[i:i+2]
bugs = []
def bug(name, props, edits): bugs.append((name, props.split(), edits))
exec(open(args[0]).read())
if args[1:]: bugs = [b for b in bugs if b[0] in args[1:]]
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
dirs = []
for i in range(N):
    d = "/tmp/bulk%d" % i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run("cp -a /repo repo && cp -r /verif/check /verif/mc /verif/KNOWN_FINDINGS.txt . && grep -rl '/repo' mc check --include=go.mod --include='*.go' --include=check | xargs sed -i 's#/repo\\b#%s/repo#g'" % d, shell=True, cwd=d, check=True)
    dirs.append(d)
lock = threading.Lock()
def one(b):
    name, props, edits = b
    with lock: d = dirs.pop()
    try:
        for f, old, new in edits:
            s = open(d + "/repo/" + f).read()
            if not old: return "skip"
            if s.count(old) < 1: return "NO MATCH in %s: %r" % (f, old[:60])
            open(d + "/repo/" + f, "w").write(s.replace(old, new, 1))
        r = subprocess.run(". /opt/vp/env.sh; cd repo && go build ./... && go test -vet=off $(go list -e ./... | grep -v /tests) 2>&1 | grep -v '^ok\\|no test files'", shell=True, cwd=d, capture_output=True, text=True)
        if r.stderr.strip(): return "build: " + r.stderr[:300]
        if r.stdout.strip(): return "tests fail: " + r.stdout[:200]
        shutil.rmtree(d + "/work", ignore_errors=True); os.makedirs(d + "/work")
        r = subprocess.run(". /opt/vp/env.sh; cd mc && go build -o ../work/mc .", shell=True, cwd=d, capture_output=True, text=True)
        if r.returncode: return "mc build: " + r.stderr[:300]
        res = []
        for c in props:
            try:
                r = subprocess.run([d + "/work/mc", c], cwd=d, env=dict(os.environ, VERIF_ROOT=d, VERIF_WORK=d + "/work", VERIF_TIER="quick"), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                res.append(c + " timeout"); continue
            if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                return " ".join(res) + " caught by %s: %s" % (c, r.stdout.splitlines()[0][:150])
            res.append("%s rc=%d" % (c, r.returncode))
        return "MISSED (" + " ".join(res) + ")"
    finally:
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."])
        with lock: dirs.append(d)
with ThreadPoolExecutor(N) as ex:
    fs = [(b, ex.submit(one, b)) for b in bugs]
    for b, f in fs: print("%-28s %s" % (b[0], f.result()), flush=True)
for i in range(N): shutil.rmtree("/tmp/bulk%d" % i, ignore_errors=True)
