"""usage: stage2.py S1.jsonl OUT.jsonl [workers]   runs the checks against the changes that passed the tests (follows S1 as it grows)"""
import json, os, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
S1, OUT = sys.argv[1:3]
N = int(sys.argv[3]) if len(sys.argv) > 3 else 2
PLAN = [("dealer.go", "C09 C07 C06 C04 C05 C08"), ("broker.go", "C03 C02 C01"), ("session.go", "C15"),
        ("acceptor.go", "C30 C17 C18"), ("joiner.go", "C20 C30"), ("idgen.go", "C13"), ("types.go", "C27 C19 C09"), ("internal/", "C15"),
        ("auth/iso", "C27"), ("auth/", "C18 C20 C27 C17"), ("messages/", "C30 C22 C21 C09"), ("serializers/payload", "C23 C30 C09"), ("serializers/", "C30 C22 C23"),
        ("transports/", "C24 C25"), ("util/", "C26 C22")]
CONC = {"dealer.go": "C12", "broker.go": "C12", "session.go": "C14"}
dirs = []
for i in range(N):
    d = "/tmp/mutc%d" % i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run("cp -a /repo repo && cp -r /verif/check /verif/mc /verif/KNOWN_FINDINGS.txt . && grep -rl '/repo' mc check --include=go.mod --include='*.go' --include=check | xargs sed -i 's#/repo\\b#%s/repo#g'" % d, shell=True, cwd=d, check=True)
    dirs.append(d)
lock = threading.Lock()
done = set()
if os.path.exists(OUT):
    done = {(m["file"], m["start"], m["end"], m["new"]) for m in map(json.loads, open(OUT))}
out = open(OUT, "a")
env = dict(os.environ, GOMAXPROCS=str(max(2, 8 // N)))
def one(m):
    with lock:
        d = dirs.pop()
    try:
        p = d + "/repo/" + m["file"]
        src = open(p, "rb").read()
        open(p, "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
        plan = next(v for k, v in PLAN if m["file"].startswith(k)).split()
        if "Lock" in m["old"]:
            plan = [CONC.get(m["file"], plan[0])] + plan
        m["by"], t0 = "", time.time()
        m["other"] = []
        e = dict(env, VERIF_ROOT=d, VERIF_WORK=d + "/work", VERIF_TIER="quick")
        shutil.rmtree(d + "/work", ignore_errors=True); os.makedirs(d + "/work")
        b = subprocess.run(". /opt/vp/env.sh; cd mc && go build -o ../work/mc .", shell=True, cwd=d, capture_output=True, text=True)
        if b.returncode: m["by"] = "build failed"; plan = []
        for c in plan:
            try:
                r = subprocess.run([d + "/work/mc", c], cwd=d, env=dict(e, PATH=os.environ["PATH"]), capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired:
                m["other"].append(c + " timeout"); continue
            if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                m["by"] = c
                m["msg"] = r.stdout[:160]
                break
            if r.returncode: m["other"].append("%s rc=%d %s" % (c, r.returncode, r.stdout[-200:]))
        m["t"] = round(time.time() - t0, 1)
        open(p, "wb").write(src)
    finally:
        with lock:
            dirs.append(d)
            out.write(json.dumps(m) + "\n"); out.flush()
with ThreadPoolExecutor(N) as ex:
    seen, fs = 0, []
    idle = 0
    while idle < 30:
        L = open(S1).read().splitlines()
        new = L[seen:]
        seen = len(L)
        idle = 0 if new else idle + 1
        for l in new:
            try: m = json.loads(l)
            except ValueError: continue
            if m["res"] == "pass" and m["op"] != "swap" and (m["file"], m["start"], m["end"], m["new"]) not in done:
                fs.append(ex.submit(one, m))
        time.sleep(10)
    for f in fs: f.result()
for i in range(N):
    shutil.rmtree("/tmp/mutc%d" % i, ignore_errors=True)
