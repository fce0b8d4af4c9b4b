"""usage: stage1.py MUTS.jsonl OUT.jsonl [workers]   keeps the changes that compile and pass the stable tests"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import threading
MUTS, OUT = sys.argv[1:3]
N = int(sys.argv[3]) if len(sys.argv) > 3 else 4
STABLE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = STABLE["stable"] if isinstance(STABLE, dict) and "stable" in STABLE else STABLE
done = set()
if os.path.exists(OUT):
    done = {(m["file"], m["start"], m["end"], m["new"]) for m in map(json.loads, open(OUT))}
todo = [m for m in map(json.loads, open(MUTS)) if (m["file"], m["start"], m["end"], m["new"]) not in done]
dirs = []
for i in range(N):
    d = "/tmp/mutw%d" % i
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    dirs.append(d)
lock = threading.Lock()
out = open(OUT, "a")
def one(m):
    with lock:
        d = dirs.pop()
    try:
        p = d + "/" + m["file"]
        src = open(p, "rb").read()
        try:
            open(p, "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
            r = subprocess.run(". /opt/vp/env.sh; go build ./... 2>&1", shell=True, cwd=d, capture_output=True, text=True)
            if r.returncode:
                m["res"] = "build"
            else:
                pk = "./..."
                try:
                    r = subprocess.run(". /opt/vp/env.sh; timeout 60 go test -vet=off -timeout 50s $(go list -e ./... | grep -v /tests/) 2>&1", shell=True, cwd=d, capture_output=True, text=True, timeout=100)
                    m["res"] = "pass" if r.returncode == 0 else "fail"
                except subprocess.TimeoutExpired:
                    m["res"] = "fail"
        finally:
            open(p, "wb").write(src)
    finally:
        with lock:
            dirs.append(d)
            out.write(json.dumps(m) + "\n"); out.flush()
with ThreadPoolExecutor(N) as ex:
    list(ex.map(one, todo))
for i in range(N):
    shutil.rmtree("/tmp/mutw%d" % i, ignore_errors=True)
