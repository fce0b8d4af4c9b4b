#!/usr/bin/env python3
"""Applies behaviour-preserving edits to scratch copies and runs checks, which have to stay quiet.
   refactor.py [id...]     (definitions: tools/refactors/*.py: refactor(id, "C01 C02", [(file, old, new)...]))"""
import glob, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = []
def refactor(id, props, edits): ALL.append((id, props.split(), edits))
for f in sorted(glob.glob(ROOT + "/tools/refactors/*.py")): exec(open(f).read())
def sh(c, cwd=None): return subprocess.run(["bash", "-c", c], cwd=cwd, capture_output=True, text=True)
W = tempfile.mkdtemp(prefix="refactor.", dir="/tmp")
try:
    sh(f"git clone -q /repo {W}/repo; cp -r {ROOT}/check {ROOT}/mc {ROOT}/KNOWN_FINDINGS.txt {ROOT}/properties.jsonl {W}/; "
       f"grep -rl /repo {W}/mc {W}/check --include=go.mod --include='*.go' --include=check | xargs sed -i 's#/repo\\b#{W}/repo#g'")
    for id, props, edits in ALL:
        if sys.argv[1:] and id not in sys.argv[1:]: continue
        err = ""
        for f, old, new in edits:
            p = f"{W}/repo/{f}"; t = open(p).read() if os.path.exists(p) else ""
            if old and t.count(old) != 1: err = f"{f}: {t.count(old)} matches of {old!r}"; break
            open(p, "w").write(t.replace(old, new) if old else new)
        r = sh(". /opt/vp/env.sh; go build ./... && go vet . && go test -count=1 . ./auth ./internal ./messages ./serializers ./transports ./util", W + "/repo") if not err else None
        if err or r.returncode: print(id, "INVALID", err or (r.stdout + r.stderr)[-1500:], flush=True)
        else:
            for p in os.environ.get("PROPS", "").split() or props:
                t0 = time.time(); r = sh(f"timeout 900 {W}/check {p}")
                print(id, p, "quiet" if r.returncode == 0 and "VIOLATION" not in r.stdout else "ALARM rc=%d\n%s" % (r.returncode, (r.stdout + r.stderr)[-2500:]),
                      "%.0fs" % (time.time() - t0), (r.stdout.strip().splitlines() or [""])[-1][:110], flush=True)
        sh("git checkout -q -- . && git clean -fdq", W + "/repo")
finally:
    shutil.rmtree(W)
