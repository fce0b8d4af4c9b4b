#!/usr/bin/env python3
"""Builds and verifies planted bugs: mkseed.py [id...]   (definitions: tools/seeds/*.py)

For each definition it works in a scratch copy of /repo: the demonstration must pass before, and fail after the
change; the change must compile, pass the stable tests and touch original lines only. Only then it is written to
/verif/seeded/<id>/."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
BASE = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.strip()

def seed(id, prop, edits, demo, needs, breaks, pkg=".", race=False):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, pkg=pkg, race=race))

HEAD = open(os.path.join(ROOT, "tools", "demo_head.go.txt")).read()
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it does not
D="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\":{\\"$PWD/zz_seeded_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/overlay.json"
go test %s-overlay "$T/overlay.json" -run '^TestSeededDemo$' -count=1 -timeout 120s .
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, **kw)

def build_one(s):
    W = tempfile.mkdtemp(prefix="mkseed.", dir="/tmp")
    try:
        sh("git clone -q /repo r", W)
        R = W + "/r"
        D = W + "/d"
        os.mkdir(D)
        files = HEAD.split("//IMPORTS//")
        body = s["demo"].strip("\n")
        m = re.match(r"(?:import[^\n]*\n)+", body)
        open(D + "/demo_test.go", "w").write(mk_demo(body))
        open(D + "/demo.sh", "w").write(DEMO_SH % ("-race " if s["race"] else ""))
        os.chmod(D + "/demo.sh", 0o755)
        env = dict(os.environ)
        r = sh(D + "/demo.sh", R)
        if r.returncode:
            return "demo fails on the unchanged tree:\n" + r.stdout[-3000:] + r.stderr[-2000:]
        for f, old, new in s["edits"]:
            t = open(R + "/" + f).read()
            if t.count(old) != 1:
                return "edit of %s: %d matches of %r" % (f, t.count(old), old)
            open(R + "/" + f, "w").write(t.replace(old, new))
        g = sh(". /opt/vp/env.sh; gofmt -l .", R).stdout
        if g.strip():
            return "gofmt: " + g
        diff = sh("git diff", R).stdout
        # removed lines must be original ones
        orig = False
        for f in set(e[0] for e in s["edits"]):
            d0 = sh("git diff -U0 " + f, R).stdout
            for mm in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d0, re.M):
                a, n = int(mm[1]), int(mm[2] or 1)
                if n == 0:
                    continue
                for l in sh("git blame -l -s -L %d,%d HEAD -- %s" % (a, a + n - 1, f), R).stdout.splitlines():
                    if not l.lstrip("^").startswith(BASE[:38]):
                        return "touches a line that is not original: " + l
                    orig = True
        if not orig:
            return "changes no original line"
        r = sh(". /opt/vp/env.sh; go build ./... && go vet . ./auth ./messages ./serializers ./transports ./util ./internal && go test -vet=off -count=1 -json $(go list -e ./... | grep -v /tests/interop/)", R)
        res = {}
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Test") and e.get("Action") in ("pass", "fail"): res[e["Package"] + "/" + e["Test"]] = e["Action"]
        bad = [x for x in STABLE if res.get(x) != "pass"]
        if bad:
            return "stable tests fail: %s\n" % bad[:4] + ("" if res else r.stdout[-1500:] + r.stderr[-1500:])
        r = sh(D + "/demo.sh", R)
        if r.returncode == 0:
            return "demo passes with the change"
        if "build failed" in r.stdout or "setup failed" in r.stdout:
            return "demo does not build:\n" + r.stdout
        out = [l.strip() for l in r.stdout.splitlines() if "demo_test.go" in l or "panic:" in l or "DATA RACE" in l][:2]
        dst = ROOT + "/seeded/" + s["id"]
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(D, dst)
        open(dst + "/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        return "ok: " + " | ".join(out)
    finally:
        shutil.rmtree(W, ignore_errors=True)

def mk_demo(body):
    # the demonstration's own imports go first
    m = re.match(r"\s*((?:import (?:\"[^\n]*\n|\([^)]*\)\s))*)", body)
    head = HEAD.replace("\nimport (", "\n" + m[1] + "\nimport (", 1)
    return head + "\n" + body[m.end():] + "\n"

if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    for f in sorted(glob.glob(ROOT + "/tools/seeds/*.py")):
        exec(open(f).read())
    ids = sys.argv[1:]
    todo = [s for s in SEEDS if (not ids and not os.path.exists(ROOT + "/seeded/" + s["id"])) or s["id"] in ids]
    with ThreadPoolExecutor(6) as ex:
        for s, r in zip(todo, ex.map(build_one, todo)):
            print(s["id"], r, flush=True)
