#!/usr/bin/env python3
"""Plant a bug: apply an edit to a scratch copy of /repo, confirm that it
builds, passes the stable tests and that the demonstration passes without and
fails with it, and keep it as /verif/seeded/<id>/.

usage: plant.py BUGFILE...   (each defines a list BUGS of dicts)
"""
import json, os, shutil, subprocess, sys, tempfile

SEED = os.environ.get("SEED", "/verif/seeded")
DEMO = """#!/bin/bash
# run with cwd = repository: exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
R0=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$R0"
%s
R=$?
find "$T" -delete
exit $R
"""
GOTEST = """printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(dir)s/zz_demo_test.go" "$D/demo_test.go" > "$T/o.json"
timeout 250 go test -vet=off -overlay "$T/o.json" -count=1 -run '^TestDemo' ./%(dir)s"""

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

def plant(b):
    bid = b["id"]
    W = tempfile.mkdtemp(prefix="plant.")
    repo = W + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        out = SEED + "/" + bid
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for f, old, new in b["edits"]:
            p = repo + "/" + f
            s = open(p).read()
            n = s.count(old)
            if n != b.get("count", 1):
                print(bid, "FAILED: edit matches", n, "times in", f); return False
            open(p, "w").write(s.replace(old, new))
        d = run("git diff", repo).stdout
        open(out + "/patch.diff", "w").write(d)
        if "demo" in b:
            open(out + "/demo_test.go", "w").write(b["demo"].lstrip())
            script = GOTEST % {"dir": b["dir"]}
        else:
            script = b["script"]
        for name, text in b.get("files", {}).items():
            open(out + "/" + name, "w").write(text)
        open(out + "/demo.sh", "w").write(DEMO % script)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        # unchanged
        r0 = run(out + "/demo.sh", "/repo")
        build = run("git apply --check %s/patch.diff" % out, "/repo")
        bl = run("R0=$PWD; . /opt/vp/env.sh; cd $R0; (ls xdr.y >/dev/null && go run golang.org/x/tools/cmd/goyacc -version >/dev/null 2>&1; true); go build ./... ", repo)
        if any(f == "xdr.y" for f, _, _ in b["edits"]):
            bl = run("cat /opt/vp/build.sh | sed 's#/repo#%s#g' > %s/b.sh; bash %s/b.sh" % (repo, W, W), repo)
        t = run("R0=$PWD; . /opt/vp/env.sh; cd $R0; go test ./xdr ./rfc1057 ./rfc1813", repo)
        r1 = run(out + "/demo.sh", repo)
        ok = r0.returncode == 0 and build.returncode == 0 and bl.returncode == 0 and t.returncode == 0 and r1.returncode != 0
        print(bid, "ok" if ok else "FAILED", "demo0=%d apply=%d build=%d tests=%d demo1=%d" % (r0.returncode, build.returncode, bl.returncode, t.returncode, r1.returncode))
        if not ok:
            for r in (r0, build, bl, t, r1):
                if r.returncode: print((r.stdout + r.stderr)[-600:])
        else:
            print("   ", [l for l in (r1.stdout + r1.stderr).split("\n") if l.strip()][:4])
        return ok
    finally:
        subprocess.call(["find", W, "-delete"])

for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for b in ns["BUGS"]:
        if not os.environ.get("ONLY") or b["id"] in os.environ["ONLY"].split():
            plant(b)
