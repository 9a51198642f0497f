#!/usr/bin/env python3
"""Generate /verif/seeded/<id>/ from tools/seeds.py (edits against /repo HEAD). usage: mkseeds.py [id...]"""
import os, subprocess, sys, json, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
MOD = "github.com/tdex-network/tdex-daemon/"
DEMO = '''#!/bin/bash
# runs demo_test.go inside %(pkg)s (overlay; nothing is written in /repo)
D="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOTELEMETRY=off CGO_ENABLED=1 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
O="$(mktemp)"
echo '{"Replace":{"/repo/%(pkg)s/zz_demo_test.go":"'"$D"'/demo_test.go"}}' > "$O"
cd /repo && timeout 280 go test -overlay "$O" -vet=off -count=1 -run '^TestDemo$' %(imp)s
'''
only = sys.argv[1:]
def S(id, prop, file, edits, needs, breaks, test, pkg=None, more=None):
    if only and id not in only: return
    pkg = pkg or os.path.dirname(file)
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    for f, ed in [(file, edits)] + (more or []):
        p = os.path.join(W, f); s = open(p).read()
        for a, b in ed:
            assert s.count(a) == 1, (id, f, s.count(a), a)
            s = s.replace(a, b)
        open(p, "w").write(s)
    d = os.path.join(ROOT, "seeded", id); os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", W, "diff"]).decode()
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO % {"pkg": pkg, "imp": MOD + pkg}); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go", "w").write(test.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    print(id)
R = os.environ.get("REPO", "/repo")
head = subprocess.check_output(["git", "-C", R, "rev-parse", "HEAD"]).decode().strip()
if not os.path.isdir(W):
    subprocess.check_call(["git", "clone", "-q", R, W])
subprocess.check_call(["git", "-C", W, "fetch", "-q", R]); subprocess.check_call(["git", "-C", W, "checkout", "-q", "-f", head])
exec(open(os.path.join(ROOT, "tools", "seeds.py")).read())
