#!/usr/bin/env python3
"""Development aid: plant a bug. usage: seed.py SPECFILE [ids...]
SPECFILE defines S = [dict(id, property, file, edits=[(old,new)] or [(file,old,new)], pkg, test, needs, breaks)].
For each: applies the edits in a scratch copy, builds, runs the stable tests, runs the demonstration with and
without the change, and writes /verif/seeded/<id>/ when everything is as required. Then runs the checks on it."""
import sys, subprocess, os, shutil, json, tempfile
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
ENV = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:/usr/bin:/bin", GOROOT="/opt/veriftools/go1.23.12", GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GO111MODULE="on", HOME="/root")
for k in ("KUBECONFIG", "KUBERNETES_SERVICE_HOST"): ENV.pop(k, None)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
DEMO = r'''#!/bin/bash
# Runs one added in-package test through an overlay; nothing is written to the repository.
here=$(cd "$(dirname "$0")" && pwd)
for g in /opt/veriftools/go1.23.12 /usr/local/go; do
  if [ -x $g/bin/go ]; then export PATH=$g/bin:$PATH GOROOT=$g; break; fi
done
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on
unset KUBECONFIG KUBERNETES_SERVICE_HOST KUBERNETES_SERVICE_PORT CLUSTER_ROOT
tmp=$(mktemp -d) || exit 2
trap 'rm -r "$tmp"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_seed_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test %(flags)s -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestSeedDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, capture_output=True, text=True, **kw)
def one(s):
    d = tempfile.mkdtemp(prefix="seed-"); repo = d + "/repo"; out = []
    try:
        subprocess.run(["cp", "-a", "/repo", repo])
        sd = d + "/s"; os.makedirs(sd)
        open(sd + "/demo_test.go.txt", "w").write(s["test"])
        open(sd + "/demo.sh", "w").write(DEMO % dict(pkg=s["pkg"], flags=s.get("flags", "")))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(sd + "/meta.json", "w"), indent=1)
        r = sh("bash %s/demo.sh" % sd, repo)
        if r.returncode != 0: return s["id"], "DEMO FAILS ON CLEAN TREE\n" + (r.stdout + r.stderr)[-2500:]
        for e in s["edits"]:
            f, o, n = e if len(e) == 3 else (s["file"],) + tuple(e)
            t = open(repo + "/" + f).read()
            if t.count(o) < 1: return s["id"], "NOT APPLICABLE: " + o
            open(repo + "/" + f, "w").write(t.replace(o, n, 1))
        sh("gofmt -l adapter", repo)
        b = sh("go build ./... && go vet ./%s" % s["pkg"], repo)
        if b.returncode != 0: out.append("BUILD/VET: " + b.stderr[-800:])
        open(sd + "/patch.diff", "w").write(sh("git diff", repo).stdout)
        m = "github.com/ibm-cloud-security/app-identity-and-access-adapter"
        sh("go test -json -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -vxE '%s/adapter|%s/tests/integration/(jwt|oidc)') > %s/t.json" % (m, m, d), repo)
        sh("python3 /opt/vp/results.py %s/res.json gojson:%s/t.json" % (d, d), repo)
        res = json.load(open(d + "/res.json"))
        passed = set(res["passed"])
        bad = [x for x in base if x not in passed]
        if bad: out.append("TESTS FAIL: " + str(bad[:5]))
        r = sh("bash %s/demo.sh" % sd, repo)
        if r.returncode == 0: out.append("DEMO PASSES WITH THE BUG")
        elif "--- FAIL" not in r.stdout: out.append("DEMO FAILS ODDLY " + (r.stdout + r.stderr)[-600:])
        if not out:
            dst = "/verif/seeded/" + s["id"]
            os.makedirs(dst, exist_ok=True)
            for f in os.listdir(sd): shutil.copy(sd + "/" + f, dst + "/" + f)
            os.chmod(dst + "/demo.sh", 0o755)
            out.append("PLANTED")
        v = d + "/v"; os.makedirs(v); shutil.copy("/verif/known_findings.txt", v)
        a = subprocess.run(["/verif/bin/analyzer", "-property", "all", "-repo", repo, "-verif", v], capture_output=True, text=True)
        viol = [l.split()[1].split("=")[1] for l in a.stdout.splitlines() if l.startswith("VIOLATION")]
        rules = sorted(set(l.split()[1] for l in a.stdout.splitlines() if l.startswith("rule ")))
        out.append("%s checks: %s  rules: %s" % ("CAUGHT" if s["property"] in viol else "** MISSED **", ",".join(viol), ",".join(rules)))
        return s["id"], " | ".join(out)
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, [s for s in ns["S"] if not only or s["id"] in only]): print(*r, flush=True)
