#!/usr/bin/env python3
"""Development aid: apply textual mutations to a scratch copy of /repo and run the analyzer on it.
usage: mut.py FILE   where FILE holds python: M = [(file, old, new, "C01,C02"), ...]; R = same for behaviour-preserving edits."""
import sys, subprocess, shutil, os, tempfile
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
verbose = len(sys.argv) > 2
base = tempfile.mkdtemp(prefix="mut-")
def one(a):
    i, kind, (f, old, new, props) = a
    d = os.path.join(base, str(i)); v = os.path.join(base, "v%d" % i)
    subprocess.run(["cp", "-a", "/repo", d]); os.makedirs(v)
    shutil.copy("/verif/known_findings.txt", v)
    edits = [(f, old, new)] if isinstance(old, str) else [(e if len(e) == 3 else (f,) + tuple(e)) for e in old]
    for fn, o, n in edits:
        p = os.path.join(d, fn); s = open(p).read()
        if o not in s:
            return i, kind, "NOT-APPLICABLE " + f + " :: " + o[:60]
        open(p, "w").write(s.replace(o, n, 1))
    b = subprocess.run(["/usr/bin/env", "bash", "-c", "cd %s && go vet ./adapter/... 2>&1 | grep -v '^#' | head -5; go build ./adapter/... ./cmd/... 2>&1 | head -5" % d], capture_output=True, text=True, env=dict(os.environ, GOFLAGS="-mod=vendor" if os.path.isdir(d+"/vendor") else "", GOTOOLCHAIN="local"))
    r = subprocess.run(["/verif/bin/analyzer", "-property", props, "-repo", d, "-verif", v], capture_output=True, text=True)
    viol = [l.split()[1].split("=")[1] for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    rules = sorted(set(l.split()[1] for l in r.stdout.splitlines() if l.startswith("rule ")))
    tag = "caught" if viol else "MISSED"
    if kind == "R": tag = "ALARM" if viol else "quiet"
    out = "%s %s %s | %s | %s" % (tag, ",".join(viol), ",".join(rules), new.strip().replace("\n", " ")[:100] if isinstance(old, str) else new, "")
    if "error" in b.stdout.lower() or "undefined" in b.stdout: out += " BUILD: " + b.stdout[:300]
    if verbose: out += "\n" + r.stdout[:3000]
    shutil.rmtree(d)
    return i, kind, out
jobs = [(i, k, m) for k in ("M", "R") for i, m in enumerate(ns.get(k, []))]
jobs = [(n, k, m) for n, (i, k, m) in enumerate(jobs)]
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, jobs): print(*r)
shutil.rmtree(base)
