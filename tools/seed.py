#!/usr/bin/env python3
"""Authoring aid: seed.py SPEC.py makes /verif/seeded/<id> from a spec and
confirms it in a scratch copy of /repo. SPEC.py defines a list `seeds` of
dicts: id, property, needs, breaks, edits [(file, old, new)], test (Go test
source, package zzdemo), cli (bool)."""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
DEMO = r'''#!/bin/bash
# Run with the repository as the current directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
root=$PWD
t=$(mktemp -d)
printf '{"Replace":{"%s/@DIR@/zzdemo_test.go":"%s/demo_test.go.txt"}}' "$root@SUB@" "$here" >"$t/overlay.json"
cd "$root@SUB@" && TMPDIR=$t go test -vet=off -count=1 -run '^TestZZ' -overlay "$t/overlay.json" ./@DIR@
rc=$?
unlink "$t/overlay.json"
rmdir "$t" 2>/dev/null
exit $rc
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
for s in ns["seeds"]:
    if only and s["id"] not in only: continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="seed")
    w = scratch + "/repo"
    shutil.copytree("/repo", w, symlinks=True)
    for f, old, new in s["edits"]:
        p = w + "/" + f
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff", w).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO.replace("@SUB@", "/cli" if s.get("cli") else "").replace("@DIR@", s.get("dir", "pkg/po")))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go.txt", "w").write(s["test"].lstrip().replace("package zzdemo", "package " + s.get("pkg", "po_test")).replace("func Test(", "func TestZZ("))
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    fm = sh("gofmt -l .", w).stdout
    # lines removed must be original
    res = []
    r = sh(f"bash {d}/demo.sh", "/repo"); res.append(("clean", r.returncode)); cl = r.stdout + r.stderr
    r = sh(f"bash {d}/demo.sh", w); res.append(("patched", r.returncode)); pa = r.stdout + r.stderr
    r = sh(f". /opt/vp/env.sh; go build ./... && go vet ./pkg/po >/dev/null; go build ./... && (cd cli && go build ./...) && go test ./... 2>&1", w)
    res.append(("tests", r.returncode))
    ok = res[0][1] == 0 and res[1][1] != 0 and res[2][1] == 0 and not fm
    orig = []
    for f, old, new in s["edits"]:
        base = sh(f"git show b86d6fc:{f}", "/repo").stdout
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        orig.append(all(l in base for l in removed) if removed else "added only")
    print(s["id"], "OK" if ok else "BAD", res, "original lines:", orig)
    if not ok:
        print(fm, cl[-1500:] if res[0][1] else "", pa[-800:], r.stdout[-1500:] if res[2][1] else "")
    shutil.rmtree(scratch)
