#!/usr/bin/env python3
"""Plants a bug: mkseed.py ID PROPERTY FILE PKG < spec, where spec is a JSON object
{"edits": [[file, old, new], ...], "test": go test source, "pkg": "./xmp", "needs": ..., "breaks": ...}.
Builds and tests it in a scratch copy of /repo, checks the demonstration both ways and writes /verif/seeded/ID."""
import json, os, shutil, subprocess, sys, tempfile

BASE = "/opt/vp/BASELINE.json"
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin", GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="0")
DEMO = '''#!/bin/bash
# exit 0: the guarantee holds; anything else: it is broken
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=%(cgo)s
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%(dir)s/zz_demo_test.go":"%%s/demo.go.txt"}}' "$PWD" "$D" > "$T/overlay.json"
cp "$D/demo.go.txt" "$T/demo_test.go"
printf '{"Replace":{"%%s/%(dir)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$T" > "$T/overlay.json"
go test -vet=off -overlay "$T/overlay.json" -run '^TestSeededDemo$' -count=1 -timeout 120s %(flags)s %(pkg)s
'''

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, capture_output=True, text=True, **kw)

def plant(sid, s):
    t = tempfile.mkdtemp(prefix="seed")
    try:
        r = t + "/repo"
        run(f"git worktree prune; git clone -q /repo {r}", "/repo")
        for f, old, new in s["edits"]:
            p = r + "/" + f
            src = open(p).read()
            if src.count(old) != 1:
                return f"{src.count(old)} matches in {f} of: {old[:60]}"
            open(p, "w").write(src.replace(old, new))
        diff = run("git diff", r).stdout
        out = "/verif/seeded/" + sid
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        pkg = s.get("pkg", "./xmp")
        open(out + "/demo.sh", "w").write(DEMO % {"dir": pkg[2:], "pkg": pkg, "flags": s.get("flags", ""), "cgo": s.get("cgo", "0")})
        open(out + "/demo.go.txt", "w").write(s["test"].lstrip())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        b = run("gofmt -l . ; go build ./...", r)
        if b.returncode:
            return "does not build: " + b.stderr[-500:]
        b = run("go test -json -vet=off -count=1 ./... > ../log; python3 /opt/vp/results.py ../out.json gojson:../log", r)
        base = json.load(open(BASE)); res = json.load(open(t + "/out.json"))
        stable = base.get("stable") or base.get("passed") or base.get("tests") or base
        def names(o):
            return set(o if isinstance(o, list) else [k for k, v in o.items()])
        passed = names(res.get("passed", res))
        missing = [x for x in names(stable) if x not in passed] if not isinstance(stable, dict) or stable is not base else ["?"]
        if missing:
            return f"breaks existing tests: {missing[:5]}"
        bad = run(f"bash {out}/demo.sh", r)
        if bad.returncode == 0:
            return "demo passes with the patch"
        if "TestSeededDemo" not in bad.stdout + bad.stderr and "panic" not in bad.stdout + bad.stderr and "fatal error" not in bad.stdout + bad.stderr:
            return "demo did not run: " + (bad.stdout + bad.stderr)[-600:]
        run("git checkout -q -- .", r)
        good = run(f"bash {out}/demo.sh", r)
        if good.returncode != 0:
            return "demo fails without the patch: " + (good.stdout + good.stderr)[-800:]
        return "ok"
    finally:
        shutil.rmtree(t)

if __name__ == "__main__":
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        for sid, s in ns["SEEDS"].items():
            if os.path.exists(f"/verif/seeded/{sid}/meta.json") and not os.environ.get("FORCE"):
                continue
            m = plant(sid, s)
            print(sid, m)
            if m != "ok":
                shutil.rmtree("/verif/seeded/" + sid, ignore_errors=True)
