#!/usr/bin/env python3
"""Create and confirm planted bugs.  usage: seedlib.py make FILE.py | confirm ID... | catch ID... """
import json, os, subprocess, sys, shutil, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds the demonstration next to the code under test (overlay; nothing is written to the tree)
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
printf '{"Replace":{"%s/cmd/zzdemo/main.go":"%s/main.go.txt"}}' "$repo" "$here" > "$t/ov.json"
go build -overlay "$t/ov.json" -o "$t/demo" ./cmd/zzdemo || exit 4
EXTRA
cd "$t" && timeout 120 ./demo
'''
def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(id, prop, edits, demo, needs, breaks, extra=""):
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh(f"git clone -q /repo {d}/r")
        r = d + "/r"
        for f, old, new in edits:
            p = os.path.join(r, f); s = open(p, newline="").read()
            if "\r\n" in s and "\r\n" not in old: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE).stdout
        o = os.path.join(V, "seeded", id); os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "wb").write(diff)
        open(o + "/demo.sh", "w").write(DEMO.replace("EXTRA\n", extra)); os.chmod(o + "/demo.sh", 0o755)
        open(o + "/main.go.txt", "w").write(demo)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1, ensure_ascii=False)
    finally:
        shutil.rmtree(d)
    return confirm(id)
def confirm(id):
    o = os.path.join(V, "seeded", id)
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh(f"git clone -q /repo {d}/r; cp -r {o} {d}/demo; rm -f {d}/demo/patch.diff {d}/demo/meta.json")
        r = d + "/r"
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
        a = sh(f"bash {d}/demo/demo.sh", cwd=r, env=env)
        if a.returncode != 0: print(id, "DEMO FAILS ON CLEAN TREE", a.returncode, a.stdout[-2500:]); return False
        x = sh(f"git apply {o}/patch.diff", cwd=r)
        if x.returncode: print(id, "PATCH FAILS", x.stdout); return False
        x = sh("go build ./... && go vet ./... >/dev/null 2>&1; go test ./... 2>&1", cwd=r, env=env)
        if re.search(r"^(FAIL|--- FAIL)", x.stdout, re.M): print(id, "TESTS FAIL", x.stdout[-1500:]); return False
        b = sh(f"bash {d}/demo/demo.sh", cwd=r, env=env)
        if b.returncode in (0, 3, 4): print(id, "DEMO DOES NOT FAIL", b.returncode, b.stdout[-1500:]); return False
        print(id, "confirmed; demo says:", b.stdout.strip()[-300:])
        return True
    finally:
        shutil.rmtree(d)
def catch(id):
    o = os.path.join(V, "seeded", id)
    prop = json.load(open(o + "/meta.json"))["property"]
    assert sh("git -C /repo status --porcelain").stdout == ""
    x = sh(f"git -C /repo apply {o}/patch.diff"); assert x.returncode == 0, x.stdout
    try:
        r = sh(f"./check.sh {prop}", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally:
        sh("git -C /repo checkout -- .")
    ok = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
    print(id, prop, "CAUGHT" if ok else "MISSED rc=%d" % r.returncode, "" if ok else r.stdout[-600:])
    if ok: print("   ", "\n".join(r.stdout.splitlines()[1:3])[:300])
    return ok
if __name__ == "__main__":
    if sys.argv[1] == "make":
        for f in sys.argv[2:]: exec(compile(open(f).read(), f, "exec"))
    else:
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        fn = dict(confirm=confirm, catch=catch)[sys.argv[1]]
        res = [(i, fn(i)) for i in ids]
        print("not ok:", [i for i, k in res if not k])
