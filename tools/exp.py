#!/usr/bin/env python3
"""Try out hand-written changes: exp.py FILE.py [name regex].  FILE.py calls bug(name, "P01 P02", (file, old, new)...).
Works on a copy of /repo; prints which of the properties notice."""
import os, re, subprocess, sys, shutil
W = "/tmp/exp%d" % os.getpid()
only = re.compile(sys.argv[2] if len(sys.argv) > 2 else "")
def sh(c, cwd=None, t=900, **k):
    try: return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **k)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, "timeout")
sh(f"rm -rf {W}; mkdir -p {W}; git clone -q /repo {W}/repo; cp -r /verif/harness {W}/harness; cp /verif/known_findings.txt {W}/; sed -i 's#=> /repo#=> {W}/repo#' {W}/harness/go.mod; sed -i 's#= /repo#= {W}/repo#' {W}/harness/go.mod")
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", VERIF_SEED="1", VERIF_TIER="quick", VH_CLI=W+"/cli", VERIF_DIR=W)
def bug(name, props, *edits):
    if not only.search(name): return
    try:
        for f, old, new in edits:
            p = os.path.join(W, "repo", f); s = open(p, newline="").read()
            if "\r\n" in s and "\r\n" not in old: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1: print(name, "EDIT: %d matches in %s" % (s.count(old), f), old[:80]); return
            open(p, "w", newline="").write(s.replace(old, new))
        x = sh("go build ./... && go test ./... 2>&1", W+"/repo", env=env)
        if x.returncode and re.search(r"^(FAIL|--- FAIL)|^#", x.stdout, re.M): print(name, "BUILD/TEST FAILS", x.stdout[-600:]); return
        for q in props.split():
            race = "-race " if q == "P33" else ""
            b = sh(f"go build {race}-o {W}/vh . && cd {W}/repo && go build -o {W}/cli ./cmd/modelconv", W+"/harness", env=env)
            if b.returncode: print(name, "HARNESS BUILD", b.stdout[-400:]); return
            c = sh(f"{W}/vh check {q}", W, env=env)
            if c.returncode == 1 and "VIOLATION" in c.stdout:
                print(name, "caught by", q, " | ", " ".join(c.stdout.split("\n")[1:2])[:150], flush=True); return
            if c.returncode: print(name, "ODD", q, c.returncode, c.stdout[-300:])
        print(name, "*** MISSED by", props, flush=True)
    finally:
        sh("git checkout -q -- .", W+"/repo")
try: exec(open(sys.argv[1]).read(), {"bug": bug})
finally: shutil.rmtree(W)
