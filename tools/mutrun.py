#!/usr/bin/env python3
"""Bulk measurement: apply sampled syntactic changes to a copy of /repo and see which properties notice.
usage: mutrun.py LANE LANES PER OUT [file regex]"""
import os, re, subprocess, sys, random, json
lane, lanes, per, out = int(sys.argv[1]), int(sys.argv[2]), float(sys.argv[3]), sys.argv[4]
only = re.compile(sys.argv[5]) if len(sys.argv) > 5 else re.compile("")
seed = int(os.environ.get("MUTSEED", "1"))
W = "/tmp/mut/lane%d" % lane
MAP = [
 (r"geom/utils", "P02 P01 P14 P23"), (r"geom/", "P01 P07 P15 P19 P23 P24"),
 (r"mmd/vmd", "P17 P18 P32"), (r"mmd/", "P03 P04 P10 P11 P31 P32"),
 (r"mqo/(mqo_writer|mqx)", "P05 P06 P31 P29"), (r"mqo/mqo_parser", "P06 P05 P32 P29"),
 (r"mqo/", "P09 P07 P08 P05 P06 P11 P15 P28 P32"),
 (r"converter/mmd2mqo", "P10 P12 P32"), (r"converter/mqo2mmd", "P11 P12 P32"),
 (r"converter/mqo2gltf", "P14 P13 P15 P16 P28 P26 P32"), (r"converter/glbanim", "P17 P18 P13"),
 (r"converter/gltf2mqo", "P20 P32"), (r"converter/fbx2mqo", "P23 P32"), (r"converter/unity2mqo", "P24 P25"),
 (r"converter/vrmconfig", "P26 P27 P32 P30"), (r"gltfutil/", "P19 P27 P13 P20 P29 P31 P32"),
 (r"vrm/", "P26 P27 P31"), (r"cmd/", "P28 P29 P19 P27 P31 P18 P32"), (r"fbx/", "P21 P22 P23 P32 P24"), (r"unity/", "P24 P25"),
]
def sh(c, cwd=None, t=600, **k):
    try: return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **k)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(c, 124, "timeout")
sh(f"rm -rf {W}; mkdir -p {W}; git clone -q /repo {W}/repo; cp -r /verif/harness {W}/harness; cp /verif/known_findings.txt {W}/; sed -i 's#=> /repo#=> {W}/repo#' {W}/harness/go.mod; sed -i 's#= /repo#= {W}/repo#' {W}/harness/go.mod")
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", VH_SMALL="1", VERIF_SEED="1", VERIF_TIER="quick", VH_CLI=W+"/cli", VERIF_DIR=W)
files = [f for f in sh("git ls-files '*.go'", W+"/repo").stdout.split() if "_test" not in f and only.search(f)]
jobs = []
for f in files:
    n = len(sh(f"/tmp/mutate list {W}/repo/{f}").stdout.splitlines())
    rng = random.Random("%d %s" % (seed, f))
    k = min(n, int(6 + n * per))
    if "builtin" in f: k = min(k, 12)
    if "matrix4" in f: k = min(k, 40)
    jobs += [(f, i) for i in sorted(rng.sample(range(n), k))]
random.Random(5).shuffle(jobs)
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d["f"], d["i"]))
for n, (f, i) in enumerate(jobs):
    if n % lanes != lane or (f, i) in done: continue
    p = f"{W}/repo/{f}"
    r = dict(f=f, i=i, m=sh(f"/tmp/mutate apply {p} {i}").stdout.strip())
    x = sh("go build ./...; go test ./... 2>&1", W+"/repo", 120, env=env)
    if re.search(r"^(FAIL|--- FAIL)|cannot|undefined|declared and not used|syntax error|timeout", x.stdout, re.M): r["r"] = "invalid"
    else:
        b = sh(f"go build -o {W}/vh . ", W+"/harness", env=env); b2 = sh(f"go build -o {W}/cli ./cmd/modelconv", W+"/repo", env=env)
        if b.returncode or b2.returncode: r["r"] = "invalid"
        else:
            props = next(v for k, v in MAP if re.search(k, f)).split()
            r["r"] = "SURVIVED"
            for q in props:
                c = sh(f"{W}/vh check {q}", W, 900, env=env)
                if c.returncode == 1 and "VIOLATION" in c.stdout: r["r"] = q; break
                if c.returncode: r["r"] = "ODD %s rc=%d %s" % (q, c.returncode, c.stdout[-300:]); break
    sh("git checkout -q -- .", W+"/repo")
    with open(out, "a") as o: o.write(json.dumps(r) + "\n")
sh(f"rm -rf {W}")
