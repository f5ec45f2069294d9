#!/usr/bin/env python3
"""matrix.py [-s SECS] [-p PROPS|own|all] BUG...: runs checks against planted bugs in scratch copies."""
import os, subprocess, sys, time, re, json, shutil
a = sys.argv[1:]
secs, props = None, "own"
while a and a[0].startswith("-"):
    o = a.pop(0)
    if o == "-s": secs = a.pop(0)
    if o == "-p": props = a.pop(0)
S = "/verif/seeded"
ALL = ["C%02d" % i for i in range(1, 22)]
ids = a or sorted(os.listdir(S))
for b in ids:
    meta = json.load(open("%s/%s/meta.json" % (S, b)))
    w = "/tmp/mx/" + b
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run("git clone -q /repo %s/r && git -C %s/r apply %s/%s/patch.diff" % (w, w, S, b), shell=True, check=True)
    out = []
    for p in {"own": [meta["property"]], "all": ALL}.get(props, props.split(",")):
        env = dict(os.environ, SIM_REPO=w + "/r", SIM_BUILD=w + "/build", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        if secs: env["SIM_SECS"] = secs
        t = time.time()
        r = subprocess.run(["python3", "/verif/check.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        m = re.search(r"^class (\S+):", r.stdout, re.M)
        out.append("%s:%s" % (p, (m.group(1) if m else "?") if r.returncode == 1 else "-" if r.returncode == 0 else "ERR%d" % r.returncode))
        if r.returncode not in (0, 1): print(r.stdout[-800:])
    print("%-34s %s  %s" % (b, meta["property"], " ".join(o for o in out if props == "own" or not o.endswith(":-"))), flush=True)
    shutil.rmtree(w, ignore_errors=True)
