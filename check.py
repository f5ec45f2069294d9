#!/usr/bin/env python3
"""Entry point of all checks:  check.py PROPERTY [--tier quick|thorough] | --setup | --replay FILE.

Builds the simulator with the library sources of /repo's working tree, explores seeded simulated
runs on all cores, minimises and confirms what it finds, and writes evidence/<property>.json.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
CXX = os.environ.get("SIM_CXX", "clang++-18")
BASE = ["-std=c++20", "-g1", "-ffp-contract=off", "-fno-strict-aliasing", "-I" + SIM + "/shim"]
VARIANTS = {
    # optimisation as shipped
    "plain": dict(flags=["-O2"], repo=[], link=[]),
    # every run is also watched for undefined arithmetic and memory errors
    "san": dict(flags=["-O1", "-DSIM_ASAN", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer",
                       "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
                repo=[], link=["-fsanitize=address,undefined"]),
    # a scheduling point on every edge of the control flow graph and every memory access of the library
    "preempt": dict(flags=["-O1", "-DSIM_PREEMPT"],
                    repo=["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"], link=[]),
    # the same without optimisation: no value is kept in a register across a shared variable
    "preempt0": dict(flags=["-O1", "-DSIM_PREEMPT"],
                     repo=["-O0", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"], link=[]),
}
# property -> (variants, quick seconds per variant, thorough seconds per variant)
PLAN = {
    "C07": [("preempt", 30, 450), ("preempt0", 30, 380)],
    "C11": [("san", 45, 600), ("plain", 10, 120)],
    "C19": [("san", 40, 600), ("plain", 10, 120)],
}
DEFAULT_PLAN = [("plain", 45, 700)]
NPROC = max(1, min(8, os.cpu_count() or 1))


def log(*a):
    print(*a, flush=True)


def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def repo_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "ink_stroke_modeler")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cc") and not f.endswith("_test.cc") and "fuzz" not in f and f != "type_matchers.cc":
                out.append(os.path.join(root, f))
    return out


def repo_headers():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "ink_stroke_modeler")):
        dirs.sort()
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith((".h", ".inc", ".hpp"))]
    return out


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def libs():
    # The libraries used today, and others of abseil that a change may come to use.
    base = ["absl_status", "absl_statusor", "absl_strings", "absl_str_format"]
    more = ["absl_inlined_vector", "absl_flat_hash_map", "absl_flat_hash_set", "absl_cord", "absl_time", "absl_synchronization"]
    for want in (base + more, base):
        r = subprocess.run(["pkg-config", "--libs"] + want, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if r.returncode == 0: break
    return ["-Wl,--as-needed"] + r.stdout.split() + ["-lpthread", "-ldl"]


def build(variant):
    """Returns the path of the simulator binary for /repo's current working tree."""
    v = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    srcs, hdrs = repo_sources(), repo_headers()
    sim_h = sorted(glob.glob(SIM + "/*.h") + glob.glob(SIM + "/shim/**/*.h", recursive=True))
    sims = sorted(glob.glob(SIM + "/*.cc"))
    flags = BASE + v["flags"]
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hk = digest(hdrs)
        jobs = []
        objs = []
        odir = os.path.join(BUILD, "obj")
        os.makedirs(odir, exist_ok=True)
        for s in srcs:
            k = digest([s], " ".join([CXX] + flags + v["repo"]) + hk + digest(sim_h))
            objs.append((s, v["repo"], os.path.join(odir, "r_" + k + ".o")))
        for s in sims:
            uses_repo = os.path.basename(s) == "exec.cc"
            extra = v["repo"] if uses_repo else []
            k = digest([s] + sim_h, " ".join([CXX] + flags + extra) + (hk if uses_repo else ""))
            objs.append((s, extra, os.path.join(odir, "s_" + k + ".o")))
        for s, extra, o in objs:
            if not os.path.exists(o):
                jobs.append((o, [CXX] + flags + extra + ["-I" + REPO, "-c", s, "-o", o + ".tmp"]))
        running, fails = [], []
        while jobs or running:
            while jobs and len(running) < NPROC:
                o, c = jobs.pop()
                running.append((o, c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
            o, c, p = running.pop(0)
            out = p.communicate()[0]
            if p.returncode:
                fails.append((o, c, out))
            else:
                os.replace(o + ".tmp", o)
        # A compiler that was short of memory deserves a second chance, alone.
        for o, c, out in fails[:]:
            r = sh(c)
            if r.returncode:
                break
            os.replace(o + ".tmp", o)
            fails.remove((o, c, out))
        if fails:
            log("BUILD FAILED:", " ".join(fails[0][1]))
            log(fails[0][2][-3000:])
            sys.exit(2)
        exe = os.path.join(BUILD, "sim-%s-%s" % (variant, hashlib.sha256("".join(o for _, _, o in objs).encode()).hexdigest()[:16]))
        if not os.path.exists(exe):
            r = sh([CXX] + v["link"] + [o for _, _, o in objs] + ["-o", exe + ".tmp"] + libs())
            if r.returncode:
                log("LINK FAILED")
                log(r.stdout[-3000:])
                sys.exit(2)
            os.replace(exe + ".tmp", exe)
        # keep the cache small
        now = time.time()
        keep = {o for _, _, o in objs} | {exe}
        for f in glob.glob(odir + "/*.o") + glob.glob(BUILD + "/sim-*"):
            if f not in keep and now - os.path.getmtime(f) > 7200:
                os.unlink(f)
    return exe


def dictionary(path):
    """Numbers that occur in the library's sources: generated values are drawn near them, too."""
    fs, ns = set(), set()
    for p in repo_sources() + repo_headers():
        with open(p, errors="replace") as f:
            t = f.read()
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
        t = re.sub(r"//[^\n]*", " ", t)
        t = re.sub(r'"(\\.|[^"\\\n])*"', '""', t)
        for m in re.finditer(r"(?<![\w.])(\d[\d']*\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|0[xX][0-9a-fA-F']+)([fFlLuU]*)(?![\w.])", t):
            w = m.group(1).replace("'", "")
            try:
                x = int(w, 0) if re.fullmatch(r"\d+|0[xX][0-9a-fA-F]+", w) else float(w)
            except ValueError:
                try:
                    x = float(w)
                except ValueError:
                    continue
            if isinstance(x, int) and 0 <= x < 2 ** 31:
                ns.add(x)
            if abs(float(x)) < 1e30:
                fs.add(float(x))
    with open(path, "w") as f:
        for x in sorted(fs):
            f.write("f %r\n" % x)
        for x in sorted(ns):
            f.write("n %d\n" % x)
    return len(fs) + len(ns)


def run_replay(exe, trace, cpu):
    env = dict(os.environ, SIM_CPU=str(cpu))
    r = subprocess.run([exe, "run", trace], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=env)
    m = re.search(r"VIOLATED class=(\S+)", r.stdout)
    h = re.search(r"trace (\w+) outcome (\w+)", r.stdout)
    return (m.group(1) if m else None), (h.groups() if h else None), r.stdout


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def hashes(path):
    if not os.path.exists(path):
        return []
    b = open(path, "rb").read()
    return [b[i:i + 8] for i in range(0, len(b), 8)]


def explore(prop, exe, variant, secs, seed0, scratch, dictf):
    procs = []
    for w in range(NPROC):
        pre = os.path.join(scratch, "%s-%d" % (variant, w))
        procs.append((pre, subprocess.Popen([exe, "explore", prop, str(seed0), str(w), str(NPROC), str(secs),
                                             "1000000000", pre, dictf], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    res = []
    for pre, p in procs:
        err = p.communicate()[1]
        try:
            with open(pre + ".json") as f:
                res.append((pre, json.load(f)))
        except Exception as e:
            log("worker failed:", p.returncode, e, err.decode(errors="replace")[-500:])
            sys.exit(2)
    return res


def confirm(prop, exe, pre, cls, budget, outdir, tag):
    """Minimise, then reproduce in fresh processes.  Returns (path, class, text) or None."""
    raw = pre + ".trace"
    mini = pre + ".min"
    cpu = 100 if cls == "hang" else 60
    env = dict(os.environ)
    if cls == "hang":
        env["SIM_CPU"] = "20"
    subprocess.run([exe, "shrink", raw, mini, str(budget)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
    for cand in (mini, raw):
        if not os.path.exists(cand):
            continue
        a, ha, out = run_replay(exe, cand, cpu)
        if a is None:
            continue
        b, hb, _ = run_replay(exe, cand, cpu)
        if a == b and (ha == hb):
            os.makedirs(outdir, exist_ok=True)
            dst = os.path.join(outdir, "%s-%s-%s.trace" % (prop, re.sub(r"\W", "_", a), tag))
            shutil.copyfile(cand, dst)
            msg = re.search(r"VIOLATED class=\S+ (.*)", out)
            return dst, a, (msg.group(1) if msg else "")
    return None


RULES = json.load(open(os.path.join(VERIF, "rules.json"))) if os.path.exists(os.path.join(VERIF, "rules.json")) else {}


def check(prop, tier):
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    seed0 = (seed % 1000003) * 1000000000 + 1
    log("seed %d, tier %s, property %s" % (seed, tier, prop))
    scratch = os.path.join(BUILD, "scratch-%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    dictf = os.path.join(scratch, "dict")
    ndict = dictionary(dictf)
    known = known_findings(prop)
    violations, errors, reported_known = [], [], set()
    total = {}
    cov = dict(evaluations=0, variants={}, fault_kinds_injected={}, probes={}, samples=[], saturation={})
    nontrivial, states = set(), set()
    det_bad = det = 0

    def judge(res):
        if res is None:
            return
        path, cls, msg = res
        for kc, km, kt in known:
            if kc == cls and re.search(km, msg):
                if kt not in reported_known:
                    reported_known.add(kt)
                    log("KNOWN-FINDING: property=%s %s" % (prop, kt))
                return
        violations.append((path, cls, msg))

    explored_s = 0.0
    for variant, q, th in PLAN.get(prop, DEFAULT_PLAN):
        exe = build(variant)
        # Histories that once violated this property, replayed first.
        replayed = 0
        for tr in sorted(glob.glob(os.path.join(VERIF, "corpus", prop + "-*.trace"))):
            replayed += 1
            a, ha, out = run_replay(exe, tr, 100)
            if a is None:
                continue
            b, hb, _ = run_replay(exe, tr, 100)
            if a != b or ha != hb:
                errors.append("corpus trace %s does not replay exactly" % tr)
                continue
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            dst = os.path.join(VERIF, "replays", os.path.basename(tr))
            shutil.copyfile(tr, dst)
            judge((dst, a, re.search(r"VIOLATED class=\S+ (.*)", out).group(1)))
        cov["variants"].setdefault(variant, {})["saved_histories_replayed"] = replayed
        if violations:
            break
        secs = q if tier == "quick" else th
        if os.environ.get("SIM_SECS"):
            secs = float(os.environ["SIM_SECS"])
        res = explore(prop, exe, variant, secs, seed0, scratch, dictf)
        vs = cov["variants"][variant]
        vs["runs"] = sum(d["runs"] for _, d in res)
        vs["seconds"] = round(max(d["elapsed"] for _, d in res), 2)
        vs["seeds_per_hour"] = int(sum(d["runs"] / max(d["elapsed"], 1e-3) for _, d in res) * 3600)
        vs["first_seed"], vs["last_seed"] = seed0, max(d["last_seed"] for _, d in res)
        explored_s += vs["seconds"]
        for pre, d in res:
            cov["evaluations"] += d["runs"]
            for k in ("ops", "accepted", "refused", "predictions", "results", "checks", "skipped", "twins", "sim_time", "slow"):
                total[k] = total.get(k, 0) + d[k]
            for k, n in d["faults"].items():
                cov["fault_kinds_injected"][k] = cov["fault_kinds_injected"].get(k, 0) + n
            for k, n in d["probes"].items():
                cov["probes"][k] = cov["probes"].get(k, 0) + n
            det += d["det_checks"]
            det_bad += d["det_bad"]
            if len(cov["samples"]) < 4:
                cov["samples"] += d["samples"][:1]
            nontrivial.update(hashes(pre + ".traces"))
            states.update(hashes(pre + ".states"))
        cov["saturation"][variant] = res[0][1]["curve"]
        found = [(pre, d["violation"]) for pre, d in res if d["violation"]]
        seen = set()
        for pre, v in sorted(found, key=lambda x: x[1]["seed"]):
            if v["cls"] in seen or len(violations) >= 3:
                continue
            seen.add(v["cls"])
            r = confirm(prop, exe, pre, v["cls"], 30 if tier == "quick" else 120, os.path.join(VERIF, "replays"), str(v["seed"]))
            if r is None:
                errors.append("seed %d reported %s (%s) but does not reproduce in a fresh process" % (v["seed"], v["cls"], v["msg"]))
            else:
                judge(r)
        if violations:
            break
    if det_bad:
        errors.append("%d of %d seeds did not repeat exactly" % (det_bad, det))
    rule = RULES.get(prop, "One run is one seed: a simulated world (pens, digitizer, transport, clock, client) produces one concrete history of calls; non-trivial when the history exercises the property.")
    cov["distinct_nontrivial"] = len(nontrivial)
    cov["rule"] = rule
    cov["calls"] = dict(made=total.get("ops", 0), accepted=total.get("accepted", 0), refused=total.get("refused", 0),
                        predictions=total.get("predictions", 0), results_returned=total.get("results", 0))
    cov["oracle_evaluations"] = total.get("checks", 0)
    cov["undecidable_skipped"] = total.get("skipped", 0)
    cov["twin_executions"] = total.get("twins", 0)
    cov["runs_needing_more_cpu"] = total.get("slow", 0)
    cov["simulated_seconds"] = round(total.get("sim_time", 0), 1)
    cov["distinct_states"] = len(states)
    cov["state_measure"] = "distinct sequences of three consecutive calls on a modeler, each as (call, event type, status, fault, phase, snapshot held, size class of the output, configuration, size class of the stroke)"
    cov["repeat_of_same_seed"] = dict(checked=det, differing=det_bad)
    cov["dictionary_values"] = ndict
    cov["real_components"] = ["all library code behind ink::stroke_model::StrokeModeler, compiled from /repo's working tree: stroke_modeler, position, wobble, stylus, loop mitigation, predictors, Kalman filter, parameters and validation", "abseil status/strings", "libstdc++ containers"]
    cov["stub_components"] = ["digitizer, event transport, clock, frame callbacks and client application (simulated by sim/world.cc)", "operator new (seeded failure and fill pattern)"] + (["thread scheduler (sim/sched.cc)"] if prop == "C07" else [])
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=["x86-64, clang, IEEE arithmetic without contraction", "the seeds explored are a sample, not all histories"],
              wall_s=round(time.time() - t_start, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    shutil.rmtree(scratch, ignore_errors=True)
    log("%d runs, %d calls, %d oracle evaluations, %.0f simulated seconds, %.1f s wall" %
        (cov["evaluations"], total.get("ops", 0), total.get("checks", 0), total.get("sim_time", 0), ev["wall_s"]))
    for e in errors:
        log("ERROR:", e)
    for path, cls, msg in violations:
        log("class %s: %s" % (cls, msg[:600]))
        log("VIOLATION property=%s replay=%s" % (prop, path))
    if violations:
        return 1
    return 2 if errors else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for v in VARIANTS:
            log(build(v))
        return 0
    if a and a[0] == "--replay":
        t = open(a[1]).read()
        prop = re.search(r"^prop (\S+)", t, re.M).group(1)
        rc = 0
        for variant, _, _ in PLAN.get(prop, DEFAULT_PLAN):
            cls, h, out = run_replay(build(variant), a[1], 100)
            log(variant + ":", out.strip())
            rc = rc or (1 if cls else 0)
        return rc
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
