#!/usr/bin/env python3
"""Driver of the simulation checks.

  check.py --setup                 build the simulator core
  check.py C01                     run the check (VERIF_SEED, VERIF_TIER=quick|thorough)
  check.py C01 --replay FILE       replay a recorded violation
  check.py C01 --dump SEED         print the plan of one seed
  check.py C01 --determinism N     run N seeds several times at several worker counts and compare event hashes

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: the check itself failed.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")
SIM = ["sched", "mem", "disk", "core"]
CXX = "clang++"
CORE_FLAGS = ["-std=c++17", "-O2", "-g"]
TU_FLAGS = ["-std=c++11", "-g1", "-fsanitize=thread", "-w", "-include", "cstdint", "-ffp-contract=off"]
NCPU = len(os.sched_getaffinity(0)) or 1

sys.path.insert(0, HERE)
from props import PROPS          # per property: source, runs, variants, real/stub components


def die(msg):
    print("ERROR " + msg)
    sys.exit(2)


def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def atomically(target, make):
    tmp = target + ".tmp%d" % os.getpid()
    make(tmp)
    os.replace(tmp, target)


def build_core():
    os.makedirs(BUILD, exist_ok=True)
    hdr = [os.path.join(HERE, "sim", h) for h in ("sim.hpp", "internal.hpp")]
    objs, jobs = [], []
    for s in SIM:
        src = os.path.join(HERE, "sim", s + ".cpp")
        o = os.path.join(BUILD, "%s-%s.o" % (s, sha([src] + hdr, " ".join(CORE_FLAGS))))
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((src, o))

    def one(j):
        def make(tmp):
            r = run([CXX] + CORE_FLAGS + ["-c", j[0], "-o", tmp])
            if r.returncode:
                die("simulator does not build\n" + r.stdout)
        atomically(j[1], make)
    with ThreadPoolExecutor(max(1, NCPU)) as ex:
        list(ex.map(one, jobs))
    return objs


def headers():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "vmmlib")):
        for f in files:
            if f.endswith((".hpp", ".h", ".ipp", ".inl", ".cpp")) and f != "version.hpp":
                out.append(os.path.join(root, f))
    return sorted(out)


def build(prop, variant):
    cfg = PROPS[prop]
    objs = build_core()
    flags = TU_FLAGS + variant["flags"] + cfg.get("flags", [])
    local = sorted(glob.glob(os.path.join(HERE, "checks", "*.hpp"))) + [os.path.join(HERE, "sim", "sim.hpp")]
    # "file.cpp" or "file.cpp:DEFINE=VALUE,DEFINE"
    parts = [(os.path.join(HERE, "checks", s.split(":")[0]), s.split(":")[1].split(",") if ":" in s else []) for s in cfg["source"]]
    key = sha([p for p, _ in parts] + local + headers() + objs, " ".join(flags) + prop + " ".join(cfg["source"]))
    exe = os.path.join(BUILD, "%s-%s-%s" % (prop, variant["name"], key))
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(BUILD, "%s-%s-*" % (prop, variant["name"]))):
        try:
            os.remove(old)
        except OSError:
            pass
    tus = []

    def one(part):
        src, defs = part
        o = os.path.join(BUILD, "tu-%s-%s-%d-%s.o" % (prop, variant["name"], os.getpid(), os.path.basename(src) + "-" + "-".join(defs)))
        r = run([CXX] + flags + ["-DPROP_%s" % prop] + ["-D" + d for d in defs] + [ "-I" + REPO, "-I" + os.path.join(HERE, "sim"), "-I" + os.path.join(HERE, "checks"),
                 "-c", src, "-o", o])
        return o, r
    with ThreadPoolExecutor(max(1, NCPU)) as ex:
        for o, r in ex.map(one, parts):
            tus.append(o)
            if r.returncode:
                die("the workload does not compile against %s/vmmlib\n%s" % (REPO, r.stdout[-6000:]))

    def link(tmp):
        r = run([CXX, "-o", tmp] + tus + objs + ["-pthread", "-ldl", "-Wl,--no-as-needed"])
        if r.returncode:
            die("the workload does not link\n" + r.stdout[-4000:])
    atomically(exe, link)
    for t in tus:
        os.remove(t)
    return exe


def scratch_base():
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            v = os.statvfs(d)
            if d == "/dev/shm" and v.f_bavail * v.f_frsize < 4 << 30:
                continue
            try:
                return tempfile.mkdtemp(prefix="vmmlsim.", dir=d)
            except OSError:
                continue
    die("no place for scratch files")


def known_findings(prop):
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def exec_plan(exe, plan, scratch, verbose=False):
    r = subprocess.run([exe, "exec", plan, scratch] + (["-v"] if verbose else []), stdout=subprocess.PIPE,
                       stderr=None if verbose else subprocess.PIPE, text=True)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return {"status": 9, "class": "no-answer", "detail": r.stdout, "hash": ""}


def batches(exe, n_workers, seed0, stride, per, wall, tier, scratch, tag, known, pin=True):
    procs = []
    for w in range(n_workers):
        sd = os.path.join(scratch, "vmmlsim.%s.%d" % (tag, w))
        os.mkdir(sd)
        out = os.path.join(scratch, "out.%s.%d" % (tag, w))
        procs.append((w, sd, out, subprocess.Popen(
            [exe, "batch", sd, str(seed0 + w), str(stride), str(per), str(wall), str(tier), out, str(w if pin else -1)] + known,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    res = []
    for w, sd, out, p in procs:
        o, _ = p.communicate()
        if p.returncode or not os.path.exists(out):
            die("batch worker ended with %s: %s" % (p.returncode, o[-2000:]))
        j = json.load(open(out))
        j["hashes"] = open(out + ".hash", "rb").read()
        if os.path.exists(out + ".mismatch"):
            j["mismatch_plan"] = open(out + ".mismatch").read()
        res.append(j)
    return res


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    print("check %s seed %d tier %s" % (prop, seed, tier), flush=True)
    cfg = PROPS[prop]
    known = known_findings(prop)
    variants = cfg["variants"][tier] if isinstance(cfg["variants"], dict) else cfg["variants"]
    scratch = scratch_base()
    try:
        return check_in(prop, cfg, tier, seed, known, variants, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check_in(prop, cfg, tier, seed, known, variants, scratch, t0):
    thorough = tier == "thorough"
    wall = cfg.get("thorough_wall", 540) if thorough else cfg.get("quick_wall", 120)
    runs = cfg["runs"] * (1000 if thorough else 1)
    with ThreadPoolExecutor(len(variants)) as ex:
        exes = list(ex.map(lambda v: build(prop, v), variants))
    t_build = time.time() - t0
    tot = {"runs": 0, "nontrivial": 0, "points": 0, "switches": 0, "rechecked": 0, "mismatched": 0, "known": 0}
    counters, hashes, samples, found, per_variant, rule, mismatch_plan = {}, set(), [], [], [], "", ""
    t1 = time.time()
    for vi, (v, exe) in enumerate(zip(variants, exes)):
        share = v.get("share", 1.0 / len(variants))
        per = max(1, int(runs * share / NCPU))
        res = batches(exe, NCPU, seed * 1000000007 + vi * 400000009, NCPU, per, max(1, int(wall * share)), 1 if thorough else 0, scratch,
                      v["name"], [k for k, _ in known])
        vr = 0
        for r in res:
            for k in tot:
                tot[k] += r[k]
            vr += r["runs"]
            rule = r["rule"]
            for k, n in r["counters"].items():
                counters[k] = counters.get(k, 0) + n
            h = r["hashes"]
            for i in range(0, len(h), 8):
                hashes.add(h[i:i + 8])
            if len(samples) < 3:
                samples += r["samples"]
            for f in r["found"]:
                f["exe"] = exe
                f["variant"] = v["name"]
                found.append(f)
            mismatch_plan = mismatch_plan or r.get("mismatch_plan", "")
        per_variant.append({"build": v["name"], "flags": " ".join(v["flags"]), "runs": vr})
        if found:
            break
    t_search = time.time() - t1
    for c, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))

    reported = 0
    unstable = []
    seen = set()
    for f in sorted(found, key=lambda f: f["seed"]):
        if f["class"] in seen or reported >= 2:
            continue
        sd = os.path.join(scratch, "vmmlsim.replay")
        os.makedirs(sd, exist_ok=True)
        # gate: the same plan twice more, each in a fresh process
        a, b = exec_plan(f["exe"], f["plan"], sd), exec_plan(f["exe"], f["plan"], sd)
        if not (a["status"] == b["status"] == 1 and a["class"] == b["class"] == f["class"]):
            unstable.append((f, a, b))
            continue
        mini = os.path.join(scratch, "mini")
        m = run([f["exe"], "min", f["plan"], sd, f["class"], mini, "60" if thorough else "20"])
        use = mini if m.returncode == 0 and os.path.exists(mini) else f["plan"]
        c, d = exec_plan(f["exe"], use, sd), exec_plan(f["exe"], use, sd)
        if not (c["status"] == d["status"] == 1 and c["class"] == d["class"] == f["class"]):
            use, c = f["plan"], a
        os.makedirs(REPLAYS, exist_ok=True)
        name = re.sub(r"[^A-Za-z0-9]+", "-", f["class"])[:40]
        path = os.path.join(REPLAYS, "%s-%s-%d.plan" % (prop, name, f["seed"]))
        with open(path, "w") as o:
            o.write("# property %s\n# build %s\n# seed %d\n# class %s\n# %s\n# replay: python3 check.py %s --replay %s\n" %
                    (prop, f["variant"], f["seed"], f["class"], c["detail"].replace("\n", "\n# "), prop, path))
            o.write(open(use).read())
        seen.add(f["class"])
        reported += 1
        print("violated: %s: %s (seed %d)" % (f["class"], c["detail"], f["seed"]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)

    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(hashes),
        "rule": rule,
        "samples": samples[:3],
        "nontrivial_runs": tot["nontrivial"],
        "seeds_per_hour": int(tot["runs"] / max(t_search, 1e-6) * 3600),
        "simulated_time": "%d scheduling points (the code has no clock; simulated time is counted in points)" % tot["points"],
        "scheduling_points": tot["points"],
        "context_switches": tot["switches"],
        "faults_fired": {k[6:]: n for k, n in sorted(counters.items()) if k.startswith("fault.")},
        "probes": {k: n for k, n in sorted(counters.items()) if not k.startswith("fault.")},
        "distinct_measure": "distinct hashes over the run's event sequence (operations, faults, system calls, draws, switches with their positions)",
        "determinism": {"plans_run_again": tot["rechecked"], "different": tot["mismatched"]},
        "builds": per_variant,
        "real_components": cfg["real"],
        "stub_components": cfg["stub"],
        "build_s": round(t_build, 2),
        "search_s": round(t_search, 2),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": cfg["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": reported}
    os.makedirs(EVID, exist_ok=True)

    def put(tmp):
        with open(tmp, "w") as o:
            json.dump(ev, o, indent=1)
            o.write("\n")
    atomically(os.path.join(EVID, prop + ".json"), put)
    print("%s: %d runs, %d distinct, %d points, %d switches, build %.1fs search %.1fs" %
          (prop, tot["runs"], len(hashes), tot["points"], tot["switches"], t_build, t_search))
    if reported:
        return 1
    if unstable:
        f, a, b = unstable[0]
        print("ERROR a violation did not replay: %s %s / %s / %s" % (f["class"], f["detail"], a, b))
        return 2
    if tot["mismatched"]:
        print("ERROR %d plans ran differently the second time\n%s" % (tot["mismatched"], mismatch_plan))
        return 2
    return 0


def variant_of(prop, name=None):
    vs = PROPS[prop]["variants"]
    vs = (vs["quick"] + vs["thorough"]) if isinstance(vs, dict) else vs
    for v in vs:
        if v["name"] == name:
            return v
    return vs[0]


def replay(prop, path):
    m = re.search(r"^# build (\S+)", open(path).read(), re.M)
    cl = re.search(r"^# class (\S+)", open(path).read(), re.M)
    exe = build(prop, variant_of(prop, m.group(1) if m else None))
    base = scratch_base()
    sd = os.path.join(base, "vmmlsim.replay")
    os.mkdir(sd)
    try:
        r = exec_plan(exe, path, sd, True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print(json.dumps(r))
    if r["status"] == 1 and (not cl or cl.group(1) == r["class"]):
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def determinism(prop, n):
    """Every seed several times: different worker counts, pinned and not; the event hashes have to agree."""
    bad = 0
    for v in (PROPS[prop]["variants"]["quick"] if isinstance(PROPS[prop]["variants"], dict) else PROPS[prop]["variants"]):
        exe = build(prop, v)
        base = scratch_base()
        try:
            ref = None
            for tag, workers, pin in (("a", NCPU, True), ("b", NCPU, False), ("c", 3, True), ("d", 1, True), ("e", 2 * NCPU, False)):
                res = batches(exe, workers, 777000000, workers, (n + workers - 1) // workers, 3600, 0, base, tag, [], pin)
                hs = set()
                for r in res:
                    for i in range(0, len(r["hashes"]), 8):
                        hs.add(r["hashes"][i:i + 8])
                    bad += r["mismatched"]
                tot = sum(r["runs"] for r in res)
                print(prop, v["name"], tag, "workers", workers, "runs", tot, "distinct", len(hs), "points", sum(r["points"] for r in res))
                key = hs if (n % workers) == 0 else None
                if key is not None:
                    if ref is None:
                        ref = key
                    elif ref != key:
                        bad += 1
                        print("  DIFFERENT from first")
        finally:
            shutil.rmtree(base, ignore_errors=True)
    print("determinism", prop, "bad", bad)
    return 2 if bad else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--setup":
        build_core()
        return 0
    prop = a[0]
    if prop not in PROPS:
        die("unknown property " + prop)
    if len(a) >= 3 and a[1] == "--replay":
        return replay(prop, os.path.abspath(a[2]))
    if len(a) >= 3 and a[1] == "--dump":
        exe = build(prop, variant_of(prop))
        return subprocess.call([exe, "gen", a[2], "0"])
    if len(a) >= 3 and a[1] == "--determinism":
        return determinism(prop, int(a[2]))
    return check(prop)


if __name__ == "__main__":
    sys.exit(main())
