#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and runs a check.

  run.py check C04 [--thorough]     exit 0: held; exit 1: VIOLATION; else: error
  run.py replay FILE [-v]           replays a violation file
  run.py determinism [C04 ...]      every seed twice, at several worker counts
"""
import glob, hashlib, json, os, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, ".build")
REPLAYS = os.path.join(HERE, "replays")
NPROC = int(os.environ.get("SIM_JOBS", "8"))

sys.path.insert(0, SIM)
from checks import CHECKS, TUS, PROBES, FLAVOURS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d, _, names in os.walk(os.path.join(REPO, "include")):
        fs += [os.path.join(d, n) for n in names]
    for f in sorted(fs) + sorted(glob.glob(os.path.join(SIM, "*.hpp")) + glob.glob(os.path.join(SIM, "mtinc", "*", "*"))):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h


def build(units, flavour, name):
    """Compiles translation units in parallel, links them; returns the binary."""
    fl = FLAVOURS[flavour]
    base = tree_hash()
    os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
    jobs, objs = [], []
    for u in units:
        src, defs, extra = TUS[u]
        h = base.copy()
        h.update(open(os.path.join(SIM, src), "rb").read())
        cmd = [fl.get("cxx", "g++"), "-std=c++17"] + [os.path.join(HERE, c) if c.startswith("sim/") else c for c in fl["cflags"]] + extra.get(flavour, []) + defs + [
            "-I" + os.path.join(REPO, "include"), "-I" + SIM, "-c", os.path.join(SIM, src)]
        if u in fl.get("plain", ()):
            cmd = [c for c in cmd if c not in fl["instrument"]]
        h.update(" ".join(cmd).encode())
        obj = os.path.join(BUILD, "cache", "%s-%s.o" % (u, h.hexdigest()[:24]))
        objs.append(obj)
        if not os.path.exists(obj):
            jobs.append((u, cmd + ["-o", obj + ".tmp%d" % os.getpid()], obj))
    t0 = time.time()
    running = []
    failed = None
    jobs.sort(key=lambda j: -TUS[j[0]][2].get("cost", 1))
    while jobs or running:
        while jobs and len(running) < NPROC and not failed:
            u, cmd, obj = jobs.pop(0)
            running.append((u, subprocess.Popen(cmd, stderr=subprocess.PIPE, stdout=subprocess.DEVNULL), cmd[-1], obj))
        u, p, tmp, obj = running.pop(0)
        err = p.communicate()[1].decode(errors="replace")
        if p.returncode != 0:
            failed = "compilation of %s failed:\n%s" % (u, err[-6000:])
            jobs = []
        else:
            os.rename(tmp, obj)
    if failed:
        log(failed)
        sys.exit(2)
    h = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "%s-%s-%s" % (name, flavour, h))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([fl.get("cxx", "g++")] + fl["ldflags"] + objs + fl.get("libs", []) + ["-o", tmp], stderr=subprocess.PIPE)
        if r.returncode != 0:
            log("link failed:\n" + r.stderr.decode(errors="replace")[-4000:])
            sys.exit(2)
        os.rename(tmp, exe)
    return exe, time.time() - t0


def run_part(prop, part, tier, seed, exe, wdir):
    """Runs one part of a check on NPROC workers; returns (stats, violation file or None)."""
    cfg = dict(part)
    cfg.update(part.get(tier, {}))
    procs = []
    for w in range(NPROC):
        out = os.path.join(wdir, "%s-%d" % (cfg["name"], w))
        cmd = [exe, "batch", "--prop", prop, "--scen", ",".join(cfg["scens"]), "--seed", str(seed * 131 + cfg.get("salt", 0)),
               "--worker", str(w), "--nworkers", str(NPROC), "--count", str(cfg["count"]),
               "--variants", str(cfg.get("variants", 6)), "--repeat", str(cfg.get("repeat", 1)),
               "--layouts", str(cfg.get("layouts", 0)), "--size", str(cfg.get("size", 0)),
               "--seconds", str(cfg.get("seconds", 150)), "--classes", ",".join(cfg.get("classes", [])), "--out", out, "--replaydir", REPLAYS]
        procs.append((out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    found, error = None, None
    alive = list(procs)
    while alive:
        for pr in list(alive):
            out, p = pr
            rc = p.poll()
            if rc is None:
                continue
            alive.remove(pr)
            so, se = p.communicate()
            if rc == 1:
                line = [l for l in so.splitlines() if l.startswith("FOUND ")]
                if line and not found:
                    found = line[0].split(" ", 2)
                    log(line[0])
                    for q in alive:
                        q[1].kill()
            elif rc != 0 and not found:
                if rc < 0 and found:
                    continue
                error = "worker ended with %d: %s %s" % (rc, so[-500:], se[-1500:])
        time.sleep(0.02)
    stats = []
    hashes = set()
    for out, _ in procs:
        try:
            stats.append(json.load(open(out + ".json")))
            data = open(out + ".hashes", "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(data) // 8), data))
        except (OSError, ValueError):
            pass
    return stats, hashes, found, error


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, list) and v and isinstance(v[0], (int, float)):
            o = a.setdefault(k, [0] * len(v))
            for i, x in enumerate(v):
                o[i] += x
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)
    return a


def replays(exe, path):
    return subprocess.run([exe, "replay", path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 1


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[prop]
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    wdir = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(wdir)
    total, hashes, found, t_build, cov_parts = {}, set(), None, 0.0, []
    exe = None
    try:
        for part in cfg["parts"]:
            exe, tb = build(part["units"], part.get("flavour", "asan"), part["name"])
            t_build += tb
            t1 = time.time()
            stats, hs, found, error = run_part(prop, part, tier, seed, exe, wdir)
            dt = time.time() - t1
            hashes |= hs
            m = {}
            for s in stats:
                merge(m, s)
            m["wall_s"] = round(dt, 1)
            cov_parts.append((part, m))
            merge(total, m)
            if error and not found:
                log("error in %s: %s" % (part["name"], error))
                sys.exit(2)
            if found:
                # gate: the file must fail the same way in fresh processes
                again = [replays(exe, found[1]) for _ in range(2)]
                if not all(again):
                    again = [replays(exe, found[1]) for _ in range(8)]
                    log("gate: %s fails in %d of %d further processes" % (found[1], sum(again), len(again)))
                    if not any(again):
                        sys.exit(3)
                break
    finally:
        shutil.rmtree(wdir, ignore_errors=True)
        for f in glob.glob(os.path.join(BUILD, "cache", "*.o")):
            try:
                if time.time() - os.path.getmtime(f) > 6 * 3600:
                    os.unlink(f)
            except OSError:
                pass
    wall = time.time() - t0
    samples = total.get("samples", [])[:6]
    runs = total.get("runs", 0)
    run_s = sum(m["wall_s"] for _, m in cov_parts) or 1
    probes = {name: total.get("probes", [0] * 128)[i] for i, name in PROBES.items() if i in cfg.get("probes", PROBES)}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hashes),
            "rule": cfg["rule"],
            "samples": samples,
            "workloads": total.get("workloads", 0),
            "runs_per_hour": int(runs / run_s * 3600),
            "seeds_per_hour": int(total.get("workloads", 0) / run_s * 3600),
            "simulated_time": "no clock in the system under test; logical time = %d logged events, %d operations"
                              % (total.get("events", 0), total.get("ops", 0)),
            "runs_with_faults": total.get("faulty_runs", 0),
            "faults_injected": {k: v for k, v in total.get("fired", {}).items() if v},
            "fault_points_passed": {k: v for k, v in total.get("points", {}).items() if v},
            "retries_after_failure": total.get("retries", 0),
            "operations_given_up": total.get("giveups", 0),
            "rare_conditions": probes,
            "runs_by_scenario": total.get("scenarios", {}),
            "real_components": cfg["real"],
            "stubs": cfg["stubs"],
            "failures_of_other_properties_left_aside": total.get("others", 0),
            "build_s": round(t_build, 1),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall, 1),
        "violations": 1 if found else 0,
    }
    for k in ("threads", "switches", "accesses", "interleavings", "schedules"):
        if k in total:
            ev["coverage"][k] = total[k]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs (%d workloads, %d with faults), %d distinct, %.0f s build, %.0f s total"
          % (prop, runs, total.get("workloads", 0), total.get("faulty_runs", 0), len(hashes), t_build, wall))
    if found:
        print("found: " + found[2])
        print("VIOLATION property=%s replay=%s" % (prop, found[1]))
        return 1
    return 0


def exe_for(prop, scen):
    for p in [prop] if prop else CHECKS:
        for part in CHECKS[p]["parts"]:
            if scen in part["scens"]:
                return build(part["units"], part.get("flavour", "asan"), part["name"])[0]
    log("unknown scenario", scen)
    sys.exit(2)


def main():
    if len(sys.argv) < 3:
        print(__doc__)
        return 2
    if sys.argv[1] == "check":
        tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
        return check(sys.argv[2], tier)
    if sys.argv[1] == "replay":
        scen = prop = None
        for l in open(sys.argv[2]):
            if l.startswith("scenario "):
                scen = l.split()[1]
            if l.startswith("property "):
                prop = l.split()[1]
        return subprocess.call([exe_for(prop, scen), "replay", sys.argv[2]] + sys.argv[3:])
    if sys.argv[1] == "determinism":
        n = 0
        for prop in sys.argv[2:]:
            for part in CHECKS[prop]["parts"]:
                exe, _ = build(part["units"], part.get("flavour", "asan"), part["name"])
                base = [exe, "determinism", "--scen", ",".join(part["scens"]), "--layouts", str(part.get("layouts", 0)), "--seed", "77"]
                one = subprocess.run(base + ["--count", "240"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                ps = [subprocess.Popen(base + ["--count", "240"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for _ in range(6)]
                outs = [p.communicate()[0] for p in ps]
                if one.returncode or any(o != one.stdout for o in outs):
                    print("NOT deterministic:", prop, part["name"])
                    return 1
                n += 240 * 2 * 7
                print(prop, part["name"], "deterministic")
        print(n, "executions compared")
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
