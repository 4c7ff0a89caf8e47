#!/usr/bin/env python3
"""check.py <property>       search for a violation of the property in /repo's current working tree
check.py --replay <file>   execute a replay file against /repo's current working tree
Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough), VERIF_TIME (seconds, overrides the tier's)."""
import json, os, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))
import build as sim_build

WORKERS = 8
QUICK, THOROUGH = 40, 900

REAL = {
    "libeni": "lib/**, include/eni/** (real code, unmodified, compiled with a callback per memory access)",
    "operations": "tools/eni_crypto, tools/eni_scrypt, examples/eni/* (real code)",
    "command line tools": "tools/eni_cli (real code, main() called by the simulator)",
    "libcrypto, libstdc++, jsmn, boost": "real code; libcrypto's own allocations are counted but never fail",
}
STUB = {
    "memory": "simulated heap: seeded placement, contents, reuse, failures; checks every access and release",
    "scheduler": "seeded: user-level threads switched at memory accesses and locks",
    "clock, process identity, environment, entropy, locale, hostname, temporary files": "seeded values",
    "standard output": "in-memory, with short writes, EINTR, ENOSPC, EPIPE, EIO, EAGAIN, EBADF",
    "dynamic loader": "in-memory table of libraries and operations",
    "terminal": "counts prompts and answers them",
    "process crash": "the simulated process ends at a seeded memory access and a new one starts",
}


def fail_tool(msg):
    print("CHECK-ERROR " + msg)
    sys.exit(2)


def get_exe():
    try:
        return sim_build.build()
    except sim_build.BuildError as e:
        fail_tool("the simulator does not build from the current tree:\n" + str(e))


def replay(exe, path):
    p = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        rc, out = replay(get_exe(), sys.argv[2])
        print(out, end="")
        sys.exit({0: 0, 1: 1}.get(rc, 2))
    if len(sys.argv) != 2:
        print(__doc__)
        sys.exit(2)
    prop = sys.argv[1]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    secs = float(os.environ.get("VERIF_TIME", 0)) or (THOROUGH if tier == "thorough" else QUICK)
    t0 = time.time()
    exe = get_exe()
    t1 = time.time()
    evid = os.path.join(VERIF, "evidence")
    os.makedirs(evid, exist_ok=True)
    out = tempfile.mkdtemp(prefix="sim-%s-" % prop)
    try:
        rc = search(exe, prop, tier, seed, secs, out, evid, t0, t1)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    sys.exit(rc)


def search(exe, prop, tier, seed, secs, out, evid, t0, t1):
    procs = []
    for w in range(WORKERS):
        # some workers use the image with redzones around locals and globals
        image = exe + "-s" if w == WORKERS - 1 or (w == 3 and prop != "C03") else exe
        cmd = [image, "search", prop, "--seed", str(seed), "--worker", str(w), "--workers", str(WORKERS), "--time", str(secs), "--out", out]
        if tier == "thorough":
            cmd.append("--thorough")
        procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(out, "err.%d" % w), "wb")))
    limit = t1 + secs + 300
    stop = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.1)
        if stop is None and any(p.poll() not in (None, 0, 3) for p in procs):
            stop = time.time() + 3
        if (stop and time.time() > stop) or time.time() > limit:
            for p in procs:
                if p.poll() is None:
                    p.kill()
    res, bad = [], []
    for w, p in enumerate(procs):
        p.wait()
        try:
            with open(os.path.join(out, "%s.%d.json" % (prop, w))) as f:
                j = json.load(f)
        except (OSError, ValueError):
            if p.returncode == 0 or stop is None:
                bad.append("worker %d ended with status %s: %s" % (w, p.returncode, open(os.path.join(out, "err.%d" % w), "rb").read()[-500:].decode("utf-8", "replace")))
            continue
        j["w"] = w
        res.append(j)
        if j["status"] not in ("ok", "violation"):
            bad.append("%s: %s" % (j["status"], j["msg"]))
    # a violation counts when its minimised trace reproduces it twice, in fresh processes
    violation = None
    for j in res:
        if j["status"] != "violation" or violation:
            continue
        for kind in ("replay", "full"):
            src = os.path.join(out, "%s.%d.%s" % (prop, j["w"], kind))
            if not os.path.exists(src):
                continue
            a, b = replay(exe, src), replay(exe, src)
            if a[0] == 1 and b[0] == 1 and a[1].split()[:2] == b[1].split()[:2]:
                if a != b or "same-as-recorded" not in a[1]:
                    print("NOTE: the replay shows the violation, but not step by step as recorded")
                dst = os.path.join(evid, prop + ".replay")
                shutil.copyfile(src, dst)
                violation = (j["msg"], dst)
                break
            bad.append("a violation did not replay exactly (%s): %s / %s" % (kind, a, b))
    known, other = known_findings(exe, prop)
    violation = violation or other
    write_evidence(prop, tier, seed, out, evid, res, violation, t0, t1)
    if violation:
        print(violation[0])
        print("VIOLATION property=%s replay=%s" % (prop, violation[1]))
        print("reproduce: python3 check.py --replay " + violation[1])
        return 1
    if bad or not res:
        print("CHECK-ERROR " + "\n".join(bad or ["no worker reported"]))
        return 2
    for line in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, line))
    runs = sum(j["runs"] for j in res)
    print("%s held: %d simulated runs in %.1f s (build %.1f s)" % (prop, runs, time.time() - t1, t1 - t0))
    return 0


def known_findings(exe, prop):
    """Replays every listed finding: (lines to print, a violation the list does not describe)."""
    lines, other = [], None
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        entries = [x for x in f.read().split("\n") if x.startswith("known: property=%s " % prop)]
    for x in entries:
        _, _, rep, cls, what = x.split(" ", 4)
        path = os.path.join(VERIF, rep.split("=", 1)[1])
        rc, out = replay(exe, path)
        if rc == 1 and (" " + cls + " ") in out.split("\n")[0]:
            lines.append(what)
        elif rc == 1 and other is None:
            other = (out.strip(), path)
        elif rc not in (0, 1):
            fail_tool("replay of %s: %s" % (path, out))
    return lines, other


def write_evidence(prop, tier, seed, out, evid, res, violation, t0, t1):
    counts, distinct, cov = {}, set(), b""
    for j in res:
        for k, v in j["counts"].items():
            counts[k] = counts.get(k, 0) + v
        try:
            d = open(os.path.join(out, "%s.%d.distinct" % (prop, j["w"])), "rb").read()
            distinct.update(struct.unpack("<%dQ" % (len(d) // 8), d))
            c = open(os.path.join(out, "%s.%d.cov" % (prop, j["w"])), "rb").read()
            cov = bytes(x | y for x, y in zip(cov, c)) if cov else c
        except OSError:
            pass
    nst = (1 << 17) // 8
    pop = lambda b: sum(bin(x).count("1") for x in b)
    runs = sum(j["runs"] for j in res)
    wall = max([j["secs"] for j in res] + [0.001])
    samples = [s for j in res for s in j["samples"][:1]][:3]
    coverage = {
        "evaluations": runs,
        "distinct_nontrivial": len(distinct),
        "rule": res[0]["rule"] if res else "",
        "samples": samples,
        "simulated_runs_and_seeds_per_hour": int(runs * 3600 / wall),
        "seed_range": "runs k = 0.. of master seed %d, dealt to %d workers" % (seed, WORKERS),
        "simulated_time": {"memory_accesses": counts.get("sim.steps", 0), "simulated_processes": counts.get("sim.lives", 0),
                           "allocations": counts.get("sim.allocs", 0),
                           "note": "the code has no timers; simulated time is counted in instrumented memory accesses"},
        "faults_injected": {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("fault.")},
        "seams_used": {k: v for k, v in sorted(counts.items()) if k.split(".")[0] in ("seam", "env", "sched", "calls")},
        "distinct_states": {"count": pop(cov[:nst]), "measure": "bitmap of 131072 over (operation kind, outcome, size class, fault) tuples and preemption points"},
        "functions_reached": {"count": pop(cov[nst:]), "measure": "bitmap over entry addresses of instrumented functions"},
        "executions_repeated_to_check_determinism": sum(j["twice"] for j in res),
        "components_real": REAL,
        "components_simulated": STUB,
    }
    e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
         "assumptions": ["one process per simulated node; nodes share nothing but the call sequence",
                         "interleavings are explored at instrumented memory accesses under sequential consistency",
                         "allocations made inside libcrypto do not fail"],
         "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    if violation:
        e["violation"] = {"what": violation[0], "replay": violation[1]}
    tmp = os.path.join(evid, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=True)
    os.rename(tmp, os.path.join(evid, prop + ".json"))


if __name__ == "__main__":
    main()
