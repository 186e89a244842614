#!/usr/bin/env python3
"""Builds and runs the simulation that decides one property.

  check.py build                 build every world from /repo's working tree
  check.py C05                   run one check (VERIF_SEED, VERIF_TIER)
  check.py C05 replay FILE       replay a recorded violation
  check.py C05 run N             print the events of run N of this seed

exit 0: the property held on every run; 1: VIOLATION line; 2: error.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("IEME_REPO", "/repo"))
BUILD = VERIF / "build"
EVIDENCE = VERIF / "evidence"
REPLAYS = VERIF / "replays"
WORKERS = os.cpu_count() or 8

POLICIES = ["safe", "safe_reduced_i", "safe_reduced_o", "safe_reduced_io",
            "fast", "fast_reduced_i", "fast_reduced_o", "fast_reduced_io"]

# property: (runs in the quick tier, runs in the thorough tier, uses "calc", "span" or neither)
WORLDS = {
    "C01": (400_000, 6_000_000, "calc"),
    "C02": (400_000, 6_000_000, ""),
    "C03": (400_000, 6_000_000, ""),
    "C04": (400_000, 6_000_000, ""),
    "C05": (400_000, 6_000_000, ""),
    "C06": (400_000, 6_000_000, ""),
    "C07": (400_000, 6_000_000, ""),
    "C08": (400_000, 6_000_000, "calc"),
    "C09": (400_000, 6_000_000, "calc"),
    "C11": (400_000, 6_000_000, "span"),
    "C10": (400_000, 6_000_000, ""),
    "C16": (400_000, 6_000_000, "calc"),
    "C15": (400_000, 6_000_000, "calc"),
    "C14": (400_000, 6_000_000, ""),
    "C13": (400_000, 6_000_000, "calc"),
    "C12": (400_000, 6_000_000, "span"),
    "C21": (400_000, 6_000_000, "het"),
    "C22": (400_000, 6_000_000, "calc"),
    "C23": (400_000, 6_000_000, "calc"),
    "C24": (400_000, 6_000_000, "work"),
    "C25": (400_000, 6_000_000, ""),
    "C26": (400_000, 6_000_000, "life"),
}

CXX = "g++"
PLAIN = ["-std=c++20", "-O2", "-g1", "-fno-threadsafe-statics", "-Wall", "-Wextra"]
INSTRUMENTED = ["-std=c++20", "-O1", "-g1", "-fsanitize=thread",
                "-ftrivial-auto-var-init=pattern", "-Wall", "-Wextra"]

COUNTED = INSTRUMENTED + ["-fsanitize-coverage=trace-pc"]

# Objects whose static initialisers and destructors the simulator runs (C26).
LIFE = ["objcopy", "--rename-section", ".init_array=lib_init,alloc,load,data,contents",
        "--rename-section", ".fini_array=lib_fini,alloc,load,data,contents"] + [
    f"--redefine-sym={a}=life_{b}" for a, b in
    (("__cxa_atexit", "cxa_atexit"), ("__cxa_thread_atexit", "cxa_thread_atexit"), ("atexit", "atexit"))]


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(str(p).encode())
        h.update(p.read_bytes())
    return h.hexdigest()[:20]


def library_files():
    return sorted(p for p in (REPO / "include").rglob("*") if p.is_file())


def sim_headers():
    return sorted((VERIF / "sim").glob("*.hpp")) + sorted((VERIF / "worlds").glob("*.hpp"))


def job(source, name, flags, uses_library, post=()):
    deps = [source] + sim_headers() + (library_files() if uses_library else [])
    cmd = [CXX] + flags + [f"-I{VERIF}/sim", f"-I{VERIF}/worlds"]
    if uses_library:
        cmd.append(f"-I{REPO}/include")
    key = digest(deps, " ".join(cmd) + " ".join(post) + compiler_version())
    return (BUILD / "obj" / f"{name}.{key}.o", cmd + ["-c", str(source)], list(post))


_version = None


def compiler_version():
    global _version
    if _version is None:
        _version = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
    return _version


def jobs_for(prop):
    uses = WORLDS[prop][2]
    sim = VERIF / "sim"
    out = [job(sim / f"{n}.cpp", n, PLAIN, False) for n in ("sim", "threads", "model", "pipe")]
    if "span" in uses:
        out.append(job(VERIF / "worlds" / "span.cpp", "span", PLAIN, False))
        for p in POLICIES:
            out.append(job(VERIF / "worlds" / "span_policy.cpp", "span_" + p,
                           INSTRUMENTED + [f"-DPOLICY={p}"], True))
    if "het" in uses:
        out.append(job(VERIF / "worlds" / "het.cpp", "het", PLAIN, False))
        for p in POLICIES + ["safe_normalizing_i", "fast_ignoring_o"]:
            out.append(job(VERIF / "worlds" / "het_policy.cpp", "het_" + p,
                           INSTRUMENTED + [f"-DPOLICY={p}"], True))
    if "calc" in uses:
        out.append(job(sim / "calc.cpp", "calc", PLAIN, False))
        for p in POLICIES:
            out.append(job(sim / "calc_policy.cpp", "calc_" + p,
                           INSTRUMENTED + [f"-DPOLICY={p}"], True))
    world = VERIF / "worlds" / (prop.lower() + ".cpp")
    if "work" in uses: # the code under test counts its steps
        out.append(job(sim / "work.cpp", "work", PLAIN, False))
        out.append(job(sim / "calc.cpp", "calc", PLAIN, False))
        # (first: of the inline functions the linker keeps those that count)
        return [job(world, prop.lower(), COUNTED, True)] + [
            job(sim / "calc_policy.cpp", "work_" + p, COUNTED + [f"-DPOLICY={p}"], True)
            for p in POLICIES] + out
    if "life" in uses: # (first, for the same reason)
        out.append(job(sim / "calc.cpp", "calc", PLAIN, False))
        return [job(sim / "calc_policy.cpp", "life_" + p,
                    INSTRUMENTED + [f"-DPOLICY={p}", "-DCALC_WITHOUT_INITIALISERS"], True, LIFE)
                for p in POLICIES] + [job(world, prop.lower(), INSTRUMENTED, False)] + out
    out.append(job(world, prop.lower(), INSTRUMENTED, True))
    return out


def compile_one(item):
    obj, cmd, post = item
    if obj.exists():
        return None
    tmp = obj.with_name(obj.name + f".{os.getpid()}.tmp")
    p = subprocess.run(cmd + ["-o", str(tmp)], capture_output=True, text=True)
    if p.returncode != 0:
        return " ".join(cmd) + "\n" + p.stderr[-6000:]
    if post:
        p = subprocess.run(post + [str(tmp)], capture_output=True, text=True)
        if p.returncode != 0:
            return " ".join(post) + "\n" + p.stderr[-6000:]
    os.replace(tmp, obj)
    return None


def build(props):
    (BUILD / "obj").mkdir(parents=True, exist_ok=True)
    with open(BUILD / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        plan = {p: jobs_for(p) for p in props}
        todo = {j[0]: j for js in plan.values() for j in js}
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as pool:
            for err in pool.map(compile_one, todo.values()):
                if err:
                    print("build failed:\n" + err, file=sys.stderr)
                    sys.exit(2)
        binaries = {}
        for p, js in plan.items():
            objs = [str(j[0]) for j in js]
            key = hashlib.sha256("".join(objs).encode()).hexdigest()[:16]
            exe = BUILD / f"{p.lower()}.{key}"
            if not exe.exists():
                for old in BUILD.glob(f"{p.lower()}.*"):
                    if old.is_file():
                        old.unlink()
                tmp = exe.with_name(exe.name + ".tmp")
                r = subprocess.run([CXX, "-o", str(tmp)] + objs + ["-lpthread", "-ldl"],
                                   capture_output=True, text=True)
                if r.returncode != 0:
                    print("link failed:\n" + r.stderr[-6000:], file=sys.stderr)
                    sys.exit(2)
                os.replace(tmp, exe)
            binaries[p] = exe
        prune({o for o in todo})
    return binaries


def prune(keep):
    """Keep the newest few versions of every object."""
    groups = {}
    for o in (BUILD / "obj").glob("*.o"):
        groups.setdefault(o.name.split(".")[0], []).append(o)
    for versions in groups.values():
        versions.sort(key=lambda o: o.stat().st_mtime, reverse=True)
        for o in versions[4:]:
            if o not in keep:
                o.unlink()


def known_findings(prop):
    out = []
    path = VERIF / "known_findings.txt"
    for line in path.read_text().splitlines() if path.exists() else []:
        m = re.match(r"known: property=(\S+) class=(.+?) match=(.+)$", line)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


def check(prop, exe):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    quick_runs, thorough_runs, _ = WORLDS[prop]
    runs = thorough_runs if tier == "thorough" else quick_runs
    limit = 780 if tier == "thorough" else 300
    runs = int(os.environ.get("VERIF_RUNS", runs))
    work = BUILD / "work" / f"{prop}.{os.getpid()}"
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    EVIDENCE.mkdir(exist_ok=True)
    REPLAYS.mkdir(exist_ok=True)
    replay = REPLAYS / f"{prop}.json"
    replay.unlink(missing_ok=True)
    start = time.time()
    cmd = [str(exe), "--seed", str(seed), "--runs", str(runs), "--time", str(limit),
           "--workers", str(WORKERS), "--work", str(work), "--replay-out", str(replay)]
    for cls, pattern in known_findings(prop):
        cmd += ["--known", cls, pattern]
    rc = subprocess.run(cmd).returncode
    violation = None
    if rc == 1:
        # gate: the replay file alone, in a fresh process, reproduces it exactly
        r = subprocess.run([str(exe), "--replay", str(replay), "--work", str(work)],
                           capture_output=True, text=True)
        if r.returncode != 1:
            print(r.stdout[-3000:], r.stderr[-3000:], file=sys.stderr)
            print("the replay file does not reproduce the violation", file=sys.stderr)
            rc = 2
        else:
            violation = json.loads(replay.read_text())
    if rc not in (0, 1):
        print(f"error: the simulation of {prop} ended with {rc}", file=sys.stderr)
        sys.exit(2)
    result = json.loads((work / "result.json").read_text())
    wall = time.time() - start
    counters = result["counters"]
    faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in counters.items() if k.startswith("probe:")}
    other = {k: v for k, v in counters.items()
             if not k.startswith("fault:") and not k.startswith("probe:")}
    hours = max(result["search_s"], 1e-9) / 3600
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": result["runs"],
            "distinct_nontrivial": result["distinct_nontrivial"],
            "rule": result["rule"] + "; distinct by the hash of every event of the run",
            "samples": result["samples"],
            "exhaustive": False,
            "runs_requested": runs,
            "seeds": f"one seed per run, derived from VERIF_SEED={seed} and the run's index",
            "nontrivial_runs": result["nontrivial"],
            "discarded_runs": result["discarded"],
            "oracle_comparisons": result["judged"],
            "runs_per_hour": round(result["runs"] / hours),
            "seeds_per_hour": round(result["runs"] / hours),
            "simulated_seconds": result["sim_ns"] / 1e9,
            "simulated_events": result["events"],
            "scheduler_and_fault_decisions": result["decisions"],
            "distinct_interleavings_or_fault_sequences": result["distinct_schedules"],
            "distinct_states": result["distinct_states"],
            "distinct_counts_are_capped_per_worker": True,
            "faults_injected": faults,
            "rare_situations_reached": probes,
            "other_counters": other,
            "determinism_reruns_identical": result["determinism_reruns"],
            "real_components": result["real"],
            "stubbed_components": result["stub"],
        },
        "assumptions": [
            "g++ on x86-64; library headers from /repo/include compiled at -O1 with memory-access instrumentation",
            "the standard library below the headers behaves as documented",
        ],
        "wall_s": wall,
        "violations": 1 if violation else 0,
    }
    if violation:
        evidence["coverage"]["violation"] = {k: violation[k] for k in
                                             ("class", "message", "seed", "run",
                                              "decisions_found", "decisions_minimised")}
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")
    seen = set()
    for f in sorted(work.glob("known.*")):
        seen.update(f.read_text().splitlines())
    for line in sorted({s.split("\t")[0] for s in seen}):
        print(f"KNOWN-FINDING: property={prop} {line}")
    shutil.rmtree(work, ignore_errors=True)
    print(f"{prop}: {result['runs']} runs ({result['nontrivial']} non-trivial), "
          f"{result['judged']} comparisons, {sum(faults.values())} faults, {wall:.1f} s")
    if violation:
        print(f"{violation['class']}: {violation['message']}")
        print(f"run {violation['run']} of seed {seed}; "
              f"{violation['decisions_found']} decisions minimised to {violation['decisions_minimised']}")
        print(f"VIOLATION property={prop} replay={replay}")
        sys.exit(1)
    if result["nontrivial"] == 0:
        print("error: no run was non-trivial", file=sys.stderr)
        sys.exit(2)
    sys.exit(0)


def main():
    args = sys.argv[1:]
    if args == ["build"]:
        build(list(WORLDS))
        return
    if not args or args[0] not in WORLDS:
        print(__doc__, file=sys.stderr)
        sys.exit(2)
    prop = args[0]
    exe = build([prop])[prop]
    if len(args) == 3 and args[1] in ("replay", "run"):
        work = BUILD / "work" / f"{prop}.{os.getpid()}"
        work.mkdir(parents=True, exist_ok=True)
        extra = ["--seed", os.environ.get("VERIF_SEED", "1")] if args[1] == "run" else []
        rc = subprocess.run([str(exe), f"--{args[1]}", args[2], "--work", str(work)] + extra).returncode
        shutil.rmtree(work, ignore_errors=True)
        sys.exit(rc)
    check(prop, exe)


main()
