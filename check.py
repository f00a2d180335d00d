#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and decides one property.

  check.py <property> [quick|thorough]     run the check (tier also from VERIF_TIER)
  check.py replay <file> [--trace]         run a replay file
  check.py build [<property>...]           build only
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
GUARD = "/opt/vp/guard"
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
FINDINGS = os.path.join(HERE, "known-findings.txt")
FLAGS = ["-std=c++14", "-O1", "-fno-pie", "-fwrapv", "-w", "-I" + INC, "-I" + GUARD, "-I" + SIM]
# Worlds whose policies throw never execute undefined behaviour: the compiler's checks end the process there.
# (Where handlers return, the operation degrades to the built-in one, overflow included.)
UB = ["-fno-wrapv", "-fsanitize=signed-integer-overflow,shift-exponent,integer-divide-by-zero,bounds,return,unreachable", "-fsanitize-undefined-trap-on-error"]
CPUS = max(2, min(8, os.cpu_count() or 8))

COMMON = ["alloc", "model", "plan", "exec_arith", "gen_arith", "exec_stream", "gen_stream", "gen_expr", "exec_checked", "gen_checked", "main"]
THREADS = ["-fsanitize=thread"]          # instrumentation only: the simulator supplies the functions it calls
WRAP = ["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_once"]
SLICES = {1: [(0, 5), (5, 9), (9, 14), (14, 30)], 2: [(0, 5), (5, 9), (9, 14), (14, 30)], 8: [(0, 4), (4, 30)], 9: [(0, 4), (4, 30)]}
WORLDS = {}     # world name -> [(object name, source, defines)]
for n, name in enumerate(["native_strict", "automatic_strict", "cpp_8_16_16_32_64_strict", "native_handlers",
                          "automatic_handlers", "native_loose", "automatic_loose", "native_literals", "automatic_literals", "native_kinds", "automatic_kinds", "cpp_8_16_32_64_64_strict"], 1):
    ub = UB if name.endswith(("strict", "literals", "kinds")) else []
    WORLDS[name] = [("w%d_%d" % (n, lo), "world.cpp", ub + ["-DWORLD=%d" % n, "-DROW_LO=%d" % lo, "-DROW_HI=%d" % hi])
                    for lo, hi in SLICES.get(n, [(0, 30)])]
PAIR_SETS, QUICK_SETS = 20, 4      # pairs of random types; the first sets belong to the quick tier, the others to the thorough one
for k in range(1, PAIR_SETS + 1):
    for n, name in enumerate(["native_pairs", "automatic_pairs", "cpp_pairs"], 13):
        WORLDS["%s%d" % (name, k)] = [("w%d_%d_%d" % (n, k, lo), "world.cpp", UB + ["-DWORLD=%d" % n, "-DPAIR_SET=%d" % k, "-DROW_LO=%d" % lo, "-DROW_HI=%d" % (lo + 24)]) for lo in (0, 24)]
HPAIR_SETS, QUICK_HPAIRS = 10, 2       # the same pairs with the simulator's handlers
for k in range(1, HPAIR_SETS + 1):
    for n, name in enumerate(["native_hpairs", "automatic_hpairs", "cpp_hpairs"], 16):
        WORLDS["%s%d" % (name, k)] = [("w%d_%d_%d" % (n, k, lo), "world.cpp", ["-DWORLD=%d" % n, "-DPAIR_SET=%d" % k, "-DROW_LO=%d" % lo, "-DROW_HI=%d" % (lo + 24)]) for lo in (0, 24)]
TRIPLE_SETS, QUICK_TRIPLES = 12, 4         # triples of random types for expressions
for k in range(1, TRIPLE_SETS + 1):
    for n, name in enumerate(["expr_native", "expr_automatic", "expr_cpp"], 1):
        WORLDS["%s_t%d" % (name, k)] = [("et%d_%d" % (n, k), "expr_world.cpp", UB + ["-DEWORLD=%d" % n, "-DTRIPLE_SET=%d" % k])]
for n, name in enumerate(["stream_native_strict", "stream_native_handlers", "stream_automatic_loose"], 1):
    WORLDS[name] = [("s%d" % n, "stream_world.cpp", (UB if name.endswith("strict") else []) + ["-DSWORLD=%d" % n])]
for n, name in enumerate(["expr_native_strict", "expr_automatic_strict", "expr_cpp_strict", "expr_native_handlers"], 1):
    WORLDS[name] = [("e%d_%d" % (n, lo), "expr_world.cpp", ([] if n == 4 else UB) + ["-DEWORLD=%d" % n, "-DTRIPLE_LO=%d" % lo, "-DTRIPLE_HI=%d" % hi])
                    for lo, hi in [(0, 4), (4, 8), (8, 12), (12, 16)]]

FALLBACK = {"stream_world.cpp": ["-DNO_WIDE"]}       # units that can do with less, if the whole does not compile

WORLDS["checked"] = [("checked", "checked_world.cpp", UB)]


def props(tier="quick"):
    """property -> worlds, from the simulator's own table"""
    txt = open(os.path.join(SIM, "main.cpp")).read()
    def some(names, quick, every):
        return [n % k for k in range(1, (quick if tier == "quick" else every) + 1) for n in names]
    sets = {"pairs": some(("native_pairs%d", "automatic_pairs%d", "cpp_pairs%d"), QUICK_SETS, PAIR_SETS),
            "hpairs": some(("native_hpairs%d", "automatic_hpairs%d", "cpp_hpairs%d"), QUICK_HPAIRS, HPAIR_SETS),
            "nhpairs": some(("native_hpairs%d",), QUICK_HPAIRS, HPAIR_SETS),
            "triples": some(("expr_native_t%d", "expr_automatic_t%d", "expr_cpp_t%d"), QUICK_TRIPLES, TRIPLE_SETS)}
    table = {m.group(1): m.group(2).split(",") for m in re.finditer(r'\{ "(C\d\d)", "\w+", "([\w,]+)"', txt)}
    return {c: [x for w in ws for x in sets.get(w, [w])] for c, ws in table.items()}


def tree_hash():
    h = hashlib.sha256()
    for root in (INC, GUARD, SIM):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    h.update(" ".join(FLAGS + UB).encode())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def build(worlds, key, threads=False):
    """compile what is missing for these worlds and link; returns (binary, worlds that do not compile)"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    th = tree_hash()
    d = os.path.join(BUILD, th)
    for old in os.listdir(BUILD):
        if old not in (th, ".lock"):
            shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    pre, tf = ("t_", THREADS) if threads else ("", [])
    units = [(c, c + ".cpp", []) for c in COMMON + ["sched" if threads else "sched_stub"]]
    units += [(pre + "catcher", "catcher.cpp", tf), (pre + "catcher2", "catcher.cpp", tf + ["-DSECOND_UNIT"])]
    wunits = [(w, (pre + o, src, defs + tf)) for w in worlds for o, src, defs in WORLDS[w]]
    jobs = [(None, u) for u in units] + wunits
    jobs.sort(key=lambda j: 0 if j[1][1] == "world.cpp" else 1)

    def one(j):
        w, (obj, src, defs) = j
        o = os.path.join(d, obj + ".o")
        if os.path.exists(o):
            return j, 0, ""
        cmd = ["g++"] + FLAGS + defs + ["-c", os.path.join(SIM, src), "-o", o + ".tmp"]
        r = subprocess.run(cmd, capture_output=True, text=True, errors="backslashreplace")
        rc = r.returncode
        if rc and src in FALLBACK:          # what can still be judged, is
            rc = -1 if subprocess.run(cmd + FALLBACK[src], capture_output=True, text=True, errors="backslashreplace").returncode == 0 else rc
        if rc <= 0:
            os.rename(o + ".tmp", o if rc == 0 else o + ".part")
            return j, rc, r.stderr[-3000:]
        return j, rc, r.stderr[-3000:]
    broken, objs = {}, []
    with cf.ThreadPoolExecutor(CPUS) as ex:
        for (w, u), rc, err in ex.map(one, jobs):
            o = os.path.join(d, u[0] + ".o")
            if rc == 0:
                objs.append(o)
            elif w is None:
                raise BuildError("%s does not compile\n%s" % (u[1], err))
            else:
                broken[w + " (" + u[0] + ")"] = err
                if rc < 0:
                    os.rename(o + ".part", o + ".part.o")
                    objs.append(o + ".part.o")
    exe = os.path.join(d, "sim-" + key + ("-partial" if broken else ""))
    if not os.path.exists(exe):
        r = subprocess.run(["g++", "-no-pie"] + objs + (WRAP if threads else []) + ["-o", exe + ".tmp", "-lpthread"], capture_output=True, text=True, errors="backslashreplace")
        if r.returncode:
            raise BuildError("link: " + r.stderr[-3000:])
        os.rename(exe + ".tmp", exe)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exe, broken


def known(prop):
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2).replace("%20", " "), m.group(3)))
    return out


def campaign(exe, prop, seed, secs, runs=10**9, workers=CPUS, out="campaign.json", budget=40, rehearse=0):
    cmd = [exe, "campaign", "--property", prop, "--seed", str(seed), "--runs", str(runs), "--max-seconds", str(secs),
           "--workers", str(workers), "--out", out, "--replay-dir", REPLAYS, "--min-budget", str(budget), "--rehearse", str(rehearse)]
    r = subprocess.run(cmd, capture_output=True, text=True, errors="backslashreplace")
    res = json.load(open(out, errors="backslashreplace"), strict=False) if os.path.exists(out) else None
    if res is None or (r.returncode not in (0, 1) and not res["gate_fail"]):
        raise RuntimeError("campaign ended with %d: %s" % (r.returncode, r.stderr[-2000:]))
    res["stderr"] = r.stderr[-2000:]
    return res


def decide(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    table = props(tier)
    if prop not in table:
        print("unknown property " + prop)
        return 2
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    print("property=%s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    try:
        exe, broken = build(table[prop], prop + ("" if tier == "quick" else "-" + tier), prop == "C10")
    except BuildError as e:
        print("ERROR: " + str(e))
        return 2
    t_build = time.time() - t0
    tmp = os.path.join(os.path.dirname(exe), "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp)
    try:
        kn = known(prop)
        if kn:
            os.environ["SIM_KNOWN"] = os.path.join(tmp, "known")
            open(os.environ["SIM_KNOWN"], "w").write("\n".join(s for s, _ in kn) + "\n")
        # 1. determinism: the same runs, by one worker and by eight, in different processes
        nd = 600 if tier == "quick" else 4000
        a = campaign(exe, prop, seed + 7777, 60, runs=nd, workers=CPUS, out=tmp + "/d1.json", rehearse=1)
        b = campaign(exe, prop, seed + 7777, 60, runs=nd, workers=3, out=tmp + "/d2.json", rehearse=1) if not a["violations"] else a
        doubt = ""
        if not a["violations"] and not b["violations"] and (a["runs"] != b["runs"] or a["hash_sum"] != b["hash_sum"]):
            doubt = "runs are not deterministic: %s %s" % (a["hash_sum"], b["hash_sum"])
        # 2. the search
        secs = float(os.environ.get("VERIF_SECONDS", 0)) or (20 if tier == "quick" else 480)
        r = campaign(exe, prop, seed, secs, out=tmp + "/c.json") if not a["violations"] else a
        viol = r["violations"]
        for x in (a, b, r):
            if x["gate_fail"] and not viol:
                doubt = doubt or x["stderr"]
        rc = 0
        for v in viol:
            # 3. the replay file must fail the same way in fresh processes
            res = [subprocess.run([exe, "replay", v["replay"]], capture_output=True, text=True, errors="backslashreplace") for _ in range(2)]
            want = "hash %s\nVIOLATED %s" % (v["hash"], v["signature"])
            if all(x.returncode == 1 and "\nVIOLATED " + v["signature"] in x.stdout for x in res):
                if not all(x.stdout.startswith(want) for x in res):
                    print("NOTE: the values in the trace differ from process to process (the outcome depends on addresses or memory that was never written)")
            else:
                print("ERROR: %s does not reproduce: %s" % (v["replay"], res[0].stdout))
                return 2
            tr = subprocess.run([exe, "trace", v["replay"]], capture_output=True, text=True, errors="backslashreplace")
            with open(v["replay"], "a", errors="backslashreplace") as f:
                f.write("".join("# trace: " + l + "\n" for l in tr.stdout.splitlines()[:400]))
            print(v["text"])
            print("seed %d run %d, minimised to %d steps%s" % (v["seed"], v["run"], v["steps"], " after %d earlier runs" % v["runs_before"] if v["runs_before"] else ""))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(v["replay"], HERE)))
            rc = 1
        if doubt and rc == 0:
            print("ERROR: " + doubt)
            return 2
        for s, what in kn:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        if broken and rc == 0:
            for w, e in broken.items():
                print("ERROR: part of world %s does not compile\n%s" % (w, e))
            rc = 2
        samples = []
        for i in (0, 1):
            pl = subprocess.run([exe, "plan", prop, str(seed), str(i)], capture_output=True, text=True, errors="backslashreplace").stdout
            pf = os.path.join(tmp, "sample%d" % i)
            open(pf, "w", errors="backslashreplace").write(pl)
            tr = subprocess.run([exe, "trace", pf], capture_output=True, text=True, errors="backslashreplace").stdout
            samples.append({"run": i, "plan": pl.splitlines()[:40], "trace": tr.splitlines()[:25]})
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": r["runs"], "distinct_nontrivial": r["distinct_runs"],
                "rule": RULE, "samples": samples,
                "distinct_states": r["distinct"], "steps_judged": r["steps"], "error_reports_and_exceptions": r["reports"],
                "simulated_runs_per_hour": int(r["runs"] / max(r["seconds"], 1e-3) * 3600), "seeds_per_hour": int(r["runs"] / max(r["seconds"], 1e-3) * 3600),
                "simulated_time": {"operation_steps": r["steps"], "device_refills": r["simtime"], "schedule_points": r["points"], "unit": "the code has no clock: time is counted in steps, device transfers and schedule points"},
                "faults_injected": r["kinds"], "steps_with_allocation_failure": r["faults_alloc"], "thread_switches": r["switches"],
                "distinct_states_measure": "distinct (world, operation, operand types, kind of operand values, outcome, code, fault kinds, previous outcome) tuples, in a 2^25 bit map",
                "runs_per_world": r["worlds"],
                "determinism": {"runs_repeated": a["runs"], "worker_counts": [CPUS, 3], "trace_hash_sum": [a["hash_sum"], b["hash_sum"]]},
                "real_components": ["every header of boost::safe_numerics a client includes", "libstdc++ streams, locales, exceptions and error codes"],
                "simulated_components": ["memory allocator outcomes (malloc and friends interposed)", "stream buffers (devices)", "error handlers of user-written exception policies", "choice of the client that runs next"],
                "build_seconds": round(t_build, 1), "search_seconds": round(r["seconds"], 1),
                "worlds_that_do_not_compile": sorted(broken),
            },
            "assumptions": ["two's complement LP64 platform, gcc, -fwrapv", "seeded sampling of histories and faults: a quiet run is evidence, not proof"],
            "wall_s": round(time.time() - t0, 1), "violations": len(viol),
        }
        json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
        print("%d runs, %d steps, %d distinct states, %d reports, build %.0f s, search %.0f s: %s"
              % (r["runs"], r["steps"], r["distinct"], r["reports"], t_build, r["seconds"], "holds" if rc == 0 else "exit %d" % rc))
        return rc
    except RuntimeError as e:
        print("ERROR: " + str(e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


RULE = ("A seed is expanded into a plan: a world (promotion policy x exception policy), clients, operand types, initial values, a sequence of operations with values "
        "aimed at range boundaries, and faults (allocation failures inside steps, handler behaviour, device behaviour, thread switches). The plan is executed on the real library "
        "and every step judged against the exact model or the built-in reference. A run is non-trivial when at least one report, fault or thread switch happened in it, and distinct when its sequence of abstract states (world, operations, operand types, kinds of values, outcomes, faults) was not seen before in this campaign (2^25 bit map, so a lower bound).")


def main():
    sys.stdout.reconfigure(errors="backslashreplace")
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "build":
        ps = sys.argv[2:] or ["all"]
        for p in ps:
            exe, broken = build(sorted(WORLDS) if p == "all" else props()[p], p, p == "C10")
            print(exe, sorted(broken))
        return 0
    if sys.argv[1] == "replay":
        txt = open(sys.argv[2], errors="backslashreplace").read()
        ws = sorted(set(re.findall(r"^world (\S+)", txt, re.M)))
        th = re.search(r"^threaded 1", txt, re.M) is not None
        prop = re.search(r"^property (\S+)", txt, re.M).group(1)
        os.environ["SIM_KNOWN"] = "/dev/stdin"
        exe, broken = build(ws, "replay-" + hashlib.sha256(" ".join(ws).encode()).hexdigest()[:8] + ("-t" if th else ""), th)
        return subprocess.run([exe, "trace" if "--trace" in sys.argv else "replay", sys.argv[2]], input="".join(s + "\n" for s, _ in known(prop)), text=True).returncode
    if sys.argv[1] == "selftest":       # tools and sources are here; every check builds for itself
        subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
        ok = os.path.isdir(INC) and all(w in WORLDS for ws in props().values() for w in ws)
        print("ok" if ok else "incomplete")
        return 0 if ok else 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return decide(sys.argv[1], tier)


if __name__ == "__main__":
    sys.exit(main())
