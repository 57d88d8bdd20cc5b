#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: builds the simulator from /repo's working tree, runs every scenario of the property, judges."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + "/sim")
import build
# seconds of search per scenario: (quick, thorough); default below
WEIGHT = {"aead_resume": 0.2, "block_cipher_history": 0.3, "cipher_resume": 0.3, "parallel_for": 0.2, "fail_construct": 0.3, "secure_vector": 0.3, "memory_pool": 0.3, "slow_threads": 0.5, "random_threads": 0.5}
QUICK_TOTAL, THOROUGH_TOTAL = 40.0, 780.0

def findings(prop):
    known, fixed = [], []
    for l in open(V + "/known-findings.txt"):
        l = l.strip()
        if not l or l.startswith("#"): continue
        kind, rest = l.split(": ", 1)
        if not rest.startswith("property=" + prop + " "): continue
        rest = rest.split(" ", 1)[1]
        if kind == "known": sig, what = rest.split(" ", 1); known.append((sig[4:].replace("%20", " "), what))
        else: fixed.append(rest)
    return known, fixed

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    os.makedirs(V + "/evidence", exist_ok=True); rdir = os.path.join(V, ".build", "replays"); os.makedirs(rdir, exist_ok=True)
    exe = build.build(prop)
    if not exe: print("build failed", file=sys.stderr); return 2
    tb = time.time() - t0
    scs = [l.split("\t") for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()]
    scs = [s for s in scs if prop in s[1].split(",")]
    only = os.environ.get("SIM_ONLY")
    if only: scs = [s for s in scs if s[0] in only.split(",")]
    if not scs: print("no scenario for", prop, file=sys.stderr); return 2
    known, fixed = findings(prop)
    kf = f"{rdir}/known-{prop}-{os.getpid()}"; open(kf, "w").write("".join(k + "\n" for k, _ in known))
    total = float(os.environ.get("SIM_TIME", QUICK_TOTAL if tier == "quick" else THOROUGH_TOTAL))
    w = {s[0]: WEIGHT.get(s[0], 1.0) for s in scs}; sw = sum(w.values())
    outs, bad, errs = [], [], []
    for s in scs:
        of = f"{rdir}/{s[0]}-{os.getpid()}.json"; budget = total * w[s[0]] / sw
        r = subprocess.run([exe, "batch", "--scenario", s[0], "--seed", str(seed), "--time", f"{budget:.2f}", "--jobs", os.environ.get("SIM_JOBS", "8"), "--out", of, "--replay-dir", rdir, "--known", kf, "--thorough", "1" if tier == "thorough" else "0", "--shrink", "25"], stderr=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        try: o = json.load(open(of)); os.remove(of)
        except Exception as e: errs.append(f"{s[0]}: no result (rc {r.returncode}): {e} {r.stderr[-500:]}"); continue
        outs.append(o)
        if o["errors"]: errs.append(f"{s[0]}: {o['errors']} runs ended in a simulator error: {o['error']} (seed {o['error_seed']})")
        for v in o["violations"]:
            if v["known"]: continue
            if v["confirmed"]: bad.append((s[0], v))
            elif not any(x["confirmed"] for x in o["violations"]): errs.append(f"{s[0]}: violation {v['sig']} (seed {v['seed']}) was not reproduced: {r.stderr[-300:]}")
        if not o["runs"]: errs.append(f"{s[0]}: no runs")
        if o["runs"] and not o["nontrivial"] and not o["violations"]: errs.append(f"{s[0]}: no run was non-trivial")
        if bad: break
    os.remove(kf)
    wall = time.time() - t0
    cnt = {}
    for o in outs:
        for k, n in o["counters"].items(): cnt[k] = cnt.get(k, 0) + n
    S = lambda k: sum(o[k] for o in outs); sw_ = sum(o["wall"] for o in outs) or 1
    samples = []
    for o in outs:
        samples.append({k: o[k] for k in ("scenario", "rule", "runs", "nontrivial", "distinct_nontrivial", "distinct_schedules", "discarded", "switches", "preemptions", "threads", "sim_s", "det_checks", "wall")})
    ex = outs[0]["scenario"] if outs else None
    if ex:
        one = subprocess.run([exe, "one", "--scenario", ex, "--seed", str(seed), "--index", "3"], stdout=subprocess.PIPE, text=True, errors="replace").stdout
        samples.append({"scenario": ex, "index": 3, "run": one[:1500]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(bad),
          "coverage": {"evaluations": S("runs"), "distinct_nontrivial": S("distinct_nontrivial"),
                       "rule": "one evaluation is one simulated run, a pure function of its seed; non-trivial by scenario: " + "; ".join(f"{o['scenario']}: {o['rule']}" for o in outs) + ". distinct: different hash of the run's whole event history (choices, schedule, data)",
                       "samples": samples, "runs_per_hour": int(S("runs") / sw_ * 3600), "seeds_per_hour": int(S("runs") / sw_ * 3600), "simulated_seconds": round(S("sim_s"), 3),
                       "distinct_interleavings": S("distinct_schedules"), "interleaving_measure": "hash of the sequence of (step, thread) switch decisions of a run", "context_switches": S("switches"), "preemptions": S("preemptions"), "simulated_threads": S("threads"),
                       "determinism_rechecks": S("det_checks"), "faults_injected": {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith("fault.")}, "probes": {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith("probe.")},
                       "operations": {k[3:]: v for k, v in sorted(cnt.items()) if k.startswith("op.")}, "schedulers": {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith("sched.")},
                       "real_code": "every CEX source of /repo/CEX that the project builds, compiled natively with memory-access instrumentation", "stubs": "operating system (Win32 API, winsock, CSP, performance counters), CPU identification and entropy instructions, thread scheduler, heap, clock, C file I/O: simulated",
                       "build_s": round(tb, 1), "errors": errs},
          "assumptions": ["the library is compiled by clang for Linux with stand-ins for the Win32 API, not by the project's mingw toolchain", "sampling: a clean batch is evidence, not proof"]}
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    seen = {v["sig"]: v["count"] for o in outs for v in o["violations"] if v["known"]}
    for sig, what in known:
        n = sum(c for k, c in seen.items() if k == sig or (sig.endswith("*") and k.startswith(sig[:-1])))
        print(f"KNOWN-FINDING: property={prop} {what} [{sig}; seen in {n} runs]")
    print(f"{prop} {tier}: {S('runs')} runs, {S('distinct_nontrivial')} distinct non-trivial, {S('distinct_schedules')} interleavings, {wall:.0f} s")
    for e in errs: print("ERROR " + e, file=sys.stderr)
    if bad:
        sc, v = bad[0]; keep = f"{V}/evidence/{prop}-{os.path.basename(v['replay'])}"; shutil.copy(v["replay"], keep)
        print(f"{sc}: {v['sig']}: {v['detail'][:1200]}")
        print(f"replay with: python3 {V}/replay.py {keep}")
        print(f"VIOLATION property={prop} replay={keep}")
        return 1
    return 2 if errs else 0
sys.exit(main())
