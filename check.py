#!/usr/bin/env python3
"""Builds the simulation of a property from /repo's working tree, runs it, and
reports.  usage: check.py C01 | check.py --setup | check.py --replay FILE |
check.py --determinism"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = V + "/sim"
BUILD = os.environ.get("SIM_BUILD", V + "/build")
sys.path.insert(0, V)
from props import CHECKS, COMPONENTS, PROBES, STUBS, ASSUME  # noqa: E402

SUT = ["clang++", "-std=c++17", "-O1", "-g", "-w", "-fno-builtin-memcmp", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
       "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1",
       "-DINDEXES_SIM_RECLAMATION_THRESHOLD=::sim_reclamation_threshold()", "-include", SIM + "/engine_hooks.h",
       "-I" + SIM + "/stubs", "-I" + SIM, "-I" + REPO + "/include", "-I" + REPO + "/src", "-c"]
HARN = ["clang++", "-std=c++17", "-O2", "-g", "-Wall", "-fno-builtin-memcmp", "-fno-builtin-bcmp", "-I" + SIM, "-c"]


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def files(d):
    for r, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x not in ("_build", ".git"))
        for f in sorted(fs):
            yield os.path.join(r, f)


def tree_hash(comp):
    h = hashlib.sha256()
    h.update(repr((SUT, HARN, COMPONENTS[comp])).encode())
    for d in (REPO + "/include", REPO + "/src", SIM):
        for f in files(d):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def build(comp):
    """Returns the path of the simulator binary, building it if the sources changed."""
    c = COMPONENTS[comp]
    out = f"{BUILD}/{comp}-{tree_hash(comp)}"
    exe = out + "/sim"
    if os.path.exists(exe):
        return exe
    for d in os.listdir(BUILD) if os.path.isdir(BUILD) else []:
        if d.startswith(comp + "-"):
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    tmp = f"{out}.tmp{os.getpid()}"
    os.makedirs(tmp, exist_ok=True)
    jobs, sut, harn = [], [], []
    for src, variants in c["sut"]:
        for v in variants:
            o = f"{tmp}/{os.path.basename(src).split('.')[0]}_{v}.o"
            sut.append(o)
            s = src if src.startswith("/") else (REPO + "/" + src[6:] if src.startswith("@repo/") else SIM + "/" + src)
            jobs.append(SUT + [f"-DVARIANT={v}"] + [x.replace("@repo", REPO) for x in c.get("flags", [])] + [s, "-o", o])
    for src in c["harness"] + ["engine.cpp", "frame.cpp"]:
        o = f"{tmp}/{src.split('.')[0]}.o"
        harn.append(o)
        jobs.append(HARN + [f"{SIM}/{src}", "-o", o])

    def one(cmd):
        r = subprocess.run(cmd, capture_output=True, text=True)
        return r.returncode, " ".join(cmd), r.stderr
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    bad = [x for x in res if x[0]]
    if bad:
        shutil.rmtree(tmp, ignore_errors=True)
        die("cannot build %s\n%s\n%s" % (comp, bad[0][1], bad[0][2][-4000:]))
    r = subprocess.run(["clang++", "-no-pie", "-o", tmp + "/sim"] + sut + harn + ["-lpthread"], capture_output=True, text=True)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        die("cannot link %s\n%s" % (comp, r.stderr[-4000:]))
    for o in sut + harn:
        os.unlink(o)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def symbolise(exe, addrs):
    """function names (and file:line) of code addresses, in order"""
    if not addrs:
        return []
    tool = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    if tool:
        r = subprocess.run([tool, "--obj=" + exe, "--no-inlines", "-f=short" if False else "--functions=short", "--output-style=GNU"],
                           input="\n".join(hex(a) for a in addrs) + "\n", capture_output=True, text=True)
    else:
        r = subprocess.run(["addr2line", "-f", "-C", "-e", exe], input="\n".join(hex(a) for a in addrs) + "\n",
                           capture_output=True, text=True)
    ls = [x for x in r.stdout.split("\n") if x != ""]
    return [(ls[2 * i], ls[2 * i + 1]) if 2 * i + 1 < len(ls) else ("?", "?") for i in range(len(addrs))]


def known_findings():
    out = []
    with open(V + "/known_findings.txt") as f:
        for ln in f:
            m = re.match(r"known: property=(\S+) id=(\S+) component=(\S+) (.*)", ln.strip())
            if m:
                out.append(dict(zip(("property", "id", "component", "what"), m.groups())))
    return out


def seed_for(seed, comp, prof):
    h = hashlib.sha256(f"{seed}/{comp}/{prof}".encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            a[k] = a.get(k, 0) + v
    return a


def run_check(pid):
    t0 = time.time()
    chk = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = chk.get("secs", 60) * (1 if tier == "quick" else 10)
    budget = float(os.environ.get("SIM_SECS", budget))
    print(f"{pid}: tier {tier}, VERIF_SEED={seed}, {budget:.0f} s of simulation", flush=True)
    exes = {c: build(c) for c in sorted({r[0] for r in chk["runs"]})}
    built = time.time() - t0
    kf = known_findings()
    tot, per, funcs, samples, known_hits, lost, viol, weights = {}, [], {}, [], {}, [], None, sum(r[2] for r in chk["runs"])
    os.makedirs(V + "/replays", exist_ok=True)
    for comp, prof, w in chk["runs"]:
        ids = [k["id"] for k in kf if k["component"] == comp]
        out = f"{V}/replays/{pid}-{comp}-{prof}.replay"
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exes[comp], "run", "--seed", str(seed_for(seed, comp, prof)), "--secs", "%.2f" % (budget * w / weights),
               "--profile", prof, "--out", out, "--min-budget", "40" if tier == "quick" else "120"]
        if ids:
            cmd += ["--known", ",".join(ids)]
        r = subprocess.run(cmd, capture_output=True, text=True)
        try:
            j = json.loads(r.stdout.strip().split("\n")[-1])
        except Exception:
            die(f"{comp}/{prof}: simulator ended with {r.returncode}\n{r.stdout[-2000:]}\n{r.stderr[-2000:]}")
        merge(tot, {k: v for k, v in j.items() if k not in ("coverage", "samples", "known", "lost")})
        if "lost" in j:
            lost.append(f"{comp}/{prof}: {j['lost']}")
            print(f"  {comp}/{prof}: one worker stopped early ({j['lost']}); its seed runs through when repeated", flush=True)
        for k, v in j["known"].items():
            known_hits[k] = known_hits.get(k, 0) + v
        for (fn, _), (_, n) in zip(symbolise(exes[comp], [x[0] for x in j["coverage"]]), j["coverage"]):
            fn = re.sub(r"\[abi:.*?\]", "", fn)
            funcs[fn] = funcs.get(fn, 0) + n
        samples += j["samples"][:1]
        per.append({"component": comp, "profile": prof, "runs": j["runs"], "distinct_schedules": j["distinct"], "wall_s": round(j["wall_s"], 1)})
        print(f"  {comp}/{prof}: {j['runs']} runs, {j['distinct']} distinct schedules, {j['events']} events, {j['preemptions']} preemptions", flush=True)
        if r.returncode == 1:
            f = subprocess.run([exes[comp], "replay", out], capture_output=True, text=True)
            if f.returncode != 1:
                die(f"{comp}/{prof}: the replay file {out} does not reproduce in a fresh process (rc {f.returncode}): {f.stdout[-500:]}")
            viol = (comp, prof, out, j["violation"])
            break
        if r.returncode != 0:
            die(f"{comp}/{prof}: {j.get('error', 'unknown error')} (run index {j.get('index')})")
        if j["runs"] == 0:
            die(f"{comp}/{prof}: no run completed")
    wall = time.time() - t0
    h = max(tot.get("wall_s", 0), 1e-6) / 3600
    probes = {}
    syms = "\n".join(subprocess.run(["nm", "-C", e], capture_output=True, text=True).stdout for e in exes.values())
    for p in PROBES.get(pid, []):
        if not re.search(p, syms):
            continue  # inlined everywhere: no entries to count
        probes[p] = sum(n for f, n in funcs.items() if re.search(p, f))
    cov = {
        "evaluations": int(tot.get("runs", 0)),
        "distinct_nontrivial": int(tot.get("distinct", 0)),
        "rule": "one case = one simulated run: a generated program (map variant, keys, prefill, per-thread operations) executed under one "
                "seeded schedule and fault sequence; non-trivial = at least one preemption between simulated threads (fault profiles: at "
                "least one injected failure; single-threaded components: every run); distinct = different hash over the sequence of "
                "(thread, kind of event) at synchronisation events of the run, including injected faults",
        "samples": samples[:6],
        "runs_and_seeds_per_hour": int(tot.get("runs", 0) / h),
        "simulated_time_s": round(tot.get("sim_ns", 0) / 1e9, 3),
        "runs": per,
        "events": int(tot.get("events", 0)),
        "synchronisation_events": int(tot.get("sync_events", 0)),
        "operations_checked": int(tot.get("operations", 0)),
        "per_key_histories_decided": int(tot.get("lin_keys", 0)),
        "histories_given_up": int(tot.get("lin_inconclusive", 0)),
        "iterations_checked": int(tot.get("scans", 0)),
        "faults_injected": {
            "preemption": int(tot.get("preemptions", 0)),
            "thread_stalled": int(tot.get("stalls", 0)),
            "all_other_threads_frozen": int(tot.get("solo_freezes", 0)),
            "store_delayed_in_store_buffer": int(tot.get("buffered_stores", 0)),
            "late_store_drain": int(tot.get("store_drains", 0)),
            "stores_overtaken": int(tot.get("store_overtakes", 0)),
            "allocation_failure": int(tot.get("alloc_failures", 0)),
            "operations_that_threw": int(tot.get("ops_threw", 0)),
            "spurious_trylock_failure": int(tot.get("spurious_trylock", 0)),
            "freed_memory_reused_at_once": int(tot.get("reuse_hits", 0)),
            "thread_left_and_reregistered": int(tot.get("thread_churn", 0)),
        },
        "lock_waits": int(tot.get("lock_waits", 0)),
        "allocations": int(tot.get("allocations", 0)),
        "reach_probes": probes,
        "functions_of_real_code_entered": len(funcs),
        "real_code": sorted({x for c in exes for x in COMPONENTS[c]["real"]}),
        "stubs": STUBS,
        "build_s": round(built, 1),
    }
    if viol:
        cov["violation"] = {"component": viol[0], "profile": viol[1], "class": viol[3]["class"], "message": viol[3]["message"]}
    if lost:
        cov["workers_stopped_early"] = lost
    if known_hits:
        cov["known_finding_occurrences"] = known_hits
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUME + chk.get("assume", []), "wall_s": round(wall, 1), "violations": 1 if viol else 0}
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        comp, prof, out, v = viol
        print(f"{v['class']}: {v['message']}")
        print(f"  minimised to {v['ops']} operations and {v['decisions']} schedule/fault decisions; simulated thread {v['tid']}; code location:")
        for fn, loc in symbolise(exes[comp], v["stack"]):
            print(f"    {fn} {loc.replace(REPO + '/', '')}")
        print(f"VIOLATION property={pid} replay={out}", flush=True)
        return 1
    for k in kf:
        if k["property"] == pid:
            print(f"KNOWN-FINDING: property={pid} {k['what']} [{k['id']}: {known_hits.get(k['id'], 0)} occurrences in this run]")
    print(f"{pid}: held on {cov['evaluations']} simulated runs ({cov['distinct_nontrivial']} distinct schedules) in {wall:.0f} s", flush=True)
    return 0


def replay(path):
    comp = next(ln.split()[1] for ln in open(path) if ln.startswith("component "))
    exe = build(comp)
    r = subprocess.run([exe, "replay", path], capture_output=True, text=True)
    for ln in r.stdout.split("\n"):
        if ln.startswith("stack"):
            for fn, loc in symbolise(exe, [int(x, 16) for x in ln.split()[1:]]):
                print(f"    {fn} {loc}")
        else:
            print(ln)
    return r.returncode


def determinism():
    """every profile: the same seeds in several processes and slices must give the same event logs"""
    rc = 0
    for comp, prof in sorted({(c, p) for x in CHECKS.values() for c, p, _ in x["runs"]}):
        exe, s, n = build(comp), "4711", int(os.environ.get("SIM_N", "400"))

        def log(first, cnt):
            return subprocess.run([exe, "log", "--seed", s, "--profile", prof, "--first", str(first), "--max", str(cnt)],
                                  capture_output=True, text=True, env=dict(os.environ, X="y" * (first % 97))).stdout
        with ThreadPoolExecutor(8) as ex:
            whole = list(ex.map(lambda _: log(0, n), range(4)))
            step = n // 20
            parts = "".join(ex.map(lambda i: log(i * step, step), range(20)))
        same = all(w == whole[0] for w in whole) and parts == whole[0]
        print(f"{comp}/{prof}: {'identical' if same else 'DIFFERENT'} over {n} runs x 5 executions in 24 processes", flush=True)
        rc |= not same
    return rc


if __name__ == "__main__":
    a = sys.argv[1:]
    if a == ["--setup"]:
        for c in COMPONENTS:
            build(c)
        print("built: " + " ".join(COMPONENTS))
        sys.exit(0)
    if a == ["--determinism"]:
        sys.exit(determinism())
    if len(a) == 2 and a[0] == "--replay":
        sys.exit(replay(a[1]))
    if len(a) == 1 and a[0] in CHECKS:
        sys.exit(run_check(a[0]))
    print(__doc__)
    sys.exit(2)
