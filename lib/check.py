#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seconds N]   search: many simulated runs, one seed each
   check.py --replay FILE                                  run a replay file again
   check.py --setup                                        build the simulator only"""
import argparse, json, os, re, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import simbuild

VERIF = os.path.dirname(HERE)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
KNOWN = os.path.join(VERIF, "known_findings.json")
FAULTS = ["none", "io error", "short transfer", "interrupted call (EINTR)", "crash", "lost data (early end of file)", "stalled call"]
MODES = ["run to block", "random at sync points", "random at memory accesses", "priorities (PCT)", "stalled thread", "replay", "round robin"]

# seconds of search, most runs; the search stops at whichever comes first
QUICK = {"seconds": 42, "runs": 20000}
THOROUGH = {"seconds": 600, "runs": 1000000}
LEVEL = {"C12": "fault_enumeration", "C13": "fault_enumeration", "C15": "fault_enumeration", "C17": "fault_enumeration"}


def workers():
    try:
        return sorted(os.sched_getaffinity(0))
    except AttributeError:
        return list(range(os.cpu_count() or 1))


def run_batch(exe, prop, tier, first, stride, count, seconds, cpu, out):
    return subprocess.Popen([exe, "batch", prop, tier, str(first), str(stride), str(count), str(seconds), str(cpu), out],
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)


def run_replay(exe, text, full=True, seconds=240, keep=None):
    with tempfile.TemporaryDirectory(dir=BUILD) as d:
        f = keep or os.path.join(d, "replay")
        if not keep:
            with open(f, "w") as h:
                h.write(text)
        out = os.path.join(d, "out")
        cmd = [exe, "replay", f, out] + (["full"] if full else ["", ])
        cmd = [exe, "replay", f, out, "full", str(int(seconds))]
        try:
            subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=seconds + 60)
            with open(out) as h:
                return json.loads(h.readline())
        except (subprocess.TimeoutExpired, ValueError, OSError):
            return {"status": "error", "msg": "no result", "hash": "", "phases": [], "count": {}, "plan": {}}


def klass(msg):
    """What two messages of one kind of violation have in common."""
    m = re.sub(r"@[0-9a-f]+@", "@", msg)
    m = re.sub(r"'[^']*'", "''", m)
    m = re.sub(r"-?\d+(\.\d+)?(e[-+]?\d+)?", "#", m)
    m = re.sub(r"\b(inf|nan)\b", "#", m)
    return re.sub(r"\s+", " ", m)[:48]


def symbolize(exe, msg):
    def one(m):
        r = subprocess.run(["addr2line", "-Cfpe", exe, hex(int(m.group(1), 16) - 1)], capture_output=True, text=True)
        t = r.stdout.strip().split("\n")[0]
        t = re.sub(r" at /\S*?/(queso/\S+)", r" at \1", t)
        return t[:220] if t else m.group(0)
    return re.sub(r"@([0-9a-f]+)@", one, msg)


def replay_text(prop, tier, seed, sets, phases):
    o = [f"prop {prop}", f"tier {tier}", f"seed {seed}"]
    o += [f"set {k} {v}" for k, v in sorted(sets.items())]
    for name, sw in phases.items():
        o.append(f"phase {name}")
        o += [f"switch {s} {t}" for s, t in sw]
    return "\n".join(o) + "\n"


def minimise(exe, prop, tier, first, budget):
    """Simplifies the drawn values first, then the schedule; every step has to keep the kind of violation."""
    t0 = time.time()
    want, seed = klass(first["msg"]), first["seed"]
    cpus = workers()
    tried = [0]
    last = {"r": first}

    def fails(sets, phases):
        tried[0] += 1
        r = run_replay(exe, replay_text(prop, tier, seed, sets, phases), seconds=120)
        return r if r["status"] == "violation" and klass(r["msg"]) == want else None

    def parallel(cands):
        """First candidate (in order) that still fails, evaluated several at a time."""
        res = [None] * len(cands)
        i = 0
        while i < len(cands):
            if time.time() - t0 > budget:
                return None, None
            chunk = list(range(i, min(len(cands), i + len(cpus))))
            ths = []
            for k in chunk:
                def go(k=k):
                    res[k] = fails(*cands[k])
                th = threading.Thread(target=go)
                th.start()
                ths.append(th)
            for th in ths:
                th.join()
            for k in chunk:
                if res[k]:
                    return k, res[k]
            i += len(cpus)
        return None, None

    sets = {}
    if "experiment" in first.get("plan", {}):
        sets["experiment"] = first["plan"]["experiment"][0]
        if not fails(sets, {}):
            sets = {}
    # values
    done = set()
    progress = True
    while progress and time.time() - t0 < budget * 0.7:
        progress = False
        plan = last["r"].get("plan", {})
        todo = [k for k, (v, s) in sorted(plan.items()) if v != s and k not in done and k != "experiment" and s != "" and not re.search(r"\s", s)]
        # all at once, then halves, then single ones
        groups = []
        if len(todo) > 1:
            groups.append(todo)
            pre = {}
            for k in todo:
                pre.setdefault(k.split(".")[0], []).append(k)
            groups += [g for g in pre.values() if 1 < len(g) < len(todo)]
        groups += [[k] for k in todo]
        cands = []
        for g in groups:
            s2 = dict(sets)
            s2.update({k: plan[k][1] for k in g})
            cands.append((s2, {}))
        k, r = parallel(cands)
        if k is not None:
            sets = cands[k][0]
            last["r"] = r
            progress = True
            for g in groups[:k]:
                if len(g) == 1:
                    done.add(g[0])
        else:
            break
    # schedule: explicit list of the decisions that differ from the default
    phases = {}
    r = last["r"]
    for p in r.get("phases", []):
        if "sw" in p:
            phases[p["name"]] = p["sw"]
    if phases and sum(len(v) for v in phases.values()) <= 200000:
        rr = fails(sets, phases)
        if rr:
            last["r"] = rr
            for name in list(phases):
                n = 1
                while len(phases[name]) and time.time() - t0 < budget:
                    sw = phases[name]
                    n = min(n, len(sw))
                    size = -(-len(sw) // n)
                    cands = []
                    for i in range(0, len(sw), size):
                        p2 = dict(phases)
                        p2[name] = sw[:i] + sw[i + size:]
                        cands.append((sets, p2))
                    k, r2 = parallel(cands)
                    if k is not None:
                        phases = cands[k][1]
                        last["r"] = r2
                        n = max(n - 1, 1)
                    elif size <= 1:
                        break
                    else:
                        n = min(n * 2, len(sw))
        else:
            phases = {}
    else:
        phases = {}
    return sets, phases, last["r"], tried[0]


def load_known(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop and k["kind"] == "finding"]
    except OSError:
        return []


def is_known(known, r):
    for k in known:
        if re.search(k["match"]["msg"], r["msg"]) and re.search(k["match"].get("where", ""), r.get("where", "")) and \
           all(re.fullmatch(v, str(r.get("plan", {}).get(key, ["", ""])[0])) for key, v in k["match"].get("plan", {}).items()):
            return k
    return None


def aggregate(runs):
    fired, modes, counters, teams = {}, {}, {}, {}
    tot = dict(phases=0, steps=0, serial=0, sync=0, switches=0, preempt=0, sim_s=0.0, rng=0, clock=0, jumps=0, back=0, stalls=0, allocs=0, oom=0, contention=0, tracked=0)
    for r in runs:
        for p in r.get("phases", []):
            tot["phases"] += 1
            for k in tot:
                if k != "phases":
                    tot[k] += p.get(k, 0)
            for i, n in enumerate(p.get("fired", [])):
                if n and i:
                    fired[FAULTS[i]] = fired.get(FAULTS[i], 0) + n
            if p["team"] > 1:
                modes[MODES[p["mode"]]] = modes.get(MODES[p["mode"]], 0) + 1
            teams[str(p["team"])] = teams.get(str(p["team"]), 0) + 1
        for k, v in r.get("count", {}).items():
            if k.startswith("sub.fired"):
                name = FAULTS[int(k[9:])]
                fired[name] = fired.get(name, 0) + int(v)
            elif k.startswith("sub."):
                m = {"steps": "steps", "switches": "switches", "preemptions": "preempt", "sync_points": "sync", "rng_draws": "rng", "clock_reads": "clock", "clock_jumps": "jumps", "clock_backward": "back",
                     "clock_stalls": "stalls", "allocs": "allocs", "alloc_failures": "oom", "sim_seconds": "sim_s", "phases": "phases"}.get(k[4:])
                if m:
                    tot[m] += v
            else:
                counters[k] = max(counters.get(k, 0), v) if "max" in k else counters.get(k, 0) + v
    if tot["oom"]:
        fired["failing allocation"] = int(tot["oom"])
    if tot["jumps"]:
        fired["wall clock set"] = int(tot["jumps"])
        fired["wall clock set back"] = int(tot["back"])
    if tot["stalls"]:
        fired["process suspended"] = int(tot["stalls"])
    if tot["preempt"]:
        fired["preemption between two memory accesses"] = int(tot["preempt"])
    return fired, modes, counters, teams, tot


STUBS = ["scheduler, OpenMP runtime (libgomp interface), mutexes", "clocks", "std::random_device", "file system below open/read/write/close",
         "operator new/malloc (passes through to the heap, can fail, fills memory)", "standard output (discarded)"]


def write_evidence(prop, tier, seed, runs, wall, search_wall, violations, extra):
    fired, modes, counters, teams, tot = aggregate(runs)
    done = [r for r in runs if r["status"] in ("ok", "violation")]
    scheds = {r["sched"] for r in done}
    nontrivial = {}
    for r in done:
        c = r.get("count", {})
        active = sum(p["switches"] + p["rng"] + p["jumps"] + p["stalls"] + p["oom"] + sum(p["fired"]) for p in r.get("phases", []))
        active += sum(v for k, v in c.items() if k.startswith("sub.fired") or k in ("sub.switches", "sub.alloc_failures", "experiments"))
        if active > 0:
            nontrivial[r["hash"]] = 1
    status = {}
    for r in runs:
        status[r["status"]] = status.get(r["status"], 0) + 1
    samples = []
    for r in done[:2] + done[len(done) // 2:len(done) // 2 + 1] + done[-1:]:
        samples.append({"seed": r["seed"], "workload": r.get("where", ""), "status": r["status"], "event_log_hash": r["hash"],
                        "phases": [{k: p[k] for k in ("name", "team", "steps", "switches", "preempt", "rng", "fired")} | {"scheduler": MODES[p["mode"]]} for p in r["phases"][:6]]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"), "wall_s": round(wall, 2), "violations": violations,
          "coverage": {
              "evaluations": len(done), "distinct_nontrivial": len(nontrivial),
              "rule": "one evaluation = one seed = one workload (geometry, grid, settings, conditions, jobs) with its schedule, random values, clock and fault plan, all drawn from the seed, run completely inside the simulator and judged; "
                      "non-trivial = at least one scheduling decision, random draw, clock change or injected fault took effect; distinct = different hash of the full event log (scheduling, draws, clock, disk operations, results)",
              "samples": samples,
              "runs_by_outcome": status,
              "runs_per_hour": round(len(runs) / max(search_wall, 1e-3) * 3600), "seeds_per_hour": round(len(runs) / max(search_wall, 1e-3) * 3600),
              "simulated_executions": int(tot["phases"]),
              "simulated_seconds": round(tot["sim_s"], 3),
              "simulated_steps": int(tot["steps"] + tot["serial"]),
              "faults_that_fired": fired,
              "random_values_drawn": int(tot["rng"]), "clock_readings": int(tot["clock"]), "allocations_seen": int(tot["allocs"]),
              "sync_points": int(tot["sync"]), "thread_switches": int(tot["switches"]), "lock_contentions": int(tot["contention"]), "memory_accesses_checked_for_races": int(tot["tracked"]),
              "distinct_interleavings": len(scheds), "interleaving_measure": "distinct hashes over the sequence of (step, thread, event) of all phases of a run",
              "multi_thread_phases_by_scheduler": modes, "phases_by_team_size": teams,
              "probes": {k: (int(v) if float(v).is_integer() else round(v, 12)) for k, v in sorted(counters.items())},
              "real_components": ["all of queso/ (C++ library, compiled from the working tree)", "external_libraries/", "libstdc++ (streams, containers, random engines)"],
              "stub_components": STUBS} | extra,
          "assumptions": ["sequentially consistent memory; accesses are atomic between two preemption points, data races are detected separately by happens-before",
                          "libgomp's semantics as implemented by the simulator for the constructs that GCC emits", "the library is compiled with GCC at -O1 with asserts on"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))


def search(exe, prop, tier, first, limit, seconds, outdir):
    cpus = workers()
    n = len(cpus)
    procs = []
    for w in range(n):
        cnt = (limit - w + n - 1) // n
        if cnt > 0:
            out = os.path.join(outdir, f"{w}.jsonl")
            procs.append((run_batch(exe, prop, tier, first + w, n, cnt, seconds, cpus[w], out), out))
    t0 = time.time()
    hard = seconds + 260
    pos = {o: 0 for _, o in procs}
    runs = []
    stop_at = None
    while True:
        alive = False
        for p, o in procs:
            if p.poll() is None:
                alive = True
            try:
                with open(o) as f:
                    f.seek(pos[o])
                    while True:
                        line = f.readline()
                        if not line.endswith("\n"):
                            break
                        pos[o] = f.tell()
                        r = json.loads(line)
                        runs.append(r)
            except OSError:
                pass
        el = time.time() - t0
        if stop_at is None and sum(r["status"] == "violation" for r in runs) >= 4:
            stop_at = el + 5
        if not alive:
            break
        if el > hard or (stop_at is not None and el > stop_at) or el > seconds + 60:
            break
        time.sleep(0.2)
    for p, _ in procs:
        if p.poll() is None:
            subprocess.run(["pkill", "-KILL", "-P", str(p.pid)], stderr=subprocess.DEVNULL)
            p.kill()
        p.wait()
    runs.sort(key=lambda r: r["seed"])
    return runs, time.time() - t0


def check(args):
    prop = args.property
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    exe = simbuild.build(BUILD, jobs=len(workers()))
    lim = QUICK if tier == "quick" else THOROUGH
    seconds = args.seconds or lim["seconds"]
    first = 1 + (vseed - 1) % 1000000 * 1000000
    print(f"{prop}: tier {tier}, VERIF_SEED {vseed}, first run seed {first}, simulator {exe} (built in {time.time() - t0:.1f} s)", flush=True)
    known = load_known(prop)
    with tempfile.TemporaryDirectory(dir=BUILD) as d:
        runs, swall = search(exe, prop, tier, first, args.runs or lim["runs"], seconds, d)
        # determinism: a sample of the seeds once more, in other processes on other processors
        ok = [r for r in runs if r["status"] in ("ok", "violation")]
        cpus = workers()
        pick = ok[:: max(1, len(ok) // 8)][:8]
        procs = []
        for k, r in enumerate(pick):
            o = os.path.join(d, f"again{k}")
            procs.append((r, o, run_batch(exe, prop, tier, r["seed"], 1, 1, 100, cpus[(k + 3) % len(cpus)], o)))
        same = diff = 0
        for r, o, p in procs:
            try:
                p.wait(timeout=260)
                with open(o) as f:
                    r2 = json.loads(f.readline())
                if r2["hash"] == r["hash"] and r2["status"] == r["status"]:
                    same += 1
                else:
                    diff += 1
                    print(f"{prop}: seed {r['seed']} ran differently a second time: {r['hash']}/{r['status']} and {r2['hash']}/{r2['status']}", flush=True)
            except (subprocess.TimeoutExpired, ValueError, OSError):
                p.kill()
    extra = {"seeds_run_twice": same + diff, "seeds_run_twice_with_equal_event_log": same}
    bad = [r for r in runs if r["status"] == "violation"]
    errors = [r for r in runs if r["status"] == "error"]
    status = {}
    for r in runs:
        status[r["status"]] = status.get(r["status"], 0) + 1
    print(f"{prop}: {len(runs)} runs in {swall:.1f} s: {status}", flush=True)
    for k in known:
        rp = os.path.join(VERIF, k["replay"])
        r = run_replay(exe, None, keep=rp, seconds=200)
        if r["status"] == "violation" and is_known([k], r):
            print(f"KNOWN-FINDING: property={prop} {k['title']}", flush=True)
        elif r["status"] == "violation":
            r["seed"] = int(re.search(r"^seed (\d+)", open(rp).read(), re.M).group(1))
            bad.append(r)
        else:
            print(f"{prop}: the listed finding '{k['title']}' no longer shows ({r['status']} {r['msg'][:200]})", flush=True)
    suppressed = 0
    rc = 0
    reported = None
    confirmed = 0
    inexact = []
    bad.sort(key=lambda r: "step_limit" in r["msg"])   # long ones last
    for r in bad:
        if reported and time.time() - t0 > (200 if tier == "quick" else 1500):
            break                                          # one is reported, the rest would only be counted
        # gate: the same seed in a fresh process must give the same event log
        t1 = time.time()
        again = run_replay(exe, replay_text(prop, tier, r["seed"], {}, {}))
        t1 = time.time() - t1
        if again["status"] != "violation" or again["hash"] != r["hash"]:
            if again["status"] == "violation" and klass(again["msg"]) == klass(r["msg"]):
                inexact.append((r, again))
            print(f"{prop}: seed {r['seed']} violates the property once ({r['msg'][:200]}), but does not repeat exactly ({again['status']} {again['msg'][:200]})", flush=True)
            continue
        again["seed"] = r["seed"]
        if is_known(known, again):
            suppressed += 1
            continue
        confirmed += 1
        if reported:
            continue
        budget = 60 if tier == "quick" else 240
        if t1 > 10 and tier == "quick":
            budget = 25
        sets, phases, last, tried = minimise(exe, prop, tier, again, budget)
        text = replay_text(prop, tier, r["seed"], sets, phases)
        f1 = run_replay(exe, text)
        if f1["status"] != "violation" or f1["hash"] != last.get("hash"):
            text = replay_text(prop, tier, r["seed"], {}, {})
            f1 = again
        if is_known(known, f1):
            text = replay_text(prop, tier, r["seed"], {}, {})
            f1 = again
        os.makedirs(os.path.join(BUILD, "replays"), exist_ok=True)
        path = os.path.join(BUILD, "replays", f"{prop}-{r['seed']}.replay")
        with open(path, "w") as f:
            f.write(f"# {symbolize(exe, f1['msg'])}\n# workload: {f1.get('where', '')}\n# run again: python3 {os.path.join(HERE, 'check.py')} --replay {path}\n# {tried} reductions tried\n" + text)
        f2 = run_replay(exe, None, keep=path)
        if f2["status"] != "violation" or f2["hash"] != f1["hash"]:
            print(f"{prop}: the replay file does not repeat exactly", flush=True)
            confirmed -= 1
            continue
        reported = path
        print(f"{prop}: seed {r['seed']}: {symbolize(exe, f1['msg'])}\n   workload: {f1.get('where', '')}\n   {sum(len(v) for v in phases.values())} scheduling decisions, {len(sets)} fixed values; {tried} reductions tried", flush=True)
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        rc = 1
    if inexact and not reported:
        # the code under test depends on something outside the simulation (addresses, uninitialised memory): the violation
        # repeats, its event log does not
        r, again = inexact[0]
        if not is_known(known, again):
            os.makedirs(os.path.join(BUILD, "replays"), exist_ok=True)
            path = os.path.join(BUILD, "replays", f"{prop}-{r['seed']}.replay")
            with open(path, "w") as f:
                f.write(f"# {symbolize(exe, again['msg'])}\n# workload: {again.get('where', '')}\n# the event log of this run is not the same every time\n" + replay_text(prop, tier, r["seed"], {}, {}))
            print(f"{prop}: seed {r['seed']}: {symbolize(exe, again['msg'])}\n   workload: {again.get('where', '')}", flush=True)
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            reported = path
            confirmed += 1
            rc = 1
    if bad and not reported and suppressed < len(bad):
        rc = 2
    slow = [r for r in runs if r["status"] == "slow" and "no termination" in r["msg"]]
    if not [r for r in runs if r["status"] == "ok"] and rc == 0 and len(slow) >= 3:
        # single runs may be long; when none at all comes to an end, the property has nothing that holds
        sets = {"judge_termination": "1"}
        text = replay_text(prop, tier, slow[0]["seed"], sets, {})
        path = os.path.join(BUILD, "replays", f"{prop}-{slow[0]['seed']}.replay")
        os.makedirs(os.path.join(BUILD, "replays"), exist_ok=True)
        with open(path, "w") as f:
            f.write(f"# none of {len(runs)} runs came to an end within its step budget\n" + text)
        f1, f2 = run_replay(exe, None, keep=path), run_replay(exe, None, keep=path)
        if f1["status"] == "violation" and f1["hash"] == f2["hash"]:
            print(f"{prop}: none of {len(runs)} runs came to an end; seed {slow[0]['seed']}: {f1['msg']}\n   workload: {f1.get('where', '')}", flush=True)
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            confirmed += 1
            rc = 1
    if not [r for r in runs if r["status"] == "ok"] and rc == 0:
        print(f"{prop}: no run was completed", flush=True)
        rc = 2
    if errors:
        print(f"{prop}: {len(errors)} runs ended with an error of the harness, first: seed {errors[0]['seed']}: {errors[0]['msg'][:300]}", flush=True)
        if rc == 0 and len(errors) > max(2, len(runs) // 50):
            rc = 2
    extra["violating_runs_confirmed"] = confirmed
    extra["violating_runs_of_known_findings"] = suppressed
    write_evidence(prop, tier, vseed, runs, time.time() - t0, swall, confirmed, extra)
    return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    args = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    try:
        if args.setup:
            print(simbuild.build(BUILD, jobs=len(workers())))
            return 0
        if args.replay:
            exe = simbuild.build(BUILD, jobs=len(workers()))
            r = run_replay(exe, None, keep=args.replay)
            print(f"{r['status']}: {symbolize(exe, r['msg'])}\n   workload: {r.get('where', '')}\n   event log hash {r['hash']}")
            return 1 if r["status"] == "violation" else 0
        return check(args)
    except simbuild.BuildError as e:
        print(f"the simulator cannot be built from this tree: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
