"""Runs batches of simulated executions, gates and minimises violations, writes evidence."""
import hashlib, json, os, re, subprocess, sys, threading, time
from . import build as B
from .props import PROPS

VERIF = B.VERIF
WORKERS = 8


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) scenario=(\S+) cls=(\S+) match=/(.*?)/ (.*)$", line)
            if m:
                out.append(dict(property=m.group(1), scenario=m.group(2), cls=m.group(3), rx=re.compile(m.group(4)), what=m.group(5)))
    return out


def prop_offset(pid):
    return int(hashlib.sha256(pid.encode()).hexdigest()[:8], 16) % 100000 * 1000000


class Explorer:
    def __init__(self, bld, pid, seed, verbose=False):
        self.b, self.pid, self.seed, self.verbose = bld, pid, seed, verbose
        self.lock = threading.Lock()
        self.runs = 0
        self.status = {}
        self.hashes, self.scheds, self.nontrivial = set(), set(), set()
        self.counts, self.faults, self.probes, self.known = {}, {}, {}, {}
        self.sim_ns = self.steps = self.switches = 0
        self.samples, self.violations, self.errors = [], [], []
        self.known_hits = {}
        self.per_scenario = {}
        self.kf = [k for k in known_findings() if k["property"] == pid]
        self.rerun = []
        self.wall = 0.0
        self.stop = False

    def take(self, scen, line):
        try:
            r = json.loads(line)
        except ValueError:
            self.errors.append("unreadable result: " + line[:200])
            return
        with self.lock:
            self.runs += 1
            st = r["status"]
            self.status[st] = self.status.get(st, 0) + 1
            self.per_scenario.setdefault(scen, [0, 0])[0] += 1
            if st == "error":
                self.errors.append("%s seed %s: %s" % (scen, r["seed"], r["msg"]))
                return
            if st == "budget":
                self.errors.append("budget: %s seed %s: %s" % (scen, r["seed"], r["msg"]))
                return
            self.hashes.add(r["hash"])
            self.scheds.add(r["sched"])
            for dst, k in ((self.counts, "counts"), (self.faults, "faults"), (self.probes, "probes"), (self.known, "known")):
                for a, n in r[k].items():
                    dst[a] = dst.get(a, 0) + n
            self.sim_ns += r["sim_ns"]
            self.steps += r["steps"]
            self.switches += r["switches"]
            if r["counts"].get("checked", 0) > 0:
                self.nontrivial.add(r["hash"])
                self.per_scenario[scen][1] += 1
            if len(self.samples) < 4 and self.runs % 7 == 1 or len(self.samples) < 1:
                self.samples.append({k: r[k] for k in ("scenario", "seed", "status", "hash", "sched", "steps", "sim_ns", "counts", "faults", "probes")})
            if st == "ok" and self.runs % 37 == 5 and len(self.rerun) < 24:
                self.rerun.append((scen, r["seed"], r["hash"], r["params"]))
            if st == "violation":
                for k in self.kf:
                    if k["scenario"] in ("*", scen) and k["cls"] == r["cls"] and k["rx"].search(r["msg"]):
                        self.known_hits[k["what"]] = self.known_hits.get(k["what"], 0) + 1
                        return
                self.violations.append(r)

    def cmd(self, *a):
        return [self.b["simrun"]] + list(a[:1]) + ["--libdir", self.b["libdir"]] + list(a[1:])

    def explore(self, scen, params, seconds, stop_on_violation=True):
        t0 = time.time()
        off = prop_offset(self.pid + scen)
        base = (self.seed * 7919 * 1000003 + off) % (1 << 40)
        procs, threads = [], []
        pa = [x for k, v in params.items() for x in ("-p", "%s=%s" % (k, v))]
        def reader(p):
            for line in p.stdout:
                self.take(scen, line.decode())
        for i in range(WORKERS):
            p = subprocess.Popen(self.cmd("batch", scen, str(base + i), "--stride", str(WORKERS), "--count", "100000000",
                                          "--seconds", str(seconds), "--cpu", str(i % (os.cpu_count() or 1)), *pa),
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            procs.append(p)
            t = threading.Thread(target=reader, args=(p,)); t.start(); threads.append(t)
        first = None
        while any(p.poll() is None for p in procs):
            time.sleep(0.05)
            if self.violations and stop_on_violation:
                first = first or time.time()
                if time.time() - first > 3:
                    break
            if time.time() - t0 > seconds + 260:
                self.errors.append("a worker did not end")
                break
        for p in procs:
            if p.poll() is None:
                p.terminate()
        for t in threads:
            t.join()
        for p in procs:
            p.wait()
            scratch_cleanup(p.pid)
        self.wall += time.time() - t0

    def one(self, args):
        p = subprocess.Popen(self.cmd("one", *args), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        out = p.communicate()[0]
        scratch_cleanup(p.pid)
        try:
            return json.loads(out)
        except ValueError:
            return {"status": "error", "cls": "harness", "msg": "no result: %r" % out[:200], "hash": ""}


def scratch_cleanup(pid):
    import shutil
    for base in ("/dev/shm", "/tmp"):
        d = "%s/istatdsim.%07d" % (base, pid)
        if os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)


def run_check(pid, tier, seed):
    t0 = time.time()
    prop = PROPS[pid]
    try:
        bld = B.build()
    except B.BuildError as e:
        print(e)
        return 2
    seconds = float(os.environ.get("VERIF_SECONDS", prop.get(tier, 22 if tier == "quick" else 420)))
    ex = Explorer(bld, pid, seed)
    print("seed %d, property %s, %s: %.0f s of simulation on %d workers (build %.1f s)" % (seed, pid, tier, seconds, WORKERS, bld["seconds"]))
    sys.stdout.flush()
    scens = prop["scenarios"]
    tot = sum(s[1] for s in scens)
    for s in scens:
        ex.explore(s[0], s[2] if len(s) > 2 else {}, seconds * s[1] / tot)
        if ex.violations:
            break
    rc = 0
    nondet, odd = [], []
    # determinism: some of the seeds again, in fresh processes
    if not ex.violations:
        from concurrent.futures import ThreadPoolExecutor
        def again(x):
            pa = [y for k, v in x[3].items() for y in ("-p", "%s=%s" % (k, v))]
            r = ex.one([x[0], str(x[1])] + pa)
            return x, r
        with ThreadPoolExecutor(WORKERS) as pool:
            for x, r in pool.map(again, ex.rerun):
                if r["hash"] == x[2]:
                    continue
                # once more, three times: one odd execution on an overloaded machine is noted, a second one is an error
                hs = [again(x)[1]["hash"] for _ in range(3)]
                if any(h != x[2] for h in hs):
                    nondet.append("%s seed %s: %s != %s" % (x[0], x[1], [r["hash"]] + hs, x[2]))
                else:
                    odd.append("%s seed %s: %s once, %s four times" % (x[0], x[1], r["hash"], x[2]))
    reported = []
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    seen = set()
    unreproduced = []
    for v in sorted(ex.violations, key=lambda r: r["steps"]):
        key = (v["scenario"], v["cls"])
        if key in seen or len(reported) >= 2:
            continue
        raw = os.path.join(VERIF, "replays", "%s-%s-%s.raw.json" % (pid, v["scenario"], v["seed"]))
        with open(raw, "w") as f:
            f.write(json.dumps(v, separators=(",", ":")))
        pa = [y for k, x in v["params"].items() for y in ("-p", "%s=%s" % (k, x))]
        for _ in range(3):
            r1 = ex.one([v["scenario"], str(v["seed"])] + pa)
            r2 = ex.one(["--replay", raw])
            if r1["hash"] == v["hash"] == r2["hash"]:
                break
        if not (r1["hash"] == v["hash"] == r2["hash"] and r1["cls"] == v["cls"] == r2["cls"]):
            unreproduced.append("%s seed %s %s: %s / %s / %s" % (v["scenario"], v["seed"], v["cls"], v["hash"], r1["hash"], r2["hash"]))
            continue
        seen.add(key)
        final = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (pid, v["scenario"], v["seed"]))
        m = subprocess.Popen(ex.cmd("min", raw, final, "--seconds", "25" if tier == "quick" else "120"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        mo = m.communicate()[0].decode().strip()
        scratch_cleanup(m.pid)
        ok = False
        if os.path.exists(final):
            r3 = ex.one(["--replay", final])
            ok = r3["status"] == "violation" and r3["cls"] == v["cls"]
            v = r3 if ok else v
        if not ok:
            os.replace(raw, final)
        elif os.path.exists(raw):
            os.unlink(raw)
        reported.append(v)
        print("%s: %s (scenario %s, seed %s, %s)" % (v["cls"], v["msg"][:600], v["scenario"], v["seed"], mo))
        for line in (v.get("report") or "").splitlines()[:40]:
            print("    " + line[:200])
        print("VIOLATION property=%s replay=%s" % (pid, final))
        rc = 1
    for what, n in sorted(ex.known_hits.items()):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (pid, what, n))
    if rc == 0 and unreproduced:
        print("not reproduced: " + "; ".join(unreproduced[:5]))
        rc = 2
    budget = [e for e in ex.errors if e.startswith("budget")]
    hard = [e for e in ex.errors if not e.startswith("budget")]
    if rc == 0 and hard:
        print("errors: " + "; ".join(hard[:5]))
        rc = 2
    if rc == 0 and nondet:
        print("nondeterministic: " + "; ".join(nondet[:5]))
        rc = 2
    if rc == 0 and (ex.runs == 0 or not ex.nontrivial):
        print("nothing was checked")
        rc = 2
    cov = {
        "evaluations": ex.runs,
        "distinct_nontrivial": len(ex.nontrivial),
        "rule": "One evaluation is one simulated execution of the whole system, decided by one seed (workload, schedule, faults, network). "
                "Non-trivial: the scenario's oracle compared at least one non-empty expectation with what the system did; distinct: different hashes of the complete event log.",
        "samples": ex.samples,
        "distinct_schedules": len(ex.scheds),
        "distinct_schedules_rule": "different hashes of the sequence (chosen thread, place of the switch) of a run",
        "distinct_event_logs": len(ex.hashes),
        "simulated_seconds": round(ex.sim_ns / 1e9, 1),
        "simulated_runs_per_hour": int(ex.runs * 3600 / max(ex.wall, 0.001)),
        "seed_base": seed,
        "scheduling_steps": ex.steps,
        "thread_switches": ex.switches,
        "run_outcomes": ex.status,
        "runs_per_scenario": {k: {"runs": a, "checked": b} for k, (a, b) in ex.per_scenario.items()},
        "faults_fired": ex.faults,
        "probes_reached": ex.probes,
        "counts": ex.counts,
        "replayed_for_determinism": len(ex.rerun),
        "replay_mismatches": len(nondet),
        "replay_mismatches_not_repeated": odd,
        "runs_over_budget": len(budget),
        "real_code": prop.get("real", "all of daemon/ and lib/ (main() to the system calls), boost.asio/thread/filesystem/iostreams, libstdc++"),
        "stubs": "threads' scheduling, mutexes, condition variables, clocks, timers, sockets, name resolution, epoll/select and process exit are the simulator's; "
                 "files are real files in a scratch directory behind the simulator's fault layer (page-granular crash model); libstatgrab is not called",
        "known_findings_seen": ex.known_hits,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": prop.get("assumptions", ["one processor at a time: data races are seen only through their effects at basic-block granularity (sequentially consistent memory)"]),
          "wall_s": round(time.time() - t0, 1), "violations": len(reported)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%d runs, %d distinct non-trivial, %d schedules, %.0f simulated s, outcomes %s, faults %s, probes %s, %.1f s" % (
        ex.runs, len(ex.nontrivial), len(ex.scheds), ex.sim_ns / 1e9, ex.status, ex.faults, ex.probes, time.time() - t0))
    return rc
