"""Runs the seeds of one property over worker interpreters, shrinks, replays, reports."""

import hashlib
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Pool:
    """Worker interpreters, each a pristine zygote which forks one child per run."""

    def __init__(self, prop, n, hashseed="0", ntorch=0):
        self.prop = prop
        self.scratch = tempfile.mkdtemp(prefix="vsim-")
        mpl = os.path.join(self.scratch, "mpl")
        os.makedirs(mpl)
        if os.path.isdir("/opt/vp/mplconfig"):
            for f in os.listdir("/opt/vp/mplconfig"):
                try:
                    shutil.copy(os.path.join("/opt/vp/mplconfig", f), mpl)
                except OSError:
                    pass
        keep = {k: os.environ[k] for k in ("PATH", "LANG", "VERIF_REPO") if k in os.environ}
        self.env = {
            **keep,
            "HOME": self.scratch,
            "MPLBACKEND": "Agg",
            "MPLCONFIGDIR": mpl,
            "PYTHONNOUSERSITE": "1",
            "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONHASHSEED": hashseed,
            "PYTHONPATH": VERIF,
            "OMP_NUM_THREADS": "1",
            "OPENBLAS_NUM_THREADS": "1",
            "MKL_NUM_THREADS": "1",
            "NUMEXPR_NUM_THREADS": "1",
        }
        self.jobs = queue.Queue()
        self.tjobs = queue.Queue()
        self.results = queue.Queue()
        self.ntorch = ntorch
        self.procs = []
        self.threads = []
        self.dead = []
        for i in range(n):
            errf = open(os.path.join(self.scratch, f"err{i}"), "w+")
            p = subprocess.Popen(
                [PY, "-m", "sim.worker", prop, "torch" if i < ntorch else "plain"],
                cwd=VERIF,
                env=self.env,
                stdin=subprocess.PIPE,
                stdout=subprocess.PIPE,
                stderr=errf,
                text=True,
                start_new_session=True,
            )
            self.procs.append(p)
            q = self.tjobs if i < ntorch else self.jobs
            t = threading.Thread(target=self._feed, args=(p, errf, q), daemon=True)
            t.start()
            self.threads.append(t)

    def _feed(self, p, errf, jobs):
        def death(job=None):
            errf.seek(0)
            msg = errf.read()[-2000:]
            self.dead.append(msg)
            self.results.put({"fatal": msg, "job": job})

        line = p.stdout.readline()
        if not line:
            death()
            return
        while True:
            job = jobs.get()
            if job is None:
                return
            try:
                p.stdin.write(json.dumps(job) + "\n")
                p.stdin.flush()
                line = p.stdout.readline()
            except OSError:
                line = ""
            if not line:
                death(job)
                return
            self.results.put(json.loads(line))

    def map(self, jobs, stop=None, deadline=None):
        """Run jobs in order; stop(result) true: no further job is started."""
        out = []
        it = iter(jobs)
        inflight = 0
        exhausted = False
        errors = []

        def put():
            nonlocal inflight, exhausted
            if exhausted:
                return
            if deadline is not None and time.monotonic() > deadline:
                exhausted = True
                return
            try:
                job = next(it)
            except StopIteration:
                exhausted = True
                return
            if job.get("torch") and not self.ntorch:
                raise RuntimeError("no torch worker")
            (self.tjobs if job.get("torch") else self.jobs).put(job)
            inflight += 1

        for _ in range(len(self.procs) * 6):
            put()
        while inflight:
            r = self.results.get()
            if "fatal" in r:
                raise RuntimeError("worker died:\n" + r["fatal"])
            inflight -= 1
            out.append(r)
            if r.get("error"):
                errors.append(r)
            if stop is not None and stop(r):
                exhausted = True
                # jobs not yet started with a larger id than the failing one are dropped
                for q in (self.jobs, self.tjobs):
                    keep = []
                    while True:
                        try:
                            job = q.get_nowait()
                        except queue.Empty:
                            break
                        if job["id"] < r["id"]:
                            keep.append(job)
                        else:
                            inflight -= 1
                    for job in keep:
                        q.put(job)
            put()
        return out

    def one(self, job):
        return self.map([job])[0]

    def close(self):
        for _ in self.procs:
            self.jobs.put(None)
            self.tjobs.put(None)
        for p in self.procs:
            try:
                p.stdin.close()
            except OSError:
                pass
        for p in self.procs:
            try:
                p.wait(timeout=5)
            except subprocess.TimeoutExpired:
                pass
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data["findings"] if e["property"] == prop and e["status"] == "known"]


def known_match(viol, known):
    for e in known:
        m = e["match"]
        if viol["kind"] == m["kind"] and all(s in viol["detail"] for s in m["contains"]):
            return e
    return None


def size(plan):
    return len(json.dumps(plan))


def minimise(pool, mod, plan, kind, budget_s=90, max_tries=600):
    """Greedy: smaller plans which still fail in the same way, tried in parallel."""
    t0 = time.monotonic()
    tries = 0
    best = plan
    improved = True
    while improved and tries < max_tries and time.monotonic() - t0 < budget_s:
        improved = False
        cands = []
        seen = set()
        base = size(best)
        for cand in mod.shrink(json.loads(json.dumps(best))):
            key = hashlib.sha256(json.dumps(cand, sort_keys=True).encode()).digest()
            if key in seen or size(cand) >= base:
                continue
            seen.add(key)
            cands.append(cand)
        i = 0
        width = len(pool.procs)
        while i < len(cands) and tries < max_tries:
            if time.monotonic() - t0 > budget_s:
                break
            batch = cands[i : i + width]
            i += width
            tries += len(batch)
            res = pool.map(
                [{"id": k, "plan": c, "torch": c.get("torch")} for k, c in enumerate(batch)]
            )
            good = [
                r
                for r in res
                if r.get("violation") and r["violation"]["kind"] == kind and not r.get("error")
            ]
            if good:
                r = min(good, key=lambda r: (size(r["plan"]), r["id"]))
                new = r["plan"]
                if size(new) < size(best):
                    best = new
                else:
                    best = batch[r["id"]]
                improved = True
                break
    return best, tries


def main(prop):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print(f"property={prop} seed={seed} tier={tier}", flush=True)
    spec = importlib.import_module(f"sim.props.meta").META[prop]
    runs = int(os.environ.get("VERIF_RUNS", spec["runs"][tier]))
    cap = 600 if tier == "quick" else int(os.environ.get("VERIF_CAP", "3000"))
    known = load_known(prop)
    every = spec.get("torch_every", 0)
    pool = Pool(prop, NWORKERS, ntorch=2 if every else 0)

    def job_of(i):
        return {
            "id": i,
            "seed": base + i,
            "tier": tier,
            "want_plan": i < 3,
            "torch": bool(every) and i % every == every - 1,
        }

    code = 2
    base = seed * 1_000_000
    try:
        jobs = (job_of(i) for i in range(runs))

        def stop(r):
            v = r.get("violation")
            if r.get("hang"):
                return True
            return bool(v) and not known_match(v, known)

        results = pool.map(jobs, stop, deadline=t0 + cap)
        results.sort(key=lambda r: r["id"])
        for r in results:
            if r.get("hang") and not any(q.get("violation") for q in results if q["id"] < r["id"]):
                # the same seed again in a fresh interpreter: a run without an end?
                fresh = Pool(prop, 1, ntorch=int(job_of(r["id"])["torch"]))
                try:
                    q = fresh.one({**job_of(r["id"]), "want_plan": True})
                finally:
                    fresh.close()
                if q.get("hang"):
                    plan = {"regenerate": {"seed": r["seed"], "tier": tier}, "torch": job_of(r["id"])["torch"]}
                    r["violation"] = {"kind": "no-progress", "detail": f"the run of seed {r['seed']} does not end within {q['hang']} s (twice); a run usually takes less than a second"}
                    r["plan"] = plan
                    r["error"] = None
                    r["ends"] = False
                break
        errors = [r for r in results if r.get("error")]
        viols = [r for r in results if r.get("violation")]
        new = [r for r in viols if not known_match(r["violation"], known)]
        for e in known:
            hits = [
                r for r in viols if known_match(r["violation"], known) is e
            ]
            print(
                f"KNOWN-FINDING: property={prop} {e['what']}"
                + ("" if hits else " (not met in this run)")
            )
        det = None
        replay_path = None
        if new and new[0].get("ends") is False:
            first = new[0]
            v = first["violation"]
            rdir = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(rdir, exist_ok=True)
            replay_path = os.path.join(rdir, f"{prop}-{first['seed']}.json")
            with open(replay_path, "w") as f:
                json.dump({"property": prop, "seed": first["seed"], "violation": v, "plan": first["plan"]}, f, indent=1)
            print(f"VIOLATION property={prop} replay={replay_path}")
            print(f"  {v['kind']}: {v['detail']}")
            code = 1
        elif new:
            first = new[0]
            plan, tries = minimise(
                pool, importlib_mod(prop), first["plan"], first["violation"]["kind"]
            )
            a, b = replay_twice(prop, plan)
            if not a.get("violation"):
                # report the unshrunk history when the shrunk one does not fail afresh
                plan = first["plan"]
                a, b = replay_twice(prop, plan)
            v = a.get("violation") or first["violation"]
            rdir = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(rdir, exist_ok=True)
            replay_path = os.path.join(rdir, f"{prop}-{first['seed']}.json")
            with open(replay_path, "w") as f:
                json.dump(
                    {
                        "property": prop,
                        "seed": first["seed"],
                        "violation": v,
                        "log": a.get("log"),
                        "reproduced_in_fresh_process": bool(a.get("violation")),
                        "repeat_identical": a.get("log") == b.get("log"),
                        "minimisation_runs": tries,
                        "events": a.get("events", first.get("events")),
                        "plan": plan,
                    },
                    f,
                    indent=1,
                )
            print(f"VIOLATION property={prop} replay={replay_path}")
            print(f"  {v['kind']}: {v['detail'][:1500]}")
            print(f"  seed {first['seed']}, minimised in {tries} runs")
            code = 1
        elif errors:
            print(f"{len(errors)} runs ended in a harness error (no verdict), first:")
            print(errors[0]["error"])
            code = 2
        else:
            # determinism sample: another interpreter, another hash seed
            sample = [r for r in results][:: max(1, len(results) // 6)][:6]
            nt = any(job_of(r["id"])["torch"] for r in sample)
            other = Pool(prop, 3, hashseed="7", ntorch=1 if nt else 0)
            try:
                again = {
                    r["id"]: r
                    for r in other.map(
                        [job_of(r["id"]) for r in sample]
                    )
                }
            finally:
                other.close()
            same = sum(again[r["id"]].get("log") == r["log"] for r in sample)
            det = {"seeds_run_twice": len(sample), "identical_event_logs": same}
            code = 0
        write_evidence(prop, tier, seed, spec, results, t0, det, len(new), replay_path, len(viols) - len(new))
        if code == 0:
            print(f"held on {len(results)} simulated runs, {time.monotonic() - t0:.1f} s")
    finally:
        pool.close()
    return code


def replay_twice(prop, plan):
    """The same history, twice, in fresh interpreters."""
    fresh = Pool(prop, 1, ntorch=1 if plan.get("torch") else 0)
    job = {"id": 0, "plan": plan, "torch": plan.get("torch")}
    try:
        return fresh.one(job), fresh.one(job)
    finally:
        fresh.close()


def importlib_mod(prop):
    """The property module, for its shrinker only (no numpy-dependent work here)."""
    return importlib.import_module(f"sim.props.{prop.lower()}")


def write_evidence(prop, tier, seed, spec, results, t0, det, nviol, replay, nknown):
    counts = Counter()
    for r in results:
        counts.update(r.get("counts", {}))
    wall = time.monotonic() - t0
    shapes = {r["shape"] for r in results if r.get("nontrivial")}
    faults = {k[6:]: n for k, n in sorted(counts.items()) if k.startswith("fault:")}
    probes = {k[6:]: n for k, n in sorted(counts.items()) if k.startswith("probe:")}
    ops = {k[3:]: n for k, n in sorted(counts.items()) if k.startswith("op:")}
    rest = {
        k: n
        for k, n in sorted(counts.items())
        if not k.startswith(("fault:", "probe:", "op:"))
    }
    samples = []
    for r in results:
        if r.get("plan") and len(samples) < 2:
            s = json.dumps(r["plan"])
            samples.append(r["plan"] if len(s) < 9000 else {"truncated": s[:9000]})
    for p in spec.get("probes", ()):
        probes.setdefault(p, 0)
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": len(shapes),
        "rule": spec["rule"],
        "samples": samples,
        "simulated_runs": len(results),
        "runs_per_hour": round(3600 * len(results) / max(wall, 1e-9)),
        "seeds": [results[0]["seed"], results[-1]["seed"]] if results else [],
        "simulated_steps": sum(r.get("steps", 0) for r in results),
        "simulated_time_s": round(sum(r.get("simtime", 0) for r in results), 3),
        "operations": ops,
        "faults_injected": faults,
        "probes": probes,
        "counters": rest,
        "distinct_measure": spec["measure"],
        "real_components": spec["real"],
        "stubbed_components": spec["stub"],
        "determinism": det,
        "known_findings_met": nknown,
        "harness_errors": sum(1 for r in results if r.get("error")),
    }
    if replay:
        cov["replay"] = replay
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(
            {
                "property": prop,
                "tier": tier,
                "seed": seed,
                "level": "exploration",
                "coverage": cov,
                "assumptions": spec["assumptions"],
                "wall_s": round(wall, 2),
                "violations": nviol,
            },
            f,
            indent=1,
        )
    os.replace(tmp, path)
