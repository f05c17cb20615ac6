"""Client tasks in the simulator: shared by the properties about threads."""

import builtins

import numpy as np

from . import sched, world
from .core import HarnessError
from .world import same


def gen_policy(rng, nclients, pool=False):
    gap = rng.choice([0, 2, 4, 8, 15, 30, 60, 150, 400])
    p = {"seed": rng.randrange(10**9), "gap": gap}
    if rng.random() < 0.25:
        p["opcode"] = True
        p["gap"] = rng.choice([15, 40, 100, 300])
    if rng.random() < 0.3:
        # a slow or stalled worker or client
        p["starve"] = rng.randrange(nclients + (4 if pool else 0))
    return p


def run_clients(plan, ctx, clients, max_steps=400_000):
    """clients: callables, run as tasks of one simulated execution.  Returns the tasks."""
    sched.install_torn_einsum()
    sim = sched.Sim(
        policy=plan["policy"],
        decisions=plan.get("decisions"),
        files=sched.lib_files(),
        max_steps=max_steps,
        pool=plan.get("pool", 4),
    )
    sim.torn = plan.get("torn", 0)
    if plan.get("job_faults"):
        faults = {f["job"]: f["exc"] for f in plan["job_faults"]}
        sim.job_fault = lambda no: getattr(builtins, faults[no])("worker failed") if no in faults else None
    tasks = [sim.spawn(fn, name=f"client{k}") for k, fn in enumerate(clients)]
    try:
        sim.run()
    except sched.SimDeadlock as e:
        ctx.decisions = sim.decisions
        ctx.violate("deadlock", f"no task can run: {e}")
    except sched.SimStepLimit as e:
        raise HarnessError(f"step limit: {e}")
    ctx.decisions = sim.decisions
    ctx.sim_steps += sim.steps
    ctx.sim_time += sim.now
    ctx.count("context_switches", sim.switches)
    ctx.count("preemptions", sim.preemptions)
    if sim.torn_writes:
        ctx.count("fault:torn_write", sim.torn_writes)
    if sim.job_faults_fired:
        ctx.count("fault:worker_failed", sim.job_faults_fired)
    if plan["policy"].get("starve") is not None:
        ctx.count("fault:task_starved")
    ctx.trace([tuple(d) for d in sim.decisions])
    ctx.log("sim", sim.steps, sim.switches, sim.preemptions)
    return sim, tasks


def judge(ctx, kind, got, want, what, scale):
    ok, val = got
    if want[0] == "ok":
        if not ok:
            ctx.violate(kind + "-raises", f"{what}: {type(val).__name__}: {val}; alone it succeeds")
        d = same(val, want[1], atol=scale)
        if d:
            ctx.violate(kind + "-differs", f"{what}: {d}")
    elif ok:
        ctx.violate(kind + "-no-error", f"{what}: returns, alone it raises {want[1]}")


__all__ = ["np", "world"]
