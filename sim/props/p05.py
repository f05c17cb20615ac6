"""P05: parallel=True equals serial evaluation under any worker schedule."""

import copy

import numpy as np

from .. import sched, world
from ..core import shrink_decisions, shrink_lists
from ..simclients import gen_policy, judge, run_clients
from ..world import same

METHODS = ["gradient", "hessian"]
FAULTS = ["MemoryError", "RuntimeError", "OSError", "ValueError", "FloatingPointError", "TimeoutError"]
SHAPES = [[], [1], [2], [3], [7], [2, 1], [1, 4], [2, 3], [4, 2], [8, 6], [1, 25], [3, 2, 2], [5, 1, 3]]


def generate(rng, tier, torch):
    nc = rng.choice([1, 1, 1, 2])
    clients = []
    nops = 0
    for _ in range(nc):
        g = world.gen_graph(rng, nmodels=rng.choice([1, 1, 2]), nspaces=rng.choice([1, 2]), parallel=True)
        if rng.random() < 0.4:
            # any configuration, more often than by default
            for s in g["spaces"]:
                s["force"] = rng.choice([None, 0])
                s["area"] = rng.choice([None, 0])
        nbuf = rng.choice([1, 2])
        bufs = [
            {
                "seed": rng.randrange(10**6),
                "shape": rng.choice(SHAPES) if rng.random() > 0.02 else rng.choice(world.BIG),
                "kind": world.any_kind(rng, ["gen", "gen", "mild", "eq"]),
                "layout": rng.choice(world.LAYOUTS),
            }
            for _ in range(nbuf)
        ]
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            ops.append(
                {
                    "level": "space" if rng.random() < 0.9 else "framework",
                    "i": 0,
                    "m": rng.choice(METHODS),
                    "b": rng.randrange(nbuf),
                    "sv": rng.randrange(2),
                }
            )
            ops[-1]["i"] = rng.randrange(len(g["spaces" if ops[-1]["level"] == "space" else "frameworks"]))
        nops += len(ops)
        clients.append({"graph": g, "bufs": bufs, "ops": ops})
    plan = {
        "clients": clients,
        "policy": gen_policy(rng, nc, pool=True),
        "pool": rng.choice([1, 2, 2, 3, 4, 5, 8, 16]),
        "torn": rng.choice([0, 2, 3]),
    }
    if rng.random() < 0.35:
        plan["job_faults"] = [
            {"job": int(rng.expovariate(1 / (6.0 * nops))), "exc": rng.choice(FAULTS)}
            for _ in range(rng.choice([1, 1, 2]))
        ]
    return plan


def serial(spec):
    spec = copy.deepcopy(spec)
    for x in spec["spaces"] + spec["frameworks"]:
        x["parallel"] = False
    return spec


def execute(plan, ctx):
    todo = []
    results = [[] for _ in plan["clients"]]

    for ci, c in enumerate(plan["clients"]):
        spec = c["graph"]
        graph = world.Graph(spec)
        bufs = [world.with_layout(world.gen_F(b["seed"], b["shape"], b["kind"]), b["layout"]) for b in c["bufs"]]
        calls = []
        for op in c["ops"]:
            F = bufs[op["b"] % len(bufs)]
            mi = world.model_of(spec, op["level"], op["i"])
            ns = world.nstate_of(spec["models"][mi])
            sv = world.gen_sv(op["sv"], ns, F.shape[2:]) if ns else None
            args = world.args_for(spec, op["level"], op["i"], F, sv)
            want = ctx.pristine("evaluate", serial(spec), op["level"], op["i"], op["m"], world.args_for(spec, op["level"], op["i"], np.array(F), sv))
            if want[0] != "ok":
                ctx.violate("evaluation-raises", f"serial evaluation with new objects: {want[1]}: {want[2]}")
            obj = graph.get(op["level"], op["i"])
            before = [None if a is None else a.tobytes() for a in world.flat(list(args))]
            calls.append((op, getattr(obj, op["m"]), args, want, before))
        todo.append(calls)

    def client(ci):
        def run():
            for k, (op, fn, args, want, before) in enumerate(todo[ci]):
                sched.insim().me().call = k
                try:
                    results[ci].append((True, fn(*args)))
                except Exception as e:
                    results[ci].append((False, e))

        return run

    sim, tasks = run_clients(plan, ctx, [client(ci) for ci in range(len(todo))])
    ctx.count("pool_jobs", sim.job_no)
    faulty = sim.job_faults_fired > 0
    nfail = 0
    for ci, t in enumerate(tasks):
        if t.error is not None:
            raise t.error
        scale = world.pscale(plan["clients"][ci]["graph"])
        for k, (op, fn, args, want, before) in enumerate(todo[ci]):
            what = f"client {ci} call {k} {op['level']}[{op['i']}].{op['m']} (pool of {plan['pool']})"
            got = results[ci][k]
            ctx.check(
                [None if a is None else a.tobytes() for a in world.flat(list(args))] == before,
                "input-changed",
                what,
            )
            if not got[0] and str(got[1]) == "worker failed":
                nfail += 1
                ctx.check(nfail <= sim.job_faults_fired, "failure-repeated", what)
                continue
            ctx.check(
                (ci, k) not in sim.job_fault_calls or not got[0],
                "failure-lost",
                f"{what}: a worker failed, the call returns",
            )
            judge(ctx, "parallel", got, want, what, scale)
            ctx.count("evaluations_compared")
    if faulty:
        ctx.count("probe:failure_reached_caller", nfail)
        # later evaluations on the same objects are right again (no schedule, no faults)
        for ci in range(len(todo)):
            for op, fn, args, want, before in todo[ci]:
                try:
                    got = (True, fn(*args))
                except Exception as e:
                    got = (False, e)
                judge(ctx, "after-worker-failure", got, want, f"client {ci} {op['m']}", 1.0)
    ctx.trace([(c["bufs"], [op["m"] for op in c["ops"]]) for c in plan["clients"]], plan["pool"])
    ctx.nontrivial = sim.job_no > 0 and sim.switches > 2
    ctx.log("done", [[r[0] for r in rs] for rs in results])


def shrink(plan):
    yield from shrink_decisions(plan)
    if plan.get("job_faults"):
        for k in range(len(plan["job_faults"])):
            q = dict(plan)
            q["job_faults"] = plan["job_faults"][:k] + plan["job_faults"][k + 1 :]
            yield q
    if len(plan["clients"]) > 1:
        for k in range(len(plan["clients"])):
            q = dict(plan)
            q["clients"] = plan["clients"][:k] + plan["clients"][k + 1 :]
            q.pop("decisions", None)
            yield q
    for k, c in enumerate(plan["clients"]):
        for c2 in shrink_lists(c, ["ops"]):
            q = dict(plan)
            q["clients"] = plan["clients"][:k] + [c2] + plan["clients"][k + 1 :]
            yield q
    for pool in (2, 1):
        if plan["pool"] > pool:
            yield {**plan, "pool": pool}


__all__ = ["same"]
