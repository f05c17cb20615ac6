"""P06: concurrent threads with their own evaluation objects do not interfere."""

import copy

import numpy as np

from .. import umodels, world
from ..core import shrink_decisions, shrink_lists
from ..refcalls import resolve
from ..simclients import gen_policy, judge, run_clients
from .p01 import FUNCS, METHODS, fn_call, lab_call
from .p02 import EXC, settings

# matplotlib and scipy are not part of the concurrent workload
SHAPES = [[], [1], [3], [2, 1], [1, 4], [2, 3], [4, 2], [8, 6]]


def generate(rng, tier, torch):
    nc = rng.choice([2, 2, 2, 3, 3, 4])
    shape = rng.choice(SHAPES) if rng.random() > 0.01 else rng.choice(world.BIG[:2])
    nbuf = rng.choice([1, 2])
    bufs = [
        {
            "seed": rng.randrange(10**6),
            "shape": shape if rng.random() < 0.75 else rng.choice(SHAPES),
            "kind": world.any_kind(rng, ["gen", "gen", "mild", "eq", "id"]),
            "layout": rng.choice(["C", "F", "strided"]),
        }
        for _ in range(nbuf)
    ]
    private = [dict(b, seed=rng.randrange(10**6)) for b in bufs for _ in range(nc)]
    clones = rng.random() < 0.5  # every client has an equal graph (other deformations)
    first = None
    clients = []
    for c in range(nc):
        if clones and first is not None:
            g = copy.deepcopy(first)
            if rng.random() < 0.5:
                for m in g["models"]:
                    if m["k"] == "tod":
                        m["p"] = {k: round(v * 1.3, 4) for k, v in m["p"].items()}
        else:
            g = world.gen_graph(rng, nmodels=rng.choice([1, 1, 2]), nspaces=rng.choice([1, 2]), torch=torch)
        first = first or g
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            r = rng.random()
            b = rng.randrange(nbuf)
            b = b if rng.random() < 0.5 else nbuf + b * nc + c
            if r < 0.7:
                level = rng.choice(["space"] * 7 + ["framework", "model"])
                i = rng.randrange(len(g[level + "s"]))
                ops.append({"op": "call", "level": level, "i": i, "m": rng.choice(METHODS), "b": b, "sv": rng.randrange(2)})
            else:
                names = [f for f in FUNCS]
                ops.append({"op": "fn", "name": rng.choice(names), "b": b, "seed": rng.randrange(10**6)})
            if rng.random() < 0.08 and ops[-1]["op"] == "call":
                ops[-1]["fail"] = rng.choice(["UserError", "MemoryError", "ValueError"])
        clients.append({"graph": g, "ops": ops})
    if rng.random() < 0.3:
        # all clients do the same thing at once
        for c in clients[1:]:
            c["graph"] = copy.deepcopy(clients[0]["graph"])
            c["ops"] = copy.deepcopy(clients[0]["ops"])
            for op in c["ops"]:
                op["b"] = op["b"] if rng.random() < 0.4 else rng.randrange(len(bufs) + len(private))
    policy = gen_policy(rng, nc)
    policy["gap"] = policy["gap"] or 3  # (gap 0 never preempts)
    return {"bufs": bufs + private, "clients": clients, "policy": policy}


def execute(plan, ctx):
    bufs = []
    for b in plan["bufs"]:
        A = world.with_layout(world.gen_F(b["seed"], b["shape"], b["kind"]), b["layout"])
        A.setflags(write=False)
        bufs.append(A)
    todo, results, seen = [], [[] for _ in plan["clients"]], []
    scales = []
    for ci, c in enumerate(plan["clients"]):
        spec = c["graph"]
        graph = world.Graph(spec)
        scales.append(world.pscale(spec))
        calls = []
        for k, op in enumerate(c["ops"]):
            F = bufs[op["b"] % len(bufs)]
            if op["op"] == "call":
                mi = world.model_of(spec, op["level"], op["i"])
                ns = world.nstate_of(spec["models"][mi])
                sv = world.gen_sv(op["sv"], ns, F.shape[2:]) if ns else None
                if sv is not None:
                    sv.setflags(write=False)
                args, kw = world.args_for(spec, op["level"], op["i"], F, sv), {}
                want = ctx.pristine("evaluate", spec, op["level"], op["i"], op["m"], world.args_for(spec, op["level"], op["i"], np.array(F), sv))
                fn = getattr(graph.get(op["level"], op["i"]), op["m"])
                name = f"{op['level']}[{op['i']}].{op['m']}"
            elif op["name"].startswith("lab."):
                args, kw = (op["name"], op["seed"]), {}
                want = ctx.ref.call("sim.props.p01", "lab_call", *args)
                fn, name = lab_call, op["name"]
            else:
                name, args, kw = fn_call(op["name"], np.array(F), op["seed"])
                want = ctx.pristine("function", name, args, kw)
                fn = resolve(name)
            calls.append((op, fn, args, kw, want, f"client {ci} call {k} {name}"))
        todo.append(calls)
    contents = [b.tobytes() for b in bufs]
    base = settings()
    failing = {}  # id of the model -> exception of a running call

    def probe(model, method, a):
        exc = failing.pop(id(model), None)
        if exc is not None:
            raise exc

    def client(ci):
        def run():
            for op, fn, args, kw, want, what in todo[ci]:
                s = settings()
                if s != base:
                    seen.append(f"{what}: settings are {s} instead of {base}")
                try:
                    results[ci].append((True, fn(*args, **kw)))
                except Exception as e:
                    results[ci].append((False, e))

        return run

    for ci, calls in enumerate(todo):
        for op, fn, *_ in calls:
            if op.get("fail") and op["op"] == "call" and op["level"] == "space":
                model = fn.__self__.material.material
                failing[id(model)] = EXC[op["fail"]]("model failed")
    umodels.PROBE = probe
    nfail0 = len(failing)
    try:
        sim, tasks = run_clients(plan, ctx, [client(ci) for ci in range(len(todo))])
    finally:
        umodels.PROBE = None
    if nfail0 - len(failing):
        ctx.count("fault:model_callback_failed", nfail0 - len(failing))
    for t in tasks:
        if t.error is not None:
            raise t.error
    failed = 0
    for ci, calls in enumerate(todo):
        for (op, fn, args, kw, want, what), got in zip(calls, results[ci]):
            if not got[0] and str(got[1]) == "model failed":
                failed += 1
                continue
            judge(ctx, "concurrent", got, want, what, scales[ci])
            ctx.count("evaluations_compared")
    ctx.check(failed <= nfail0, "failure-spread", f"{failed} calls failed, {nfail0} failures injected")
    ctx.check([b.tobytes() for b in bufs] == contents, "input-changed", "a shared input array was written to")
    if seen:
        ctx.violate("settings-changed", seen[0])
    ctx.check(settings() == base, "settings-changed", lambda: f"{settings()} instead of {base}")
    ctx.trace([[c[5] for c in calls] for calls in todo])
    ctx.nontrivial = sim.preemptions > 0
    ctx.log("done", [[r[0] for r in rs] for rs in results])


def shrink(plan):
    yield from shrink_decisions(plan)
    if len(plan["clients"]) > 2:
        for k in range(len(plan["clients"])):
            q = dict(plan)
            q["clients"] = plan["clients"][:k] + plan["clients"][k + 1 :]
            q.pop("decisions", None)
            yield q
    for k, c in enumerate(plan["clients"]):
        for c2 in shrink_lists(c, ["ops"]):
            q = dict(plan)
            q["clients"] = plan["clients"][:k] + [c2] + plan["clients"][k + 1 :]
            yield q
