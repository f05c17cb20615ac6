"""P19: memory stays bounded over histories of any length and is released with the objects."""

import copy
import gc
import sys
import tracemalloc

import numpy as np

from .. import umodels, world
from ..core import shrink_lists
from ..inject import Injector
from ..labworld import MODELS, Lab, gen_p0, gen_setup
from .p02 import EXC, corrupt

PRELOAD = ["scipy.optimize", "matplotlib.pyplot", "matplotlib.figure", "matplotlib.backends.backend_agg"]
METHODS = ["gradient", "hessian"]
WARM, CYCLES = 3, 8
LIMIT = 40_000  # one field of scalars per cycle is 128 kB; numpy's own small blocks are below 15 kB
FUNCS = ["inv", "dya", "cdya", "det", "dot", "ddot", "eigh", "dev", "cdya_ik", "asvoigt", "triu_from_tril"]


def generate(rng, tier, torch):
    g = world.gen_graph(rng, nmodels=rng.choice([1, 2]), nspaces=rng.choice([1, 2, 3]), torch=torch)
    if not torch and rng.random() < 0.2:
        # the jobs of threaded spaces are run in-line here
        for s in g["spaces"]:
            s["parallel"] = True
    ns, nf, nm = len(g["spaces"]), len(g["frameworks"]), len(g["models"])
    lab = None
    if not torch and rng.random() < 0.35:
        s = gen_setup(rng)
        s["npts"] = [31] * len(s["lcs"])
        lab = {"setup": s, "p0": gen_p0(rng, s["kind"])}
    ops = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        c = {"i": rng.randrange(ns), "m": rng.choice(METHODS), "b": rng.randrange(2)}
        if r < 0.4:
            ops.append({"op": "call", **c})
        elif r < 0.5:
            lv = rng.choice(["framework", "model"])
            ops.append({"op": "low", "level": lv, **c, "i": rng.randrange(nf if lv == "framework" else nm)})
        elif r < 0.62:
            ops.append({"op": "fn", "fn": rng.choice(FUNCS), "b": c["b"]})
        elif r < 0.72:
            ops.append({"op": "fault", **c, "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "UserError"]), "frac": round(rng.random(), 4)})
        elif r < 0.79:
            ops.append({"op": "model", **c})
        elif r < 0.86:
            ops.append({"op": "data", **c, "how": rng.choice(["nan", "zero", "huge"])})
        elif r < 0.93:
            ops.append({"op": "build", **c, "copy": rng.random() < 0.4})
        else:
            ops.append({"op": "call", **c})
        if r < 0.2 and g["spaces"][0]["parallel"]:
            ops.append({"op": "build", **c, "copy": False})
        if lab and rng.random() < 0.35:
            o = rng.choice(["stress", "stress", "fit", "plot", "newlab", "failfit", "failfit", "optplot"])
            ops.append({"op": o, "how": rng.choice(["material", "maxfev", "bounds", "interrupt", "ok"]), "new": rng.random() < 0.4})
    return {
        "graph": g,
        "lab": lab,
        "ops": ops,
        # every cycle has other data, other parameters and maybe fewer points
        "vary": rng.random() < 0.5,
        "shapes": [rng.choice([[2000], [8, 250], [1500]]), rng.choice([[], [2], [500]])],
        "seed": rng.randrange(10**6),
    }


def execute(plan, ctx):
    import hyperelastic as hel

    graph = world.Graph(plan["graph"])
    spec = plan["graph"]
    lab = None
    if plan["lab"]:
        lab = Lab(plan["lab"]["setup"], np.array(plan["lab"]["p0"]))
    calls = 0

    def batch(op, cycle):
        shape = list(plan["shapes"][op["b"]])
        if plan.get("vary") and shape and shape[-1] > 200:
            shape[-1] -= cycle
        return shape

    def args(level, i, op, cycle):
        shape = batch(op, cycle)
        F = world.gen_F(plan["seed"] + 7 * cycle + op["b"], shape)
        n = world.nstate_of(spec["models"][world.model_of(spec, level, i)])
        sv = world.gen_sv(cycle, n, shape) if n else None
        return world.args_for(spec, level, i, F, sv)

    def one(op, cycle):
        nonlocal calls, lab
        k = op["op"]
        calls += 1
        del world.GIVEN[:]  # what the harness itself keeps
        if k in ("call", "low"):
            level = op.get("level", "space")
            try:
                getattr(graph.get(level, op["i"]), op["m"])(*args(level, op["i"], op, cycle))
            except Exception:
                pass
        elif k == "fn":
            A = world.cauchy_green(world.gen_F(plan["seed"] + cycle, batch(op, cycle)))
            B = A[[1, 2, 0, 4, 5, 3]]
            f = getattr(hel.math, op["fn"])
            if op["fn"] in ("dya", "cdya", "dot", "ddot", "cdya_ik"):
                f(A, B)
            elif op["fn"] == "asvoigt":
                f(np.ones((3, 3, *A.shape[1:])))
            elif op["fn"] == "triu_from_tril":
                f(np.ones((6, 6, *A.shape[1:])))
            else:
                f(A)
        elif k == "fault":
            inj = Injector(EXC[op["exc"]]("injected"), 1 + int(op["frac"] * 150), False)
            try:
                inj.call(getattr(graph.spaces[op["i"]], op["m"]), *args("space", op["i"], op, cycle))
            except BaseException as e:
                if e is not inj.exc and not isinstance(e, Exception):
                    raise
            if inj.fired:
                ctx.count("fault:interrupted_evaluation")
        elif k == "model":

            def probe(*a):
                raise ValueError("from the material model")

            umodels.PROBE = probe
            try:
                getattr(graph.spaces[op["i"]], op["m"])(*args("space", op["i"], op, cycle))
            except ValueError:
                ctx.count("fault:model_raises")
            except Exception:
                pass
            finally:
                umodels.PROBE = None
        elif k == "data":
            a = args("space", op["i"], op, cycle)
            corrupt(a[0][0], op["how"], 0.4)
            try:
                with np.errstate(all="raise"):
                    getattr(graph.spaces[op["i"]], op["m"])(*a)
            except Exception:
                ctx.count("fault:data_raises")
        elif k == "build":
            g = copy.deepcopy(graph.spaces) if op["copy"] else world.Graph(spec).spaces
            try:
                getattr(g[op["i"]], op["m"])(*args("space", op["i"], op, cycle))
            except Exception:
                pass
        elif k == "newlab":
            lab = Lab(plan["lab"]["setup"], np.array(plan["lab"]["p0"]))
        elif k == "stress":
            rng = np.random.default_rng(cycle)
            for s in lab.simulations:
                for _ in range(80):
                    s.stress_curve_fit(s.stretch, *rng.uniform(0.1, 0.6, len(s.labels)))
                s.stress()
        elif k == "fit":
            lab.opt.parameters = np.array(plan["lab"]["p0"]) * (1 + 0.01 * cycle)
            with np.errstate(all="ignore"):
                lab.opt.curve_fit(method="lm")
        elif k == "failfit":
            # fits which fail at a later evaluation, with the living or a new optimizer
            for j in range(3):
                o = Lab(plan["lab"]["setup"], np.array(plan["lab"]["p0"])) if op["new"] else lab
                o.opt.parameters = np.array(plan["lab"]["p0"]) * (1 + 0.01 * cycle)
                kw = {"maxfev": 2} if op["how"] == "maxfev" else {"bounds": (5, 6)} if op["how"] == "bounds" else {}
                exc = {"material": ValueError, "interrupt": KeyboardInterrupt}.get(op["how"])
                o.material.calls = 0

                def hook(m, n):
                    if exc is not None and n == 4 + j:
                        raise exc("from the material factory")

                o.material.hook = hook
                try:
                    with np.errstate(all="ignore"):
                        o.opt.curve_fit(**kw)
                except (ValueError, RuntimeError, KeyboardInterrupt):
                    ctx.count("fault:fit_fails_" + op["how"])
                finally:
                    o.material.hook = None
        elif k == "optplot":
            import matplotlib.pyplot as plt

            if op["new"]:
                lab = Lab(plan["lab"]["setup"], np.array(plan["lab"]["p0"]))
            with np.errstate(all="ignore"):
                lab.opt.parameters = np.array(plan["lab"]["p0"])
                lab.opt.curve_fit(method="lm")
                lab.opt.plot()
            plt.close("all")
        elif k == "plot":
            import matplotlib.pyplot as plt

            with np.errstate(all="ignore"):
                lab.simulations[0].plot_stress_stretch()
                lab.experiments[0].plot_force_displacement()
            plt.close("all")

    def measure():
        for _ in range(3):
            gc.collect()
        size = tracemalloc.get_traced_memory()[0]
        n = refs = 0
        tensor = sys.modules["torch"].Tensor if "torch" in sys.modules else None
        for o in gc.get_objects():
            # references held by all living containers
            refs += len(gc.get_referents(o))
            n += tensor is not None and issubclass(type(o), tensor)
        return size, n, refs

    def growing(marks, n):
        """At least one reference more is held after each repetition."""
        return all(b[2] - a[2] >= n for a, b in zip(marks, marks[1:]))

    # matplotlib caches the layout of each text (some kB); a figure has several 100 kB
    limit = LIMIT + 30_000 * CYCLES * sum(o["op"] == "optplot" for o in plan["ops"])

    def more_of(marks, j):
        return [b[j] - a[j] for a, b in zip(marks, marks[1:])]

    gc.unfreeze()  # the simulator freezes the objects of the modules
    tracemalloc.start()
    try:
        marks = []
        for cycle in range(WARM + 2 * CYCLES):
            for op in plan["ops"]:
                one(op, cycle)
            if cycle >= WARM - 1 and (cycle - WARM + 1) % CYCLES == 0:
                marks.append(measure())
        # (matplotlib caches the layout of each text, up to a limit)
        small = growing(marks, CYCLES) and not any(o["op"].endswith("plot") for o in plan["ops"])
        large = min(more_of(marks, 0)) >= limit
        tensors = min(more_of(marks, 1)) >= CYCLES
        if any(o["op"].endswith("plot") for o in plan["ops"]):
            more = marks  # (slow; nothing of a plot is kept on purpose)
        elif small or large or tensors:
            # a bounded cache is no leak: does the number of objects grow for ever?
            more = [marks[-1]]
            for cycle in range(WARM + 2 * CYCLES, WARM + 20 * CYCLES):
                for op in plan["ops"]:
                    one(op, cycle)
                if (cycle - WARM + 1) % (6 * CYCLES) == 2 * CYCLES:
                    more.append(measure())
            small = small and growing(more, 6 * CYCLES)
            large = large and min(more_of(more, 0)) >= 6 * limit
            tensors = tensors and min(more_of(more, 1)) >= 6 * CYCLES
    finally:
        tracemalloc.stop()
    # growth in both halves of the history: a one-time allocation is no leak
    ctx.check(not large, "memory-grows", lambda: f"{more_of(more, 0)} bytes are kept after each {CYCLES if more is marks else 6 * CYCLES} repetitions of {[o['op'] for o in plan['ops']]}")
    ctx.check(not tensors, "tensors-accumulate", lambda: f"{more_of(more, 1)} torch tensors are kept after each {6 * CYCLES} repetitions of {[o['op'] for o in plan['ops']]}")
    ctx.check(not small, "objects-accumulate", lambda: f"{more_of(more, 2)} references more are held after each {6 * CYCLES} repetitions of {[o['op'] for o in plan['ops']]}")
    for op in plan["ops"]:
        ctx.count("op:" + op["op"], WARM + 2 * CYCLES)
        ctx.trace(op["op"], op.get("i"), op.get("m"), op.get("fn"), op.get("level"))
    ctx.trace([m["k"] for m in spec["models"]], [s["k"] for s in spec["spaces"]], plan["shapes"])
    ctx.log(calls)
    ctx.count("evaluations", calls)
    ctx.nontrivial = calls > 0
    ctx.sim_steps = calls


def shrink(plan):
    yield from shrink_lists(plan, ["ops"])


__all__ = ["MODELS"]
