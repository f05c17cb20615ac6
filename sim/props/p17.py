"""P17: changed parameters and settings count from the next evaluation on, and only there."""

import copy

import numpy as np

from .. import umodels, world
from ..core import shrink_lists
from ..inject import Injector
from ..labworld import LC, MODELS, Materials
from ..world import same
from .p02 import EXC

METHODS = ["gradient", "hessian"]


def gen_change(rng, m, deep=True):
    """A new value of one parameter of a model: [path, value]."""
    k = m["k"]
    if k == "tod":
        name = rng.choice(["C10", "C10", "C01", "C11", "C20", "C30"])
        v = round(rng.uniform(0.1, 1.0) * (1 if name == "C10" else 0.08), 4)
        if name != "C10" and rng.random() < 0.3:
            v = 0
        return [["p", name], v]
    if k == "torch":
        name = rng.choice(sorted(m["p"]))
        return [["p", name], round(m["p"][name] * rng.uniform(0.5, 1.6), 4)]
    if k == "ogden":
        if rng.random() < 0.4:
            return [["item", rng.choice(["mu", "mu", "alpha"]), rng.randrange(len(m["mu"]))], rng.choice([0.25, 0.7, 1.6, 2.4])]
        n = rng.choice([1, 2, 3])
        return [["mu+alpha"], [[round(rng.uniform(0.2, 1), 3) for _ in range(n)], [rng.choice([1.7, 2.0, 3.1, -1.4]) for _ in range(n)]]]
    if k == "poly":
        a = list(m["a"])
        a[rng.choice([0, 0, 1, 2])] = round(rng.uniform(0.1, 0.8), 3)
        return [["a"], a]
    if k == "damage":
        name = rng.choice(["C10", "C01", "C20", "a", "b"])
        return [[name], round(rng.uniform(0.1, 0.6), 3)]
    if k == "ustr":
        return [[rng.choice(["mu", "b"])], round(rng.uniform(0.3, 1), 3)]
    if k == "gim":
        if deep and rng.random() < 0.35:
            return [["new inner"], world.gen_model(rng, "inv", stateful=False)]
        if not deep and rng.random() < 0.35:
            return [["exponent_now"], rng.choice([1.0, 1.5, 2.0])]
        path, v = gen_change(rng, m["inner"])
        return [["inner", *path], v]
    raise ValueError(k)


def change_model(model, m, path, value):
    """Apply a change to a live model (if given) and to its specification."""
    if path[0] == "inner":
        return change_model(model and model.material, m["inner"], path[1:], value)
    if path[0] == "new inner":
        if model is not None:
            model.material = world.build_model(value)
        m["inner"] = value
    elif path[0] == "p":
        if m["k"] == "torch":
            if model is not None:
                model.kwargs[path[1]] = value
        elif model is not None:
            setattr(model, path[1], value)
        m["p"][path[1]] = value
    elif path[0] == "exponent_now":
        if model is not None:
            model.kwargs["exponent"] = value
        m["exponent_now"] = value
    elif path[0] == "item":
        j = path[2] % len(m[path[1]])
        if model is not None:
            getattr(model, path[1])[j] = value
        m[path[1]][j] = value
    elif path[0] == "mu+alpha":
        if model is not None:
            model.mu, model.alpha = [list(v) for v in value]
        m["mu"], m["alpha"] = value
    else:
        if model is not None:
            setattr(model, path[0], value)
        m[path[0]] = value


def generate(rng, tier, torch):
    g = world.gen_graph(rng, nmodels=rng.choice([1, 2, 2, 3]), nspaces=rng.choice([1, 2, 3]), torch=torch)
    cur = copy.deepcopy(g)
    nb = rng.choice([1, 2])
    bufs = [
        {"seed": rng.randrange(10**6), "shape": world.any_shape(rng), "kind": world.any_kind(rng, ["gen", "gen", "mild", "big", "uni", "eq"])}
        for _ in range(nb)
    ]
    nsim = 0 if torch else rng.choice([0, 1, 1, 2, 2, 3])
    sims = []
    for _ in range(nsim):
        kind = rng.choice(sorted(MODELS))
        sims.append({"kind": kind, "lc": rng.choice(LC), "x": rng.randrange(10**6), "p": rng.randrange(10**6), "space": rng.choice(["Distortional", "Deformation"])})
        if rng.random() < 0.4:
            sims[-1]["p"] = None  # created without parameters: ones
    if len(sims) > 1 and rng.random() < 0.5:
        sims[1] = dict(sims[0])
    ops = []
    ns, nf, nm = len(g["spaces"]), len(g["frameworks"]), len(g["models"])

    def call(i=None):
        return {"op": "call", "i": rng.randrange(ns) if i is None else i, "m": rng.choice(METHODS), "b": rng.randrange(nb), "sv": rng.randrange(3)}

    def alike(f, j):
        """May framework f use model j?"""
        a, b = cur["models"][cur["frameworks"][f]["m"]], cur["models"][j]
        fam = lambda m: m["k"] in ("ogden", "ustr", "gim")  # noqa: E731
        return fam(a) == fam(b) and world.nstate_of(a) == world.nstate_of(b)

    for _ in range(rng.randint(10, 26)):
        r = rng.random()
        if r < 0.4:
            ops.append(call())
        elif r < 0.47:
            ops.append({"op": "low", "level": rng.choice(["framework", "model"]), "r": rng.randrange(1000), "m": rng.choice(METHODS), "b": rng.randrange(nb), "sv": rng.randrange(3)})
        elif r < 0.68:
            i = rng.randrange(nm)
            path, v = gen_change(rng, cur["models"][i])
            change_model(None, cur["models"][i], path, copy.deepcopy(v))
            op = {"op": "model", "i": i, "path": path, "value": v}
            # the change is made by the model callback of another evaluation
            if rng.random() < 0.25:
                op["during"] = call()
            ops.append(op)
        elif r < 0.72:
            f, j = rng.randrange(nf), rng.randrange(nm)
            if alike(f, j):
                cur["frameworks"][f]["m"] = j
                ops.append({"op": "framework", "i": f, "m": j})
        elif r < 0.76:
            s, f = rng.randrange(ns), rng.randrange(nf)
            old = cur["spaces"][s]["f"]
            if world.nstate_of(cur["models"][cur["frameworks"][old]["m"]]) == world.nstate_of(cur["models"][cur["frameworks"][f]["m"]]):
                cur["spaces"][s]["f"] = f
                ops.append({"op": "space", "i": s, "f": f})
        elif r < 0.84:
            key = rng.choice(["force", "area", "finalize"])
            ops.append({"op": "setting", "i": rng.randrange(ns), "key": key, "value": rng.random() < 0.7 if key == "finalize" else rng.choice([None, 0])})
        elif r < 0.89:
            ops.append({"op": "fault", **{k: v for k, v in call().items() if k != "op"}, "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "UserError"]), "frac": round(rng.random(), 4)})
        elif sims:
            i = rng.randrange(len(sims))
            what = rng.choice(["p", "p", "p-inplace", "p-inplace", "new", "x", "x-inplace", "lc", "kind", "space"])
            ops.append({"op": "sim", "i": i, "what": what, "value": rng.choice(LC) if what == "lc" else rng.choice(sorted(MODELS)) if what == "kind" else rng.randrange(10**6)})
            for _ in range(rng.choice([1, 2])):
                ops.append({"op": "stress", "i": rng.randrange(len(sims)), "direct": rng.random() < 0.2})
        else:
            ops.append(call())
        if ops and ops[-1]["op"] in ("model", "framework", "space", "setting") and rng.random() < 0.7:
            ops.append(call(ops[-1]["i"] if ops[-1]["op"] in ("space", "setting") else None))
    if sims:
        ops.append({"op": "experiment", "seed": rng.randrange(10**6)})
    return {"graph": g, "bufs": bufs, "sims": sims, "ops": ops}


def points(seed):
    g = np.random.default_rng([seed, 51])
    return np.sort(g.uniform(0.7, 2.2, 7 if seed % 2 else 4))


def params(seed, kind):
    if seed is None:
        return np.ones(len(MODELS[kind][0]))
    g = np.random.default_rng([seed, 52])
    return g.uniform(0.05, 0.6, len(MODELS[kind][0]))


def new_simulation(kind, lc, x, p, space):
    import hyperelastic as hel

    given = {} if p is None else {"parameters": np.array(p)}
    return hel.lab.Simulation(getattr(hel.lab, lc)(), np.array(x), list(MODELS[kind][0]), Materials(kind, space), **given)


def fresh_stress(kind, lc, x, p, space, direct):
    s = new_simulation(kind, lc, x, p, space)
    return s.stress_curve_fit(np.array(x), *p) if direct else s.stress()


def execute(plan, ctx):
    import hyperelastic as hel

    cur = copy.deepcopy(plan["graph"])
    graph = world.Graph(copy.deepcopy(cur))
    bufs = [world.gen_F(b["seed"], b["shape"], b["kind"]) for b in plan["bufs"]]
    svs = {}
    sims = []
    for s in plan["sims"]:
        v = dict(s, x=points(s["x"]), p=params(s["p"], s["kind"]))
        sims.append((new_simulation(v["kind"], v["lc"], v["x"], v["p"] if s["p"] is not None else None, v["space"]), v))
    evals = changed = 0

    def arguments(level, i, op):
        F = bufs[op["b"] % len(bufs)]
        ns = world.nstate_of(cur["models"][world.model_of(cur, level, i)])
        sv = None
        if ns:
            key = (op["sv"], ns, F.shape[2:])
            if key not in svs:
                svs[key] = world.gen_sv(op["sv"], ns, F.shape[2:])
            sv = svs[key]
        return world.args_for(cur, level, i, F, sv)

    def evaluate(level, i, op, what):
        nonlocal evals
        args = arguments(level, i, op)
        want = ctx.pristine("evaluate", cur, level, i, op["m"], copy.deepcopy(args))
        try:
            got = (True, getattr(graph.get(level, i), op["m"])(*args))
        except Exception as e:
            got = (False, e)
        evals += 1
        if want[0] == "ok":
            if not got[0]:
                ctx.violate("evaluation-raises", f"{what}: {type(got[1]).__name__}: {got[1]}; objects created with the current parameters succeed")
            d = same(got[1], want[1], atol=world.pscale(cur))
            ctx.check(d is None, "not-current", lambda: f"{what}: {d} (against objects created with the current parameters)")
        else:
            ctx.check(not got[0], "no-error", lambda: f"{what}: objects created with the current parameters raise {want[1]}: {want[2]}")
        ctx.log(what, got[0])

    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        what = f"op {n} {k}"
        ctx.count("op:" + k)
        if k == "call":
            evaluate("space", op["i"], op, f"op {n} space[{op['i']}].{op['m']}")
        elif k == "low":
            i = op["r"] % len(graph.frameworks if op["level"] == "framework" else graph.models)
            evaluate(op["level"], i, op, f"op {n} {op['level']}[{i}].{op['m']}")
        elif k == "model":
            model = graph.models[op["i"]]
            d = op.get("during")

            def change():
                change_model(model, cur["models"][op["i"]], op["path"], copy.deepcopy(op["value"]))

            done = [False]
            if d is not None and cur["frameworks"][cur["spaces"][d["i"]]["f"]]["m"] != op["i"]:

                def probe(*a):
                    if not done[0]:
                        done[0] = True
                        change()

                umodels.PROBE = probe
                try:
                    # the model under change does not belong to this evaluation
                    evaluate("space", d["i"], d, f"{what}: space[{d['i']}].{d['m']}")
                finally:
                    umodels.PROBE = None
                if done[0]:
                    ctx.count("fault:changed_during_another_evaluation")
            if not done[0]:
                change()
            changed += 1
        elif k == "framework":
            fw, spec = graph.frameworks[op["i"]], cur["frameworks"][op["i"]]
            spec["m"] = op["m"]
            if spec["k"] == "gen":
                fw.material.material = graph.models[op["m"]]
            else:
                fw.material = graph.models[op["m"]]
            changed += 1
        elif k == "space":
            graph.spaces[op["i"]].material = graph.frameworks[op["f"]]
            cur["spaces"][op["i"]]["f"] = op["f"]
            changed += 1
        elif k == "setting":
            setattr(graph.spaces[op["i"]], op["key"], op["value"])
            cur["spaces"][op["i"]][op["key"]] = op["value"]
            changed += 1
        elif k == "fault":
            args = arguments("space", op["i"], op)
            inj = Injector(EXC[op["exc"]]("injected"), 1 + int(op["frac"] * 150), False)
            try:
                inj.call(getattr(graph.spaces[op["i"]], op["m"]), *args)
            except BaseException as e:
                if e is not inj.exc and not isinstance(e, Exception):
                    raise
            ctx.count("fault:interrupted_evaluation", int(inj.fired))
        elif k == "sim":
            sim, v = sims[op["i"]]
            w = op["what"]
            if w == "p":
                v["p"] = params(op["value"], v["kind"])
                sim.parameters = list(v["p"]) if op["value"] % 2 else np.array(v["p"])
            elif w == "p-inplace":
                j = op["value"] % len(v["p"])
                v["p"] = np.array(v["p"])
                v["p"][j] *= 1.3
                sim.parameters[j] = v["p"][j]
            elif w == "new":
                # another simulation, without parameters
                v["p"] = np.ones(len(v["p"]))
                sims[op["i"]] = new_simulation(v["kind"], v["lc"], v["x"], None, v["space"]), v
            elif w == "x":
                v["x"] = points(op["value"])
                sim.stretch = np.array(v["x"])
            elif w == "x-inplace":
                v["x"] = np.array(v["x"])
                v["x"][0] *= 1.02
                sim.stretch[0] = v["x"][0]
            elif w == "lc":
                v["lc"] = op["value"]
                sim.loadcase = getattr(hel.lab, v["lc"])()
            elif w == "space":
                v["space"] = "Deformation" if v["space"] == "Distortional" else "Distortional"
                sim.material = Materials(v["kind"], v["space"])
            else:
                v["kind"] = op["value"]
                v["p"] = params(n, v["kind"])
                sim.labels, sim.parameters, sim.material = list(MODELS[v["kind"]][0]), np.array(v["p"]), Materials(v["kind"], v["space"])
            changed += 1
        elif k == "stress":
            sim, v = sims[op["i"]]
            want = ctx.ref.call("sim.props.p17", "fresh_stress", v["kind"], v["lc"], v["x"], v["p"], v["space"], op["direct"])
            ctx.count("pristine_evaluations")
            if want[0] != "ok":
                ctx.violate("simulation-raises", f"{what}: newly created objects raise {want[1]}: {want[2]}")
            got = sim.stress_curve_fit(np.array(v["x"]), *v["p"]) if op["direct"] else sim.stress()
            evals += 1
            d = same(got, want[1], atol=1.0)
            ctx.check(d is None, "simulation-not-current", lambda: f"{what} of simulation {op['i']}: {d} (against a simulation created with the current parameters)")
        elif k == "experiment":
            g = np.random.default_rng([op["seed"], 53])
            d, f = g.uniform(0, 3, 5), g.uniform(0, 9, 5)
            e = hel.lab.Experiment("e", d, f, area=2.0, length=3.0)
            e.stress()
            e.area = float(g.uniform(1, 9))
            ctx.check(np.allclose(e.stress(), f / e.area, rtol=1e-12), "experiment-not-current", f"{what}: stress after a change of the area")
            e.force = f * 2
            ctx.check(np.allclose(e.stress(), 2 * f / e.area, rtol=1e-12), "experiment-not-current", f"{what}: stress after a change of the force")
        ctx.trace(k, op.get("i"), op.get("m"), op.get("path"), op.get("key"), op.get("what"), op.get("level"))
        ctx.log(n, k)
    ctx.nontrivial = evals >= 3 and changed >= 1
    ctx.count("evaluations_compared", evals)
    ctx.count("changes", changed)
    ctx.sim_steps = len(plan["ops"])


def shrink(plan):
    yield from shrink_lists(plan, ["ops"])
    for i, op in enumerate(plan["ops"]):
        if "during" in op:
            q = dict(plan)
            q["ops"] = [dict(x) for x in plan["ops"]]
            del q["ops"][i]["during"]
            yield q
    for i, b in enumerate(plan["bufs"]):
        for shape in ([], [1]):
            if len(str(b["shape"])) > len(str(shape)):
                q = dict(plan)
                q["bufs"] = [dict(x) for x in plan["bufs"]]
                q["bufs"][i]["shape"] = shape
                yield q
