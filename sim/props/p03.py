"""P03: arguments are read-only, returned results stay as returned."""

import copy

import numpy as np

from .. import umodels, world
from ..core import shrink_lists
from ..refcalls import resolve
from ..world import flat, same
from .p01 import FUNCS, fn_call, lab_call  # noqa: F401

METHODS = ["gradient", "hessian"]
FORMS = ["array", "array", "ro", "bc", "small"]


def own_model(rng, fam):
    m = {
        "k": "own" if fam == "inv" else "ownstr",
        "a": [
            round(rng.uniform(0.3, 1), 3),
            rng.choice([0, round(rng.uniform(0.1, 0.4), 3)]),
            rng.choice([0, round(rng.uniform(0.1, 0.4), 3)]),
        ],
        "passin": rng.random() < 0.35,
        "form": rng.choice(FORMS),
    }
    if m["k"] == "ownstr":
        if m["form"] in ("bc", "small"):
            m["form"] = "array"
        m["a"][1] = 0
    return m


def generate(rng, tier, torch):
    g = world.gen_graph(rng, nmodels=rng.choice([1, 2, 2]), nspaces=rng.choice([2, 3]), torch=torch)
    if not torch:
        for k in range(len(g["models"])):
            if rng.random() < 0.6:
                fs = [f for f in g["frameworks"] if f["m"] == k]
                fam = "str" if fs and fs[0]["k"] == "str" else "inv"
                if any(f["k"] == "gen" for f in fs) and rng.random() < 0.5:
                    continue
                g["models"][k] = own_model(rng, fam)
    nbuf = rng.choice([1, 2, 2, 3])
    shape = world.any_shape(rng)
    bufs = [
        {
            "seed": rng.randrange(10**6),
            "shape": shape if rng.random() < 0.7 else rng.choice(world.SHAPES),
            "kind": world.any_kind(rng, ["gen", "gen", "mild", "uni", "eq", "id"]),
            "dtype": "float64",
            "layout": rng.choice(["C", "F", "strided", "tail"]),
            "mode": rng.choice(["plain", "ro", "ro", "bcast"]),
        }
        for _ in range(nbuf)
    ]
    ops = []
    ns = len(g["spaces"])
    for _ in range(rng.randint(8, 14 if torch else 24)):
        r = rng.random()
        b = rng.randrange(nbuf)
        if r < 0.58:
            level = rng.choice(["space"] * 6 + ["framework", "framework", "model"])
            i = rng.randrange({"space": ns, "framework": len(g["frameworks"]), "model": len(g["models"])}[level])
            if level == "model" and g["models"][i]["k"] not in ("tod", "ogden", "torch", "gim"):
                level, i = "space", rng.randrange(ns)
            ops.append({"op": "call", "level": level, "i": i, "m": rng.choice(METHODS), "b": b, "sv": rng.randrange(3)})
        elif r < 0.66:
            ops.append({"op": "fn", "name": rng.choice([f for f in FUNCS if not f.startswith("lab.")]), "b": b, "seed": rng.randrange(10**6)})
        elif r < 0.7:
            ops.append({"op": "x", "i": rng.randrange(ns), "m": rng.choice(METHODS)})
        elif r < 0.78:
            ops.append({"op": "lab", "name": rng.choice(["defgrad", "stress", "fit", "sim"]), "lc": rng.randrange(3), "seed": rng.randrange(10**6)})
        else:
            ops.append({"op": "scribble", "r": rng.randrange(10**6), "how": rng.choice(["nan", "neg", "zero", "one"])})
    return {"graph": g, "bufs": bufs, "ops": ops}


def fresh_spec(spec):
    spec = copy.deepcopy(spec)
    for m in spec["models"]:
        if m["k"] in ("own", "ownstr"):
            m["fresh"] = True
    return spec


def part_of_larger(a):
    """The same values as every second column of a larger array."""
    if a.ndim == 0:
        return a
    big = np.full((*a.shape[:-1], 2 * a.shape[-1]), 0.125)
    big[..., ::2] = a
    return big[..., ::2]


def raw(a):
    """The contents of an array (bytes), independent of its layout."""
    return (a.shape, a.dtype.str, a.tobytes())


def execute(plan, ctx):
    import hyperelastic as hel

    spec = plan["graph"]
    pure = fresh_spec(spec)
    world.GIVEN.clear()
    graph = world.Graph(spec)
    given = list(world.GIVEN)
    bufs = []
    for b in plan["bufs"]:
        A = world.with_layout(world.gen_F(b["seed"], b["shape"], b["kind"]), b["layout"])
        if b["mode"] == "bcast" and A.ndim > 2 and A.shape[-1] > 1:
            A = np.broadcast_to(A[..., :1], A.shape)  # one deformation, repeated by a view
        elif b["mode"] == "ro":
            A.setflags(write=False)
        bufs.append(A)
    buf_raw = [raw(b) for b in bufs]
    for b in plan["bufs"]:
        ctx.count("inputs_" + b["mode"])
    svs = {}
    kept = []  # [array, contents, description]
    scale = world.pscale(spec)
    scribbled = False
    evals = 0
    lab_inputs = []
    cases = [hel.lab.Uniaxial(), hel.lab.Planar(), hel.lab.Biaxial()]
    sims = {}

    def sv_for(level, i, F, seed, mode):
        mi = world.model_of(spec, level, i)
        ns = world.nstate_of(spec["models"][mi])
        if not ns:
            return None
        key = (seed, ns, F.shape[2:], mode)
        if key not in svs:
            sv = world.gen_sv(seed, ns, F.shape[2:])
            if mode == "ro":
                sv.setflags(write=False)
            svs[key] = (sv, raw(sv))
        return svs[key][0]

    def audit(what):
        for k, (b, r) in enumerate(zip(bufs, buf_raw)):
            ctx.check(raw(b) == r, "input-changed", lambda: f"{what}: deformation buffer {k} was written to")
        for key, (sv, r) in svs.items():
            ctx.check(raw(sv) == r, "state-changed", lambda: f"{what}: state variables {key} were written to")
        for a, r, d in lab_inputs:
            ctx.check(raw(a) == r, "input-changed", lambda: f"{what}: {d} was written to")
        for a, v in given:
            ctx.check(np.array_equal(a, v), "parameter-changed", lambda: f"{what}: an array of material parameters {v} was written to: {a}")
        for k, m in enumerate(graph.models):
            if hasattr(m, "intact"):
                ctx.check(m.intact(), "model-array-changed", lambda: f"{what}: an array returned by user model {k} was written to")
        for a, r, d in kept:
            ctx.check(raw(a) == r, "result-changed", lambda: f"{what}: the result of {d} changed afterwards")

    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        ctx.count("op:" + k)
        if k in ("call", "x"):
            if k == "x":
                s = graph.spaces[op["i"]]
                level, i = "space", op["i"]
                if not hasattr(s, "x"):
                    continue
                args = (s.x,)
                want = ctx.ref.call("sim.props.p01", "default_x", pure, op["i"], op["m"])
                fn = getattr(s, op["m"])
            else:
                level, i = op["level"], op["i"]
                b = plan["bufs"][op["b"] % len(bufs)]
                F = bufs[op["b"] % len(bufs)]
                sv = sv_for(level, i, F, op["sv"], b["mode"])
                args = world.args_for(spec, level, i, F, sv)
                if b["mode"] == "ro" and level != "space":
                    for a in args:
                        if isinstance(a, np.ndarray):
                            a.setflags(write=False)
                want = ctx.pristine(
                    "evaluate", pure, level, i, op["m"],
                    world.args_for(spec, level, i, np.array(F), None if sv is None else np.array(sv)),
                )
                fn = getattr(graph.get(level, i), op["m"])
            what = f"op {n} {level}[{i}].{op['m']}"
            local = [(a, raw(a)) for a in flat(list(args)) if a is not None]
            if k == "call" and level == "space":
                local_list = list(args[0])
            if want[0] != "ok":
                ctx.violate("evaluation-raises", f"{what} with new objects: {want[1]}: {want[2]}")
            try:
                got = fn(*args)
            except Exception as e:
                ctx.violate("evaluation-raises", f"{what} (inputs {plan['bufs'][op.get('b', 0) % len(bufs)]['mode']}): {type(e).__name__}: {e}; with private writable arrays it succeeds")
            if k == "call" and level == "space":
                ctx.check(
                    len(args[0]) == len(local_list) and all(p is q for p, q in zip(args[0], local_list)),
                    "input-list-changed",
                    lambda: f"{what}: the list of arguments was changed",
                )
            for a, r in local:
                ctx.check(raw(a) == r, "input-changed", lambda: f"{what}: an argument was written to")
            d = same(got, want[1], atol=scale)
            ctx.check(d is None, "evaluation-differs", lambda: f"{what}: {d} (scribbled before: {scribbled})")
            evals += 1
            audit(what)
            # stress and tangent results are kept (states belong to model and caller)
            res = got if op["m"] == "hessian" else got[:-1]
            if level == "model":
                # derivatives which are arrays of the library; constants may be anything
                res = list(got[:-1]) if op["m"] == "gradient" else list(got) if not isinstance(got, np.ndarray) else got
                keep = flat(res) if not isinstance(res, list) else [r for r in res if isinstance(r, np.ndarray)]
                keep = [a for a in keep if isinstance(a, np.ndarray)]
            elif level == "framework" and op["m"] == "hessian":
                keep = [got]
            else:
                keep = flat(res)
            for a in keep:
                if isinstance(a, np.ndarray) and a.ndim:
                    kept.append([a, raw(a), what])
            ctx.trace(k, level, i, op["m"], args[0][0].shape if level == "space" else np.shape(args[0]))
            ctx.log(n, level, i, op["m"], len(kept))
        elif k == "fn":
            name, args, kw = fn_call(op["name"], np.array(bufs[op["b"] % len(bufs)]), op["seed"])
            form = op["seed"] // 3 % 12
            if form >= 5:
                # operands which are parts of larger arrays
                twice = {}
                args = tuple(twice.setdefault(id(a), part_of_larger(a)) if isinstance(a, np.ndarray) else a for a in args)
            if form in (4, 5, 6) and not op["name"].startswith("math.eigh"):
                for a in args:
                    if isinstance(a, np.ndarray) and a.size:
                        a[(0,) * a.ndim] = np.nan
                ctx.count("fault:operand_not_finite")
            want = ctx.pristine("function", name, args, kw)
            what = f"op {n} {op['name']}"
            own = [a for a in [*args, *kw.values()] if isinstance(a, np.ndarray)]
            for a in own:
                if form % 2:
                    a.setflags(write=False)
                if a.base is not None:
                    lab_inputs.append([a.base, raw(a.base), f"the array around an operand of {what}"])
                lab_inputs.append([a, raw(a), f"an operand of {what}"])
            if want[0] != "ok":
                ctx.violate("evaluation-raises", f"{what} with new objects: {want[1]}: {want[2]}")
            try:
                got = resolve(name)(*args, **kw)
            except Exception as e:
                ctx.violate("evaluation-raises", f"{what} with read-only arrays: {type(e).__name__}: {e}")
            d = same(got, want[1], atol=1e-6)
            ctx.check(d is None, "function-differs", lambda: f"{what}: {d} (scribbled before: {scribbled})")
            evals += 1
            audit(what)
            for a in flat(list(got) if isinstance(got, (tuple, list)) else [got]):
                # documented views (transpose) belong to the operand
                if isinstance(a, np.ndarray) and a.ndim and not any(np.may_share_memory(a, b) for b in own):
                    kept.append([a, raw(a), what])
            ctx.trace(k, op["name"])
            ctx.log(n, k, op["name"])
        elif k == "lab":
            g = np.random.default_rng([op["seed"], 21])
            lc = cases[op["lc"]]
            x = np.sort(g.uniform(0.8, 2.0, 6 if op["seed"] % 3 else 4))
            ro = op["seed"] // 7 % 2 == 0
            if ro:
                x.setflags(write=False)
            lab_inputs.append([x, raw(x), f"stretch array of op {n}"])
            what = f"op {n} lab {op['name']}"
            try:
                if op["name"] == "defgrad":
                    F = lc.defgrad(x)
                    kept.append([F, raw(F), what])
                elif op["name"] == "stress":
                    F = np.array(lc.defgrad(x))
                    P = g.standard_normal(F.shape)
                    if ro:
                        F.setflags(write=False)
                        P.setflags(write=False)
                    lab_inputs.append([F, raw(F), f"F of op {n}"])
                    lab_inputs.append([P, raw(P), f"P of op {n}"])
                    s = lc.stress(F, P)
                    kept.append([s, raw(s), what])
                else:
                    par = g.uniform(0.2, 0.6, 2)
                    if ro:
                        par.setflags(write=False)
                    lab_inputs.append([par, raw(par), f"parameters of op {n}"])

                    def material(**kw):
                        tod = hel.models.invariants.ThirdOrderDeformation(**kw)
                        return hel.DistortionalSpace(hel.InvariantsFramework(tod))

                    if op["lc"] in sims and op["seed"] % 2:
                        sim = sims[op["lc"]]
                        sim.stretch, sim.parameters = x, par
                    else:
                        sim = sims[op["lc"]] = hel.lab.Simulation(lc, x, ["C10", "C01"], material, parameters=par)
                    s = sim.stress() if op["name"] == "sim" else sim.stress_curve_fit(x, *par)
                    kept.append([s, raw(s), what])
            except ValueError as e:
                ctx.violate("evaluation-raises", f"{what} with read-only arrays: {e}")
            audit(what)
            ctx.trace(k, op["name"], op["lc"])
            ctx.log(n, k, op["name"])
        elif k == "scribble":
            if not kept:
                continue
            pos = op["r"] % len(kept)
            e = kept[pos]
            a = e[0]
            if not a.flags.writeable:
                continue
            if op["how"] == "nan":
                a[...] = np.nan
            elif op["how"] == "neg":
                np.negative(a, out=a)
            elif op["how"] == "zero":
                a[...] = 0
            else:
                a += 1
            del kept[pos]
            scribbled = True
            ctx.count("fault:result_overwritten_" + op["how"])
            audit(f"op {n}: the caller overwrote the result of {e[2]}")
            ctx.trace(k, op["how"])
            ctx.log(n, k, e[2])
    ctx.nontrivial = evals >= 3 and len(kept) > 0
    ctx.count("evaluations_compared", evals)
    ctx.sim_steps = len(plan["ops"])


def shrink(plan):
    yield from shrink_lists(plan, ["ops"])
    for i, b in enumerate(plan["bufs"]):
        for key, simple in (("shape", []), ("shape", [1]), ("shape", [2, 1]), ("layout", "C"), ("mode", "plain"), ("kind", "gen")):
            if b[key] != simple and len(str(b[key])) >= len(str(simple)):
                q = dict(plan)
                q["bufs"] = [dict(x) for x in plan["bufs"]]
                q["bufs"][i][key] = simple
                yield q


__all__ = ["umodels", "resolve", "fn_call"]
