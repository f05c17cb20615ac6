"""P01: every evaluation gives what fresh objects give, whatever happened before."""

import numpy as np

from .. import world
from ..core import shrink_lists
from ..refcalls import resolve
from ..world import flat, same

METHODS = ["gradient", "hessian"]
SMALL = [[], [1], [3], [2, 1], [2, 3], [8, 6]]
FUNCS = [
    "math.asvoigt2",
    "math.astensor2",
    "math.asvoigt4",
    "math.astensor4",
    "math.det",
    "math.inv",
    "math.invd",
    "math.dot",
    "math.ddot22",
    "math.ddot42",
    "math.ddot24",
    "math.ddot44",
    "math.dya",
    "math.cdya",
    "math.cdya1",
    "math.cdya_ik",
    "math.cdya_il",
    "math.eye",
    "math.trace",
    "math.transpose",
    "math.dev",
    "math.eigh",
    "math.eighs",
    "math.tril",
    "math.triu",
    "gen.deformation",
    "gen.strain",
    "lab.uniaxial",
    "lab.planar",
    "lab.biaxial",
    "lab.simulation",
    "lab.experiment",
]


def generate(rng, tier, torch):
    g = world.gen_graph(rng, nmodels=rng.choice([1, 2, 2, 3]), nspaces=rng.choice([2, 3, 4]), torch=torch)
    nbuf = rng.choice([1, 2, 3])
    shapes = [world.any_shape(rng) for _ in range(nbuf)]
    if rng.random() < 0.5:
        shapes = [shapes[0]] * nbuf
    bufs = [
        {
            "seed": rng.randrange(10**6),
            "shape": s,
            "kind": world.any_kind(rng, ["gen", "gen", "mild", "big", "uni", "eq", "id"]),
            "dtype": "float64" if rng.random() < 0.9 else "float32",
            "layout": rng.choice(world.LAYOUTS),
        }
        for s in shapes
    ]
    for b in bufs:
        if b["layout"] == "ro":
            b["layout"] = "C"
    if any(b["dtype"] == "float32" for b in bufs):
        # single-precision arithmetic stays visible in the precision of the results
        for m in g["models"]:
            m.pop("arr", None)
            m.get("inner", {}).pop("arr", None)
    nops = rng.randint(8, 18 if torch else 30)
    focus = rng.random() < 0.35  # stay on few targets
    ops = []
    ns = len(g["spaces"])
    for _ in range(nops):
        r = rng.random()
        b = rng.randrange(nbuf)
        if r < 0.56:
            s = rng.randrange(min(ns, 2) if focus else ns)
            ops.append({"op": "call", "level": "space", "i": s, "m": rng.choice(METHODS), "b": b, "sv": rng.randrange(4)})
        elif r < 0.62:
            f = rng.randrange(len(g["frameworks"]))
            ops.append({"op": "call", "level": "framework", "i": f, "m": rng.choice(METHODS), "b": b, "sv": rng.randrange(4)})
        elif r < 0.65:
            m = rng.randrange(len(g["models"]))
            ops.append({"op": "call", "level": "model", "i": m, "m": rng.choice(METHODS), "b": b, "sv": rng.randrange(4)})
        elif r < 0.72:
            ops.append({"op": "fn", "name": rng.choice(FUNCS), "b": b, "seed": rng.randrange(10**6)})
        elif r < 0.93:
            ops.append(
                {
                    "op": "edit",
                    "b": b,
                    "how": rng.choice(["refill", "poke", "tiny", "rotate", "permute", "swap", "scale", "sign"]),
                    "seed": rng.randrange(10**6),
                }
            )
        elif r < 0.95:
            ops.append({"op": "x", "i": rng.randrange(ns), "m": rng.choice(METHODS)})
        elif r < 0.97:
            ops.append({"op": "rebuild", "i": rng.randrange(ns)})
        elif r < 0.985:
            ops.append({"op": "deepcopy"})
        else:
            ops.append({"op": "newbuf", "b": b})
    if rng.random() < 0.15:
        # a series of tests in the lab which differ in few respects
        name = rng.choice([f for f in FUNCS if f.startswith("lab.")])
        rest = rng.randrange(12)
        for _ in range(rng.choice([2, 3, 4])):
            ops.insert(rng.randrange(1, len(ops)), {"op": "fn", "name": name, "b": 0, "seed": 12 * rng.randrange(10**5) + rest})
    if not torch and rng.random() < 0.12:
        # a long life before the next evaluation
        for _ in range(rng.choice([1, 1, 2])):
            lv = rng.choice(["space", "space", "space", "framework", "model", "fn"])
            n = {"space": ns, "framework": len(g["frameworks"]), "model": len(g["models"])}.get(lv, 1)
            ops.insert(
                rng.randrange(1, len(ops)),
                {"op": "burn", "level": lv, "i": rng.randrange(n), "m": rng.choice(METHODS), "name": rng.choice([f for f in FUNCS if not f.startswith("lab.")]),
                 "n": rng.choice([40, 70, 130, 300]), "seed": rng.randrange(10**6), "shape": rng.choice(SMALL)},
            )
    return {"graph": g, "bufs": bufs, "ops": ops, "persist": rng.random() < 0.6, "samelist": rng.choice([0, 0, 1, 2]), "scribble": rng.random() < 0.6}


def edit(F, how, seed):
    """Change a deformation buffer in place; values stay admissible."""
    g = np.random.default_rng([seed, 3])
    shape = F.shape[2:]
    n = int(np.prod(shape)) if shape else 1
    if n == 0:
        return
    if how == "refill":
        F[...] = world.gen_F(seed, list(shape), "gen")
    elif how == "poke":
        k = np.unravel_index(g.integers(n), shape) if shape else ()
        F[(slice(None), slice(None), *k)] = world.gen_F(seed, [], "gen")
    elif how == "tiny":
        k = np.unravel_index(g.integers(n), shape) if shape else ()
        F[(0, 0, *k)] *= 1 + 3e-5
    elif how == "rotate":
        R = world.rotations(g, 1)[..., 0]
        F[...] = np.einsum("ij,jk...->ik...", R, F)
    elif how == "permute":
        if n > 1:
            p = g.permutation(n)
            F[...] = np.ascontiguousarray(F.reshape(3, 3, n)[:, :, p]).reshape(F.shape)
    elif how == "swap":
        F[...] = F[:, [1, 0, 2]][[1, 0, 2]].copy()
    elif how == "scale":
        F *= 1.04
    elif how == "sign":
        # C is unchanged, the first Piola-Kirchhoff stress is not
        F[:2] *= -1


def fn_call(name, F, seed):
    """(library function name, args, kwargs) for an op on module functions."""
    g = np.random.default_rng([seed, 9])
    C = world.cauchy_green(F)
    D = C[[1, 2, 0, 4, 5, 3]] * 0.5
    full = np.ascontiguousarray(np.einsum("kI...,kJ...->IJ...", F, F))
    if seed % 3 == 0:
        # symmetric up to round-off, as products of the caller's own are
        full[[1, 2, 2], [0, 1, 0]] *= 1 + 2.5e-16
    A4 = np.multiply(C.reshape(6, 1, *C.shape[1:]), D.reshape(1, 6, *D.shape[1:]))
    A3333 = np.einsum("ij...,kl...->ijkl...", full, full)
    x = np.sort(g.uniform(0.8, 1.8, 7))
    table = {
        "math.asvoigt2": ("math.asvoigt", (full,), {}),
        "math.astensor2": ("math.astensor", (C,), {}),
        "math.asvoigt4": ("math.asvoigt", (A3333, 4), {}),
        "math.astensor4": ("math.astensor", (A4, 4), {}),
        "math.invd": ("math.inv", (C,), {"determinant": np.asarray(world.invariants(F)[2])}),
        "math.dot": ("math.dot", (C, D), {}),
        "math.ddot22": ("math.ddot", (C, D), {}),
        "math.ddot42": ("math.ddot", (A4, C), {"mode": (4, 2)}),
        "math.ddot24": ("math.ddot", (C, A4), {"mode": (2, 4)}),
        "math.ddot44": ("math.ddot", (A4, A4), {"mode": (4, 4)}),
        "math.dya": ("math.dya", (C, D), {}),
        "math.cdya": ("math.cdya", (C, D), {}),
        "math.cdya1": ("math.cdya", (D, D), {}),
        "math.cdya_ik": ("math.cdya_ik", (C, D), {}),
        "math.cdya_il": ("math.cdya_il", (C, D), {}),
        "math.eighs": ("math.eigh", (C,), {"fun": np.sqrt}),
        "math.transpose": ("math.transpose", (A4,), {}),
        "math.tril": ("math.tril_from_triu", (A4,), {}),
        "math.triu": ("math.triu_from_tril", (A4,), {}),
        "gen.deformation": ("models.generalized.deformation", (x, float(g.uniform(0.5, 2.5))), {}),
        "gen.strain": ("models.generalized.strain", (x, float(g.uniform(0.5, 2.5))), {}),
    }
    return table.get(name, (name, (C,), {}))


def lab_call(name, seed, objs=None):
    """A lab evaluation: on fresh lab objects (in the pristine process) or on those of the
    history (``objs``)."""
    import hyperelastic as hel

    g = np.random.default_rng([seed, 13])
    x = np.sort(g.uniform(0.7, 2.2, 9 if seed % 3 else 4))
    if seed % 4 == 0:
        x[0], x[-1] = 0.7, 2.2  # all experiments of a series have the same range
    if seed % 16 == 0:
        x = x[::-1].copy()
    if objs is not None:
        # the same array is filled again
        if len(x) in objs:
            objs[len(x)][:] = x
        x = objs.setdefault(len(x), x)
    lc = {
        "lab.uniaxial": hel.lab.Uniaxial,
        "lab.planar": hel.lab.Planar,
        "lab.biaxial": hel.lab.Biaxial,
    }
    if name in lc:
        c = lc[name]()
        if objs is not None:
            c = objs.setdefault(name, c)
        F = c.defgrad(x)
        P = g.standard_normal(F.shape)
        return [np.array(F), c.stress(F, P), c.stress(F, P, axis=1, traction_free=0)]
    if name == "lab.simulation":
        cls = [hel.lab.Uniaxial, hel.lab.Planar, hel.lab.Biaxial][int(g.integers(3))]

        def material(**kw):
            tod = hel.models.invariants.ThirdOrderDeformation(**kw)
            return hel.DistortionalSpace(hel.InvariantsFramework(tod))

        p = g.uniform(0.1, 0.6, 2)
        if objs is not None and ("sim", cls) in objs:
            sim = objs["sim", cls]
            sim.stretch, sim.parameters = x, p
        else:
            c = cls() if objs is None else objs.setdefault("lab." + cls.__name__.lower(), cls())
            sim = hel.lab.Simulation(c, x, ["C10", "C01"], material, parameters=p)
            if objs is not None:
                objs["sim", cls] = sim
        a = sim.stress()
        b = sim.stress_curve_fit(x[:4], *(p * 1.3))
        return [np.array(r) for r in (a, b, sim.stress(), sim.parameters)]
    d = g.uniform(0, 3, 6)
    e = hel.lab.Experiment("e", d, d * 2.5, area=float(g.uniform(1, 9)), length=float(g.uniform(1, 9)))
    return [e.stretch, e.stress(), e.displacement, e.force]


def default_x(spec, i, method):
    """space.gradient(space.x) / space.hessian(space.x) on fresh objects."""
    g, j = world.only(spec, "space", i)
    s = world.Graph(g).spaces[j]
    return getattr(s, method)(s.x)


def execute(plan, ctx):
    spec = plan["graph"]
    graph = world.Graph(spec)
    bufs = [
        world.with_layout(world.gen_F(b["seed"], b["shape"], b["kind"], b["dtype"]), b["layout"])
        for b in plan["bufs"]
    ]
    version = [0] * len(bufs)
    svs = {}
    scale = world.pscale(spec)
    last_fw = {}
    evals = 0
    objs = {}
    held = {}
    xs = {}

    def persistent(key, args):
        """The same argument arrays again, filled with the new values."""
        if not plan.get("persist"):
            return args
        out = []
        for k, a in enumerate(args):
            if isinstance(a, np.ndarray):
                p = held.setdefault((*key, k, a.shape, a.dtype.str), a)
                if p is not a:
                    p[...] = a
                    ctx.count("probe:argument_filled_again")
                a = p
            out.append(a)
        return tuple(out)

    def overwrite(result, args):
        """The caller goes on working in the arrays it was given: those it owns alone."""
        theirs = [a for a in flat([result]) if isinstance(a, np.ndarray)]
        own = [a for a in [*flat([args]), *bufs, *flat([list(svs.values())])] if isinstance(a, np.ndarray)]
        for a in theirs:
            if a.flags.writeable and a.dtype.kind == "f" and a.size:
                if not any(np.shares_memory(a, b) for b in own):
                    a *= -1.5
                    a += 0.25
                    ctx.count("probe:result_overwritten_by_caller")

    def judge(kind, got, want, what):
        nonlocal evals
        evals += 1
        ok, val = got
        if want[0] == "ok":
            if not ok:
                ctx.violate(kind + "-raises", f"{what}: {type(val).__name__}: {val}; fresh objects succeed")
            d = same(val, want[1], atol=scale)
            if d:
                ctx.violate(kind + "-differs", f"{what}: {d} (against fresh objects in a pristine process)")
        else:
            if ok:
                ctx.violate(kind + "-no-error", f"{what}: returns, but fresh objects raise {want[1]}: {want[2]}")
            ctx.check(
                type(val).__name__ == want[1],
                kind + "-other-error",
                lambda: f"{what}: {type(val).__name__} instead of {want[1]}",
            )
            ctx.count("calls_raising_in_both")

    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        ctx.count("op:" + k)
        if k == "call":
            F = bufs[op["b"] % len(bufs)]
            mi = world.model_of(spec, op["level"], op["i"])
            ns = world.nstate_of(spec["models"][mi])
            key = (op["sv"], ns, F.shape[2:])
            sv = None
            if ns:
                if key not in svs:
                    svs[key] = world.gen_sv(op["sv"], ns, F.shape[2:])
                sv = svs[key]
            args = world.args_for(spec, op["level"], op["i"], F, sv)
            if op["level"] != "space":
                args = persistent((op["level"] == "framework", world.is_stretch_model(spec, mi)), args)
            if plan.get("samelist") and op["level"] == "space":
                # the caller keeps its list and replaces or edits what is in it
                x = xs.setdefault(op["b"] if plan["samelist"] == 1 else 0, [])
                if x:
                    ctx.count("probe:list_filled_again")
                x[:] = args[0]
                args = (x, *args[1:])
            obj = graph.get(op["level"], op["i"])
            want = ctx.pristine("evaluate", spec, op["level"], op["i"], op["m"], world.args_for(spec, op["level"], op["i"], F.copy(), sv))
            try:
                got = (True, getattr(obj, op["m"])(*args))
            except Exception as e:
                got = (False, e)
            if op["level"] == "space":
                f = spec["spaces"][op["i"]]["f"]
                prev = last_fw.get(f)
                if prev is not None and prev[0] != op["i"]:
                    ctx.count("probe:shared_framework_alternated")
                if prev is not None and op["m"] == "hessian" and prev[1] != (op["b"], version[op["b"] % len(bufs)]):
                    ctx.count("probe:tangent_after_foreign_stress")
                last_fw[f] = (op["i"], (op["b"], version[op["b"] % len(bufs)]))
            ctx.log(n, "call", op["level"], op["i"], op["m"], got[0])
            ctx.trace(k, op["level"], op["i"], op["m"], F.shape, version[op["b"] % len(bufs)])
            judge("evaluation", got, want, f"op {n} {op['level']}[{op['i']}].{op['m']}")
            if got[0] and op["level"] == "space" and plan.get("scribble"):
                overwrite(got[1][:1] if op["m"] == "gradient" else got[1], args)
        elif k == "fn":
            F = bufs[op["b"] % len(bufs)].astype(float)
            if op["name"].startswith("lab."):
                want = ctx.ref.call("sim.props.p01", "lab_call", op["name"], op["seed"])
                fn, args, kw = lab_call, (op["name"], op["seed"], objs), {}
            else:
                name, args, kw = fn_call(op["name"], F, op["seed"])
                args = persistent(("fn",), args)
                want = ctx.pristine("function", name, args, kw)
                fn = resolve(name)
            try:
                got = (True, fn(*args, **kw))
            except Exception as e:
                got = (False, e)
            ctx.log(n, "fn", op["name"], got[0])
            ctx.trace(k, op["name"], F.shape)
            judge("function", got, want, f"op {n} {op['name']}")
            if got[0] and not op["name"].startswith("lab.") and plan.get("scribble"):
                overwrite(got[1], args)
        elif k == "x":
            s = graph.spaces[op["i"]]
            want = ctx.ref.call("sim.props.p01", "default_x", spec, op["i"], op["m"])
            try:
                got = (True, getattr(s, op["m"])(s.x))
            except Exception as e:
                got = (False, e)
            ctx.log(n, "x", op["i"], op["m"], got[0])
            ctx.trace(k, op["i"], op["m"])
            judge("initial", got, want, f"op {n} space[{op['i']}].{op['m']}(x)")
        elif k == "edit":
            b = op["b"] % len(bufs)
            edit(bufs[b], op["how"], op["seed"])
            version[b] += 1
            ctx.count("probe:buffer_edited_in_place")
            ctx.trace(k, b, op["how"])
            ctx.log(n, "edit", b, op["how"])
        elif k == "burn":
            # many evaluations which are not looked at
            rng = np.random.default_rng(op["seed"])
            F = world.gen_F(op["seed"], op["shape"])
            sv = None
            if op["level"] != "fn":
                obj = graph.get(op["level"], op["i"])
                ns = world.nstate_of(spec["models"][world.model_of(spec, op["level"], op["i"])])
                sv = world.gen_sv(op["seed"], ns, F.shape[2:]) if ns else None
            for _ in range(op["n"]):
                G = F * rng.uniform(0.97, 1.03)
                try:
                    if op["level"] == "fn":
                        name, args, kw = fn_call(op["name"], G, op["seed"])
                        resolve(name)(*args, **kw)
                    else:
                        getattr(obj, op["m"])(*world.args_for(spec, op["level"], op["i"], G, sv))
                except Exception:
                    break
            ctx.count("evaluations_not_compared", op["n"])
            ctx.trace(k, op["level"], op["i"], op["m"], op["n"], op["shape"])
        elif k == "newbuf":
            # the old array is released: its memory (and id) may be used again
            b = op["b"] % len(bufs)
            F = bufs[b].copy()
            bufs[b] = None
            bufs[b] = F * 1.01
            version[b] += 1
            ctx.trace(k, b)
        elif k == "rebuild":
            graph.rebuild_space(op["i"])
            ctx.trace(k, op["i"])
        elif k == "deepcopy":
            # load cases and simulations of the history stay
            graph = graph.deepcopy()
            ctx.trace(k)
    ctx.nontrivial = evals >= 4
    ctx.count("evaluations_compared", evals)
    ctx.sim_steps = len(plan["ops"])


def shrink(plan):
    yield from shrink_lists(plan, ["ops"])
    for i, op in enumerate(plan["ops"]):
        if op["op"] == "burn" and op["n"] > 2:
            for n in (op["n"] // 2, op["n"] - 1 - op["n"] // 10):
                q = dict(plan)
                q["ops"] = [dict(x) for x in plan["ops"]]
                q["ops"][i]["n"] = n
                yield q
    for i, b in enumerate(plan["bufs"]):
        for shape in ([], [1], [2, 1]):
            if len(str(b["shape"])) > len(str(shape)):
                q = dict(plan)
                q["bufs"] = [dict(x) for x in plan["bufs"]]
                q["bufs"][i]["shape"] = shape
                yield q
        if b["layout"] != "C":
            q = dict(plan)
            q["bufs"] = [dict(x) for x in plan["bufs"]]
            q["bufs"][i]["layout"] = "C"
            yield q
    g = plan["graph"]
    used = {op["i"] for op in plan["ops"] if op["op"] == "call" and op["level"] == "space"}
    used |= {op["i"] for op in plan["ops"] if op["op"] in ("x", "rebuild")}
    if used and max(used) + 1 < len(g["spaces"]):
        q = dict(plan)
        q["graph"] = {**g, "spaces": g["spaces"][: max(used) + 1]}
        yield q


__all__ = ["generate", "execute", "shrink", "flat"]
