"""P13: stress power is conserved along every load history."""

import numpy as np

from .. import mech, umodels, world
from ..core import shrink_lists
from ..inject import Injector
from .p01 import METHODS
from .p02 import ASYNC, EXC, has_probe

NODES, WEIGHTS = np.polynomial.legendre.leggauss(8)
UNITS = [1.0, 1.0, 1.0, 1e6, 1e-6, 1e-12, 1e9]


def generate(rng, tier, torch):
    for _ in range(100):
        g = world.gen_graph(rng, nmodels=rng.choice([1, 1, 2]), nspaces=rng.choice([1, 2, 2, 3]), torch=torch, stateful=False)
        for s in g["spaces"]:
            if rng.random() < 0.5:
                s["force"], s["area"] = rng.choice([(None, 0), (None, None), (0, 0), (0, None)])
        if all(m["k"] in ("tod", "poly", "ogden", "torch", "gim") or (m["k"] == "ustr" and not m["a"]) for m in g["models"]):
            break
    unit = rng.choice(UNITS) if not torch else 1.0
    for f in g["frameworks"]:
        m = g["models"][f["m"]]
        if f["k"] == "gen" and f["fun"] == "strain" and m["k"] == "tod" and rng.random() < 0.5:
            m["strain"] = True
    for f in [*g["frameworks"], *g["models"]]:
        # unusual strain measures, nearly logarithmic ones too
        if f["k"] in ("gen", "gim") and rng.random() < 0.3:
            f["exponent"] = rng.choice([-2.0, -1.0, -0.5, 0.3, 3.0] + [0.02, 0.1, -0.04] * (f["fun"] == "strain"))
    g["models"] = [mech.scale_model(m, unit) for m in g["models"]]
    nseg = rng.choice([1, 2, 3, 3, 4])
    path = [
        {
            "k": rng.choice(["line", "line", "stretch", "twist", "rotate", "volume", "uniaxial", "shear"]),
            "seed": rng.randrange(10**6),
            "size": round(rng.uniform(0.05, 0.5), 3),
        }
        for _ in range(nseg)
    ]
    wide = not torch and rng.random() < 0.15
    if wide:
        # far from the undeformed state: severe compression and expansion
        for seg in path:
            seg["size"] = round(rng.uniform(0.3, 1.0), 3)
            if rng.random() < 0.5:
                seg["k"] = rng.choice(["crush", "crush", "expand", "uniaxial"])
    elif rng.random() < 0.35:
        path.append({"k": "close", "seed": 0, "size": 0})
    events = []
    for _ in range(rng.choice([0, 2, 4, 6, 9])):
        e = {
            "at": round(rng.random(), 4),
            "k": rng.choice(["tangent", "other", "repeat", "interrupt", "fail", "garbage", "deepcopy", "edit"]),
            "i": rng.randrange(len(g["spaces"])),
            "m": rng.choice(METHODS),
            "seed": rng.randrange(10**6),
            "exc": rng.choice(ASYNC),
            "frac": round(rng.random(), 4),
        }
        events.append(e)
    events.sort(key=lambda e: e["at"])
    return {
        "graph": g,
        "unit": unit,
        "wide": wide,
        "i": rng.randrange(len(g["spaces"])),
        "path": path,
        "start": rng.choice(["id", "id", "gen", "rot"]),
        "shape": rng.choice([[], [1], [2], [3], [2, 2], [1, 3]]),
        "seed0": rng.randrange(10**6),
        "layout": rng.choice(["C", "C", "F", "strided", "tail"]),
        "reuse": rng.random() < 0.5,
        "events": events,
    }


def expm(A):
    """Matrix exponential of (n, 3, 3) by scaling and squaring."""
    B = A / 64.0
    E = np.eye(3)
    for k in range(9, 0, -1):
        E = np.eye(3) + B @ E / k
    for _ in range(6):
        E = E @ E
    return E


def segment(seg, F0, start, n):
    """t -> (F(t), dF/dt), t in [0, 1], matrices (n, 3, 3)."""
    g = np.random.default_rng([seg["seed"], 61])
    k, size = seg["k"], seg["size"]
    if k == "close":
        D = start - F0
        return lambda t: (F0 + t * D, D)
    A = g.standard_normal((n, 3, 3))
    A /= np.linalg.norm(A, axis=(1, 2))[:, None, None]
    if k == "line":
        D = size * A @ F0
        return lambda t: (F0 + t * D, D)
    if k == "rotate":
        A = (A - np.swapaxes(A, 1, 2)) * 4 * size
    elif k == "stretch":
        A = (A + np.swapaxes(A, 1, 2)) * size
    elif k == "volume":
        A = np.eye(3)[None] * (g.uniform(-0.5, 0.5, n) * size)[:, None, None]
    elif k in ("crush", "expand"):
        A = np.eye(3)[None] * (g.uniform(0.5, 0.9, n) * size)[:, None, None] * (-1 if k == "crush" else 1) + 0.1 * A
    elif k == "uniaxial":
        A = np.zeros((n, 3, 3))
        A[:, 0, 0] = g.uniform(-1, 1, n) * size
        A[:, 1, 1] = A[:, 2, 2] = -A[:, 0, 0] / 2
    elif k == "shear":
        A = np.zeros((n, 3, 3))
        A[:, 0, 1] = g.uniform(-1, 1, n) * 2 * size
    else:
        A = A * 2 * size

    def f(t):
        F = expm(t * A) @ F0
        return F, A @ F

    return f


def exact_power(spec, i, f, t, h=2e-3):
    """Time derivative of the documented energy (central differences of order 8)."""
    c = [4 / 5, -1 / 5, 4 / 105, -1 / 280]
    W = lambda x: mech.energy(spec, i, np.moveaxis(f(x)[0], 0, -1))  # noqa: E731
    return sum(a * (W(t + (j + 1) * h) - W(t - (j + 1) * h)) for j, a in enumerate(c)) / h


def admissible(F, torch, wide=False):
    s = np.linalg.svd(F, compute_uv=False)
    d = np.linalg.det(F)
    lim = 1.9 if torch else 2.6
    if wide:
        return bool((s.max() < 5) and (s.min() > 1 / 5) and (d > 0.02).all() and (d < 50).all())
    return bool((s.max() < lim) and (s.min() > 1 / lim) and (d > 0.3).all() and (d < 3).all())


def execute(plan, ctx):
    spec, i = plan["graph"], plan["i"]
    graph = world.Graph(spec)
    s = spec["spaces"][i]
    mi = world.model_of(spec, "space", i)
    torch = spec["models"][mi]["k"] == "torch" and not plan.get("double")
    shape = tuple(plan["shape"])
    n = int(np.prod(shape)) if shape else 1
    scale = world.pscale(only_model(spec, mi))
    rng = np.random.default_rng([plan["seed0"], 62])
    if plan["start"] == "id":
        F = np.repeat(np.eye(3)[None], n, axis=0)
    elif plan["start"] == "rot":
        F = np.moveaxis(world.rotations(rng, n), -1, 0)
    else:
        F = np.moveaxis(world.gen_F(plan["seed0"], [n], "mild"), -1, 0)
    start = F.copy()
    events = list(plan["events"])
    total = len(plan["path"]) * 2 * len(NODES)
    step = 0
    buf = None
    balance = np.zeros(n)
    W0 = mech.energy(spec, i, np.moveaxis(F, 0, -1))
    size = scale * (1 + 0 * W0)
    abswork = np.zeros(n)
    failing = {}

    def probe(model, method, a):
        exc = failing.pop(id(model), None)
        if exc is not None:
            raise exc

    umodels.PROBE = probe

    def arrange(A):
        """Matrices (n, 3, 3) as the array which the solver passes."""
        nonlocal buf
        B = world.with_layout(np.moveaxis(A, 0, -1).reshape(3, 3, *shape), plan["layout"])
        if plan["reuse"]:
            if buf is None:
                buf = B
            buf[...] = B
            return buf
        return B

    def disturb(e, Ff):
        k = e["k"]
        space = graph.spaces[e["i"]]
        ctx.count("event:" + k)
        if k == "tangent":
            graph.spaces[i].hessian([Ff, None])
        elif k == "repeat":
            graph.spaces[i].gradient([Ff, None])
        elif k in ("other", "edit"):
            G = world.gen_F(e["seed"], list(shape), "gen")
            out = getattr(space, e["m"])([G, None])
            if k == "edit":
                # the caller overwrites what it was given
                for r in out:
                    if isinstance(r, np.ndarray) and r.flags.writeable:
                        r[...] = np.nan
        elif k == "deepcopy":
            graph_copy = graph.deepcopy()
            graph.models, graph.frameworks, graph.spaces = graph_copy.models, graph_copy.frameworks, graph_copy.spaces
        elif k == "garbage":
            G = world.gen_F(e["seed"], list(shape), "gen")
            G[0] = np.nan if e["seed"] % 2 else 0.0
            try:
                getattr(space, e["m"])([G, None])
            except Exception:
                pass
            ctx.count("fault:damaged_deformation")
        elif k == "fail":
            m = spec["models"][world.model_of(spec, "space", e["i"])]
            if not has_probe(m):
                return
            exc = EXC[e["exc"]]("model failed")
            failing[id(graph.models[world.model_of(spec, "space", e["i"])])] = exc
            try:
                getattr(space, e["m"])([Ff, None])
            except BaseException as err:
                if err is not exc:
                    raise
            failing.clear()
            ctx.count("fault:model_callback_failed")
        elif k == "interrupt":
            G = world.gen_F(e["seed"], list(shape), "gen")
            count = Injector(None, -1)
            count.call(graph.deepcopy().spaces[e["i"]].gradient if torch is False else space.gradient, [G, None])
            exc = EXC[e["exc"]]("interrupted")
            inj = Injector(exc, 1 + int(e["frac"] * count.seen))
            try:
                inj.call(getattr(space, e["m"]), [G, None])
            except BaseException as err:
                if err is not exc:
                    raise
            ctx.count("fault:interrupted_call", int(inj.fired))

    segments = 0
    try:
        for si, seg in enumerate(plan["path"]):
            f = segment(seg, F, start, n)
            if not all(admissible(f(t)[0], torch, plan.get("wide")) for t in (0.0, 0.25, 0.5, 0.75, 1.0)):
                ctx.count("segments_skipped")
                step += 2 * len(NODES)
                continue
            work = np.zeros(n)
            absw = np.zeros(n)
            mag = np.zeros(n)  # of the terms which add up to the power (round-off)
            for half in (0.0, 0.5):
                for x, w in zip(NODES, WEIGHTS):
                    t = half + (x + 1) / 4
                    Fm, dF = f(t)
                    Ff = arrange(Fm)
                    while events and events[0]["at"] <= step / total:
                        disturb(events.pop(0), Ff)
                        Ff = arrange(Fm)
                    got = graph.spaces[i].gradient([Ff, None])[0]
                    P = mech.to_P(s, np.array(Ff), np.asarray(got)).reshape(3, 3, n)
                    p = np.einsum("ijn,nij->n", P, dF)
                    work += w / 4 * p
                    absw += w / 4 * np.abs(p)
                    mag += w / 4 * np.linalg.norm(P, axis=(0, 1)) * np.linalg.norm(dF, axis=(1, 2))
                    step += 1
                    ctx.count("stresses")
            F = f(1.0)[0]
            W1 = mech.energy(spec, i, np.moveaxis(F, 0, -1))
            segments += 1
            tol = (2e-4 if torch else 2e-7) * (size + absw + np.abs(W1 - W0) + np.abs(W0) * 1e-2) + 1e-9 * mag
            err = np.abs(work - (W1 - W0))
            if not (err <= tol).all():
                # rule out the error of the quadrature: the same nodes, exact power
                ref = np.zeros(n)
                for half in (0.0, 0.5):
                    for x, w in zip(NODES, WEIGHTS):
                        ref += w / 4 * exact_power(spec, i, f, half + (x + 1) / 4)
                ctx.count("quadrature_checked")
                err = np.minimum(err, np.abs(work - ref))
            if not (err <= tol).all():
                p = int(np.argmax(~(err <= tol)))
                ctx.violate(
                    "work-energy",
                    f"{s['k']}(force={s['force']}, area={s['area']}, finalize={s['finalize']}), framework "
                    f"{spec['frameworks'][s['f']]}, model {spec['models'][mi]}: segment {si} ({seg['k']}): work "
                    f"{work[p]:.9e}, change of energy {W1[p] - W0[p]:.9e}",
                )
            if seg["k"] == "rotate":
                ctx.count("probe:rigid_rotation_does_no_work")
            balance += work
            abswork += absw
            W0 = W1
            if seg["k"] == "close":
                tol = (4e-4 if torch else 1e-6) * (size + abswork)
                if segments == len(plan["path"]):
                    ctx.count("probe:closed_cycle")
                    ctx.check((np.abs(balance) <= tol).all(), "cycle-work", lambda: f"closed cycle does the work {balance}")
    finally:
        umodels.PROBE = None
    ctx.trace(s["k"], s["force"], s["area"], s["finalize"], spec["frameworks"][s["f"]], spec["models"][mi]["k"], [x["k"] for x in plan["path"]], [(e["k"], e["i"], e["m"]) for e in plan["events"]], shape)
    ctx.log(segments, step)
    ctx.sim_steps = step
    ctx.count("segments", segments)
    ctx.nontrivial = segments >= 1


def only_model(spec, mi):
    return {"models": [spec["models"][mi]]}


def shrink(plan):
    yield from shrink_lists(plan, ["events"])
    for k in range(len(plan["path"])):
        if len(plan["path"]) > 1:
            yield {**plan, "path": plan["path"][:k] + plan["path"][k + 1 :]}
    if plan["shape"]:
        yield {**plan, "shape": []}
    if plan["layout"] != "C":
        yield {**plan, "layout": "C"}
    if plan["reuse"]:
        yield {**plan, "reuse": False}
