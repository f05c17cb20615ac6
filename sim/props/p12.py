"""P12: Newton solutions with the tangent make quadratic progress."""

import numpy as np

from .. import mech, umodels, world
from ..core import shrink_lists
from ..inject import Injector
from .p01 import METHODS
from .p02 import ASYNC, EXC, has_probe
from .p13 import UNITS

COMPS = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
MAXIT = 12


def consistent(m):
    """Models of the simulated users whose second derivatives are those of the first."""
    if m["k"] == "ustr":
        return not m["a"]
    if m["k"] == "damage":
        return not m["C01"]
    return m["k"] in ("tod", "poly", "ogden", "torch", "gim")


def generate(rng, tier, torch):
    g = world.gen_graph(rng, nmodels=rng.choice([1, 1, 2]), nspaces=rng.choice([1, 2, 2, 3]), torch=torch, stateful=None if rng.random() < 0.8 or torch else True)
    for m in g["models"]:
        if m["k"] == "damage":
            m["C01"] = 0
        if m["k"] == "ustr":
            m["a"] = 0.0
    for s in g["spaces"]:
        if rng.random() < 0.5:
            s["force"], s["area"] = rng.choice([(None, 0), (None, None), (0, 0), (0, None)])
    assert all(consistent(m) for m in g["models"])
    unit = 1.0 if torch else rng.choice(UNITS)
    g["models"] = [mech.scale_model(m, unit) for m in g["models"]]
    nfree = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    free = sorted(rng.sample(range(6), nfree))
    steps = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        steps.append(
            {
                "seed": rng.randrange(10**6),
                "size": round(rng.uniform(0.02, 0.25), 3),
                "load": rng.choice([0.0, 0.0, round(rng.uniform(-0.1, 0.1), 3)]),
                "order": rng.choice(["gh", "gh", "hg", "h", "ghg"]),
                "faults": [
                    {
                        "k": rng.choice(["interrupt", "fail", "reject", "restart", "other", "linesearch", "garbage"]),
                        "i": rng.randrange(len(g["spaces"])),
                        "m": rng.choice(METHODS),
                        "seed": rng.randrange(10**6),
                        "exc": rng.choice(ASYNC),
                        "frac": round(rng.random(), 4),
                        "it": rng.choice([0, 0, 1, 2]),
                    }
                    for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))
                ],
            }
        )
    return {
        "graph": g,
        "i": rng.randrange(len(g["spaces"])),
        "unit": unit,
        "free": free,
        "steps": steps,
        "shape": rng.choice([[], [1], [2], [3], [2, 2], [1, 3], [5]]),
        "seed0": rng.randrange(10**6),
        "start": rng.choice(["id", "id", "mild", "gen", "tilted"]),
        "layout": rng.choice(["C", "C", "F", "strided", "tail"]),
        "reuse": rng.random() < 0.5,
    }


# -- exact derivative of the stress of the package --------------------------------------
def stresses(spec, i, F, sv, h, order):
    """P at differences of F in all components, fresh objects, one batch (pristine)."""
    g, j = world.only(spec, "space", i)
    s = g["spaces"][j]
    n = F.shape[2]
    k = np.array([1.0, -1.0] if order == 2 else [2.0, 1.0, -1.0, -2.0])
    m = 9 * len(k)
    G = np.repeat(F[:, :, None], m, axis=2)  # (3, 3, m, n)
    for c in range(9):
        for q, x in enumerate(k):
            G[c // 3, c % 3, c * len(k) + q] += x * h
    G = G.reshape(3, 3, m * n)
    z = None if sv is None else np.repeat(sv[:, None], m, axis=1).reshape(len(sv), m * n)
    P = mech.to_P(s, G, np.asarray(world.Graph(g).spaces[j].gradient([G, z])[0]))
    P = P.reshape(3, 3, 3, 3, len(k), n)
    if order == 2:
        return (P[..., 0, :] - P[..., 1, :]) / (2 * h)
    return (-P[..., 0, :] + 8 * P[..., 1, :] - 8 * P[..., 2, :] + P[..., 3, :]) / (12 * h)


def kinks(spec, i, F, sv, h):
    """Where the differences of the stress straddle a switch of the (damage) state."""
    g, j = world.only(spec, "space", i)
    n = F.shape[2]
    G = np.repeat(F[:, :, None], 19, axis=2)
    for c in range(9):
        G[c // 3, c % 3, 2 * c] += h
        G[c // 3, c % 3, 2 * c + 1] -= h
    z = np.repeat(sv[:, None], 19, axis=1).reshape(len(sv), 19 * n)
    new = world.Graph(g).spaces[j].gradient([G.reshape(3, 3, 19 * n), z])[1]
    load = (np.asarray(new)[0] > z[0]).reshape(19, n)
    return load.any(axis=0) & ~load.all(axis=0)


class Stabilizer:
    """What the simulated solver adds: a compressible body parallel to the material.

    psi = mu/2 (tr C - 3) - mu ln J + kappa/2 (J - 1)^2
    """

    def __init__(self, mu, kappa):
        self.mu, self.kappa = mu, kappa

    def P(self, F):
        Fi, J = mech.minv(F), mech.mdet(F)
        FT = np.swapaxes(Fi, 0, 1)
        return self.mu * (F - FT) + self.kappa * (J - 1) * J * FT

    def A(self, F):
        Fi, J = mech.minv(F), mech.mdet(F)
        FT = np.swapaxes(Fi, 0, 1)
        eye = np.eye(3)
        # d(F^-T)_iJ / dF_kL = - F^-1_Jk F^-1_Li
        cross = -np.einsum("Jk...,Li...->iJkL...", Fi, Fi)
        I4 = np.einsum("ik,JL->iJkL", eye, eye).reshape(3, 3, 3, 3, *[1] * (F.ndim - 2))
        A = self.mu * (I4 - cross)
        A = A + self.kappa * (2 * J - 1) * J * np.einsum("iJ...,kL...->iJkL...", FT, FT)
        return A + self.kappa * (J - 1) * J * cross


def execute(plan, ctx):
    spec, i = plan["graph"], plan["i"]
    graph = world.Graph(spec)
    s = spec["spaces"][i]
    mi = world.model_of(spec, "space", i)
    torch = spec["models"][mi]["k"] == "torch" and not plan.get("double")
    shape = tuple(plan["shape"])
    n = int(np.prod(shape)) if shape else 1
    scale = world.pscale({"models": [spec["models"][mi]]})
    ns = world.nstate_of(spec["models"][mi])
    rng = np.random.default_rng([plan["seed0"], 71])
    sv = world.gen_sv(plan["seed0"], ns, [n]) if ns else None
    stab = Stabilizer(0.3 * scale if s["k"] == "Dilatational" else 0.03 * scale, (1.0 if s["k"] == "Distortional" else 0.5) * scale)
    free = [COMPS[c] for c in plan["free"]]
    fi, fj = np.array(free).T
    h, order = (2e-2, 4) if torch else (2e-5, 2)
    ttol = 1e-2 if torch else 2e-6
    rtol = 2e-5 if torch else 1e-9

    F = np.repeat(np.eye(3)[:, :, None], n, axis=2)
    if plan["start"] in ("mild", "gen"):
        F = world.gen_F(plan["seed0"], [n], "mild")
        if plan["start"] == "gen":
            F = np.einsum("ijn,jkn->ikn", F, world.gen_F(plan["seed0"] + 1, [n], "mild"))
    elif plan["start"] == "tilted":
        F[[1, 2, 2], [0, 0, 1]] = rng.uniform(-0.2, 0.2, (3, n))
    buf, svbuf = None, None
    failing = {}

    def probe(model, method, a):
        exc = failing.pop(id(model), None)
        if exc is not None:
            raise exc

    umodels.PROBE = probe

    def arrange(G):
        nonlocal buf
        B = world.with_layout(G.reshape(3, 3, *shape), plan["layout"])
        if plan["reuse"]:
            if buf is None:
                buf = B
            buf[...] = B
            return buf
        return B

    def state(z):
        return None if z is None else z.reshape(ns, *shape)

    def evaluate(F, z, how):
        """(P, A, new state) of the package in the configuration of the space."""
        space = graph.spaces[i]
        x = [arrange(F), state(z)]
        g = t = None
        for c in how:
            if c == "g":
                g = space.gradient(x)
            else:
                t = space.hessian(x)[0]
                t = np.array(t)
        if g is None:
            g = space.gradient(x)
        G = F.reshape(3, 3, *shape)
        P = mech.to_P(s, G, np.asarray(g[0]))
        A = mech.to_A(s, G, t, np.asarray(g[0]))
        new = None if z is None else np.array(g[1]).reshape(ns, n)
        return P.reshape(3, 3, n), A.reshape(3, 3, 3, 3, n), new

    def disturb(e, F, z):
        k = e["k"]
        j = e["i"]
        space = graph.spaces[j]
        mj = world.model_of(spec, "space", j)
        nsj = world.nstate_of(spec["models"][mj])
        G = world.gen_F(e["seed"], list(shape), "gen")
        zj = world.gen_sv(e["seed"], nsj, shape) if nsj else None
        ctx.count("event:" + k)
        if k == "other":
            getattr(space, e["m"])([G, zj])
        elif k == "linesearch":
            for a in (0.3, 0.7):
                graph.spaces[i].gradient([arrange(F * (1 + 0.01 * a)), state(z)])
        elif k == "garbage":
            G[1] = np.nan if e["seed"] % 2 else 0.0
            try:
                getattr(space, e["m"])([G, zj])
            except Exception:
                pass
            ctx.count("fault:damaged_deformation")
        elif k == "fail":
            if not has_probe(spec["models"][mj]):
                return
            exc = EXC[e["exc"]]("model failed")
            failing[id(graph.models[mj])] = exc
            try:
                getattr(space, e["m"])([G, zj])
            except BaseException as err:
                if err is not exc:
                    raise
            failing.clear()
            ctx.count("fault:model_callback_failed")
        elif k == "interrupt":
            count = Injector(None, -1)
            count.call(getattr(graph.deepcopy().spaces[j], e["m"]), [G, zj])
            exc = EXC[e["exc"]]("interrupted")
            inj = Injector(exc, 1 + int(e["frac"] * count.seen))
            try:
                inj.call(getattr(space, e["m"]), [G, zj])
            except BaseException as err:
                if err is not exc:
                    raise
            ctx.count("fault:interrupted_call", int(inj.fired))

    what = (
        f"{s['k']}(force={s['force']}, area={s['area']}, finalize={s['finalize']}), framework "
        f"{spec['frameworks'][s['f']]}, model {spec['models'][mi]}"
    )

    def admissible(F):
        if not np.isfinite(F).all():
            return False
        m = np.moveaxis(F, -1, 0)
        sv_ = np.linalg.svd(m, compute_uv=False)
        return bool(sv_.max() < 2.5 and sv_.min() > 0.4 and (np.linalg.det(m) > 0.3).all())

    def exact(F, z):
        out = ctx.ref.call("sim.props.p12", "stresses", spec, i, F, z, h, order)
        if out[0] != "ok":
            ctx.violate("raises", f"{what}: {out[1]}: {out[2]} in a pristine process")
        ctx.count("exact_tangents")
        return out[1]

    switched = []  # iterations next to a switch of the state

    def newton(F, z, target, dF, use, how="gh", events=()):
        """Iterations to equilibrium; ``use`` selects the tangent."""
        F = F + dF
        new = None
        size = scale * np.maximum(1.0, 0.0)
        for it in range(MAXIT):
            if not admissible(F):
                return None, F, new
            for e in events:
                if e["it"] == it:
                    disturb(e, F, z)
            P, A, new = evaluate(F, z, how if use == "tangent" else "g" if use == "none" else "gh")
            if use == "tangent":
                E = exact(F, z)
                ref = E
                if ns:
                    # next to a switch of the state the stress has no derivative
                    smooth = ~ctx.ref.call("sim.props.p12", "kinks", spec, i, F, z, h)[1]
                else:
                    smooth = np.ones(n, bool)
                err = np.abs(A - ref).max(axis=(0, 1, 2, 3))
                big = np.abs(ref).max(axis=(0, 1, 2, 3))
                bad = smooth & ~(err <= ttol * (big + (scale if torch else 0.1 * scale)))
                ctx.count("tangents_compared", n)
                if bad.any():
                    p = int(np.flatnonzero(bad)[0])
                    c = np.unravel_index(np.abs(A - ref)[..., p].argmax(), (3, 3, 3, 3))
                    ctx.violate(
                        "tangent",
                        f"{what}: iteration {it}: the tangent differs from the derivative of the stress by "
                        f"{err[p]:.3e} at magnitude {big[p]:.3e} (component {tuple(int(x) for x in c)}), linear convergence",
                    )
                if not smooth.all():
                    ctx.count("at_a_switch", int((~smooth).sum()))
                    switched.append(it)
                K = A
            else:
                K = exact(F, z)
            R = (P + stab.P(F) - target)[fi, fj]
            if np.abs(R).max() <= rtol * size:
                return it, F, new
            K = (K + stab.A(F))[fi, fj][:, fi, fj]
            try:
                d = np.linalg.solve(np.moveaxis(K, -1, 0), -R.T[..., None])[..., 0].T
            except np.linalg.LinAlgError:
                return None, F, new
            F = F.copy()
            F[fi, fj] += d
        return None, F, new

    solved = 0
    try:
        # loads which are in equilibrium with the start
        P0, _, _ = evaluate(F, sv, "gh")
        target = P0 + stab.P(F)
        store = (F.copy(), None if sv is None else sv.copy(), target.copy())
        for no, st in enumerate(plan["steps"]):
            g = np.random.default_rng([st["seed"], 72])
            dF = np.zeros((3, 3, n))
            for c in COMPS:
                if c not in free:
                    dF[c] = g.uniform(-st["size"], st["size"], n)
            dT = np.zeros((3, 3, n))
            for c in free:
                dT[c] = st["load"] * scale * g.uniform(-1, 1, n)
            if not any(c not in free for c in COMPS) and not st["load"]:
                dT[0, 0] = 0.1 * scale * g.uniform(-1, 1, n)
            inner = []
            for e in st["faults"]:
                if e["k"] == "reject":
                    # a step which is too large is rejected after some iterations
                    P, A, _ = evaluate((F + 0.4 * dF + np.eye(3)[:, :, None] * 0.2), sv, "gh")
                    ctx.count("fault:rejected_step")
                elif e["k"] == "restart":
                    graph = world.Graph(spec)
                    buf = None
                    F, target = store[0].copy(), store[2].copy()
                    sv = None if sv is None else store[1].copy()
                    ctx.count("fault:restart")
                else:
                    inner.append(e)
            # cut back until the exact iteration converges
            want = None
            for cut in (1.0, 0.5, 0.2):
                want, _, _ = newton(F, sv, target + cut * dT, cut * dF, "exact")
                if want is not None:
                    break
                ctx.count("cut_backs")
            if want is None:
                ctx.count("steps_without_solution")
                continue
            switched.clear()
            got, Fn, new = newton(F, sv, target + cut * dT, cut * dF, "tangent", st["order"], inner)
            ctx.log(no, want, got)
            if switched and (got is None or got > want + 1):
                # Newton's method may cycle around a switch of the state, whatever the tangent
                ctx.count("cycles_at_a_switch")
                continue
            ctx.check(
                got is not None and got <= want + (2 if torch else 1),
                "convergence",
                lambda: f"{what}: step {no}: {got if got is not None else 'no solution within ' + str(MAXIT)} iterations, {want} with the exact derivative",
            )
            ctx.count("iterations", got)
            F, target = Fn, target + cut * dT
            sv = new if sv is not None else None
            store = (F.copy(), None if sv is None else sv.copy(), target.copy())
            solved += 1
    finally:
        umodels.PROBE = None
    ctx.trace(s["k"], s["force"], s["area"], s["finalize"], spec["frameworks"][s["f"]], spec["models"][mi]["k"], plan["free"], [(x["order"], [(e["k"], e["i"], e["m"], e["it"]) for e in x["faults"]]) for x in plan["steps"]], shape)
    ctx.count("probe:steps_solved", solved)
    ctx.sim_steps = ctx.counts["iterations"]
    ctx.nontrivial = solved >= 1


def shrink(plan):
    yield from shrink_lists(plan, ["steps"])
    for k, st in enumerate(plan["steps"]):
        if st["faults"]:
            for m in range(len(st["faults"])):
                q = dict(plan)
                q["steps"] = [dict(x) for x in plan["steps"]]
                q["steps"][k]["faults"] = st["faults"][:m] + st["faults"][m + 1 :]
                yield q
    if plan["shape"]:
        yield {**plan, "shape": []}
    if plan["layout"] != "C":
        yield {**plan, "layout": "C"}
    if plan["reuse"]:
        yield {**plan, "reuse": False}
