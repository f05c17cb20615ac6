"""P04: the protocol of state variables over simulated load histories."""

import copy
import pickle

import numpy as np

from .. import umodels, world
from ..core import shrink_lists
from ..inject import Injector
from ..world import same
from .p02 import EXC

FORMS = ["array", "array", "array", "list", "tuple", "dict", "f32", "object"]


def generate(rng, tier, torch):
    g = world.gen_graph(rng, nmodels=rng.choice([1, 1, 2]), nspaces=rng.choice([1, 2, 3]), stateful=True)
    for m in g["models"]:
        m["form"] = rng.choice(FORMS)
        if m["k"] == "damage" and rng.random() < 0.3:
            m["nstate"] = rng.choice([3, 5])
        if m["k"] == "damage" and rng.random() < 0.1:
            # a recorder: states without any stress
            m.update(C10=0.0, C01=0.0, C20=0.0, C3=0.0)
    nb = rng.choice([1, 2, 2, 3])
    bodies = []
    for _ in range(nb):
        bodies.append(
            {
                "s": rng.randrange(len(g["spaces"])),
                "shape": world.any_shape(rng),
                "seed": rng.randrange(10**6),
                "amp": round(rng.uniform(0.1, 0.45), 3),
                "freq": round(rng.uniform(0.5, 3), 3),
                "rigid": rng.choice([0, 0, 0, 0.3, 1]),
                "z0": rng.choice([0.0, 0.0, 0.2, None]),  # None: no state variables yet
            }
        )
    ops = []
    for _ in range(rng.randint(8, 26)):
        b = rng.randrange(nb)
        r = rng.random()
        dt = round(rng.choice([0.02, 0.05, 0.1, 0.2, 0.3]) * rng.uniform(0.5, 1.5), 4)
        if r < 0.45:
            ops.append({"e": "step", "b": b, "dt": dt, "n": rng.choice([0, 0, 1, 2]), "order": rng.choice(["gh", "hg", "g", "hgh"])})
        elif r < 0.6:
            ops.append({"e": "reject", "b": b, "dt": dt * 3, "n": rng.choice([1, 1, 2]), "order": rng.choice(["gh", "hg", "g", "h"])})
        elif r < 0.63:
            # the same deformation with different states, also below the space
            ops.append(
                {
                    "e": "states",
                    "b": b,
                    "dt": dt,
                    "level": rng.choice(["space", "framework", "framework", "model"]),
                    "seq": [[rng.choice("gh"), rng.randrange(5)] for _ in range(rng.randint(2, 5))],
                }
            )
        elif r < 0.68:
            ops.append({"e": "repeat", "b": b, "order": rng.choice(["gh", "hg", "h", "g"])})
        elif r < 0.74:
            ops.append({"e": "checkpoint", "b": b})
        elif r < 0.81:
            ops.append({"e": "crash", "rebuild": rng.random() < 0.7})
        elif r < 0.86:
            ops.append({"e": "copy"})
        elif r < 0.9:
            ops.append({"e": "rewind", "b": b, "r": rng.randrange(1000)})
        else:
            ops.append(
                {
                    "e": "fault",
                    "b": b,
                    "dt": dt,
                    "m": rng.choice(["gradient", "hessian"]),
                    "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "UserError"]),
                    "frac": round(rng.random(), 4),
                    "at": rng.choice([0, 0, 1, 2]),
                }
            )
    return {"graph": g, "bodies": bodies, "ops": ops}


def path(body, t):
    """Deformation of a body at simulated time t: cyclic stretches and rotations."""
    g = np.random.default_rng([body["seed"], 31])
    shape = body["shape"]
    n = int(np.prod(shape)) if shape else 1
    ph = g.uniform(0, 6.28, (3, n))
    fr = body["freq"] * g.uniform(0.6, 1.4, (3, n))
    lam = np.exp(body["amp"] * (np.sin(fr * t + ph) - np.sin(ph)))
    D = np.zeros((3, 3, n))
    D[[0, 1, 2], [0, 1, 2]] = lam
    Q = world.rotations(g, n)
    w = g.uniform(-1, 1, n)
    # some points rotate only, some are not deformed at all
    rigid = g.random(n) < body.get("rigid", 0)
    D[:, :, rigid] = np.eye(3)[:, :, None]
    Q[:, :, rigid] = np.eye(3)[:, :, None]
    w[rigid] *= g.random(n)[rigid] < 0.5
    c, s = np.cos(w * t), np.sin(w * t)
    R = np.zeros((3, 3, n))
    R[0, 0], R[0, 1], R[1, 0], R[1, 1], R[2, 2] = c, -s, s, c, 1
    F = np.einsum("ian,ajn,jkn,lkn->iln", R, Q, D, Q)
    return np.ascontiguousarray(F.reshape(3, 3, *shape))


def frozen(spec, i, method, F, z, level="space"):
    """Stress or tangent by fresh objects whose model has the old state built in; the new
    state is taken from the model itself, not from the library."""
    g, j = world.only(spec, level, i)
    g = copy.deepcopy(g)
    g["models"][0]["frozen"] = np.array(z)
    graph = world.Graph(g)
    junk = {"no": "state"}
    out = getattr(graph.get(level, j), method)(*world.args_for(g, level, j, F, junk))
    if level == "space":
        return out[0], graph.models[0].last_new
    if method == "gradient":
        out = list(out[:-1])
    return out, graph.models[0].last_new


def as_z(state, form, n, shape):
    if state is None:
        return np.zeros((n, *shape))
    return np.array(umodels.Protocol.unpack(state, form))


def same_state(a, b):
    """Exact equality, including the container the model chose."""
    if type(a) is not type(b):
        return f"{type(a).__name__} instead of {type(b).__name__}"
    if isinstance(a, umodels.State):
        return same_state(a.z, b.z)
    if isinstance(a, dict):
        if a.keys() != b.keys():
            return "other keys"
        return same_state(a["z"], b["z"])
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{len(a)} instead of {len(b)} variables"
        for x, y in zip(a, b):
            d = same_state(x, y)
            if d:
                return d
        return None
    if a.shape != b.shape or a.dtype != b.dtype:
        return f"{a.dtype}{a.shape} instead of {b.dtype}{b.shape}"
    d = same(a, b, rtol=1e-10, atol=1.0)
    return d and "state " + d


def execute(plan, ctx):
    spec = plan["graph"]
    graph = world.Graph(spec)
    scale = world.pscale(spec)

    class Body:
        pass

    bodies = []
    for k, b in enumerate(plan["bodies"]):
        o = Body()
        o.plan = b
        o.mi = world.model_of(spec, "space", b["s"])
        o.form = spec["models"][o.mi]["form"]
        n = world.nstate_of(spec["models"][o.mi])
        o.t = 0.0
        o.n = n
        o.state = None
        if b["z0"] is not None:
            o.state = umodels.Protocol.pack(np.full((n, *b["shape"]), b["z0"]), o.form)
        o.last = None
        o.stack = [(0.0, pickle.dumps(o.state))]
        bodies.append(o)
    evals = 0
    accepted = 0

    def initial():
        """The initial variables of all objects."""
        return [[np.array(a).tobytes() for a in o.x] for o in [*graph.spaces, *graph.frameworks] if hasattr(o, "x")]

    x0 = initial()

    def call(o, t, order, what):
        """Evaluate at the old state; returns the new state (from a stress call)."""
        nonlocal evals
        F = path(o.plan, t)
        i = o.plan["s"]
        space = graph.spaces[i]
        new = None
        z = as_z(o.state, o.form, o.n, o.plan["shape"])
        for ch in order:
            m = "gradient" if ch == "g" else "hessian"
            want = ctx.ref.call("sim.props.p04", "frozen", spec, i, m, F, z)
            if want[0] != "ok":
                ctx.violate("evaluation-raises", f"new objects with the old state built in: {want[1]}: {want[2]}")
            stress, znew = want[1]
            before = pickle.dumps(o.state)
            try:
                got = getattr(space, m)([F.copy(), o.state])
            except Exception as e:
                ctx.violate("evaluation-raises", f"{what}: {m}: {type(e).__name__}: {e}")
            ctx.check(pickle.dumps(o.state) == before, "old-state-changed", lambda: f"{what}: {m} wrote to the old state variables")
            d = same(got[0], stress, atol=scale)
            ctx.check(
                d is None,
                ("stress" if ch == "g" else "tangent") + "-not-at-old-state",
                lambda: f"{what}: {m} of body space[{i}]: {d} (against a model with the old state built in)",
            )
            if ch == "g":
                ctx.check(len(got) == 2, "no-new-state", lambda: f"{what}: gradient returned {len(got)} items")
                d = same_state(got[1], znew)
                ctx.check(d is None, "new-state-differs", lambda: f"{what}: {d} (against the new state computed by the model)")
                new = got[1]
            evals += 1
        return F, new

    def states(o, op, what):
        """One deformation, several states in turn, at any level."""
        nonlocal evals
        F = path(o.plan, o.t + op["dt"])
        level = op["level"]
        i = o.plan["s"]
        if level != "space":
            i = spec["spaces"][i]["f"]
        if level == "model":
            i = spec["frameworks"][i]["m"]
        obj = graph.get(level, i)
        n = world.nstate_of(spec["models"][o.mi])
        z0 = as_z(o.state, o.form, n, o.plan["shape"])
        pool = [z0, z0 + 0.15, np.full((n, *o.plan["shape"]), 0.35), np.zeros((n, *o.plan["shape"]))]
        for ch, k in op["seq"]:
            m = "gradient" if ch == "g" else "hessian"
            state = None if k == 4 else umodels.Protocol.pack(pool[k], o.form)
            z = as_z(state, o.form, n, o.plan["shape"])
            want = ctx.ref.call("sim.props.p04", "frozen", spec, i, m, F, z, level)
            if want[0] != "ok":
                ctx.violate("evaluation-raises", f"new objects with the old state built in: {want[1]}: {want[2]}")
            before = pickle.dumps(state)
            try:
                got = getattr(obj, m)(*world.args_for(spec, level, i, F, state))
            except Exception as e:
                ctx.violate("evaluation-raises", f"{what}: {level} {m}: {type(e).__name__}: {e}")
            ctx.check(pickle.dumps(state) == before, "old-state-changed", lambda: f"{what}: {level} {m} wrote to the old state variables")
            new = None
            if m == "gradient":
                got, new = (list(got[:-1]) if level != "space" else got[0]), got[-1]
            elif level == "space":
                got = got[0]
            d = same(got, want[1][0], atol=scale)
            ctx.check(
                d is None,
                ("stress" if ch == "g" else "tangent") + "-not-at-old-state",
                lambda: f"{what}: {level} {m} with state {k}: {d} (against a model with this state built in)",
            )
            if m == "gradient":
                d = same_state(new, want[1][1])
                ctx.check(d is None, "new-state-differs", lambda: f"{what}: {level} {m} with state {k}: {d}")
            evals += 1

    for n, op in enumerate(plan["ops"]):
        e = op["e"]
        ctx.count("op:" + e)
        what = f"event {n} {e}"
        if "b" in op:
            o = bodies[op["b"] % len(bodies)]
            what += f" body {op['b']} t={o.t:.3f}"
        if e == "step":
            t1 = o.t + op["dt"]
            for k in range(op["n"]):  # iterations of the solver before it converges
                call(o, o.t + op["dt"] * (0.3 + 0.5 * k), "gh", what + f" iteration {k}")
            order = op["order"] if "g" in op["order"] else op["order"] + "g"
            _, new = call(o, t1, order, what)
            o.last = (o.t, o.state, t1)
            o.state, o.t = new, t1
            accepted += 1
            ctx.sim_time += op["dt"]
        elif e == "reject":
            for k in range(op["n"]):
                call(o, o.t + op["dt"] * 0.5**k, op["order"], what)
            ctx.count("fault:increment_rejected")
        elif e == "states":
            states(o, op, what)
            ctx.trace(op["level"], op["seq"])
        elif e == "repeat":
            if o.last is not None:
                t, st = o.t, o.state
                o.t, o.state = o.last[0], o.last[1]
                _, new = call(o, o.last[2], op["order"] + "g", what)
                d = same_state(new, st)
                ctx.check(d is None, "repeat-differs", lambda: f"{what}: {d}")
                o.t, o.state = t, st
        elif e == "checkpoint":
            o.stack.append((o.t, pickle.dumps(o.state)))
        elif e == "crash":
            # everything which is not durable is lost
            if op["rebuild"]:
                graph = world.Graph(spec)
            for o in bodies:
                o.t, st = o.stack[-1]
                o.state = pickle.loads(st)
                o.last = None
            ctx.count("fault:crash_and_restart")
        elif e == "copy":
            graph = graph.deepcopy()
            ctx.count("fault:objects_deep_copied")
        elif e == "rewind":
            o.t, st = o.stack[op["r"] % len(o.stack)]
            o.state = pickle.loads(st)
            o.last = None
        elif e == "fault":
            F = path(o.plan, o.t + op["dt"])
            fn = getattr(graph.spaces[o.plan["s"]], op["m"])
            before = pickle.dumps(o.state)
            exc = EXC[op["exc"]]("injected")
            if op["at"]:
                seen = [0]

                def probe(model, method, a):
                    seen[0] += 1
                    if seen[0] == op["at"]:
                        raise exc

                umodels.PROBE = probe
                try:
                    fn([F, o.state])
                except BaseException:
                    ctx.count("fault:model_callback")
                finally:
                    umodels.PROBE = None
            else:
                inj = Injector(exc, 1 + int(op["frac"] * 120), False)
                try:
                    inj.call(fn, [F, o.state])
                except BaseException:
                    pass
                if inj.fired:
                    ctx.count("fault:interrupted_line")
            ctx.check(pickle.dumps(o.state) == before, "old-state-changed", lambda: f"{what}: an interrupted call wrote to the state variables")
        ctx.check(initial() == x0, "initial-state-changed", lambda: f"{what}: the initial variables x of the objects changed")
        ctx.trace(e, op.get("b"), op.get("order"), op.get("n"), op.get("m"))
        ctx.log(n, e, op.get("b"), [round(o.t, 9) for o in bodies])
    ctx.trace([(spec["models"][o.mi]["k"], o.form, o.plan["shape"]) for o in bodies])
    ctx.nontrivial = accepted >= 2
    ctx.count("evaluations_compared", evals)
    ctx.count("accepted_increments", accepted)
    ctx.sim_steps = len(plan["ops"])


def shrink(plan):
    yield from shrink_lists(plan, ["ops"])
    for i, b in enumerate(plan["bodies"]):
        for shape in ([], [1], [2, 1]):
            if len(str(b["shape"])) > len(str(shape)):
                q = dict(plan)
                q["bodies"] = [dict(x) for x in plan["bodies"]]
                q["bodies"][i]["shape"] = shape
                yield q
    for i, op in enumerate(plan["ops"]):
        if op.get("n"):
            q = dict(plan)
            q["ops"] = [dict(x) for x in plan["ops"]]
            q["ops"][i]["n"] = 0
            yield q
