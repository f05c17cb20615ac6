"""P21: finite-element solutions (FElupe) do not depend on the history of the solver."""

import copy
import pickle

import numpy as np

from .. import mech, umodels, world
from ..core import shrink_lists
from ..inject import Injector
from .p02 import EXC

PRELOAD = ["felupe"]

MESHES = ["cube2", "cube3", "tetra", "strain", "axi", "quadratic"]
MAXIT = 14


def exact(m):
    """Models whose stress is the derivative of a documented energy."""
    return m["k"] in ("tod", "poly", "ogden", "gim") or (m["k"] == "ustr" and not m["a"])


def generate(rng, tier, torch):
    g = world.gen_graph(
        rng,
        nmodels=rng.choice([1, 1, 2]),
        nspaces=rng.choice([1, 2, 3]),
        plain=True,
        stateful=rng.choice([None, None, None, True, False]),
    )
    for s in g["spaces"]:
        if rng.random() < 0.5:
            s["k"] = "Distortional"
    problems = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        n = len(g["spaces"])
        first = rng.randrange(n)
        problems.append(
            {
                "mesh": rng.choice(MESHES),
                "seed": rng.randrange(10**6),
                "spaces": [first] if rng.random() < 0.6 else [first, rng.randrange(n)],
                "bulk": rng.choice([5.0, 20.0, 100.0]),
                # the body creates its state variables like those of the material
                "default_states": rng.random() < 0.5,
                # cells evaluated at once (by FElupe); the reference evaluates all of them
                "chunk": rng.choice([None, None, None, 2, 3, 5]),
                "load": rng.choice(["tension", "compression", "shear", "mixed"]),
                "steps": [round(rng.uniform(0.03, 0.16), 4) for _ in range(rng.choice([2, 3, 4]))],
                "cyclic": rng.random() < 0.4,
            }
        )
    # what happens to the increments, in the order of their attempts
    for p in problems:
        script = []
        for k in range(len(p["steps"])):
            while rng.random() < 0.45:
                r = rng.random()
                if r < 0.14:
                    # an iteration of a diverging solution, far off or not a number
                    script.append({"e": "diverge", "k": k, "after": rng.choice([0, 1, 2, 3]), "size": rng.choice([3.0, 100.0, 1e60, 1e160, 1e200, "nan", "inf", "one"]), "order": rng.choice(["gh", "hg", "h", "g"])})
                elif r < 0.5:
                    script.append({"e": "reject", "k": k, "after": rng.choice([1, 2, 3, 5])})
                elif r < 0.85:
                    script.append(
                        {
                            "e": "fault",
                            "k": k,
                            "after": rng.choice([0, 0, 1, 2, 3, 4]),
                            "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "UserError", "FloatingPointError"]),
                            "model": rng.random() < 0.3,
                            "frac": round(rng.random(), 4),
                        }
                    )
                else:
                    script.append({"e": "crash", "k": k, "rebuild": rng.random() < 0.6})
            script.append({"e": "step", "k": k, "order": rng.choice(["gh", "gh", "hg", "ghg"])})
        p["script"] = script
    order = [rng.randrange(1000) for _ in range(rng.randint(10, 60))]
    events = [[rng.randrange(80), rng.choice(["copy", "rebuild"])] for _ in range(rng.choice([0, 0, 1, 2]))]
    return {"graph": g, "problems": problems, "order": order, "events": events}


def chunked(umat, points):
    """A material which is evaluated in chunks of cells by FElupe."""
    import felupe as fem

    class Chunked(fem.ConstitutiveMaterial):
        def __init__(self):
            self.umat, self.x, self.kwargs = umat, umat.x, {}
            self.chunksize = points
            self.parallel = False

        # no ``out``: the body keeps the arrays it gets
        def gradient(self, x):
            return super().gradient(x)

        def hessian(self, x):
            return super().hessian(x)

        def _gradient(self, x):
            return self.umat.gradient(x)

        def _hessian(self, x):
            return self.umat.hessian(x)

    return Chunked()


class Problem:
    """Mesh, field, boundary conditions and solid bodies of one finite-element problem."""

    def __init__(self, spec, plan, spaces, chunks=True):
        import felupe as fem

        self.chunks = chunks

        self.spec, self.plan = spec, plan
        g = np.random.default_rng([plan["seed"], 71])
        kind = plan["mesh"]
        if kind in ("strain", "axi"):
            mesh = fem.Rectangle(a=(0, 0.3 if kind == "axi" else 0), b=(1, 1.1), n=3)
        else:
            mesh = fem.Cube(n=2 if kind in ("cube2", "tetra") else 3)
        inner = ~np.isclose(mesh.points[:, 0], 0) & ~np.isclose(mesh.points[:, 0], 1)
        mesh.points[inner] += g.uniform(-0.06, 0.06, mesh.points[inner].shape)
        if kind == "tetra":
            mesh = fem.mesh.triangulate(mesh)
            region = fem.RegionTetra(mesh)
        elif kind == "quadratic":
            mesh = fem.mesh.triangulate(fem.Cube(n=2))
            mesh = fem.mesh.add_midpoints_edges(mesh)
            region = fem.RegionQuadraticTetra(mesh)
        elif kind in ("strain", "axi"):
            region = fem.RegionQuad(mesh)
        else:
            region = fem.RegionHexahedron(mesh)
        cls = {"strain": fem.FieldPlaneStrain, "axi": fem.FieldAxisymmetric}.get(kind, fem.Field)
        self.field = fem.FieldContainer([cls(region, dim=mesh.dim)])
        self.mesh, self.region = mesh, region
        self.dim = mesh.dim
        self.axi = kind == "axi"
        X = mesh.points
        left = np.flatnonzero(np.isclose(X[:, 0], 0))
        right = np.flatnonzero(np.isclose(X[:, 0], 1))
        dofs = np.arange(X.size).reshape(X.shape)
        self.fixed = dofs[left].ravel()
        self.moved = dofs[right]
        pres = np.concatenate([self.fixed, self.moved.ravel()])
        self.free = np.setdiff1d(dofs.ravel(), pres)
        self.solids = []
        q, c = region.dV.shape
        for i in plan["spaces"]:
            m = spec["models"][world.model_of(spec, "space", i)]
            n = world.nstate_of(m)
            kw = {}
            if n and (m.get("form") or not plan.get("default_states")):
                z = np.zeros((n, q, c))
                kw["statevars"] = umodels.Protocol.pack(z, m["form"]) if m.get("form") else z
            self.solids.append(fem.SolidBody(self.umat(spaces[i], i), self.field, **kw))
        self.volume = fem.SolidBody(fem.Volumetric(bulk=plan["bulk"]), self.field)
        # results of the bodies which have to stay as they were returned
        self.kept = {}

    def umat(self, space, i):
        """The material of a body, as a whole or in chunks."""
        n = self.plan.get("chunk") if self.chunks else None
        if n is None or self.spec["models"][world.model_of(self.spec, "space", i)].get("form"):
            return space
        return chunked(space, n * self.region.dV.shape[0])

    def attach(self, spaces):
        for s, i in zip(self.solids, self.plan["spaces"]):
            s.umat = self.umat(spaces[i], i)

    def values(self):
        return self.field[0].values

    def move(self, u, level):
        """The initial guess of an increment: prescribed displacements of the end face."""
        d = np.zeros(self.dim)
        kind = self.plan["load"]
        d[0] = {"tension": 1, "compression": -0.7, "shear": 0.1, "mixed": 0.8}[kind] * level
        d[1] = {"tension": 0, "compression": 0, "shear": 1, "mixed": -0.6}[kind] * level * (0.3 if self.axi else 1)
        v = u.copy().ravel()
        v[self.fixed] = 0
        for j in range(self.dim):
            v[self.moved[:, j]] = d[j]
        return v.reshape(u.shape)

    def level(self, k):
        """Load level of increment k."""
        s = self.plan["steps"]
        sign = [1, 1, -1, -1] if self.plan["cyclic"] else [1] * 4
        return sum(x * sg for x, sg in zip(s[: k + 1], sign))

    def state(self):
        return [copy.deepcopy(s.results.statevars) for s in self.solids]

    def restore(self, u, states=None):
        self.values()[...] = u
        if states is not None:
            for s, z in zip(self.solids, states):
                s.results.statevars = copy.deepcopy(z)

    def vector(self, j):
        s = self.solids[j]
        return s.assemble.vector(self.field).toarray().ravel()

    def matrix(self, j):
        s = self.solids[j]
        return s.assemble.matrix(self.field).toarray()

    def steps(self, k, order="gh"):
        """Newton iterations of an increment as a coroutine: yields the next assembly (method,
        body) and receives its result; the field holds the solution at the end."""
        self.values()[...] = self.move(self.values(), self.level(k))
        its, scale = 0, None
        n = len(self.solids)
        while True:
            f = self.volume.assemble.vector(self.field).toarray().ravel()
            K = self.volume.assemble.matrix(self.field).toarray()
            fs = [None] * n
            for ch in order:
                for j in range(n):
                    out = yield ("vector" if ch == "g" else "matrix", j)
                    if ch == "g":
                        fs[j] = out
                    else:
                        K = K + out
            f = f + sum(fs)
            r = np.linalg.norm(f[self.free])
            scale = max(np.linalg.norm(f), scale or 0.0)
            if not np.isfinite(r):
                raise ArithmeticError("residual is not finite")
            if r <= 1e-10 * scale + 1e-13 * np.abs(K).max():
                return its, f, K
            its += 1
            if its > MAXIT:
                raise ArithmeticError(f"no equilibrium after {MAXIT} iterations: residual {r:.2e} of {scale:.2e}")
            du = np.linalg.solve(K[np.ix_(self.free, self.free)], -f[self.free])
            if np.abs(du).max() > 2:
                raise ArithmeticError("diverged")
            v = self.values().ravel().copy()
            v[self.free] += du
            self.values()[...] = v.reshape(self.values().shape)

    def accept(self):
        for s in self.solids:
            s.results.update_statevars()


def undisturbed(spec, plan):
    """All increments one after another with objects of this problem only."""
    spaces = world.Graph(spec).spaces
    p = Problem(spec, plan, spaces, chunks=False)
    out = []
    for k in range(len(plan["steps"])):
        it = p.steps(k)
        try:
            with np.errstate(all="ignore"):
                want = next(it)
                while True:
                    want = it.send(getattr(p, want[0])(want[1]))
        except StopIteration as e:
            its, f, _ = e.value
        except (ArithmeticError, np.linalg.LinAlgError):
            break
        if mech.mdet(p.field.extract()[0]).min() < 0.15:
            break  # collapsed elements: not a solution
        p.accept()
        out.append((p.values().copy(), f, its, pickle.dumps(p.state())))
    return out


def numbers(states):
    """All arrays of (packed) states."""
    out = []
    for s in states:
        if isinstance(s, umodels.State):
            s = s.z
        if isinstance(s, dict):
            s = s["z"]
        out.extend(world.flat([s]))
    return out


def execute(plan, ctx):
    spec = plan["graph"]
    graph = world.Graph(spec)
    live = []
    for n, pl in enumerate(plan["problems"]):
        want = ctx.ref.call("sim.props.p21", "undisturbed", spec, pl)
        ctx.count("pristine_solutions")
        if want[0] != "ok":
            # the call fails on fresh objects as well
            ctx.violate("solution-fails", f"the undisturbed solution with new objects: {want[1]}: {want[2]}")
        ref = want[1]
        if len(ref) < len(pl["steps"]):
            ctx.count("increments_without_equilibrium", len(pl["steps"]) - len(ref))
        p = Problem(spec, pl, graph.spaces)
        p.ref = ref
        p.n = n
        if any(s.umat not in graph.spaces for s in p.solids):
            ctx.count("problems_in_chunks")
        for j, i in enumerate(pl["spaces"]):
            m = spec["models"][world.model_of(spec, "space", i)]
            z = p.solids[j].results.statevars
            if not m.get("form"):
                ctx.check(np.size(z) == world.nstate_of(m) * p.region.dV.size, "default-states", lambda: f"problem {n} body {j}: {np.shape(z)} state variables of a model with {world.nstate_of(m)}")
        p.saved = (-1, p.values().copy(), pickle.dumps(p.state()))
        p.seen = [False]
        live.append(p)
    done = {"accepted": 0}

    def assemble(p, what, method, j, fault=None, diverged=False):
        """One assembly of a body; the kinematics are an argument of the material."""
        s = p.solids[j]
        check_kept(p, what)
        before = pickle.dumps(s.results.statevars)
        ctx.log(what, method, j)
        if diverged:
            try:
                out = getattr(p, method)(j)
            except Exception as e:
                # no result for a deformation which is none
                ctx.log(what, method, j, type(e).__name__)
                out = None
        elif fault is None:
            try:
                out = getattr(p, method)(j)
            except Exception as e:
                ctx.violate("assembly-raises", f"{what}: {method} of body {j}: {type(e).__name__}: {e}; the undisturbed solution succeeds")
        else:
            exc = EXC[fault["exc"]]("injected")
            try:
                if fault["model"]:
                    seen = [0]

                    def probe(*a):
                        seen[0] += 1
                        if seen[0] == 1:
                            raise exc

                    umodels.PROBE = probe
                    try:
                        out = getattr(p, method)(j)
                    finally:
                        umodels.PROBE = None
                    fired = seen[0] > 0
                else:
                    inj = Injector(exc, 1 + int(fault["frac"] * 160), False)
                    out = None
                    try:
                        out = inj.call(getattr(p, method), j)
                    finally:
                        fired = inj.fired
            except BaseException as e:
                if e is not exc:
                    ctx.violate("other-exception", f"{what}: {method} of body {j}: {type(e).__name__}: {e} instead of the injected {fault['exc']}")
                ctx.count("fault:" + ("model_callback" if fault["model"] else "interrupted_assembly"))
                out = None
            else:
                if fired:
                    ctx.violate("exception-swallowed", f"{what}: {method} of body {j}: {fault['exc']} did not reach the solver")
        ctx.check(pickle.dumps(s.results.statevars) == before, "old-state-changed", lambda: f"{what}: {method} of body {j} wrote to the accepted state variables")
        F = p.field.extract()[0]
        ctx.check(np.array_equal(F, s.results.kinematics[0], equal_nan=True), "kinematics-changed", lambda: f"{what}: {method} of body {j} changed the deformation gradient of the body")
        if out is not None:
            a = s.results.gradient if method == "vector" else s.results.hessian
            p.kept[method, j] = (a, np.array(a).tobytes())
        return out

    def check_kept(p, what):
        for (method, j), (a, b) in p.kept.items():
            ctx.check(np.array(a).tobytes() == b, "result-changed", lambda: f"{what}: the {method} results of body {j} changed after they were returned")

    def accepted(p, k, what, its, f, K):
        u, fr, itr, zr = p.ref[k]
        v = p.values()
        size = max(np.abs(u).max(), 1e-3)
        d = np.abs(v - u).max()
        ctx.check(d <= 1e-6 * size, "other-equilibrium", lambda: f"{what}: displacements differ by {d:.2e} from those of the undisturbed solution (size {size:.2e})")
        d = np.abs(f - fr).max()
        ctx.check(d <= 1e-6 * np.abs(fr).max(), "other-forces", lambda: f"{what}: forces differ by {d:.2e} from those of the undisturbed solution (size {np.abs(fr).max():.2e})")
        ctx.check(its <= itr + 1, "slow", lambda: f"{what}: {its} iterations, the undisturbed solution needs {itr}")
        for a, b in zip(numbers(p.state()), numbers(pickle.loads(zr))):
            ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-7), "other-state", lambda: f"{what}: state variables differ from those of the undisturbed solution")
        # balance of forces: a rigid translation does no work
        X = p.mesh.points
        total = f.reshape(X.shape).sum(axis=0)
        if p.axi:
            total = total[:1]
        ctx.check(np.abs(total).max() <= 1e-8 * np.abs(f).sum() + 1e-12, "unbalanced-force", lambda: f"{what}: the forces sum up to {total}")
        if p.dim == 3:
            x = X + p.values()
            mom = np.cross(x, f.reshape(X.shape)).sum(axis=0)
            ctx.check(np.abs(mom).max() <= 1e-7 * np.abs(f).sum() + 1e-12, "unbalanced-moment", lambda: f"{what}: the moments sum up to {mom}")
        d = np.abs(K - K.T).max()
        ctx.check(d <= 1e-8 * np.abs(K).max(), "unsymmetric", lambda: f"{what}: the stiffness is not symmetric: {d:.2e} of {np.abs(K).max():.2e}")

    def differences(p, what, j):
        """The stiffness is the derivative of the forces, these are the derivative of the
        documented strain energy."""
        i = p.plan["spaces"][j]
        m = spec["models"][world.model_of(spec, "space", i)]
        if not exact(m):
            return
        g = np.random.default_rng([p.plan["seed"], 73])
        u = p.values().copy()
        w = g.standard_normal(u.shape)
        w /= np.abs(w).max()
        if p.axi:
            w *= 0.3
        K = p.matrix(j)
        f = p.vector(j)
        dF = []
        E = []
        h = 1e-5
        dV = p.region.dV
        if p.axi:
            dV = 2 * np.pi * p.field[0].radius * dV
        for c in (1, -1):
            p.values()[...] = u + c * h * w
            dF.append(p.vector(j))
            E.append((mech.energy(spec, i, p.field.extract()[0]) * dV).sum())
        p.values()[...] = u
        a, b = K @ w.ravel(), (dF[0] - dF[1]) / (2 * h)
        size = np.abs(K).max()
        d = np.abs(a - b).max()
        ctx.check(d <= 2e-5 * size, "stiffness", lambda: f"{what}: the stiffness of body {j} differs by {d:.2e} from the differences of its forces (size {size:.2e})")
        a, b = f @ w.ravel(), (E[0] - E[1]) / (2 * h)
        size = np.abs(f).max() + 1e-3 * size
        ctx.check(abs(a - b) <= 2e-5 * size, "power", lambda: f"{what}: the power of the forces of body {j} is {a:.8e}, the rate of its strain energy {b:.8e}")
        ctx.count("bodies_against_energy")

    def run(p):
        """The script of a problem as a coroutine; yields before every assembly."""
        k = 0  # next increment
        script = list(p.plan["script"])
        pos = 0
        while pos < len(script) and k < len(p.ref):
            ev = script[pos]
            pos += 1
            if ev["k"] >= len(p.ref):
                return
            what = f"problem {p.n} ({p.plan['mesh']}) increment {k} {ev['e']}"
            ctx.count("op:" + ev["e"])
            ctx.trace(p.n, ev["e"], k, ev.get("after"), ev.get("exc"))
            if ev["e"] == "crash":
                # only the checkpoint survives; the lost increments are solved again
                kk, u, z = p.saved
                if ev["rebuild"]:
                    q = Problem(spec, p.plan, graph.spaces)
                    ctx.count("bodies_rebuilt")
                    p.__dict__.update({key: q.__dict__[key] for key in ("field", "mesh", "region", "solids", "volume", "kept")})
                p.kept = {}
                p.restore(u, pickle.loads(z))
                ctx.count("fault:crash_and_restart")
                for j in range(kk + 1, k):
                    yield from increment(p, j, "gh", f"{what}: again {j}")
                continue
            start = p.values().copy()
            if ev["e"] == "step":
                yield from increment(p, k, ev["order"], what)
                k += 1
                if (p.plan["seed"] + k) % 2:
                    p.saved = (k - 1, p.values().copy(), pickle.dumps(p.state()))
                continue
            it = p.steps(k)
            want = next(it)
            left = ev["after"]
            try:
                while True:
                    yield
                    if ev["e"] == "fault" and left == 0:
                        assemble(p, what, *want, fault=ev)
                        break
                    if ev["e"] == "reject" and left == 0:
                        break
                    if ev["e"] == "diverge" and left == 0:
                        yield from diverged(p, what, ev)
                        break
                    left -= 1
                    want = it.send(assemble(p, what, *want))
            except StopIteration:
                pass
            ctx.count("fault:increment_rejected")
            p.restore(start)

    def diverged(p, what, ev):
        """One more iteration of the solver with displacements beyond all bounds."""
        g = np.random.default_rng([p.plan["seed"], 79])
        v = p.values()
        if ev["size"] == "one":
            v[g.integers(len(v))] = np.nan  # of a single point only
        elif isinstance(ev["size"], str):
            v[...] = float(ev["size"])
        else:
            v[...] = v + ev["size"] * g.standard_normal(v.shape)
        for ch in ev["order"]:
            for j in range(len(p.solids)):
                assemble(p, what, "vector" if ch == "g" else "matrix", j, diverged=True)
                yield
        ctx.count("fault:diverged_iteration")

    def increment(p, k, order, what):
        it = p.steps(k, order)
        try:
            want = next(it)
            while True:
                yield
                want = it.send(assemble(p, what, *want))
        except StopIteration as e:
            its, f, K = e.value
        except ArithmeticError as e:
            ctx.violate("no-equilibrium", f"{what}: {e}; the undisturbed solution needs {p.ref[k][2]} iterations")
        p.accept()
        accepted(p, k, what, its, f, K)
        done["accepted"] += 1
        ctx.sim_time += p.plan["steps"][k]
        p.kept = {}
        for j in range(len(p.solids)):
            yield
            differences(p, what, j)
        p.kept = {}

    tasks = [run(p) for p in live]
    owner = dict(zip(map(id, tasks), live))
    events = sorted(map(tuple, plan["events"]))
    turn = 0
    switches, last = 0, None
    with np.errstate(all="ignore"):
        while tasks:
            while events and events[0][0] <= turn:
                e = events.pop(0)[1]
                graph = graph.deepcopy() if e == "copy" else world.Graph(spec)
                for p in live:
                    p.attach(graph.spaces)
                ctx.count("fault:objects_" + ("deep_copied" if e == "copy" else "replaced"))
                ctx.trace(e, turn)
            o = plan["order"]
            t = tasks[(o[turn % len(o)] + turn // len(o)) % len(tasks)] if o else tasks[0]
            if last is not None and last is not t:
                switches += 1
            last = t
            ctx.trace(owner[id(t)].n)
            try:
                next(t)
            except StopIteration:
                tasks.remove(t)
            turn += 1
    ctx.count("switches_between_problems", switches)
    ctx.count("accepted_increments", done["accepted"])
    ctx.nontrivial = done["accepted"] >= 2
    ctx.sim_steps = turn


def shrink(plan):
    yield from shrink_lists(plan, ["problems", "events", "order"])
    for i, p in enumerate(plan["problems"]):
        for j, ev in enumerate(p["script"]):
            if ev["e"] != "step":
                q = copy.deepcopy(plan)
                del q["problems"][i]["script"][j]
                yield q
        if len(p["steps"]) > 1:
            q = copy.deepcopy(plan)
            n = len(p["steps"]) - 1
            q["problems"][i]["steps"] = p["steps"][:n]
            q["problems"][i]["script"] = [e for e in p["script"] if e["k"] < n]
            yield q
        if len(p["spaces"]) > 1:
            q = copy.deepcopy(plan)
            q["problems"][i]["spaces"] = p["spaces"][:1]
            yield q
        if p["mesh"] != "cube2":
            q = copy.deepcopy(plan)
            q["problems"][i]["mesh"] = "cube2"
            yield q
