"""The simulated world: material specifications, object graphs, deformation histories."""

import copy

import numpy as np

# -- deformation data -----------------------------------------------------------------
SHAPES = [[], [1], [3], [2, 1], [1, 4], [2, 3], [4, 2], [5], [8, 6], [3, 2, 2]]
# meshes have many points: an implementation may switch to another path for large batches
BIG = [[600], [1500], [4, 700], [27, 100], [9000]]


def any_shape(rng, big=0.02):
    return rng.choice(BIG) if rng.random() < big else rng.choice(SHAPES)


def any_kind(rng, kinds):
    """A kind of deformation, now and then with special points in one batch."""
    r = rng.random()
    return "mix" if r < 0.1 else "alike" if r < 0.15 else rng.choice(kinds)


def rotations(g, n):
    q = g.standard_normal((n, 4))
    q /= np.linalg.norm(q, axis=1)[:, None]
    w, x, y, z = q.T
    return np.array(
        [
            [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
        ]
    )


def gen_F(seed, shape, kind="gen", dtype="float64"):
    """A field of admissible deformation gradients, shape (3, 3, *shape)."""
    g = np.random.default_rng([seed, 77])
    n = int(np.prod(shape)) if len(shape) else 1
    eye = np.eye(3)[:, :, None]
    if kind == "id":
        F = np.repeat(eye, n, axis=2)
    elif kind == "mix":
        # undeformed, rotated, uniaxial and other special points side by side
        F = np.empty((3, 3, n))
        pick = g.integers(0, 6, n)
        for j, special in enumerate(["id", "uni", "iso", "eq", "gen"]):
            F[..., pick == j] = gen_F(seed + 1 + j, [n], special)[..., pick == j]
        F[..., pick == 5] = rotations(g, n)[..., pick == 5]
    elif kind == "alike":
        # (nearly) the same deformation at most of the points
        F = np.repeat(gen_F(seed + 9, [1], "gen"), n, axis=2)
        some = g.random(n) < 0.4
        some[[0, n // 2, -1]] = False
        F = F + some * 10.0 ** g.uniform(-7, g.choice([-6, -4.5, -3]), n) * g.standard_normal((3, 3, n))
    else:
        if kind == "uni":
            s = g.uniform(0.7, 1.8, n)
            lam = np.array([s, s**-0.5, s**-0.5])
        elif kind == "iso":
            lam = np.repeat(g.uniform(0.8, 1.2, n)[None], 3, axis=0)
        elif kind == "eq":
            a, b = g.uniform(0.7, 1.5, (2, n))
            lam = np.array([a, a, b])
        elif kind == "big":
            lam = g.uniform(0.35, 2.6, (3, n))
        elif kind == "mild":
            lam = g.uniform(0.93, 1.08, (3, n))
        else:
            lam = g.uniform(0.65, 1.6, (3, n))
        D = np.zeros((3, 3, n))
        D[[0, 1, 2], [0, 1, 2]] = lam
        if kind == "uni":
            F = D
        else:
            R, Q = rotations(g, n), rotations(g, n)
            F = np.einsum("ijn,jkn,lkn->iln", R, D, Q)
    return np.ascontiguousarray(F.reshape(3, 3, *shape)).astype(dtype)


def with_layout(A, layout):
    """The same values in another memory layout."""
    if layout == "F":
        return np.array(A, order="F")
    if layout == "strided":
        big = np.full((*A.shape[:2], *[2 * s for s in A.shape[2:]]), np.nan, A.dtype)
        idx = (slice(None),) * 2 + (slice(None, None, 2),) * (A.ndim - 2)
        big[idx] = A
        return big[idx]
    if layout == "tail":
        # batch axes first in memory, as a solver may store it
        B = np.array(np.moveaxis(A, (0, 1), (-2, -1)), order="C")
        return np.moveaxis(B, (-2, -1), (0, 1))
    if layout == "ro":
        B = A.copy()
        B.setflags(write=False)
        return B
    return A.copy()


LAYOUTS = ["C", "C", "C", "F", "strided", "tail", "ro"]


def cauchy_green(F):
    """Right Cauchy-Green deformation tensor in the documented vector storage."""
    C = np.einsum("kI...,kJ...->IJ...", F, F)
    return np.ascontiguousarray(C[[0, 1, 2, 0, 1, 0], [0, 1, 2, 1, 2, 2]])


def invariants(F):
    C = np.einsum("kI...,kJ...->IJ...", F, F)
    I1 = C[0, 0] + C[1, 1] + C[2, 2]
    I2 = (I1**2 - np.einsum("ij...,ij...->...", C, C)) / 2
    J = (
        F[0, 0] * (F[1, 1] * F[2, 2] - F[1, 2] * F[2, 1])
        - F[0, 1] * (F[1, 0] * F[2, 2] - F[1, 2] * F[2, 0])
        + F[0, 2] * (F[1, 0] * F[2, 1] - F[1, 1] * F[2, 0])
    )
    return I1, I2, J * J


def stretches(F):
    C = np.einsum("kI...,kJ...->IJ...", F, F)
    w = np.linalg.eigvalsh(np.moveaxis(C, (0, 1), (-2, -1)))
    return np.ascontiguousarray(np.sqrt(np.moveaxis(w, -1, 0)))


def gen_sv(seed, n, shape, hi=0.6):
    g = np.random.default_rng([seed, 5])
    return g.uniform(0, hi, (n, *shape))


# -- specifications ---------------------------------------------------------------------
def _r(rng, a, b, nd=3):
    return round(rng.uniform(a, b), nd)


def gen_model(rng, family, torch=False, stateful=None):
    """A random model specification of a family ('inv' or 'str')."""
    if family == "inv":
        kinds = ["tod", "tod", "poly"]
        if stateful is not False:
            kinds.append("damage")
        if stateful:
            kinds = ["damage"]
        if torch:
            kinds = ["torch"]
        k = rng.choice(kinds)
        if k == "tod":
            p = {"C10": _r(rng, 0.2, 1.0)}
            for c, a, b in [
                ("C01", 0.05, 0.3),
                ("C11", -0.01, 0.05),
                ("C20", -0.05, 0.08),
                ("C30", 0.005, 0.03),
            ]:
                if rng.random() < 0.5:
                    p[c] = _r(rng, a, b, 4)
            if len(p) > 1 and rng.random() < 0.15:
                del p["C10"]
            m = {"k": "tod", "p": p}
            if rng.random() < 0.1:
                m["strain"] = True
            if rng.random() < 0.15:
                m["arr"] = True  # the parameters are arrays of the caller
            return m
        if k == "poly":
            a = [_r(rng, 0.2, 0.8), rng.choice([0, _r(rng, 0.05, 0.3)]), rng.choice([0, _r(rng, -0.3, 0.3)])]
            B = [[0.0] * 3 for _ in range(3)]
            for i in range(3):
                for j in range(i, 3):
                    if rng.random() < 0.5:
                        v = _r(rng, 0.02, 0.2) if i == j else _r(rng, -0.05, 0.05)
                        B[i][j] = B[j][i] = v
            return {"k": "poly", "a": a, "B": B}
        if k == "damage":
            return {
                "k": "damage",
                "C10": _r(rng, 0.3, 1.0),
                "C01": rng.choice([0, _r(rng, 0.05, 0.3)]),
                "C20": rng.choice([0, _r(rng, 0.01, 0.1)]),
                "C3": rng.choice([0, 0, _r(rng, 0.1, 0.5)]),
                "a": _r(rng, 0.2, 0.6),
                "b": _r(rng, 0.2, 1.0),
                "nstate": rng.choice([1, 1, 2]),
            }
        fn = rng.choice(["yeoh", "mr", "nh", "exp"])
        p = {
            "yeoh": lambda: {"C10": 0.5, "C20": _r(rng, -0.05, 0.05), "C30": 0.02},
            "mr": lambda: {"C10": _r(rng, 0.3, 0.7), "C01": 0.2, "C11": 0.03},
            "nh": lambda: {"mu": _r(rng, 0.5, 1.5), "lmbda": _r(rng, 1, 3)},
            "exp": lambda: {"mu": _r(rng, 0.5, 1.5), "b": _r(rng, 0.05, 0.2)},
        }[fn]()
        return {"k": "torch", "fn": fn, "p": p}
    kinds = ["ogden", "ogden", "ustr", "gim"]
    if stateful:
        kinds = ["ustr"]
    k = rng.choice(kinds)
    if k == "gim":
        # the generalized-invariants model, used directly in a stretch-based framework
        m = {"k": "gim", "inner": gen_model(rng, "inv", stateful=False), "fun": rng.choice(["deformation", "strain"])}
        m["exponent"] = rng.choice([0.8, 1.0, 1.5, 2.0, 2.3] if m["fun"] == "deformation" else [1.0, 1.5, 2.0])
        return m
    if k == "ogden":
        n = rng.choice([1, 1, 2, 3])
        return {
            "k": "ogden",
            "mu": [_r(rng, 0.2, 1.0) for _ in range(n)],
            "alpha": [rng.choice([1.7, 2.0, 3.1, -1.4, 1.0, 4.2, -2.0]) for _ in range(n)],
            **({"arr": True} if rng.random() < 0.25 else {}),
        }
    return {
        "k": "ustr",
        "mu": _r(rng, 0.3, 1.0),
        "kk": rng.choice([1.5, 2.0, 2.6]),
        "a": _r(rng, 0.2, 0.5) if stateful or (stateful is None and rng.random() < 0.4) else 0.0,
        "b": _r(rng, 0.3, 1.0),
        "arrays": rng.random() < 0.5,
        "cross": rng.choice([0.0, 0.0, 0.1]),
    }


def nstate_of(m):
    if m["k"] == "damage":
        return m["nstate"]
    if m["k"] == "ustr" and m["a"]:
        return 1
    return 0


def gen_graph(rng, nmodels=2, nspaces=3, torch=False, stateful=None, parallel=False, plain=False):
    """A random object graph: spaces may share frameworks, frameworks may share models."""
    g = {"models": [], "frameworks": [], "spaces": []}
    for _ in range(nmodels):
        fam = "inv" if torch else rng.choice(["inv", "inv", "str", "gen"])
        m = gen_model(rng, "str" if fam == "str" else "inv", torch, stateful)
        mi = len(g["models"])
        g["models"].append(m)
        for _ in range(rng.choice([1, 1, 2])):
            kind = fam
            if fam == "inv" and not torch and rng.random() < 0.25:
                kind = "gen"  # an invariants model also serves a generalized framework
            f = {"k": kind, "m": mi, "parallel": bool(parallel and rng.random() < 0.3)}
            if kind == "gen":
                f["fun"] = rng.choice(["deformation", "strain"])
                f["exponent"] = rng.choice([0.8, 1.0, 1.5, 2.0, 2.3])
                if f["fun"] == "strain":
                    f["exponent"] = rng.choice([1.0, 1.5, 2.0])
            g["frameworks"].append(f)
    for _ in range(nspaces):
        s = {
            "k": rng.choice(["Deformation", "Distortional", "Distortional", "Dilatational"]),
            "f": rng.randrange(len(g["frameworks"])),
            "parallel": bool(parallel),
            "finalize": True,
            "force": None,
            "area": 0,
        }
        if not plain and rng.random() < 0.4:
            s["force"] = rng.choice([None, 0])
            s["area"] = rng.choice([None, 0])
        if not plain and rng.random() < 0.12:
            s["finalize"] = False
        g["spaces"].append(s)
    return g


GIVEN = []  # parameter arrays which were given to models (audited by P03)


def given(v):
    a = np.array(v, dtype=float)
    GIVEN.append((a, a.copy()))
    return a


def build_model(m):
    import hyperelastic as hel

    from . import umodels

    k = m["k"]
    if m.get("form"):
        form = m["form"]
        if k in ("damage", "ustr"):
            inner = build_model({a: b for a, b in m.items() if a != "form"})
            return umodels.Protocol(inner, form, m.get("frozen"))
    give = given if m.get("arr") else lambda v: v
    if k == "tod":
        return hel.models.invariants.ThirdOrderDeformation(
            **{key: give(v) for key, v in m["p"].items()},
            **({"strain": True} if m.get("strain") else {}),
        )
    if k == "ogden":
        return hel.models.stretches.Ogden(mu=give(list(m["mu"])), alpha=give(list(m["alpha"])))
    if k == "gim":
        fun = getattr(hel.models.generalized, m["fun"])
        model = hel.models.stretches.GeneralizedInvariantsModel(build_model(m["inner"]), fun, exponent=m["exponent"])
        if "exponent_now" in m:
            model.kwargs["exponent"] = m["exponent_now"]  # changed afterwards
        return model
    if k == "poly":
        return umodels.UserPoly(m["a"], m["B"])
    if k == "damage":
        return umodels.UserDamage(
            m["C10"], m["C01"], m["C20"], m["C3"], m["a"], m["b"], nstate=m["nstate"]
        )
    if k == "ustr":
        return umodels.UserStretch(m["mu"], m["kk"], m["a"], m["b"], m["arrays"], m["cross"])
    if k == "own":
        return umodels.OwnInvariants(m["a"], m["passin"], m["form"], m.get("fresh", False))
    if k == "ownstr":
        return umodels.OwnStretches(m["a"], m["passin"], m["form"], m.get("fresh", False))
    if k == "torch":
        return hel.models.invariants.TorchModel(umodels.TORCH[m["fn"]], **m["p"])
    raise ValueError(k)


def build_framework(f, models, specs):
    import hyperelastic as hel

    n = nstate_of(specs[f["m"]])
    # models without state variables need no argument
    kw = {"nstatevars": n} if n or f.get("parallel") else {}
    if f.get("parallel"):
        kw["parallel"] = True
    model = models[f["m"]]
    if f["k"] == "inv":
        return hel.InvariantsFramework(model, **kw)
    if f["k"] == "str":
        return hel.StretchesFramework(model, **kw)
    fun = getattr(hel.models.generalized, f["fun"])
    return hel.GeneralizedInvariantsFramework(model, fun, exponent=f["exponent"], **kw)


def build_space(s, frameworks):
    import hyperelastic as hel

    cls = getattr(hel, s["k"] + "Space")
    if (s["parallel"], s["finalize"], s["force"], s["area"]) == (False, True, None, 0):
        # the first Piola-Kirchhoff stress is the default
        return cls(frameworks[s["f"]])
    return cls(
        frameworks[s["f"]],
        parallel=s["parallel"],
        finalize=s["finalize"],
        force=s["force"],
        area=s["area"],
    )


class Graph:
    """Live objects of a graph specification."""

    def __init__(self, spec):
        self.spec = spec
        self.models = [build_model(m) for m in spec["models"]]
        self.frameworks = [build_framework(f, self.models, spec["models"]) for f in spec["frameworks"]]
        self.spaces = [build_space(s, self.frameworks) for s in spec["spaces"]]

    def get(self, level, i):
        return {"space": self.spaces, "framework": self.frameworks, "model": self.models}[level][i]

    def rebuild_space(self, i):
        self.spaces[i] = build_space(self.spec["spaces"][i], self.frameworks)

    def deepcopy(self):
        new = copy.copy(self)
        new.models, new.frameworks, new.spaces = copy.deepcopy(
            (self.models, self.frameworks, self.spaces)
        )
        return new


def model_of(spec, level, i):
    if level == "model":
        return i
    f = i if level == "framework" else spec["spaces"][i]["f"]
    return spec["frameworks"][f]["m"]


def is_stretch_model(spec, mi):
    return spec["models"][mi]["k"] in ("ogden", "ustr", "ownstr", "gim")


def args_for(spec, level, i, F, sv):
    """The arguments of a call at a level for a deformation gradient."""
    if level == "space":
        return ([F, sv],)
    if level == "framework":
        return (cauchy_green(F), sv)
    if is_stretch_model(spec, i):
        return (stretches(F), sv)
    return (*invariants(F), sv)


def flat(x):
    """Results as a flat list of arrays and Nones."""
    if x is None:
        return [None]
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out.extend(flat(y))
        return out
    return [np.asarray(x)]


def only(spec, level, i):
    """The sub-graph which a call at (level, i) needs, and the new index."""
    if level == "model":
        return {"models": [spec["models"][i]], "frameworks": [], "spaces": []}, 0
    if level == "framework":
        f = dict(spec["frameworks"][i])
        m = spec["models"][f["m"]]
        f["m"] = 0
        return {"models": [m], "frameworks": [f], "spaces": []}, 0
    s = dict(spec["spaces"][i])
    g, _ = only(spec, "framework", s["f"])
    s["f"] = 0
    g["spaces"] = [s]
    return g, 0


def pscale(spec):
    """Magnitude of the material parameters (for absolute tolerances)."""
    tot = 0.0
    for m in spec["models"]:
        if m["k"] in ("tod", "torch"):
            tot += sum(abs(v) for v in m["p"].values())
        elif m["k"] == "ogden":
            tot += sum(abs(v) for v in m["mu"])
        elif m["k"] == "ustr":
            tot += abs(m["mu"])
        elif m["k"] in ("poly", "own", "ownstr"):
            tot += sum(abs(v) for v in m["a"])
        elif m["k"] == "damage":
            tot += abs(m["C10"])
        elif m["k"] == "gim":
            tot += pscale({"models": [m["inner"]]})
    return tot or 1.0


def same(a, b, rtol=1e-9, atol=0.0):
    """None or a description of how two results differ."""
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return f"{len(a)} results instead of {len(b)}"
    for k, (x, y) in enumerate(zip(a, b)):
        if (x is None) != (y is None):
            return f"result {k}: {'None' if x is None else 'array'} instead of {'None' if y is None else 'array'}"
        if x is None:
            continue
        if x.shape != y.shape:
            return f"result {k}: shape {x.shape} instead of {y.shape}"
        if x.dtype == object or y.dtype == object:
            if x.dtype != y.dtype or not all(
                p is q or p == q for p, q in zip(x.ravel(), y.ravel())
            ):
                return f"result {k}: other objects"
            continue
        if x.size == 0:
            continue
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not np.array_equal(fx, fy):
            return f"result {k}: non-finite entries differ"
        if not fy.any():
            continue
        big = np.abs(y[fy]).max()
        err = np.abs(x[fy].astype(float) - y[fy]).max()
        tol = rtol if min(x.dtype.itemsize, y.dtype.itemsize) > 4 else max(rtol, 2e-5)
        if err > tol * big + (tol * atol):
            return f"result {k}: differs by {err:.3e} at magnitude {big:.3e}"
    return None
