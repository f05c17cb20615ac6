"""The simulated laboratory: experiments, simulations and optimizers from plans."""

import numpy as np

from . import umodels

LC = ["Uniaxial", "Planar", "Biaxial"]
MODELS = {
    # labels of the fitted parameters, true values, range of initial guesses
    "tod2": (["C10", "C01"], (0.4, 0.1), (0.1, 1.0)),
    "tod3": (["C10", "C20", "C30"], (0.5, 0.02, 0.005), (0.1, 1.0)),
    "tod1": (["C10"], (0.45,), (0.1, 2.0)),
    "poly": (["a", "b"], (0.5, 0.06), (0.2, 1.0)),
    # exponents are fitted, too: many more evaluations
    "ogden1": (["mu", "alpha"], (0.6, 1.7), (0.4, 2.5)),
    "ogden2": (["mu1", "mu2", "alpha1", "alpha2"], (0.5, 0.05, 1.6, 4.2), (0.4, 2.5)),
}


class MaterialFault(Exception):
    pass


class Materials:
    """Material factories for lab simulations; counts and may fail at the n-th call."""

    def __init__(self, kind, space="Distortional", hook=None):
        self.kind = kind
        self.space = space
        self.hook = hook
        self.calls = 0

    def __getstate__(self):
        return {**self.__dict__, "hook": None}  # the hook belongs to the simulator

    def __call__(self, **kw):
        import hyperelastic as hel

        self.calls += 1
        if self.hook is not None:
            self.hook(self, self.calls)
        if self.kind.startswith("ogden"):
            v = [kw[label] for label in MODELS[self.kind][0]]
            n = len(v) // 2
            model = hel.models.stretches.Ogden(v[:n], v[n:])
            return getattr(hel, self.space + "Space")(hel.StretchesFramework(model))
        if self.kind.startswith("tod"):
            model = hel.models.invariants.ThirdOrderDeformation(**kw)
        else:
            B = [[kw["b"], 0, 0], [0, 0, 0], [0, 0, 0]]
            model = umodels.UserPoly([kw["a"], 0, 0], B)
        return getattr(hel, self.space + "Space")(hel.InvariantsFramework(model))


def stretches(lc, x):
    x = np.asarray(x, dtype=float)
    if lc == "Uniaxial":
        return x, x**-0.5, x**-0.5
    if lc == "Planar":
        return x, np.ones_like(x), 1 / x
    return x, x, x**-2


def ref_stress(kind, lc, x, p):
    """Closed-form force per undeformed area of an incompressible load case."""
    l1, l2, l3 = stretches(lc, x)
    if kind.startswith("ogden"):
        n = len(p) // 2
        return sum(2 * m / a * (l1**a - l3**a) for m, a in zip(p[:n], p[n:])) / l1
    I1 = l1**2 + l2**2 + l3**2
    I2 = l1**-2 + l2**-2 + l3**-2
    if kind == "poly":
        W1, W2 = p[0] + p[1] * (I1 - 3), 0.0
    else:
        c = dict(zip(MODELS[kind][0], p))
        C10, C01, C20, C30 = (c.get(k, 0.0) for k in ("C10", "C01", "C20", "C30"))
        W1 = C10 + 2 * C20 * (I1 - 3) + 3 * C30 * (I1 - 3) ** 2
        W2 = C01
    del I2
    return 2 * (l1 - l3**2 / l1) * (W1 + l2**2 * W2)


def gen_setup(rng, exponents=0.0):
    """A plan of experiments and simulations of one optimizer."""
    kind = rng.choice([k for k in sorted(MODELS) if not k.startswith("ogden")])
    if rng.random() < exponents:
        kind = rng.choice(["ogden1", "ogden2"])
    n = rng.choice([1, 2, 2, 3])
    lcs = [rng.choice(LC) for _ in range(n)]
    if n == 3:
        lcs = list(LC)
    if kind == "tod2" and n == 1:
        lcs = ["Planar"] if rng.random() < 0.0 else [rng.choice(["Uniaxial", "Biaxial"])]
    return {
        "kind": kind,
        "space": rng.choice(["Distortional", "Deformation"]),
        "lcs": lcs,
        "npts": [rng.choice([8, 12, 20, 31]) for _ in lcs],
        "lmax": round(rng.uniform(1.6, 2.6), 3),
        # measured in tension only, or from compression on; also while unloading
        "lmin": rng.choice([1.0, 1.0, 1.0, 0.9, 0.75]),
        "down": rng.random() < 0.2,
        "noise": rng.choice([0.0, 0.005, 0.02]),
        "area": round(rng.uniform(0.5, 30), 3),
        "length": round(rng.uniform(0.5, 100), 3),
        "seed": rng.randrange(10**6),
        # resolution of the load cell
        "steps": rng.choice([0, 0, 0, 0, 25, 60]),
        "mask": rng.choice(["none", "none", "bool", "slice", "index"]),
        "order": [rng.randrange(1000) for _ in lcs],
        # labels and parameters as views of one dict, as in the documentation
        "views": rng.random() < 0.25,
        # all experiments have the same label
        "samelabel": rng.random() < 0.12,
    }


def gen_p0(rng, kind):
    lo, hi = MODELS[kind][2]
    return [round(rng.uniform(lo, hi), 3) for _ in MODELS[kind][0]]


def data(setup, k):
    """Displacements and forces of experiment k."""
    g = np.random.default_rng([setup["seed"], k])
    n = setup["npts"][k]
    lc = setup["lcs"][k]
    x = np.linspace(setup.get("lmin", 1.0), setup["lmax"] if lc == "Uniaxial" else 1 + (setup["lmax"] - 1) * 0.7, n)
    if setup.get("down"):
        x = x[::-1].copy()
    true = MODELS[setup["kind"]][1]
    s = ref_stress(setup["kind"], lc, x, true)
    s = s * (1 + setup["noise"] * g.standard_normal(n)) + setup["noise"] * 0.05 * g.standard_normal(n)
    if setup.get("steps"):
        q = np.abs(s).max() / setup["steps"]
        s = np.round(s / q) * q
    s = s * setup.get("unit", 1.0)
    if setup.get("lost"):
        s[g.random(n) < setup["lost"]] = np.nan  # readings which are missing
    return (x - 1) * setup["length"], s * setup["area"]


def mask_of(setup, k):
    n = setup["npts"][k]
    g = np.random.default_rng([setup["seed"], k, 5])
    if setup["mask"] == "none":
        return slice(None)
    if setup["mask"] == "slice":
        return slice(int(g.integers(0, 3)), None, int(g.integers(1, 3)))
    b = g.random(n) < 0.7
    if setup.get("lost") and setup["mask"] != "slice":
        b = np.isfinite(data(setup, k)[1])
        return b if setup["mask"] == "bool" else np.flatnonzero(b)
    b[: 4 if n > 4 else 1] = True
    return b if setup["mask"] == "bool" else np.flatnonzero(b)


class Lab:
    """Live experiments, simulations and one optimizer."""

    def __init__(self, setup, p0, hook=None, arrays=None, sim_params=None, shared=None):
        import hyperelastic as hel

        self.setup = setup
        kind = setup["kind"]
        self.material = Materials(kind, setup["space"], hook)
        self.labels = list(MODELS[kind][0])
        self.arrays = arrays or [data(setup, k) for k in range(len(setup["lcs"]))]
        self.experiments = []
        self.simulations = []
        for k, lc in enumerate(setup["lcs"]):
            d, f = self.arrays[k]
            e = hel.lab.Experiment(
                "E" if setup.get("samelabel") else f"E{k}-{lc}", d, f, area=setup["area"], length=setup["length"]
            )
            self.experiments.append(e)
            case = shared[lc] if shared else getattr(hel.lab, lc)(*setup.get("titles", [])[k : k + 1])
            kw = {} if sim_params is None else {"parameters": sim_params}
            labels = self.labels
            if setup.get("views"):
                self.table = dict(zip(labels, [1.0] * len(labels) if sim_params is None else sim_params))
                labels = self.table.keys()
                if sim_params is not None:
                    kw = {"parameters": self.table.values()}
            self.simulations.append(
                hel.lab.Simulation(case, e.stretch, labels, self.material, **kw)
            )
        masks = None
        if setup["mask"] != "none":
            masks = [mask_of(setup, k) for k in range(len(setup["lcs"]))]
        self.masks = masks
        self.p0 = p0
        self.opt = hel.lab.Optimize(self.experiments, self.simulations, p0, mask=masks)

    def use(self, k):
        return slice(None) if self.masks is None else self.masks[k]

    def ref_residuals(self, p):
        out = []
        for k, lc in enumerate(self.setup["lcs"]):
            d, f = self.arrays[k]
            x = 1 + np.asarray(d) / self.setup["length"]
            y = np.asarray(f) / self.setup["area"]
            m = self.use(k)
            out.append(ref_stress(self.setup["kind"], lc, x[m], p) - y[m])
        return np.concatenate(out)
