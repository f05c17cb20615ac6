"""P07: a parameter fit is consistent when it succeeds and atomic when it fails."""

import warnings

import numpy as np

from .. import umodels
from ..core import shrink_lists
from ..labworld import LC, MODELS, Lab, MaterialFault, data, gen_p0, gen_setup, ref_stress
from ..world import same

PRELOAD = ["scipy.optimize"]
EXC = {
    "MaterialFault": MaterialFault,
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "ValueError": ValueError,
    "RuntimeError": RuntimeError,
    "FloatingPointError": FloatingPointError,
    "LinAlgError": np.linalg.LinAlgError,
    "TypeError": TypeError,
    "ZeroDivisionError": ZeroDivisionError,
}


def generate(rng, tier, torch):
    setup = gen_setup(rng, exponents=0.25)
    kind = setup["kind"]
    p0 = gen_p0(rng, kind)
    ops = []
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        method = rng.choice(["lm", "lm", "trf", "dogbox", None])
        if r < 0.38:
            ops.append({"op": "fit", "method": method})
            if rng.random() < 0.3:
                # options of the optimizer
                ops[-1].update(method=rng.choice(["trf", "dogbox", None]), options=rng.choice(["wide", "active", "sigma", "sigma_args", "absolute"]), seed=rng.randrange(10**6))
        elif r < 0.62:
            ops.append(
                {
                    "op": "fit",
                    "method": method,
                    "fault": {
                        "k": rng.choice(["factory", "factory", "model"]),
                        "exc": rng.choice(sorted(EXC)),
                        "frac": rng.choice([0.0, 0.999, round(rng.random(), 4), round(rng.random(), 4)]),
                    },
                }
            )
        elif r < 0.72:
            ops.append({"op": "fit", "method": rng.choice(["lm", "trf"]), "fault": {"k": rng.choice(["maxfev", "nan_force", "nan_stretch", "method", "bounds"])}})
        elif r < 0.82:
            ops.append({"op": "data", "k": rng.randrange(3), "how": rng.choice(["scale", "replace", "assign"]), "seed": rng.randrange(10**6)})
        elif r < 0.9:
            ops.append({"op": "start", "how": rng.choice(["assign", "inplace"]), "p": gen_p0(rng, kind)})
        elif r < 0.95:
            ops.append({"op": "stress", "k": rng.randrange(3)})
        else:
            # now and then as many data points as parameters: no covariance
            ops.append({"op": "mask", "seed": rng.randrange(10**6), "few": rng.random() < 0.5})
            if rng.random() < 0.7:
                ops.append({"op": "fit", "method": method})
    return {"setup": setup, "p0": p0, "p0form": rng.choice(["array", "list", "tuple", "ints"]), "simp": rng.random() < 0.4, "ops": ops}


def options(op, lab, start):
    """(args, kwargs, weights or None, bounds or None) of a fit."""
    kw = {} if op["method"] is None else {"method": op["method"]}
    how = op.get("options")
    if how in ("wide", "active"):
        d = 1e3 if how == "wide" else 0.05 * np.abs(start) + 1e-3
        kw["bounds"] = (start - d, start + d)
        return (), kw, None, kw["bounds"]
    if how:
        g = np.random.default_rng([op["seed"], 15])
        sigma = g.uniform(0.2, 5.0, len(lab.ref_residuals(start)))
        if how == "sigma_args":
            return (sigma,), kw, sigma, None
        kw["sigma"] = sigma
        if how == "absolute":
            kw["absolute_sigma"] = True
        return (), kw, sigma, None
    return (), kw, None, None


def fit_alone(setup, p0, op, arrays, masks):
    """The same fit with fresh objects; also how often the material is created."""
    calls = [0, 0]
    lab = Lab(setup, np.array(p0), arrays=[(np.array(d), np.array(f)) for d, f in arrays])
    if masks is not None:
        lab.opt.mask = masks

    def probe(model, m, a):
        calls[1] += 1

    umodels.PROBE = probe
    if masks is not None:
        lab.masks = masks
    args, kw, _, _ = options(op, lab, np.array(p0))
    p, pcov = lab.opt.curve_fit(*args, **kw)
    return [np.array(p), np.array(pcov)], lab.material.calls, calls[1]


def solved(lab, start, args, kw, noise):
    """Does scipy solve the same problem with the closed-form stresses, well within its limits?"""
    from scipy.optimize import OptimizeWarning, curve_fit

    r0 = lab.ref_residuals(start)
    n = len(r0)
    if noise is None:
        # the same rounding errors: the stresses of newly created simulations
        new = Lab(lab.setup, start, arrays=lab.arrays)
        x = [e.stretch[lab.use(j)] for j, e in enumerate(new.experiments)]
        y = np.concatenate([e.stress()[lab.use(j)] for j, e in enumerate(new.experiments)])
    limit = {k: kw[k] // 8 for k in ("maxfev", "max_nfev") if k in kw}
    if not limit:
        lm = kw.get("method") == "lm" or ("method" not in kw and "bounds" not in kw)
        limit = {"maxfev": 25 * (len(start) + 1)} if lm else {"max_nfev": 12 * len(start)}

    def residuals(_, *p):
        if noise is None:
            return np.concatenate([s.stress_curve_fit(v, *p) for s, v in zip(new.simulations, x)])
        # with rounding errors, as any evaluation has
        return lab.ref_residuals(np.array(p)) + noise * np.abs(r0).max() * np.sin(1e9 * np.sum(p) + np.arange(n))

    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore", OptimizeWarning)
        try:
            curve_fit(residuals, np.arange(n), y if noise is None else np.zeros(n), start, *args, **{**kw, **limit})
        except (ValueError, RuntimeError, TypeError, np.linalg.LinAlgError):
            return False
    return True


def execute(plan, ctx):
    setup = plan["setup"]
    kind = setup["kind"]
    state = {"at": None, "exc": None, "fired": False}

    def hook(mat, n):
        if state["at"] is not None and n - state["base"] == state["at"]:
            state["fired"] = True
            raise state["exc"]

    p0 = plan["p0"]
    if plan["p0form"] == "ints":
        p0 = [1] * len(p0)
    given = {"array": np.array, "list": list, "tuple": tuple, "ints": list}[plan["p0form"]](p0)
    simp = list(MODELS[kind][1]) if plan["simp"] else None
    lab = Lab(setup, given, hook=hook, sim_params=simp)
    opt = lab.opt
    fits = failures = 0
    model_probe = kind == "poly"

    def params(o):
        return np.array([*o.parameters], dtype=float)

    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        ctx.count("op:" + k)
        what = f"op {n} {k}"
        if k == "fit":
            fault = op.get("fault")
            before = params(opt)
            sims_before = [params(s) for s in lab.simulations]
            cont = [(np.array(d), np.array(f)) for d, f in lab.arrays]
            args, kw, weights, bounds = options(op, lab, before)
            want = ctx.ref.call("sim.props.p07", "fit_alone", setup, before, op, cont, lab.masks)
            exc = None
            undo = None
            if fault:
                if fault["k"] in ("factory", "model"):
                    exc = EXC[fault["exc"]]("injected")
                    if want[0] == "ok":
                        _, nfac, nmod = want[1]
                    else:
                        nfac = nmod = 5
                    if fault["k"] == "model" and model_probe:
                        at = 1 + int(fault["frac"] * nmod)
                        seen = [0]

                        def probe(model, m, a):
                            seen[0] += 1
                            if seen[0] == at:
                                state["fired"] = True
                                raise exc

                        umodels.PROBE = probe
                    else:
                        state.update(at=1 + int(fault["frac"] * nfac), base=lab.material.calls, exc=exc)
                    state["fired"] = False
                elif fault["k"] == "maxfev":
                    kw = {"method": "lm", "maxfev": 1} if op["method"] == "lm" else {"method": "trf", "max_nfev": 1}
                elif fault["k"] == "nan_force":
                    f = lab.arrays[0][1]
                    undo = (f, f.copy())
                    f[:] = np.nan
                elif fault["k"] == "nan_stretch":
                    s = lab.experiments[0].stretch
                    undo = (s, s.copy())
                    s[:] = np.inf
                elif fault["k"] == "method":
                    kw = {"method": "unknown"}
                elif fault["k"] == "bounds":
                    kw = {"bounds": (np.full(len(before), 5.0), np.full(len(before), 4.0))}
            try:
                res = opt.curve_fit(*args, **kw)
                err = None
            except BaseException as e:
                res, err = None, e
            finally:
                umodels.PROBE = None
                state["at"] = None
                if undo is not None:
                    undo[0][:] = undo[1]
            what += f" {op['method']} {fault['k'] if fault else ''}{op.get('options') or ''}"
            if exc is not None and state["fired"]:
                ctx.count(f"fault:{fault['k']}_{fault['exc']}")
                ctx.check(err is not None, "failure-swallowed", lambda: f"{what}: {fault['exc']} of the material did not reach the caller")
                ctx.check(type(err) is type(exc), "failure-replaced", lambda: f"{what}: {fault['exc']} of the material became {type(err).__name__}: {err}")
            elif fault and exc is None and err is not None:
                ctx.count("fault:" + fault["k"])
            if fault and fault["k"] in ("nan_force", "nan_stretch", "method", "bounds"):
                ctx.check(err is not None, "failure-swallowed", lambda: f"{what}: no exception")
            if fault is None:
                ctx.check((err is None) == (want[0] == "ok"), "fit-outcome-differs", lambda: f"{what}: {type(err).__name__ if err else 'success'}: {err}; alone: {want[:3]}")
                if err is not None:
                    easy = all(solved(lab, before * (1 + d), args, kw, e) for d, e in ((0, None), (0, 0), (0, 1e-13), (1e-6, 0), (-1e-6, 1e-13)))
                    ctx.check(not easy, "fit-fails", lambda: f"{what}: {type(err).__name__}: {err}; scipy solves the same problem with the closed-form stresses")
            if err is not None:
                failures += 1
                after = params(opt)
                ctx.check(np.array_equal(after, before), "parameters-changed-by-failed-fit", lambda: f"{what}: {after} instead of {before} ({type(err).__name__})")
                for j, s in enumerate(lab.simulations):
                    q = params(s)
                    ctx.check(
                        np.array_equal(q, after) or np.array_equal(q, sims_before[j]),
                        "simulation-inconsistent-after-failure",
                        lambda: f"{what}: simulation {j} has {q}, the optimizer {after} ({type(err).__name__})",
                    )
                groups = {tuple(params(s)) for s in lab.simulations}
                if len({tuple(q) for q in sims_before}) == 1:
                    ctx.check(len(groups) == 1, "simulation-inconsistent-after-failure", lambda: f"{what}: simulations differ: {groups}")
            else:
                fits += 1
                ctx.count("fits_compared")
                p, pcov = res
                p = np.array(p, dtype=float)
                ctx.check(np.array_equal(p, params(opt)), "parameters-inconsistent", lambda: f"{what}: returned {p}, optimizer has {opt.parameters}")
                for j, s in enumerate(lab.simulations):
                    ctx.check(np.array_equal(params(s), p), "simulation-inconsistent", lambda: f"{what}: simulation {j} has {s.parameters} instead of {p}")
                ref = lab.ref_residuals(p)
                d = same(opt.residuals, ref, rtol=1e-7, atol=1e-4)
                ctx.check(d is None, "residuals-wrong", lambda: f"{what}: residuals of the closed-form model at {p}: {d}")
                with np.errstate(all="ignore"):
                    sd = np.sqrt(np.diag(pcov))
                    ctx.count("no_covariance", int(np.isinf(sd).any()))
                    ctx.check(np.allclose(opt.errors, sd, rtol=1e-12, atol=0, equal_nan=True), "errors-wrong", lambda: f"{what}: {opt.errors} instead of {sd}")
                    ctx.check(
                        np.allclose(opt.norm_residuals(), np.linalg.norm(ref), rtol=1e-6, atol=1e-9),
                        "norm-wrong",
                        lambda: f"{what}: {opt.norm_residuals()} instead of {np.linalg.norm(ref)}",
                    )
                    rel = np.mean(sd / np.abs(p)) * 100
                    ctx.check(np.allclose(opt.mean_relative_std(), rel, rtol=1e-9, equal_nan=True), "mean-std-wrong", lambda: f"{what}: {opt.mean_relative_std()} instead of {rel}")
                w = 1.0 if weights is None else 1 / weights
                if bounds is not None:
                    ctx.check(np.all((p >= bounds[0]) & (p <= bounds[1])), "not-a-solution", lambda: f"{what}: {p} is not within {bounds}")
                if op.get("options"):
                    ctx.count("options:" + op["options"])
                # (derivatives by the exponents are inaccurate for exponents near zero)
                exponents = np.abs(p[len(p) // 2 :]) if kind.startswith("ogden") else np.ones(1)
                if fault is None and op.get("options") != "active" and exponents.min() > 0.1:
                    # a least-squares solution: the residuals are normal to their derivatives
                    J = np.array([(lab.ref_residuals(p + d) - lab.ref_residuals(p - d)) * w / (2 * d.sum()) for d in np.diag(1e-5 * np.maximum(np.abs(p), 1e-2))])
                    Jn = np.linalg.norm(J, axis=1)
                    rn = np.linalg.norm(w * ref)
                    y = np.linalg.norm(w * np.concatenate([f[lab.use(j)] for j, (_, f) in enumerate(lab.arrays)])) / setup["area"]
                    if rn > 1e-5 * y and Jn.min() > 1e-4 * Jn.max():
                        cos = np.abs(J @ (w * ref)) / (Jn * rn)
                        ctx.check(cos.max() < 2e-2, "not-a-solution", lambda: f"{what}: residuals at {p} are not normal to their derivatives: {cos}")
                        ctx.count("solutions_checked")
                start = np.linalg.norm(w * lab.ref_residuals(before))
                ctx.check(np.linalg.norm(w * ref) <= start * (1 + 1e-7) + 1e-9, "fit-worse-than-start", lambda: f"{what}: norm {np.linalg.norm(ref)}, initially {start}")
                if fault is None:
                    (pw, cw), _, _ = want[1]
                    ctx.check(
                        np.allclose(p, pw, rtol=1e-7, atol=1e-9),
                        "fit-depends-on-history",
                        lambda: f"{what}: {p} instead of {pw} (the same fit with new objects)",
                    )
                    ctx.check(np.allclose(pcov, cw, rtol=1e-5, atol=1e-12, equal_nan=True), "covariance-depends-on-history", lambda: f"{what}: {pcov} instead of {cw}")
            ctx.log(n, k, op["method"], err is None)
            ctx.trace(k, op["method"], fault and (fault["k"], fault.get("exc"), fault.get("frac")), type(err).__name__)
        elif k == "data":
            j = op["k"] % len(setup["lcs"])
            d, f = lab.arrays[j]
            g = np.random.default_rng([op["seed"], 2])
            if op["how"] == "scale":
                f *= 1.25
            elif op["how"] == "replace":
                f[:] = data({**setup, "seed": op["seed"], "noise": 0.03}, j)[1]
            else:
                f = f * float(g.uniform(0.7, 1.4))
                lab.experiments[j].force = f
                lab.arrays[j] = (d, f)
            ctx.trace(k, j, op["how"])
        elif k == "start":
            if op["how"] == "assign":
                opt.parameters = np.array(op["p"])
            else:
                opt.parameters[:] = op["p"]
            ctx.trace(k, op["how"])
        elif k == "stress":
            j = op["k"] % len(setup["lcs"])
            s = lab.simulations[j]
            x = lab.experiments[j].stretch
            d = same(s.stress(), ref_stress(kind, setup["lcs"][j], x, params(s)), rtol=1e-8, atol=1e-4)
            ctx.check(d is None, "simulated-stress-wrong", lambda: f"{what}: simulation {j} at {params(s)}: {d}")
            y = np.asarray(lab.arrays[j][1]) / setup["area"]
            ctx.check(same(lab.experiments[j].stress(), y) is None, "measured-stress-wrong", what)
            ctx.trace(k, j)
        elif k == "mask":
            g = np.random.default_rng([op["seed"], 8])
            masks = []
            few = op.get("few") and len(setup["lcs"]) <= len(lab.labels)
            for j, m in enumerate(setup["npts"]):
                if few:
                    b = np.zeros(m, dtype=bool)
                    points = 1 if j else len(lab.labels) - len(setup["lcs"]) + 1
                    b[1 + g.permutation(m - 2)[:points]] = True
                else:
                    b = g.random(m) < 0.75
                    b[:5] = True
                masks.append(b)
            ctx.count("few_points", int(bool(few)))
            lab.masks = masks
            opt.mask = masks
            ctx.trace(k)
    ctx.trace(kind, setup["lcs"], setup["npts"], setup["mask"], plan["p0form"])
    ctx.nontrivial = fits + failures > 0
    ctx.count("failed_fits", failures)
    ctx.sim_steps = len(plan["ops"])


def shrink(plan):
    yield from shrink_lists(plan, ["ops"])
    s = plan["setup"]
    if len(s["lcs"]) > 1:
        q = dict(plan)
        q["setup"] = {**s, "lcs": s["lcs"][:1], "npts": s["npts"][:1], "order": s["order"][:1]}
        yield q
    if s["mask"] != "none":
        yield {**plan, "setup": {**s, "mask": "none"}}


__all__ = ["LC"]
