"""P08: optimizers do not influence each other or the data of the caller."""

import numpy as np

from ..core import shrink_decisions, shrink_lists
from ..labworld import LC, MODELS, Lab, data, gen_p0, gen_setup
from ..simclients import run_clients
from ..world import same

PRELOAD = ["scipy.optimize", "matplotlib.pyplot"]


def generate(rng, tier, torch):
    no = rng.choice([2, 2, 3, 4])
    base = gen_setup(rng)
    labs = []
    for k in range(no):
        s = gen_setup(rng)
        if rng.random() < 0.2:
            s["lost"] = 0.25
            s["mask"] = rng.choice(["none", "bool", "index", "bool"])
        if rng.random() < 0.7:
            s["kind"] = base["kind"]
        share = rng.random() < 0.5 and k > 0
        if share:
            # the same measured data, fitted twice (with another space or mask)
            for key in ("lcs", "npts", "lmax", "noise", "seed", "kind", "lost", "lmin", "down", "steps"):
                if key in base:
                    s[key] = base[key]
                else:
                    s.pop(key, None)
        labs.append({"setup": base if k == 0 else s, "share_data": share, "share_p0": rng.random() < 0.7, "share_cases": rng.random() < 0.5})
    ops = []
    for _ in range(rng.randint(3, 8)):
        r = rng.random()
        i = rng.randrange(no)
        method = rng.choice(["lm", "lm", "trf", None])
        if r < 0.4:
            ops.append({"op": "fit", "i": i, "method": method})
        elif r < 0.58:
            ops.append(
                {
                    "op": "nested",
                    "i": i,
                    "j": (i + 1 + rng.randrange(no - 1)) % no,
                    "method": method,
                    "at": rng.choice([1, 2, 3, 5, 8, 13]),
                    "what": rng.choice(["fit", "fit", "stress", "init"]),
                }
            )
        elif r < 0.72:
            ops.append({"op": "scribble", "r": rng.randrange(1000), "what": rng.choice(["p", "pcov"])})
        elif r < 0.76:
            ops.append({"op": "stress", "i": i})
        elif r < 0.81:
            ops.append({"op": "mask", "i": i, "k": rng.randrange(3), "cut": [rng.randrange(0, 3), rng.choice([None, -1, -2])]})
        elif r < 0.86:
            ops.append({"op": "new", "i": i})
        elif r < 0.9:
            ops.append({"op": "plot", "i": i})
        elif r < 0.94:
            # a variation of the fitted parameters in one of the simulations
            ops.append({"op": "vary", "i": i, "k": rng.randrange(3), "q": rng.randrange(5), "by": rng.choice([0.5, 1.5, 3.0])})
        else:
            ops.append(
                {
                    "op": "threads",
                    "i": i,
                    "j": (i + 1 + rng.randrange(no - 1)) % no,
                    "policy": {"seed": rng.randrange(10**9), "gap": rng.choice([20, 60, 200, 600])},
                }
            )
    p0 = {k: gen_p0(rng, k) for k in sorted(MODELS)}
    threads = [op for op in ops if op["op"] == "threads"]
    for op in threads[1:]:
        ops.remove(op)  # one simulated schedule per run
    return {"labs": labs, "ops": ops, "p0": p0, "ro": rng.random() < 0.4, "policy": threads[0]["policy"] if threads else {"seed": 0, "gap": 0}}


def fit_alone(setup, p0, method, arrays, cuts=()):
    lab = Lab(setup, np.array(p0), arrays=[(np.array(d), np.array(f)) for d, f in arrays])
    for k, cut in cuts:
        lab.opt.mask[k] = slice(*cut)
    kw = {} if method is None else {"method": method}
    p, pcov = lab.opt.curve_fit(**kw)
    return [np.array(p), np.array(pcov), np.array(lab.opt.residuals), np.array(lab.opt.errors)]


def execute(plan, ctx):
    import hyperelastic as hel

    p0s = {k: np.array(v, dtype=float) for k, v in plan["p0"].items()}
    cases = {lc: getattr(hel.lab, lc)() for lc in LC}
    arrays = []
    inputs = []

    def keep(a, what):
        if plan["ro"]:
            a.setflags(write=False)
        inputs.append((a, a.tobytes(), what))
        return a

    for k, v in p0s.items():
        keep(v, f"initial guess of {k}")
    first = None
    for n, l in enumerate(plan["labs"]):
        if l["share_data"] and first is not None:
            arrays.append(first)
            continue
        arr = []
        for j in range(len(l["setup"]["lcs"])):
            d, f = data(l["setup"], j)
            arr.append((keep(d, f"displacement {n}.{j}"), keep(f, f"force {n}.{j}")))
        first = first or arr
        arrays.append(arr)

    hooks = {}

    def make(n):
        l = plan["labs"][n]
        kind = l["setup"]["kind"]

        def hook(mat, calls):
            h = hooks.get(n)
            if h is not None:
                h(calls)

        p0 = p0s[kind] if l["share_p0"] else np.array(plan["p0"][kind])
        return Lab(l["setup"], p0, hook=hook, arrays=arrays[n], shared=cases if l["share_cases"] else None)

    labs = [make(n) for n in range(len(plan["labs"]))]
    expected = [dict(p=np.array(plan["p0"][l["setup"]["kind"]], dtype=float), res=None, fitted=False, varied={}) for l in plan["labs"]]
    cuts = [[] for _ in labs]  # masks which the caller has replaced afterwards
    kept = []  # [array, bytes, what]
    fits = 0

    def audit(what):
        for a, b, d in inputs:
            ctx.check(a.tobytes() == b, "caller-array-changed", lambda: f"{what}: the {d} was written to")
        for a, b, d in kept:
            ctx.check(a.tobytes() == b, "earlier-result-changed", lambda: f"{what}: the {d} changed")
        for n, (lab, e) in enumerate(zip(labs, expected)):
            d = same(np.array(lab.opt.parameters, dtype=float), e["p"], rtol=1e-7, atol=1e-2)
            ctx.check(d is None, "other-optimizer-changed", lambda: f"{what}: parameters of optimizer {n} are {lab.opt.parameters} instead of {e['p']}")
            if e["fitted"]:
                for j, s in enumerate(lab.simulations):
                    d = same(np.array([*s.parameters], dtype=float), e["varied"].get(j, e["p"]), rtol=1e-7, atol=1e-2)
                    ctx.check(d is None, "other-simulation-changed", lambda: f"{what}: parameters of simulation {n}.{j} are {s.parameters} instead of {e['p']}")
                d = same(lab.opt.residuals, e["res"], rtol=1e-6, atol=1e-2)
                ctx.check(d is None, "other-optimizer-changed", lambda: f"{what}: residuals of optimizer {n}: {d}")

    def alone(n, method):
        l = plan["labs"][n]
        out = ctx.ref.call("sim.props.p08", "fit_alone", l["setup"], expected[n]["p"], method, arrays[n], cuts[n])
        ctx.count("pristine_evaluations")
        return out

    def finish(n, got, want, what):
        """Compare one fit with the fit alone."""
        nonlocal fits
        if want[0] != "ok":
            ctx.check(got[0] != "ok", "fit-outcome-differs", lambda: f"{what}: succeeds, alone it fails: {want[1:3]}")
            if expected[n]["fitted"]:
                # the residuals of the last evaluation; only others must not change them
                expected[n]["res"] = np.array(labs[n].opt.residuals)
                # a fit starts with the same parameters in all simulations
                expected[n]["varied"] = {}
            return
        if got[0] != "ok":
            ctx.violate("fit-outcome-differs", f"{what}: {got[1]}; alone it succeeds")
        p, pcov = got[1]
        pw, cw, rw, ew = want[1]
        fits += 1
        ctx.check(same(np.array(p, dtype=float), pw, rtol=1e-7, atol=1e-2) is None, "fit-differs", lambda: f"{what}: {p} instead of {pw} alone")
        ctx.check(np.allclose(pcov, cw, rtol=1e-5, atol=1e-12, equal_nan=True), "covariance-differs", lambda: f"{what}: {pcov} instead of {cw} alone")
        expected[n].update(p=pw, res=rw, fitted=True, varied={})
        for a, d in ((p, "parameters"), (pcov, "covariance")):
            if isinstance(a, np.ndarray):
                kept.append((a, a.tobytes(), f"{d} returned by {what}"))
        ctx.count("fits_compared")

    def fit(n, method):
        kw = {} if method is None else {"method": method}
        try:
            return "ok", labs[n].opt.curve_fit(**kw)
        except Exception as e:
            return "err", f"{type(e).__name__}: {e}"

    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        ctx.count("op:" + k)
        what = f"op {n} {k}"
        if k == "fit":
            want = alone(op["i"], op["method"])
            got = fit(op["i"], op["method"])
            finish(op["i"], got, want, f"{what} of optimizer {op['i']} ({op['method']})")
            audit(what)
        elif k == "nested":
            i, j = op["i"], op["j"]
            wi, wj = alone(i, op["method"]), alone(j, op["method"]) if op["what"] == "fit" else None
            inner = []
            start = labs[i].material.calls

            def hook(calls):
                if calls - start == op["at"] and not inner:
                    if op["what"] == "fit":
                        inner.append(fit(j, op["method"]))
                    elif op["what"] == "init":
                        inner.append(labs[j].opt.norm_residuals() if expected[j]["fitted"] else 0)
                    else:
                        inner.append([s.stress() for s in labs[j].simulations])

            hooks[i] = hook
            got = fit(i, op["method"])
            hooks.pop(i)
            finish(i, got, wi, f"{what} of optimizer {i} ({op['method']})")
            if inner and op["what"] == "fit":
                ctx.count("fault:fit_within_fit")
                finish(j, inner[0], wj, f"{what}: fit of {j} within the fit of {i}")
            audit(what)
        elif k == "threads":
            i, j = op["i"], op["j"]
            wi, wj = alone(i, "trf"), alone(j, "trf")
            out = {}

            def client(m):
                def run():
                    out[m] = fit(m, "trf")

                return run

            sim, tasks = run_clients(plan, ctx, [client(i), client(j)], max_steps=3_000_000)
            for t in tasks:
                if t.error is not None:
                    raise t.error
            finish(i, out[i], wi, f"{what}: fit of {i} concurrent with {j}")
            finish(j, out[j], wj, f"{what}: fit of {j} concurrent with {i}")
            audit(what)
        elif k == "scribble":
            pool = [e for e in kept if op["what"] in e[2][:3].lower() or True]
            if pool:
                e = pool[op["r"] % len(pool)]
                pos = next(q for q, x in enumerate(kept) if x is e)
                if e[0].flags.writeable:
                    e[0][...] = -99.0
                    del kept[pos]
                    ctx.count("fault:result_overwritten")
                    audit(f"{what} (the caller overwrote the {e[2]})")
        elif k == "stress":
            i = op["i"]
            for s in labs[i].simulations:
                a = s.stress()
                kept.append((a, a.tobytes(), f"stress of a simulation of {i}"))
            audit(what)
        elif k == "vary":
            i = op["i"]
            if expected[i]["fitted"]:
                j = op["k"] % len(labs[i].simulations)
                s = labs[i].simulations[j]
                v = np.array([*s.parameters], dtype=float)
                q = op["q"] % len(v)
                v[q] *= op["by"]
                s.parameters[q] = v[q]
                expected[i]["varied"][j] = v
                ctx.count("fault:parameters_varied")
            audit(what)
        elif k == "mask":
            i = op["i"]
            j = op["k"] % len(labs[i].experiments)
            labs[i].opt.mask[j] = slice(*op["cut"])
            cuts[i].append((j, op["cut"]))
            audit(what)
        elif k == "new":
            i = op["i"]
            cuts[i] = []
            labs[i] = make(i)
            kind = plan["labs"][i]["setup"]["kind"]
            expected[i] = dict(p=np.array(plan["p0"][kind], dtype=float), res=None, fitted=False, varied={})
            audit(what)
        elif k == "plot":
            if expected[op["i"]]["fitted"]:
                import matplotlib.pyplot as plt

                with np.errstate(all="ignore"):
                    labs[op["i"]].opt.plot()
                plt.close("all")
                audit(what)
        ctx.trace(k, op.get("i"), op.get("j"), op.get("method"), op.get("what"), op.get("at"))
        ctx.log(n, k, fits)
    ctx.trace([(l["setup"]["kind"], l["share_data"], l["share_p0"]) for l in plan["labs"]])
    ctx.nontrivial = fits >= 1
    ctx.sim_steps += len(plan["ops"])


def shrink(plan):
    yield from shrink_decisions(plan)
    yield from shrink_lists(plan, ["ops"])
    if plan["ro"]:
        yield {**plan, "ro": False}
