"""P11: integration points do not influence each other."""

import numpy as np

from .. import world
from ..core import chunks_removed, shrink_lists
from ..refcalls import resolve
from ..world import flat
from .p01 import METHODS, fn_call

KINDS = ["gen", "gen", "gen", "mild", "big", "uni", "iso", "eq", "id", "near", "rot", "diag", "sing2"]
HOWS = ["nan", "nan1", "inf", "ninf", "zero", "rank2", "rank1", "huge", "tiny", "flip", "nanstate", "infstate"]
FUNCS = [
    "math.asvoigt2", "math.astensor2", "math.asvoigt4", "math.astensor4", "math.det", "math.inv",
    "math.invd", "math.dot", "math.ddot22", "math.ddot42", "math.ddot24", "math.ddot44", "math.dya",
    "math.cdya", "math.cdya1", "math.cdya_ik", "math.cdya_il", "math.trace", "math.transpose",
    "math.dev", "math.eigh", "math.eighs", "math.tril", "math.triu",
]  # fmt: skip


def generate(rng, tier, torch):
    g = world.gen_graph(rng, nmodels=rng.choice([1, 1, 2]), nspaces=rng.choice([1, 2]), torch=torch, stateful=None if rng.random() < 0.7 or torch else True)
    r = rng.random()
    n = rng.choice([2, 3, 4, 5, 6, 8, 9, 12, 16, 24])
    if r < 0.05 and not torch:
        n = rng.choice([257, 1024, 1500, 2100])
    if rng.random() < 0.3:
        kinds = [rng.choice(KINDS)] * n if n < 50 else ["gen"]
    else:
        base = [rng.choice(KINDS) for _ in range(rng.choice([1, 2, 3, 5]))]
        kinds = [rng.choice(base) for _ in range(min(n, 48))]
    if rng.random() < 0.12:
        kinds = ["alike"]
    ops = []
    for _ in range(rng.randint(3, 6) if n < 50 else 2):
        level = rng.choice(["space"] * 8 + ["framework", "model"])
        i = rng.randrange(len(g[level + "s"]))
        op = {
            "op": "batch",
            "level": level,
            "i": i,
            "m": rng.choice(METHODS),
            "perm": rng.choice([0, 0, rng.randrange(1, 10**6)]),
            "cuts": sorted(round(rng.random(), 3) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]))),
            "shape": rng.randrange(10**6),
            "layout": rng.choice(["C", "C", "F", "strided", "tail"]),
        }
        if rng.random() < 0.12:
            op.update(op="fn", name=rng.choice(FUNCS), seed=rng.randrange(10**6))
        if rng.random() < 0.5:
            k = rng.choice([1, 1, 2, 3])
            if rng.random() < 0.06:
                k = n  # nothing regular is left
            op["corrupt"] = [[round(rng.random(), 4), rng.choice(HOWS)] for _ in range(k)]
            op["strict"] = rng.random() < 0.15
        ops.append(op)
        if "corrupt" in op and rng.random() < 0.6:
            # the next batch on the same objects is regular again
            ops.append({k: v for k, v in op.items() if k not in ("corrupt", "strict")})
    return {"graph": g, "n": n, "seed0": rng.randrange(10**6), "kinds": kinds, "ops": ops}


def gen_points(plan):
    """The deformation gradients (3, 3, n) and magnitudes for tolerances."""
    n, kinds = plan["n"], plan["kinds"]
    F = np.empty((3, 3, n))
    g = np.random.default_rng([plan["seed0"], 41])
    for kind in sorted(set(kinds)):
        idx = [k for k in range(n) if kinds[k % len(kinds)] == kind]
        m = len(idx)
        seed = plan["seed0"] + len(kind)
        if kind == "near":
            A = np.eye(3)[:, :, None] + g.standard_normal((3, 3, m)) * 10.0 ** g.uniform(-9, -4, m)
        elif kind == "rot":
            A = world.rotations(g, m)
        elif kind == "diag":
            A = np.zeros((3, 3, m))
            A[[0, 1, 2], [0, 1, 2]] = g.choice([0.8, 1.0, 1.25, 1.5], size=(3, m))
        elif kind == "sing2":
            # two (nearly) equal stretches, arbitrary axes
            s, t = g.uniform(0.7, 1.5, (2, m))
            d = s * (1 + 10.0 ** g.uniform(-12, -3, m))
            D = np.zeros((3, 3, m))
            D[[0, 1, 2], [0, 1, 2]] = [s, d, t]
            Q = world.rotations(g, m)
            A = np.einsum("ijn,jkn,lkn->iln", Q, D, Q)
        else:
            A = world.gen_F(seed, [m], kind)
        F[:, :, idx] = A
    return F


def corrupt(F, sv, how):
    """A damaged point (3, 3) and state."""
    F, sv = F.copy(), None if sv is None else sv.copy()
    if how == "nan":
        F[:] = np.nan
    elif how == "nan1":
        F[0, 1] = np.nan
    elif how == "inf":
        F[1, 1] = np.inf
    elif how == "ninf":
        F[2, 0] = -np.inf
    elif how == "zero":
        F[:] = 0
    elif how == "rank2":
        F[:, 1] = F[:, 0]
    elif how == "rank1":
        F[:, 1] = F[:, 2] = 0
    elif how == "huge":
        F *= 1e120
    elif how == "tiny":
        F *= 1e-120
    elif how == "flip":
        F[0] *= -1
    elif sv is not None:
        sv[...] = np.nan if how == "nanstate" else np.inf
    else:
        F[0, 0] = np.nan
    return F, sv


def shape_of(seed, m):
    """A batch shape with m points."""
    g = np.random.default_rng([seed, m])
    if m == 1:
        return [[], [1], [1, 1]][int(g.integers(3))]
    out = [[m], [m], [1, m], [m, 1]]
    for a in range(2, m):
        if m % a == 0:
            out += [[a, m // a]] * 2
            for b in range(2, m // a):
                if (m // a) % b == 0:
                    out.append([a, b, m // a // b])
            break
    return out[int(g.integers(len(out)))]


def evaluate_call(spec, graph, op, F, sv):
    """(callable, args, kwargs) of an operation for points in a batch shape."""
    if op["op"] == "fn":
        name, args, kw = fn_call(op["name"], F, op["seed"])
        return resolve(name), args, kw
    obj = graph.get(op["level"], op["i"])
    return getattr(obj, op["m"]), world.args_for(spec, op["level"], op["i"], F, sv), {}


def split(result, shape, npts):
    """The results of a batch as arrays with one trailing point axis."""
    out = []
    for X in flat(result):
        if X is None:
            out.append(None)
            continue
        lead = X.shape[: max(X.ndim - len(shape), 0)]
        Y = np.broadcast_to(X, (*lead, *shape)) if X.shape != (*lead, *shape) else X
        out.append(np.array(Y).reshape(*lead, npts))
    return out


def single_points(spec, op, F, sv, shape):
    """Each point alone, on fresh objects (in the pristine process)."""
    res = []
    for k in range(F.shape[2]):
        f = np.ascontiguousarray(F[:, :, k]).reshape(3, 3, *shape)
        s = None if sv is None else np.ascontiguousarray(sv[:, k]).reshape(-1, *shape)
        if op["op"] == "fn":
            fn, args, kw = evaluate_call(spec, None, op, f, s)
        else:
            g, j = world.only(spec, op["level"], op["i"])
            fn, args, kw = evaluate_call(g, world.Graph(g), {**op, "i": j}, f, s)
        try:
            res.append(("ok", split(fn(*args, **kw), tuple(shape), 1)))
        except Exception as e:
            res.append(("err", f"{type(e).__name__}: {e}"))
    return res


def growth(F):
    """Magnitudes for absolute tolerances, per point."""
    m = np.moveaxis(F, -1, 0)
    s = np.linalg.svd(m, compute_uv=False)
    return np.maximum(1, np.maximum(s[:, 0], 1 / s[:, -1])) ** 4


def compare(a, b, tol, atol):
    """Differences of two lists of (lead, n) results, or None."""
    if len(a) != len(b):
        return None, f"{len(a)} results instead of {len(b)}"
    for k, (x, y) in enumerate(zip(a, b)):
        if (x is None) != (y is None):
            return None, f"result {k}: None or not"
        if x is None:
            continue
        if x.shape != y.shape:
            return None, f"result {k}: shape {x.shape} instead of {y.shape}"
        x, y = x.reshape(-1, x.shape[-1]).astype(float), y.reshape(-1, y.shape[-1]).astype(float)
        fin = np.isfinite(y).all(axis=0)
        size = np.abs(np.where(np.isfinite(y), y, 0)).max(axis=0)
        with np.errstate(all="ignore"):
            err = np.abs(x - y).max(axis=0)
        bad = fin & ~(err <= tol * size + atol)
        if bad.any():
            p = int(np.flatnonzero(bad)[0])
            return p, f"result {k}: differs by {err[p]:.3e} at magnitude {size[p]:.3e}"
    return None, None


def execute(plan, ctx):
    spec = plan["graph"]
    graph = world.Graph(spec)
    n = plan["n"]
    F = gen_points(plan)
    grow = growth(F)
    kinds = [plan["kinds"][k % len(plan["kinds"])] for k in range(n)]
    near = np.array([k in ("near", "sing2", "eq", "id", "rot", "iso", "uni", "diag") for k in kinds])
    g = np.random.default_rng([plan["seed0"], 42])
    sample = np.arange(n) if n <= 24 else np.unique([0, 1, n - 2, n - 1, *g.integers(0, n, 12)])
    states, refs, whole = {}, {}, {}
    rshape = [[], [1], [1, 1]][plan["seed0"] % 3]
    compared = 0

    for no, op in enumerate(plan["ops"]):
        fn_op = op["op"] == "fn"
        if fn_op:
            key, ns, scale, soft = ("fn", op["name"], op["seed"]), 0, 1.0, op["name"].startswith("math.eigh")
            torch = False
        else:
            mi = world.model_of(spec, op["level"], op["i"])
            ns = world.nstate_of(spec["models"][mi])
            key = (op["level"], op["i"], op["m"])
            scale = world.pscale(spec)
            soft = world.is_stretch_model(spec, mi) or any(f["k"] in ("str", "gen") for f in spec["frameworks"] if f["m"] == mi)
            torch = spec["models"][mi]["k"] == "torch" and not plan.get("double")
        tol = 1e-4 if torch else 1e-8
        atol = scale * grow * (1e-5 if torch else 1e-10)
        if soft:
            atol = np.where(near, atol + scale * grow * 1e-6, atol)
        sv = None
        if ns:
            sv = states.setdefault(ns, world.gen_sv(plan["seed0"], ns, [n]))
        if key not in refs:
            want = ctx.ref.call("sim.props.p11", "single_points", spec, op, F[:, :, sample], None if sv is None else sv[:, sample], rshape)
            if want[0] != "ok":
                ctx.violate("single-raises", f"op {no} {key}: {want[1]}: {want[2]} in a pristine process")
            refs[key] = want[1]
            ctx.count("single_points_evaluated", len(sample))
        order = np.arange(n)
        if op["perm"]:
            order = np.random.default_rng(op["perm"]).permutation(n)
        G, S = F.copy(), None if sv is None else sv.copy()
        bad = np.zeros(n, bool)
        # eigenvectors of equal eigenvalues are arbitrary
        vague = near if key[0] == "fn" and soft else np.zeros(n, bool)
        for frac, how in op.get("corrupt", ()):
            k = int(frac * n) % n
            f, s = corrupt(F[:, :, k], None if sv is None else sv[:, k], how)
            G[:, :, k] = f
            if s is not None:
                S[:, k] = s
            bad[k] = True
            ctx.count("fault:point_" + how)
        cuts = [0, *sorted({int(c * n) for c in op["cuts"]} - {0}), n]
        err = {k: "raise" for k in ("divide", "over", "invalid")} if op.get("strict") else {k: "ignore" for k in ("divide", "over", "invalid", "under")}
        got, raised = None, np.zeros(n, bool)
        what = f"op {no} {key}"
        for a, b in zip(cuts[:-1], cuts[1:]):
            idx = order[a:b]
            if not len(idx):
                continue
            shape = shape_of(op["shape"], len(idx))
            f = world.with_layout(G[:, :, idx].reshape(3, 3, *shape), op["layout"])
            s = None if S is None else S[:, idx].reshape(ns, *shape)
            try:
                with np.errstate(**err):
                    fn, args, kw = evaluate_call(spec, graph, op, f, s)
                    res = fn(*args, **kw)
            except Exception as e:
                single_fails = [k for k in range(len(sample)) if refs[key][k][0] == "err" and sample[k] in idx]
                if bad[idx].any():
                    ctx.count("batches_refused")
                elif not single_fails:
                    ctx.violate("regular-batch-raises", f"{what} batch {shape}: {type(e).__name__}: {e}; each point alone succeeds")
                raised[idx] = True
                continue
            parts = split(res, tuple(shape), len(idx))
            if got is None:
                got = [None if p is None else np.full((*p.shape[:-1], n), np.nan, p.dtype if p.dtype.kind == "f" else float) for p in parts]
            ctx.check(len(parts) == len(got), "results", f"{what}: number of results depends on the batch")
            for x, p in zip(got, parts):
                ctx.check((x is None) == (p is None), "results", f"{what}: presence of results depends on the batch")
                if x is not None:
                    ctx.check(x.shape[:-1] == p.shape[:-1], "results", f"{what}: shape of results depends on the batch")
                    x[..., idx] = p
            ctx.count("batches")
        ctx.log(no, key, cuts, bool(raised.any()))
        ctx.trace(key, cuts, op["perm"] != 0, shape_of(op["shape"], n), [h for _, h in op.get("corrupt", ())])
        if got is None:
            continue
        # -- against each point alone
        for k, p in enumerate(sample):
            if bad[p] or raised[p] or vague[p]:
                continue
            r = refs[key][k]
            if r[0] == "err":
                ctx.count("single_point_refused")
                continue
            one = [None if x is None else x[..., p : p + 1] for x in got]
            _, d = compare(one, r[1], tol, atol[p : p + 1])
            if d:
                ctx.violate("point-differs", f"{what}, point {p} ({kinds[p]}) of {n}, damaged points {np.flatnonzero(bad).tolist()}: {d} (against the point alone)")
            compared += 1
            if bad.any():
                ctx.count("probe:regular_points_beside_damaged")
        # -- against the same points in other batches
        ok = ~(bad | raised | vague)
        if key in whole:
            ref, rok = whole[key]
            use = np.flatnonzero(ok & rok)
            if len(use):
                p, d = compare(
                    [None if x is None else x[..., use] for x in got],
                    [None if x is None else x[..., use] for x in ref],
                    tol,
                    2 * atol[use],
                )
                if d:
                    ctx.violate("batch-differs", f"{what}: {d} (point {use[p] if p is not None else None}, against another batch)")
        else:
            whole[key] = (got, ok)
    ctx.sim_steps = len(plan["ops"])
    ctx.count("points_compared", compared)
    ctx.nontrivial = compared >= 2


def shrink(plan):
    yield from shrink_lists(plan, ["ops"])
    for k, op in enumerate(plan["ops"]):
        for key in ("corrupt", "cuts"):
            if op.get(key):
                for smaller in chunks_removed(op[key]):
                    q = dict(plan)
                    q["ops"] = [dict(o) for o in plan["ops"]]
                    q["ops"][k][key] = smaller
                    yield q
        if op["perm"] or op["layout"] != "C":
            q = dict(plan)
            q["ops"] = [dict(o) for o in plan["ops"]]
            q["ops"][k].update(perm=0, layout="C")
            yield q
    if plan["n"] > 2:
        for n in (2, 3, plan["n"] // 2):
            if n < plan["n"]:
                yield {**plan, "n": n}
