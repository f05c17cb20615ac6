"""P20: the environment of the process neither influences evaluations nor is changed by them."""

import contextlib
import gc
import io
import os
import random
import sys
import tempfile
import time
import warnings

import numpy as np

from .. import boot, umodels, world
from ..core import shrink_lists
from ..labworld import LC, MODELS, gen_setup, data
from ..refcalls import resolve
from ..world import same
from .p01 import FUNCS, fn_call
from .p17 import fresh_stress, new_simulation, params, points

PRELOAD = ["scipy.optimize", "matplotlib.pyplot", "matplotlib.figure", "matplotlib.backends.backend_agg"]
METHODS = ["gradient", "hessian"]
ENV = [
    "errors_raise",
    "errors_raise",
    "errors_call",
    "errors_print",
    "errors_ignore",
    "warnings_error",
    "warnings_error",
    "warnings_always",
    "print_options",
    "seed",
    "draw",
    "chdir",
    "environ",
    "gc_off",
    "gc_now",
    "bufsize",
    "clock",
    "rcparams",
    "switch",
    "default",
]
TENV = ["no_grad", "inference", "grad", "no_grad", "torch_seed"]


def generate(rng, tier, torch):
    g = world.gen_graph(rng, nmodels=rng.choice([1, 2]), nspaces=rng.choice([1, 2, 3]), torch=torch)
    plan = {
        "graph": g,
        "bufs": [
            {"seed": rng.randrange(10**6), "shape": world.any_shape(rng), "kind": world.any_kind(rng, ["gen", "gen", "mild", "uni", "eq", "id", "iso", "big"]), "dtype": "float64"}
            for _ in range(rng.choice([1, 2, 3]))
        ],
        "ops": [],
    }
    nb = len(plan["bufs"])
    ops = plan["ops"]
    if rng.random() < 0.15:
        # single-precision deformations
        rng.choice(plan["bufs"])["dtype"] = "float32"
        for m in g["models"]:
            m.pop("arr", None)
            m.get("inner", {}).pop("arr", None)
    for _ in range(rng.randint(8, 24)):
        r = rng.random()
        if r < 0.33:
            ops.append({"op": "env", "what": rng.choice(ENV + (TENV * 3 if torch else [])), "v": rng.randrange(10**6)})
        elif r < 0.36:
            ops.append({"op": "import"})
        elif r < 0.41:
            ops.append({"op": "near", "b": rng.randrange(nb), "v": rng.randrange(10**6)})
        elif r < 0.74 or torch:
            ops.append({"op": "call", "level": rng.choice(["space"] * 5 + ["framework", "model"]), "r": rng.randrange(1000), "m": rng.choice(METHODS), "b": rng.randrange(nb), "sv": rng.randrange(3)})
        elif r < 0.84:
            ops.append({"op": "fn", "name": rng.choice([f for f in FUNCS if not f.startswith("lab.")]), "b": rng.randrange(nb), "seed": rng.randrange(10**6)})
        elif r < 0.93:
            ops.append({"op": "sim", "kind": rng.choice(sorted(MODELS)), "lc": rng.choice(LC), "x": rng.randrange(10**6), "space": rng.choice(["Distortional", "Deformation"]), "plot": rng.random() < 0.4})
        else:
            ops.append({"op": "fit", "setup": gen_setup(rng), "seed": rng.randrange(10**6), "method": rng.choice(["lm", "trf"])})
    return plan


class Hostile(dict):
    """An environment in which each variable the library asks for is set."""

    def __missing__(self, key):
        f = sys._getframe(1)
        while f is not None and f.f_code.co_filename.endswith(("os.py>", "<frozen os>", "os.py", "_collections_abc.py", "<frozen _collections_abc>")):
            f = f.f_back
        if f is not None and f.f_code.co_filename.startswith(boot.PKG):
            return b"1"
        raise KeyError(key)


def surroundings():
    """What a library call must leave alone."""
    s = {
        "floating-point errors": sorted(np.geterr().items()),
        "error callback": repr(np.geterrcall()),
        "buffer size": np.getbufsize(),
        "warning filters": [(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters],
        "print options": sorted((k, repr(v)) for k, v in np.get_printoptions().items()),
        "numpy random state": repr([np.array(x).tobytes() if isinstance(x, np.ndarray) else x for x in np.random.get_state()]),
        "random state": hash(random.getstate()),
        "directory": os.getcwd(),
        "environment": dict(os.environ),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "switch interval": sys.getswitchinterval(),
        "recursion limit": sys.getrecursionlimit(),
        "path": list(sys.path),
        "trace": sys.gettrace(),
        "hooks": (repr(sys.excepthook), repr(sys.displayhook)),
        "clock": repr(time.time),
    }
    if "torch" in sys.modules:
        import torch

        s["torch"] = [torch.is_grad_enabled(), torch.is_inference_mode_enabled(), str(torch.get_default_dtype()), torch.get_num_threads(), torch.get_rng_state().numpy().tobytes()]
    return s


def rc():
    import matplotlib

    return {k: repr(v) for k, v in dict(matplotlib.rcParams).items()}


def fresh_fit(setup, p0, method):
    from .p18 import fit_from

    return fit_from(setup, p0, method)


def execute(plan, ctx):
    spec = plan["graph"]
    graph = world.Graph(spec)
    bufs = [world.gen_F(b["seed"], b["shape"], b["kind"], b.get("dtype", "float64")) for b in plan["bufs"]]
    svs = {}
    scale = world.pscale(spec)
    stack = contextlib.ExitStack()  # torch contexts
    start = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="p20-", dir=os.environ.get("HOME"))
    saved = (time.time, time.perf_counter, time.monotonic)
    evals = changes = 0
    strict = set()
    calls = []

    def on_error(kind, flag):
        calls.append(kind)

    def run(what, fn, *args, plots=False, **kw):
        """A library call within the current surroundings, which must stay as they are."""
        before = surroundings()
        rcb = rc() if plots else None
        out, err = io.StringIO(), io.StringIO()
        n = len(calls)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                got = ("ok", fn(*args, **kw))
        except Exception as e:
            got = ("err", f"{type(e).__name__}: {e}")
        after = surroundings()
        for k in before:
            if before[k] != after[k]:
                ctx.violate("environment-changed", f"{what}: the {k} changed")
        if plots:
            ctx.check(rc() == rcb, "environment-changed", f"{what}: rcParams changed")
        text = out.getvalue() + err.getvalue()
        ctx.check(not text.strip(), "output", lambda: f"{what} printed {text[:200]!r}")
        ctx.check(len(calls) == n, "floating-point-error", lambda: f"{what}: {calls[n:][:3]} for an admissible deformation")
        return got

    def judge(what, got, want, kind):
        nonlocal evals
        evals += 1
        if want[0] == "ok":
            if got[0] != "ok":
                ctx.violate(kind + "-raises", f"{what} with {sorted(strict)}: {got[1]}; succeeds with the default settings")
            d = same(got[1], want[1], atol=scale)
            ctx.check(d is None, kind + "-differs", lambda: f"{what} with {sorted(strict)}: {d} (against a process with default settings)")
        else:
            ctx.check(got[0] != "ok", kind + "-no-error", lambda: f"{what} with {sorted(strict)}: raises with the default settings: {want[1]}")

    def change(what, v):
        g = np.random.default_rng(v)
        if what.startswith("errors_"):
            how = what[7:]
            strict.difference_update({s for s in strict if s.startswith("errors")})
            strict.add(what)
            np.seterrcall(on_error)
            np.seterr(all=how)
            if any(b.dtype == np.float32 for b in bufs):
                # small products of single-precision numbers are denormal
                np.seterr(under="ignore")
        elif what.startswith("warnings_"):
            strict.difference_update({s for s in strict if s.startswith("warnings")})
            strict.add(what)
            warnings.resetwarnings()
            warnings.simplefilter(what[9:])
        elif what == "print_options":
            np.set_printoptions(precision=int(g.integers(0, 3)), threshold=2, suppress=bool(v % 2), floatmode="fixed")
        elif what == "seed":
            np.random.seed(v)
            random.seed(v)
        elif what == "draw":
            np.random.rand(3)
            random.random()
        elif what == "chdir":
            d = tempfile.mkdtemp(dir=scratch)
            os.chdir(d)
            strict.add("another directory")
        elif what == "environ":
            os.environ[f"HYPERELASTIC_{v % 7}"] = str(v)
            os.environ["OMP_NUM_THREADS"] = str(1 + v % 3)
            if v % 2 and not isinstance(os.environ._data, Hostile):
                os.environ._data = Hostile(os.environ._data)
        elif what == "gc_off":
            gc.disable()
        elif what == "gc_now":
            gc.enable()
            gc.collect()
        elif what == "bufsize":
            np.setbufsize(int(16 * g.integers(1, 600)))
        elif what == "clock":
            # the clocks jump, also backwards
            jump = [float(x) for x in g.uniform(-1e9, 1e9, 50)]
            k = [0]

            def clock():
                k[0] += 1
                return jump[k[0] % 50]

            time.time = time.perf_counter = time.monotonic = clock
        elif what == "rcparams":
            import matplotlib

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                matplotlib.rcParams["lines.linewidth"] = float(g.uniform(0.5, 3))
                matplotlib.rcParams["axes.grid"] = bool(v % 2)
        elif what == "switch":
            sys.setswitchinterval(float(g.uniform(1e-5, 1e-2)))
        elif what == "default":
            np.seterr(all="warn")
            warnings.resetwarnings()
            warnings.simplefilter("ignore")
            np.setbufsize(8192)
            strict.clear()
        elif what in ("no_grad", "inference", "grad"):
            import torch

            stack.close()
            strict.difference_update({"no_grad", "inference", "grad"})
            strict.add(what)
            stack.enter_context({"no_grad": torch.no_grad(), "inference": torch.inference_mode(), "grad": torch.enable_grad()}[what])
        elif what == "torch_seed":
            import torch

            torch.manual_seed(v)

    try:
        for n, op in enumerate(plan["ops"]):
            k = op["op"]
            ctx.count("op:" + k)
            if k == "env":
                change(op["what"], op["v"])
                ctx.count("fault:" + op["what"])
                changes += 1
            elif k == "call":
                lst = {"space": graph.spaces, "framework": graph.frameworks, "model": graph.models}[op["level"]]
                i = op["r"] % len(lst)
                what = f"op {n} {op['level']}[{i}].{op['m']}"
                F = bufs[op["b"] % len(bufs)]
                ns = world.nstate_of(spec["models"][world.model_of(spec, op["level"], i)])
                sv = None
                if ns:
                    sv = svs.setdefault((op["sv"], ns, F.shape[2:]), world.gen_sv(op["sv"], ns, F.shape[2:]))
                with np.errstate(all="ignore"):
                    args = world.args_for(spec, op["level"], i, F.copy(), sv)
                want = ctx.pristine("evaluate", spec, op["level"], i, op["m"], args)
                judge(what, run(what, getattr(lst[i], op["m"]), *args), want, "evaluation")
            elif k == "import":
                # the package is imported (once more) in these surroundings
                got = run(f"op {n} import", boot.fresh, plots=True)
                ctx.check(got[0] == "ok", "import-raises", lambda: f"op {n} with {sorted(strict)}: {got[1]}")
                graph = world.Graph(spec)
                ctx.count("probe:imported_again")
            elif k == "near":
                # the next deformation differs a little, or at few points only
                F = bufs[op["b"] % len(bufs)]
                g = np.random.default_rng(op["v"])
                e = 1 + float(g.choice([1e-6, 1e-4, 1e-2]))
                if F.ndim > 2 and F.size > 9 and op["v"] % 2:
                    j = np.unravel_index(int(g.integers(F[0, 0].size)), F.shape[2:])
                    F[(slice(None), slice(None), *j)] *= e
                else:
                    F *= e
            elif k == "fn":
                with np.errstate(all="ignore"):
                    name, args, kw = fn_call(op["name"], bufs[op["b"] % len(bufs)].copy(), op["seed"])
                want = ctx.pristine("function", name, args, kw)
                what = f"op {n} {name}"
                judge(what, run(what, resolve(name), *args, **kw), want, "function")
            elif k == "sim":
                x, p = points(op["x"]), params(op["x"], op["kind"])
                want = ctx.ref.call("sim.props.p17", "fresh_stress", op["kind"], op["lc"], x, p, op["space"], False)
                ctx.count("pristine_evaluations")
                what = f"op {n} simulation of {op['kind']} {op['lc']}"
                sim = new_simulation(op["kind"], op["lc"], x, p, op["space"])
                judge(what, run(what, sim.stress), want, "simulation")
                if op["plot"] and not strict & {"errors_raise", "errors_call", "errors_print", "warnings_error", "warnings_always"}:
                    import matplotlib.pyplot as plt

                    got = run(what + " plot", sim.plot_stress_stretch, plots=True)
                    if got[0] != "ok":
                        ctx.violate("plot-raises", f"{what} plot: {got[1]}")
                    plt.close("all")
            elif k == "fit":
                # scipy itself may warn and underflow: with the lenient settings only
                if strict & {"errors_raise", "errors_call", "errors_print", "warnings_error", "warnings_always"}:
                    continue
                from ..labworld import Lab, gen_p0

                p0 = gen_p0(random.Random(op["seed"]), op["setup"]["kind"])
                want = ctx.ref.call("sim.props.p20", "fresh_fit", op["setup"], p0, op["method"])
                ctx.count("pristine_evaluations")
                lab = Lab(op["setup"], np.array(p0))
                what = f"op {n} fit {op['method']}"
                got = run(what, lab.opt.curve_fit, method=op["method"])
                evals += 1
                ctx.check((want[0] == "ok") == (got[0] == "ok"), "fit-outcome-differs", lambda: f"{what}: {got} instead of {want[:3]}")
                if want[0] == "ok":
                    ctx.check(same(np.array(got[1][0]), want[1], rtol=1e-7, atol=1e-2) is None, "fit-differs", lambda: f"{what}: {got[1][0]} instead of {want[1]} with the default settings")
            ctx.trace(k, op.get("what"), op.get("level"), op.get("m"), op.get("name"), sorted(strict))
            ctx.log(n, k, op.get("what"))
    finally:
        stack.close()
        np.seterr(all="warn")
        np.setbufsize(8192)
        os.environ._data = dict(os.environ._data)
        time.time, time.perf_counter, time.monotonic = saved
        os.chdir(start)
        with contextlib.suppress(OSError):
            import shutil

            shutil.rmtree(scratch)
    ctx.nontrivial = changes >= 1 and evals >= 2
    ctx.count("evaluations_compared", evals)
    ctx.sim_steps = len(plan["ops"])


def shrink(plan):
    yield from shrink_lists(plan, ["ops"])
    for i, b in enumerate(plan["bufs"]):
        for shape in ([], [1]):
            if len(str(b["shape"])) > len(str(shape)):
                q = dict(plan)
                q["bufs"] = [dict(x) for x in plan["bufs"]]
                q["bufs"][i]["shape"] = shape
                yield q


__all__ = ["umodels", "data", "fresh_stress"]
