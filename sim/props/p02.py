"""P02: a failed or interrupted evaluation leaves no trace."""

import sys
import warnings

import numpy as np

from .. import umodels, world
from ..core import shrink_lists
from ..inject import Injector
from ..world import flat, same

METHODS = ["gradient", "hessian"]


class UserError(Exception):
    """An exception class the library cannot know."""


class UserStop(BaseException):
    """Like KeyboardInterrupt, not an Exception."""


EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "UserError": UserError,
    "UserStop": UserStop,
    "SystemExit": SystemExit,
    "ValueError": ValueError,
    "TypeError": TypeError,
    "AttributeError": AttributeError,
    "IndexError": IndexError,
    "KeyError": KeyError,
    "RuntimeError": RuntimeError,
    "NotImplementedError": NotImplementedError,
    "ZeroDivisionError": ZeroDivisionError,
    "FloatingPointError": FloatingPointError,
    "OverflowError": OverflowError,
    "LinAlgError": np.linalg.LinAlgError,
    "StopIteration": StopIteration,
    "TimeoutError": TimeoutError,
    "ArithmeticError": ArithmeticError,
}
ASYNC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "UserStop", "UserError", "TimeoutError"]


# what libraries like to catch
MODEL = ["TypeError", "TypeError", "ValueError", "AttributeError", "LinAlgError", "FloatingPointError", "NotImplementedError", "IndexError"]


def has_probe(m):
    return m["k"] in ("poly", "damage", "ustr", "torch") or (m["k"] == "gim" and has_probe(m["inner"]))


def generate(rng, tier, torch):
    nm = rng.choice([1, 2, 2])
    g = world.gen_graph(rng, nmodels=nm, nspaces=rng.choice([2, 3]), torch=torch)
    if not torch and rng.random() < 0.8:
        fam = "inv"
        # make sure that a user-defined model is around
        for f in g["frameworks"]:
            if f["m"] == 0:
                fam = "str" if f["k"] == "str" else "inv"
        for _ in range(20):
            m = world.gen_model(rng, fam)
            if has_probe(m):
                g["models"][0] = m
                break
    nbuf = rng.choice([1, 2, 3])
    shape = world.any_shape(rng)
    bufs = [
        {
            "seed": rng.randrange(10**6),
            "shape": shape if rng.random() < 0.6 else rng.choice(world.SHAPES),
            "kind": world.any_kind(rng, ["gen", "gen", "mild", "big", "eq"]),
            "dtype": "float64",
            "layout": rng.choice(["C", "C", "F", "strided"]),
        }
        for _ in range(nbuf)
    ]
    ops = []
    ns = len(g["spaces"])
    for _ in range(rng.randint(6, 10 if torch else 16)):
        level = rng.choice(["space"] * 8 + ["framework", "model"])
        i = rng.randrange({"space": ns, "framework": len(g["frameworks"]), "model": nm}[level])
        op = {
            "op": "call",
            "level": level,
            "i": i,
            "m": rng.choice(METHODS),
            "b": rng.randrange(nbuf),
            "sv": rng.randrange(3),
        }
        r = rng.random()
        mi = world.model_of(g, level, i)
        if r < 0.32:
            op["fault"] = {
                "k": "async",
                "exc": rng.choice(ASYNC),
                "frac": round(rng.random(), 4),
                "opcode": rng.random() < 0.35,
            }
        elif r < 0.54 and has_probe(g["models"][mi]):
            op["fault"] = {
                "k": "model",
                "exc": rng.choice(MODEL) if rng.random() < 0.5 else rng.choice(sorted(EXC)),
                "at": rng.choice([1, 1, 1, 2, 2, 3]),
            }
        elif r < 0.64:
            op["fault"] = {
                "k": "data",
                "how": rng.choice(["zero", "nan", "inf", "collapse", "huge", "flip"]),
                "frac": round(rng.random(), 4),
                "strict": rng.random() < 0.75,
            }
        elif r < 0.69:
            op["fault"] = {"k": "args", "how": rng.choice(["F2", "F1", "Fobj", "svshape", "none"])}
        ops.append(op)
        if "fault" in op:
            # the following calls on the same objects
            for _ in range(rng.choice([1, 1, 2])):
                nxt = {k: v for k, v in op.items() if k != "fault"}
                if rng.random() < 0.5:
                    nxt["m"] = rng.choice(METHODS)
                if rng.random() < 0.4:
                    nxt["b"] = rng.randrange(nbuf)
                if level == "space" and rng.random() < 0.3:
                    nxt["i"] = rng.randrange(ns)
                ops.append(nxt)
    return {"graph": g, "bufs": bufs, "ops": ops}


def corrupt(F, how, frac):
    shape = F.shape[2:]
    n = int(np.prod(shape)) if shape else 1
    k = np.unravel_index(int(frac * n) % n, shape) if shape else ()
    at = (slice(None), slice(None), *k)
    if how == "zero":
        F[at] = 0
    elif how == "nan":
        F[(0, 1, *k)] = np.nan
    elif how == "inf":
        F[(1, 1, *k)] = np.inf
    elif how == "collapse":
        F[(slice(None), 2, *k)] = F[(slice(None), 1, *k)]
    elif how == "huge":
        F[at] = F[at] * 1e160
    elif how == "flip":
        F[(0, slice(None), *k)] *= -1


def bad_args(spec, level, i, how, F, sv):
    if how == "F2":
        F = F[:2, :2].copy()
    elif how == "F1":
        F = F[:, :1].copy()
    elif how == "Fobj":
        F = "deformation"
    elif how == "none":
        F = None
    if how == "svshape":
        sv = np.zeros((3, 17, 13)) if sv is not None else None
    if level == "space":
        return ([F, sv],)
    if level == "framework":
        C = world.cauchy_green(F) if how == "svshape" else (F if not hasattr(F, "shape") else F[:, 0])
        return (C, sv)
    return None


def settings():
    s = [sorted(np.geterr().items()), np.geterrcall(), np.getbufsize()]
    if "torch" in sys.modules:
        import torch

        s += [torch.is_grad_enabled(), torch.get_default_dtype(), torch.is_inference_mode_enabled()]
    s.append(sys.getrecursionlimit())
    s.append([(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters])
    return s


def snapshot(args):
    out = []
    for a in flat(list(args)):
        if a is not None:
            out.append((a.shape, a.dtype.str, a.tobytes()) if a.dtype != object else repr(a))
    return out


def execute(plan, ctx):
    spec = plan["graph"]
    graph = world.Graph(spec)
    bufs = [
        world.with_layout(world.gen_F(b["seed"], b["shape"], b["kind"], b["dtype"]), b["layout"])
        for b in plan["bufs"]
    ]
    scale = world.pscale(spec)
    svs = {}
    broken = set()  # targets a fault has hit
    after = 0
    base = settings()

    def sv_for(op, F):
        mi = world.model_of(spec, op["level"], op["i"])
        ns = world.nstate_of(spec["models"][mi])
        if not ns:
            return None
        key = (op["sv"], ns, F.shape[2:])
        if key not in svs:
            svs[key] = world.gen_sv(op["sv"], ns, F.shape[2:])
        return svs[key]

    for n, op in enumerate(plan["ops"]):
        F = bufs[op["b"] % len(bufs)]
        sv = sv_for(op, F)
        level, i, m = op["level"], op["i"], op["m"]
        obj = graph.get(level, i)
        fn = getattr(obj, m)
        fault = op.get("fault")
        what = f"op {n} {level}[{i}].{m}"
        ctx.trace(level, i, m, F.shape, fault and (fault["k"], fault.get("exc"), fault.get("how")))
        if fault is None:
            args = world.args_for(spec, level, i, F, sv)
            before = snapshot(args)
            want = ctx.pristine("evaluate", spec, level, i, m, world.args_for(spec, level, i, F.copy(), sv))
            try:
                got = (True, fn(*args))
            except Exception as e:
                got = (False, e)
            ctx.count("op:call")
            if broken:
                after += 1
            ctx.log(n, "call", level, i, m, got[0])
            if want[0] == "ok":
                if not got[0]:
                    ctx.violate("after-fault-raises", f"{what}: {type(got[1]).__name__}: {got[1]}; fresh objects succeed")
                d = same(got[1], want[1], atol=scale)
                ctx.check(d is None, "after-fault-differs", lambda: f"{what}: {d} (against fresh objects; earlier faults on {sorted(broken)})")
            else:
                ctx.check(not got[0], "after-fault-no-error", lambda: f"{what}: fresh objects raise {want[1]}")
            ctx.check(snapshot(args) == before, "arguments-changed", what)
        elif fault["k"] == "async":
            args = world.args_for(spec, level, i, F, sv)
            before = snapshot(args)
            cnt = ctx.pristine("count_events", spec, level, i, m, world.args_for(spec, level, i, F.copy(), sv), fault["opcode"], ())
            total = max(1, cnt[1] if cnt[0] == "ok" else 1)
            at = 1 + int(fault["frac"] * total)
            exc = EXC[fault["exc"]]("injected")
            inj = Injector(exc, at, fault["opcode"])
            try:
                inj.call(fn, *args)
                got = None
            except BaseException as e:
                got = e
            ctx.log(n, "async", level, i, m, at, inj.fired, type(got).__name__)
            ctx.trace(inj.where)
            if inj.fired:
                ctx.count(f"fault:async_{fault['exc']}_{'bytecode' if fault['opcode'] else 'line'}")
                broken.add((level, i))
                ctx.check(got is not None, "exception-swallowed", lambda: f"{what}: {fault['exc']} at {inj.where} did not reach the caller")
                ctx.check(
                    got is exc,
                    "exception-replaced",
                    lambda: f"{what}: {fault['exc']} at {inj.where} became {type(got).__name__}: {got}",
                )
            ctx.check(snapshot(args) == before, "arguments-changed", lambda: f"{what} interrupted at {inj.where}")
        elif fault["k"] == "model":
            args = world.args_for(spec, level, i, F, sv)
            before = snapshot(args)
            exc = EXC[fault["exc"]]("from the material model")
            seen = [0, False]

            def probe(model, method, a):
                seen[0] += 1
                if seen[0] == fault["at"]:
                    seen[1] = True
                    raise exc

            umodels.PROBE = probe
            try:
                fn(*args)
                got = None
            except BaseException as e:
                got = e
            finally:
                umodels.PROBE = None
            ctx.log(n, "model", level, i, m, seen[1], type(got).__name__)
            if seen[1]:
                ctx.count(f"fault:model_{fault['exc']}")
                broken.add((level, i))
                ctx.check(got is not None, "exception-swallowed", lambda: f"{what}: {fault['exc']} of the model did not reach the caller")
                ctx.check(
                    got is exc,
                    "exception-replaced",
                    lambda: f"{what}: {fault['exc']} of the model became {type(got).__name__}: {got}",
                )
            ctx.check(snapshot(args) == before, "arguments-changed", lambda: f"{what} with a failing model")
        elif fault["k"] == "data":
            B = np.array(F, dtype=float)
            corrupt(B, fault["how"], fault["frac"])
            err = {"all": "raise"} if fault["strict"] else {"all": "ignore"}
            args = world.args_for(spec, level, i, B, sv) if level == "space" else None
            if args is None:
                with np.errstate(all="ignore"):
                    try:
                        args = world.args_for(spec, level, i, B, sv)
                    except np.linalg.LinAlgError:
                        args = world.args_for(spec, level, i, F, sv)
            before = snapshot(args)
            want = ctx.pristine("evaluate", spec, level, i, m, args, err)
            try:
                with np.errstate(**err):
                    inner = settings()
                    try:
                        fn(*args)
                        got = None
                    finally:
                        ctx.check(settings() == inner, "settings-changed", lambda: f"{what} with corrupted data: {settings()} instead of {inner}")
            except Exception as e:
                if type(e).__name__ == "Violation":
                    raise
                got = e
            broken.add((level, i))
            ctx.count(f"fault:data_{fault['how']}_{'strict' if fault['strict'] else 'quiet'}")
            ctx.log(n, "data", level, i, m, type(got).__name__)
            name = want[1] if want[0] == "err" else None
            have = type(got).__name__ if got is not None else None
            ctx.check(have == name, "fault-handling-depends-on-history", lambda: f"{what} with {fault['how']} point: {have}, fresh objects: {name}")
            if fault["strict"] and have:
                ctx.count("probe:failed_on_data")
            ctx.check(snapshot(args) == before, "arguments-changed", lambda: f"{what} with corrupted data")
        elif fault["k"] == "args":
            args = bad_args(spec, level, i, fault["how"], np.array(F, dtype=float), sv)
            if args is None:
                continue
            before = snapshot(args)
            try:
                fn(*args)
                got = None
            except Exception as e:
                got = e
            broken.add((level, i))
            ctx.count(f"fault:args_{fault['how']}")
            ctx.log(n, "args", level, i, m, type(got).__name__)
            ctx.check(snapshot(args) == before, "arguments-changed", lambda: f"{what} with bad arguments")
        now = settings()
        if now != base:
            ctx.violate("settings-changed", f"{what}: process-wide settings {base} became {now}")
    ctx.nontrivial = bool(broken) and after > 0
    ctx.count("evaluations_after_faults_compared", after)
    ctx.sim_steps = len(plan["ops"])


def shrink(plan):
    yield from shrink_lists(plan, ["ops"])
    for i, b in enumerate(plan["bufs"]):
        for shape in ([], [1], [2, 1]):
            if len(str(b["shape"])) > len(str(shape)):
                q = dict(plan)
                q["bufs"] = [dict(x) for x in plan["bufs"]]
                q["bufs"][i]["shape"] = shape
                yield q
