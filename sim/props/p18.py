"""P18: copies and restored checkpoints are equivalent to the originals and independent."""

import copy
import pickle

import numpy as np

from .. import umodels, world
from ..core import shrink_lists
from ..inject import Injector
from ..labworld import MODELS, Lab, gen_p0, gen_setup
from ..world import same
from .p02 import EXC, has_probe
from .p17 import change_model, gen_change

METHODS = ["gradient", "hessian"]
PRELOAD = ["scipy.optimize", "matplotlib.pyplot"]


def generate(rng, tier, torch):
    g = world.gen_graph(rng, nmodels=rng.choice([1, 2]), nspaces=rng.choice([1, 2, 3]), torch=torch, parallel=False)
    for s in g["spaces"]:
        s["parallel"] = rng.random() < 0.12
    plan = {
        "graph": g,
        "bufs": [{"seed": rng.randrange(10**6), "shape": world.any_shape(rng), "kind": world.any_kind(rng, ["gen", "mild", "uni"])} for _ in range(2)],
        "lab": None,
        "ops": [],
    }
    if not torch and rng.random() < 0.4:
        s = {**gen_setup(rng), "views": False}  # views of dicts can not be copied
        plan["lab"] = {"setup": s, "p0": gen_p0(rng, s["kind"])}
    cur = copy.deepcopy(g)
    ns, nm = len(g["spaces"]), len(g["models"])

    def call():
        return {"w": rng.randrange(1000), "i": rng.randrange(ns), "m": rng.choice(METHODS), "b": rng.randrange(2), "sv": rng.randrange(3)}

    ops = plan["ops"]
    for _ in range(rng.randint(8, 22)):
        r = rng.random()
        if r < 0.3:
            ops.append({"op": "call", **call()})
        elif r < 0.45:
            op = {"op": "save", "w": rng.randrange(1000), "protocol": rng.choice([2, 4, 5])}
            if rng.random() < 0.5:
                # from within the material model of a running evaluation or fit
                op["during"] = call()
                op["at"] = rng.choice([1, 1, 2, 3])
                op["fit"] = rng.random() < 0.5
            ops.append(op)
        elif r < 0.55:
            ops.append({"op": "restore", "s": rng.randrange(1000)})
        elif r < 0.63:
            ops.append({"op": "elsewhere", "s": rng.randrange(1000), "calls": [call() for _ in range(rng.choice([1, 2, 3]))], "fit": rng.random() < 0.5})
        elif r < 0.71:
            ops.append({"op": "copy", "w": rng.randrange(1000), "how": rng.choice(["deep", "deep", "pickle"])})
        elif r < 0.77:
            ops.append({"op": "shallow", "level": rng.choice(["space", "space", "framework", "model"]), **call()})
        elif r < 0.87:
            i = rng.randrange(nm)
            path, v = gen_change(rng, cur["models"][i], deep=False)
            change_model(None, cur["models"][i], path, copy.deepcopy(v))
            ops.append({"op": "change", "w": rng.randrange(1000), "i": i, "path": path, "value": v})
        elif r < 0.92:
            ops.append({"op": "fault", **call(), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "UserError"]), "frac": round(rng.random(), 4)})
        elif r < 0.95:
            ops.append({"op": "crash", "s": rng.randrange(1000)})
        else:
            ops.append({"op": "call", **call()})
        if plan["lab"] and rng.random() < 0.1:
            what = rng.choice(["stretch", "stretch_items", "force", "force_items", "area", "label", "simulation", "mask"])
            ops.append({"op": "edit", "w": rng.randrange(1000), "k": rng.randrange(3), "what": what, "v": rng.randint(1, 3)})
        if plan["lab"] and rng.random() < 0.2:
            ops.append({"op": "fit", "w": rng.randrange(1000), "method": rng.choice([None, "lm", "trf"])})
    return plan


def edited(lab, edits):
    """Apply the changes of the user to the experiments, simulations and masks of a lab."""
    for e in edits:
        k = e["k"] % len(lab.experiments)
        x = lab.experiments[k]
        if e["what"] == "stretch":
            # a corrected toe of the curve
            x.stretch = x.stretch + e["v"] * 0.01
        elif e["what"] == "stretch_items":
            x.stretch[1:] += e["v"] * 0.01
        elif e["what"] == "force":
            x.force = x.force * (1 + 0.3 * e["v"])
        elif e["what"] == "force_items":
            x.force *= 1 + 0.3 * e["v"]
        elif e["what"] == "area":
            x.area = x.area * (1 + 0.3 * e["v"])
        elif e["what"] == "label":
            x.label = f"E{e['v']}"
        elif e["what"] == "simulation":
            s = lab.simulations[k]
            s.stretch = 1 + 0.8 * (s.stretch - 1)
        elif e["what"] == "mask":
            lab.opt.mask = [*lab.opt.mask]
            b = np.ones(len(x.stretch), dtype=bool)
            b[-2:] = False
            lab.opt.mask[k] = b
    return lab


def outputs(lab):
    """What the experiments and simulations of a lab show."""
    out = [[np.array(e.stretch), np.array(e.stress()), e.label] for e in lab.experiments]
    return out + [[np.array(s.stretch), np.array(s.stress()), s.label, [*s.labels], np.array([*s.parameters], dtype=float)] for s in lab.simulations]


def verdict(lab):
    """Quality of the last fit as an optimizer states it."""
    if lab is None:
        return []
    out = []
    for m in ("norm_residuals", "mean_relative_std"):
        try:
            with np.errstate(all="ignore"):
                out.append(float(getattr(lab.opt, m)()))
        except AttributeError:
            out.append("not fitted")  # nothing has been fitted yet
    return out


def fresh_outputs(setup, p, edits, sims):
    lab = edited(Lab(setup, np.array(p)), edits)
    for s, q in zip(lab.simulations, sims):
        s.parameters = np.array(q)
    return outputs(lab)


def fit_from(setup, p, method, edits=()):
    """A fit on fresh objects which starts at the parameters p."""
    lab = edited(Lab(setup, np.array(p)), edits)
    return np.array(lab.opt.curve_fit(**({} if method is None else {"method": method}))[0])


def run_restored(blob, calls, method):
    """Restore a checkpoint in this (other) process and go on with it."""
    objs, lab = pickle.loads(blob)
    out = []
    for i, m, args in calls:
        out.append(getattr(objs[2][i], m)(*args))
    fit = None
    if method != "none":
        fit = np.array(lab.opt.curve_fit(**({} if method is None else {"method": method}))[0])
        fit = [fit, np.array(lab.opt.parameters), *[np.array(s.parameters) for s in lab.opt.simulations]]
    return out, fit


class Instance:
    """Live objects and what they have to be equal to."""

    def __init__(self, objs, lab, spec, p, edits=()):
        self.objs, self.lab, self.spec, self.p = objs, lab, spec, p
        self.edits = list(edits)


def execute(plan, ctx):
    bufs = [world.gen_F(b["seed"], b["shape"], b["kind"]) for b in plan["bufs"]]
    svs = {}
    evals = copies = 0

    def build():
        spec = copy.deepcopy(plan["graph"])
        graph = world.Graph(copy.deepcopy(spec))
        lab = p = None
        if plan["lab"]:
            p = np.array(plan["lab"]["p0"], dtype=float)
            lab = Lab(plan["lab"]["setup"], np.array(p))
        return Instance((graph.models, graph.frameworks, graph.spaces), lab, spec, p)

    live = [build()]
    saves = []
    stated = {}  # blob of a checkpoint -> verdict of its optimizer

    def pick(r):
        return live[r % len(live)]

    def arguments(spec, level, i, op):
        F = bufs[op["b"] % len(bufs)]
        ns = world.nstate_of(spec["models"][world.model_of(spec, level, i)])
        sv = None
        if ns:
            key = (op["sv"], ns, F.shape[2:])
            if key not in svs:
                svs[key] = world.gen_sv(op["sv"], ns, F.shape[2:])
            sv = svs[key]
        return world.args_for(spec, level, i, F, sv)

    def judge(spec, got, want, what, kind):
        nonlocal evals
        evals += 1
        if want[0] == "ok":
            if got[0] != "ok":
                ctx.violate(kind + "-raises", f"{what}: {got[1]}; fresh objects succeed")
            d = same(got[1], want[1], atol=world.pscale(spec))
            ctx.check(d is None, kind + "-differs", lambda: f"{what}: {d} (against fresh objects)")
        else:
            ctx.check(got[0] != "ok", kind + "-no-error", lambda: f"{what}: fresh objects raise {want[1]}: {want[2]}")

    def evaluate(inst, op, what, obj=None, level="space", kind="evaluation"):
        i = op["i"] % len(inst.objs[{"space": 2, "framework": 1, "model": 0}[level]])
        args = arguments(inst.spec, level, i, op)
        want = ctx.pristine("evaluate", inst.spec, level, i, op["m"], copy.deepcopy(args))
        obj = obj or inst.objs[{"space": 2, "framework": 1, "model": 0}[level]][i]
        try:
            got = ("ok", getattr(obj, op["m"])(*args))
        except Exception as e:
            got = ("err", f"{type(e).__name__}: {e}")
        judge(inst.spec, got, want, what, kind)

    def fit(inst, method, what, hook=None):
        want = ctx.ref.call("sim.props.p18", "fit_from", plan["lab"]["setup"], inst.p, method, inst.edits)
        ctx.count("pristine_evaluations")
        inst.lab.material.hook = hook
        try:
            got = ("ok", inst.lab.opt.curve_fit(**({} if method is None else {"method": method}))[0])
        except Exception as e:
            got = ("err", f"{type(e).__name__}: {e}")
        inst.lab.material.hook = None
        ctx.check((want[0] == "ok") == (got[0] == "ok"), "fit-outcome-differs", lambda: f"{what}: {got} instead of {want[:3]}")
        if want[0] == "ok":
            ctx.check(same(np.array(got[1]), want[1], rtol=1e-7, atol=1e-2) is None, "fit-differs", lambda: f"{what}: {got[1]} instead of {want[1]} by fresh objects")
            inst.p = want[1]

    def audit(what):
        """Parameters of all labs are their own ones."""
        for n, inst in enumerate(live):
            if inst.lab is not None:
                d = same(np.array(inst.lab.opt.parameters, dtype=float), inst.p, rtol=1e-7, atol=1e-2)
                ctx.check(d is None, "copy-not-independent", lambda: f"{what}: parameters of optimizer {n} are {inst.lab.opt.parameters} instead of {inst.p}")

    def show(inst, what):
        """Experiments and simulations show what fresh ones do."""
        if inst.lab is None:
            return
        sims = [np.array([*s.parameters], dtype=float) for s in inst.lab.simulations]
        want = ctx.ref.call("sim.props.p18", "fresh_outputs", plan["lab"]["setup"], inst.p, inst.edits, sims)
        try:
            got = ("ok", outputs(inst.lab))
        except Exception as e:
            got = ("err", f"{type(e).__name__}: {e}")
        ctx.check(got[0] == want[0], "lab-outcome-differs", lambda: f"{what}: {got[:2]} instead of {want[:3]}")
        if want[0] == "ok":
            for j, (a, b) in enumerate(zip(got[1], want[1])):
                for x, y in zip(a, b):
                    bad = same(x, y) is not None if isinstance(x, np.ndarray) else x != y
                    ctx.check(not bad, "lab-differs", lambda: f"{what}: object {j} of the lab: {x} instead of {y} by fresh objects")
            ctx.count("labs_compared")

    def dump(inst, protocol, what):
        try:
            blob = pickle.dumps((inst.objs, inst.lab), protocol=protocol)
        except Exception as e:
            ctx.violate("not-picklable", f"{what}: {type(e).__name__}: {e}")
        stated[blob] = verdict(inst.lab)
        return blob

    def as_stated(lab, want, what):
        got = verdict(lab)
        good = all(a == b if isinstance(a, str) or isinstance(b, str) else np.isclose(a, b, rtol=1e-9, equal_nan=True) for a, b in zip(got, want))
        ctx.check(good, "fit-quality-differs", lambda: f"{what}: norm of the residuals and relative deviation are {got} instead of {want} at the checkpoint")

    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        what = f"op {n} {k}"
        ctx.count("op:" + k)
        if k == "call":
            evaluate(pick(op["w"]), op, f"op {n} space[{op['i']}].{op['m']} of instance {op['w'] % len(live)}")
        elif k == "save":
            inst = pick(op["w"])
            blob = None
            if "during" in op:
                seen = [0]

                def probe(*a):
                    nonlocal blob
                    seen[0] += 1
                    if seen[0] == op["at"]:
                        hook = inst.lab and inst.lab.material.hook
                        blob = (dump(inst, op["protocol"], what + " within an evaluation"), copy.deepcopy(inst.spec), inst.p if inst.p is None else inst.p.copy(), list(inst.edits))
                        del hook

                if op["fit"] and inst.lab is not None:
                    fit(inst, None, what, hook=lambda mat, calls: probe())
                else:
                    umodels.PROBE = probe
                    try:
                        evaluate(inst, op["during"], what)
                    finally:
                        umodels.PROBE = None
                if blob is not None:
                    ctx.count("fault:checkpoint_within_evaluation")
            if blob is None:
                blob = (dump(inst, op["protocol"], what), copy.deepcopy(inst.spec), inst.p if inst.p is None else inst.p.copy(), list(inst.edits))
            saves.append(blob)
            copies += 1
        elif k in ("restore", "crash"):
            if k == "crash":
                ctx.count("fault:crash_and_restart")
                live.clear()
            if not saves:
                live.append(build())
            else:
                blob, spec, p, edits = saves[op["s"] % len(saves)]
                try:
                    objs, lab = pickle.loads(blob)
                except Exception as e:
                    ctx.violate("not-restorable", f"{what}: {type(e).__name__}: {e}")
                as_stated(lab, stated[blob], what)
                live.append(Instance(objs, lab, copy.deepcopy(spec), p if p is None else p.copy(), edits))
            if len(live) > 4:
                live.pop(0)
        elif k == "elsewhere":
            if saves:
                blob, spec, p, edits = saves[op["s"] % len(saves)]
                calls, wants = [], []
                for c in op["calls"]:
                    i = c["i"] % len(spec["spaces"])
                    args = arguments(spec, "space", i, c)
                    want = ctx.pristine("evaluate", spec, "space", i, c["m"], copy.deepcopy(args))
                    if want[0] == "ok":
                        calls.append((i, c["m"], copy.deepcopy(args)))
                        wants.append(want[1])
                method = "none"
                if op["fit"] and p is not None:
                    wfit = ctx.ref.call("sim.props.p18", "fit_from", plan["lab"]["setup"], p, None, edits)
                    method = None if wfit[0] == "ok" else "none"
                got = ctx.ref.call("sim.props.p18", "run_restored", blob, calls, method)
                ctx.check(got[0] == "ok", "restored-raises", lambda: f"{what}: {got[1:3]} in another process; fresh objects succeed")
                for c, x, y in zip(calls, got[1][0], wants):
                    judge(spec, ("ok", x), ("ok", y), f"{what}: space[{c[0]}].{c[1]} restored in another process", "restored")
                if method is None:
                    for x in got[1][1]:
                        ctx.check(same(x, wfit[1], rtol=1e-7, atol=1e-2) is None, "restored-fit-differs", lambda: f"{what}: {x} instead of {wfit[1]} by fresh objects")
                ctx.count("fault:restored_in_another_process")
        elif k == "copy":
            inst = pick(op["w"])
            if op["how"] == "deep":
                objs, lab = copy.deepcopy((inst.objs, inst.lab))
            else:
                objs, lab = pickle.loads(dump(inst, 4, what))
            as_stated(lab, verdict(inst.lab), what)
            live.append(Instance(objs, lab, copy.deepcopy(inst.spec), inst.p if inst.p is None else inst.p.copy(), list(inst.edits)))
            copies += 1
            if len(live) > 4:
                live.pop(0)
        elif k == "shallow":
            inst = pick(op["w"])
            lst = inst.objs[{"space": 2, "framework": 1, "model": 0}[op["level"]]]
            obj = copy.copy(lst[op["i"] % len(lst)])
            evaluate(inst, op, f"{what} of a {op['level']}", obj=obj, level=op["level"], kind="shallow-copy")
        elif k == "change":
            inst = pick(op["w"])
            m = inst.spec["models"][op["i"]]
            if change_fits(m, op["path"]):
                change_model(inst.objs[0][op["i"]], m, op["path"], copy.deepcopy(op["value"]))
        elif k == "fault":
            inst = pick(op["w"])
            inj = Injector(EXC[op["exc"]]("injected"), 1 + int(op["frac"] * 150), False)
            try:
                inj.call(getattr(inst.objs[2][op["i"]], op["m"]), *arguments(inst.spec, "space", op["i"], op))
            except BaseException as e:
                if e is not inj.exc and not isinstance(e, Exception):
                    raise
            ctx.count("fault:interrupted_evaluation", int(inj.fired))
        elif k == "fit":
            inst = pick(op["w"])
            if inst.lab is not None:
                fit(inst, op["method"], what)
        elif k == "edit":
            inst = pick(op["w"])
            if inst.lab is not None:
                edited(inst.lab, [op])
                inst.edits.append(op)
        if k in ("restore", "crash", "copy") and live:
            show(live[-1], what)
        audit(what)
        ctx.trace(k, op.get("w"), op.get("i"), op.get("m"), op.get("how"), op.get("at"), op.get("level"), len(live), len(saves))
        ctx.log(n, k, len(live))
    # every instance still is what it was
    for j, inst in enumerate(live):
        show(inst, f"finally the lab of instance {j}")
        for i in range(len(inst.objs[2])):
            for m in METHODS:
                evaluate(inst, {"i": i, "m": m, "b": 0, "sv": 0}, f"finally space[{i}].{m} of instance {j}")
    ctx.nontrivial = copies >= 1 and evals >= 3
    ctx.count("evaluations_compared", evals)
    ctx.sim_steps = len(plan["ops"])


def change_fits(m, path):
    return path[0] != "inner" or m["k"] == "gim"


def shrink(plan):
    yield from shrink_lists(plan, ["ops"])
    for i, op in enumerate(plan["ops"]):
        if "during" in op:
            q = dict(plan)
            q["ops"] = [{k: v for k, v in x.items() if j != i or k not in ("during", "fit", "at")} for j, x in enumerate(plan["ops"])]
            yield q
    if plan["lab"] and not any(op["op"] == "fit" for op in plan["ops"]):
        yield {**plan, "lab": None}


__all__ = ["MODELS", "has_probe"]
