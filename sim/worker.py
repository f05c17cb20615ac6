"""Worker interpreter: reads jobs (one JSON per line), forks one child per run."""

import importlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # stray prints of the code under test go to stderr
    from sim import boot

    boot.install()
    import numpy  # noqa: F401
    import warnings

    prop = sys.argv[1]
    mod = importlib.import_module(f"sim.props.{prop.lower()}")
    boot.load()
    if sys.argv[2] == "torch":
        import torch

        torch.set_num_threads(1)
    for name in getattr(mod, "PRELOAD", ()):
        importlib.import_module(name)
    import gc

    gc.collect()
    gc.freeze()
    warnings.simplefilter("ignore")
    from sim.pristine import RefServer

    limit = getattr(mod, "CHILD_TIMEOUT", 120)
    ref = RefServer()
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        res, ok = run_one(mod, prop, job, ref, limit)
        if not ok:
            ref.close()
            ref = RefServer()
        out.write(json.dumps(res) + "\n")
        out.flush()
    ref.close()


def run_one(mod, prop, job, ref, limit):
    r, w = os.pipe()
    ref.reset()
    t0 = time.monotonic()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                res = execute(mod, prop, job, ref)
            except BaseException:
                res = {"error": traceback.format_exc()[-3000:]}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    deadline = t0 + limit
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            part = os.read(r, 1 << 16)
            if not part:
                break
            data += part
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    wall = time.monotonic() - t0
    base = {"id": job.get("id"), "seed": job.get("seed"), "wall": wall}
    if timed_out:
        return {**base, "error": f"run exceeded {limit} s of wall clock", "hang": limit}, False
    if not data:
        return {**base, "error": f"run died, status {status}"}, False
    return {**json.loads(data), **base}, True


def library_frame(e):
    """The innermost frame of the package in the traceback of an exception."""
    from sim import boot

    where, tb = None, e.__traceback__
    while tb is not None:
        code = tb.tb_frame.f_code
        if code.co_filename.startswith(boot.PKG):
            where = f"{code.co_filename[len(boot.PKG):]}:{code.co_name}:{tb.tb_lineno}"
        tb = tb.tb_next
    return where


def execute(mod, prop, job, ref):
    from sim.core import Ctx, HarnessError, Violation, rng_for

    plan = job.get("plan")
    if plan is not None and "regenerate" in plan:
        job = {**job, **plan["regenerate"]}
        plan = None
    if plan is None:
        plan = mod.generate(
            rng_for(prop, job["seed"]), job.get("tier", "quick"), job.get("torch", False)
        )
        plan["torch"] = bool(job.get("torch"))
        if plan["torch"]:
            plan["double"] = rng_for(prop, -1 - job["seed"]).random() < 0.5
        plan["prop"] = prop
        plan["seed"] = job["seed"]
    plan = json.loads(json.dumps(plan))
    if os.environ.get("VERIF_PREFILL"):
        junk = [bytearray(int(x)) for x in os.environ["VERIF_PREFILL"].split(",")]  # noqa: F841
    ctx = Ctx(ref, plan)
    if plan.get("double"):
        from sim.refcalls import double

        double()
        ref.call("sim.refcalls", "double")
        ctx.count("probe:torch_double_precision")
    viol = None
    try:
        mod.execute(plan, ctx)
    except Violation as v:
        viol = {"kind": v.kind, "detail": v.detail}
        ctx.log("violation", v.kind)
    except Exception as e:
        # an exception of the package in a call which has to succeed
        where = None if isinstance(e, (HarnessError, OSError)) else library_frame(e)
        if where is None:
            raise
        viol = {"kind": "raises", "detail": f"{type(e).__name__}: {e} (in {where})"}
        ctx.log("violation", "raises")
    res = {
        "violation": viol,
        "counts": dict(ctx.counts),
        "log": ctx.logh.hexdigest(),
        "nlog": ctx.nlog,
        "shape": ctx.shape.hexdigest(),
        "nontrivial": bool(ctx.nontrivial),
        "steps": ctx.sim_steps,
        "simtime": ctx.sim_time,
    }
    if viol or job.get("want_plan"):
        if ctx.decisions is not None:
            plan["decisions"] = ctx.decisions
        res["plan"] = plan
        res["events"] = ctx.events
    return res


if __name__ == "__main__":
    main()
