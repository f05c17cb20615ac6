"""P10: in-place results (out=) equal newly allocated results in any call history."""

import numpy as np

from .. import world
from ..core import shrink_decisions, shrink_lists
from ..inject import Injector
from ..refcalls import resolve
from ..simclients import gen_policy, run_clients
from ..world import same
from .p02 import EXC

IDX = np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])  # documented vector storage
ROW = [0, 1, 2, 0, 1, 0]
COL = [0, 1, 2, 1, 2, 2]
FUNCS = ["inv", "inv", "dya", "cdya", "cdya", "cdya_ik", "cdya_il", "tril_from_triu", "triu_from_tril"]
SHAPES = {"6": (6,), "3": (3,), "66": (6, 6), "33": (3, 3), "3333": (3, 3, 3, 3)}
TRAILS = [[], [], [1], [3], [7], [2, 3], [1, 4], [4, 2], [8, 6], [2, 1, 3]]
LAYOUTS = ["C", "C", "F", "inner", "tail"]


# -- documented definitions, on full tensors --------------------------------------------
def full(A):
    return A[IDX]


def bc(A, B):
    n = max(A.ndim, B.ndim) - 1
    A = A.reshape(A.shape[0], *([1] * (n + 1 - A.ndim)), *A.shape[1:])
    B = B.reshape(B.shape[0], *([1] * (n + 1 - B.ndim)), *B.shape[1:])
    return np.broadcast_arrays(A, B) if A.shape[0] == B.shape[0] else (A, B)


def definition(fn, A, B, dim):
    if fn == "inv":
        m = np.moveaxis(full(A), (0, 1), (-2, -1))
        return np.moveaxis(np.linalg.inv(m), (-2, -1), (0, 1))[ROW, COL]
    if fn == "dya":
        return np.einsum("i...,j...->ij...", A, B)
    if fn in ("tril_from_triu", "triu_from_tril"):
        R = np.array(A)
        for i in range(dim):
            for j in range(i + 1, dim):
                if fn == "tril_from_triu":
                    R[j, i] = A[i, j]
                else:
                    R[i, j] = A[j, i]
        return R
    a, b = full(A), full(B)
    if fn == "cdya_ik":
        return np.einsum("ik...,jl...->ijkl...", a, b)
    if fn == "cdya_il":
        return np.einsum("il...,kj...->ijkl...", a, b)
    R = (
        np.einsum("ik...,jl...->ijkl...", a, b)
        + np.einsum("il...,kj...->ijkl...", a, b)
        + np.einsum("ik...,jl...->ijkl...", b, a)
        + np.einsum("il...,kj...->ijkl...", b, a)
    ) / 4
    out = np.empty((6, 6, *R.shape[4:]))
    for m in range(6):
        for n in range(6):
            out[m, n] = R[ROW[m], COL[m], ROW[n], COL[n]]
    return out


# -- memory of the caller -----------------------------------------------------------------
class Buffer:
    """An array of the caller inside a larger block whose margins must stay as they are."""

    GUARD = 12345.678

    def __init__(self, shape, layout):
        shape = tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        if layout == "inner":
            self.block = np.full([s + 2 for s in shape], self.GUARD)
            mask = np.zeros(self.block.shape, bool)
            cut = tuple(slice(1, -1) for _ in shape)
            self.view = self.block[cut]
            mask[cut] = True
        else:
            self.block = np.full(n + 16, self.GUARD)
            mask = np.zeros(n + 16, bool)
            mask[8 : 8 + n] = True
            flat = self.block[8 : 8 + n]
            if layout == "F":
                self.view = flat.reshape(shape, order="F")
            elif layout == "tail" and len(shape) > 1:
                self.view = np.moveaxis(flat.reshape(*shape[1:], shape[0]), -1, 0)
            else:
                self.view = flat.reshape(shape)
        self.margin = ~mask

    def intact(self):
        return bool((self.block[self.margin] == self.GUARD).all())


def fill(view, how, seed):
    g = np.random.default_rng([seed, 21])
    if how == "nan":
        view[...] = np.nan
    elif how == "inf":
        view[...] = np.inf
    elif how == "zero":
        view[...] = 0
    elif how == "huge":
        view[...] = 1e300
    elif how == "mixed":
        view[...] = g.choice([np.nan, np.inf, -1e300, 0.0, 1.0], size=view.shape)
    else:
        view[...] = g.standard_normal(view.shape)


def operand(seed, kind, form, trail):
    g = np.random.default_rng([seed, 22])
    shape = SHAPES[form]
    if form != "6":
        return g.standard_normal((*shape, *trail))
    F = world.gen_F(seed, list(trail), "gen" if kind != "mild" else "mild")
    C = world.cauchy_green(F)
    if kind == "indef":
        C[[0, 3]] *= -1.0
    if kind == "scaled":
        C *= 10.0 ** g.integers(-6, 7)
    return C


def inout(fn, rng, dim=None):
    """(form of the operands, form of the result)."""
    if fn == "inv":
        return "6", "6"
    if fn == "dya":
        f = rng.choice(["6", "6", "6", "3"])
        return f, "66" if f == "6" else "33"
    if fn == "cdya":
        return "6", "66"
    if fn in ("cdya_ik", "cdya_il"):
        return "6", "3333"
    f = rng.choice(["66", "66", "33"])
    return f, f


def gen_ops(rng, ops, operands, buffers, n, faults=True):
    focus = rng.choice(FUNCS) if rng.random() < 0.3 else None
    good = set()  # buffers which hold a result
    for _ in range(n):
        r = rng.random()
        if r < 0.12 and faults:
            ops.append({"op": "poison", "o": rng.randrange(len(buffers)), "how": rng.choice(["nan", "inf", "mixed", "stale", "huge", "zero"]), "seed": rng.randrange(10**6)})
            good.discard(ops[-1]["o"])
            continue
        if r < 0.2 and faults:
            ops.append({"op": "edit", "a": rng.randrange(len(operands)), "seed": rng.randrange(10**6), "how": rng.choice(["refill", "scale", "poke"])})
            continue
        fn = focus if focus and rng.random() < 0.7 else rng.choice(FUNCS)
        fin, fout = inout(fn, rng)
        cand = [("op", k) for k, o in enumerate(operands) if o["form"] == fin]
        if faults:
            cand += [("buf", k) for k, o in enumerate(buffers) if o["form"] == fin and k in good] * 2
        outs = [k for k, o in enumerate(buffers) if o["form"] == fout]
        if not cand or not outs:
            continue
        op = {"op": "call", "fn": fn, "a": rng.choice(cand), "out": rng.choice(outs)}
        if fn in ("dya", "cdya", "cdya_ik", "cdya_il"):
            op["b"] = op["a"] if rng.random() < 0.25 else rng.choice(cand)
            if rng.random() < 0.3:
                op["pair"] = rng.choice(["view", "window", "window", "reversed", "points", "equal"])
        elif fn == "inv":
            op["det"] = rng.choice([None, None, "array", "keep"])
        else:
            op["dim"] = {"66": rng.choice([6, 6, 6, 3]), "33": 3}[fin]
        r = rng.random()
        if r < 0.12:
            op["out"] = None
        elif r < 0.4 and faults:
            op["alias"] = rng.choice(["A", "A", "B", "rowA", "rowB", "T", "shift"])
        if faults and rng.random() < 0.15:
            op["fault"] = {"exc": rng.choice(["KeyboardInterrupt", "MemoryError", "UserError"]), "frac": round(rng.random(), 4), "opcode": rng.random() < 0.4}
        elif faults and rng.random() < 0.06:
            op["bad"] = rng.choice(["shape", "ro", "int"])
        ops.append(op)
        if op["out"] is not None:
            (good.discard if "fault" in op else good.add)(op["out"])
    return ops


def generate(rng, tier, torch):
    trail = rng.choice(TRAILS)

    def t():
        if rng.random() < 0.8:
            return list(trail)
        return [1 if rng.random() < 0.5 else s for s in trail]

    def gen_operands(n):
        return [
            {
                "form": rng.choice(["6", "6", "6", "6", "3", "66", "66", "33"]),
                "kind": rng.choice(["gen", "gen", "mild", "indef", "scaled"]),
                "seed": rng.randrange(10**6),
                "trail": t(),
                "layout": rng.choice(LAYOUTS),
            }
            for _ in range(n)
        ]

    def gen_buffers(n):
        forms = [rng.choice(["6", "6", "66", "66", "66", "3333", "33"]) for _ in range(n)]
        return [
            {
                "form": f,
                "layout": rng.choice(LAYOUTS),
                "init": rng.choice(["nan", "nan", "inf", "mixed", "stale", "zero", "huge"]),
                "seed": rng.randrange(10**6),
            }
            for f in forms
        ]

    threads = rng.random() < 0.2
    operands = gen_operands(rng.choice([3, 4, 5]))
    if not any(o["form"] == "6" for o in operands):
        operands[0]["form"] = "6"
    plan = {"trail": trail, "operands": operands}
    if threads:
        clients = []
        for _ in range(2):
            b = gen_buffers(rng.choice([2, 3, 4]))
            clients.append({"buffers": b, "ops": gen_ops(rng, [], operands, b, rng.randint(2, 6), faults=False)})
        policy = gen_policy(rng, 2)
        policy["gap"] = policy["gap"] or 3
        plan.update(clients=clients, policy=policy)
    else:
        b = gen_buffers(rng.choice([2, 3, 4, 5]))
        plan.update(buffers=b, ops=gen_ops(rng, [], operands, b, rng.randint(8, 26)))
    return plan


class World:
    def __init__(self, plan, part):
        self.trail = tuple(plan["trail"])
        self.operands = []
        for o in plan["operands"]:
            buf = Buffer((*SHAPES[o["form"]], *o["trail"]), o["layout"])
            buf.view[...] = operand(o["seed"], o["kind"], o["form"], o["trail"])
            self.operands.append(buf)
        self.buffers = []
        for b in part["buffers"]:
            buf = Buffer((*SHAPES[b["form"]], *self.trail), b["layout"])
            fill(buf.view, b["init"], b["seed"])
            self.buffers.append(buf)
        self.det = {}

    def all(self):
        return self.operands + self.buffers

    def get(self, ref):
        return (self.operands if ref[0] == "op" else self.buffers)[ref[1]]


def usable(fn, *arrays):
    """Regular operands: finite, of moderate size, invertible where inverted."""
    for A in arrays:
        if A is None:
            continue
        if not np.isfinite(A).all() or (A.size and np.abs(A).max() > 1e60):
            return False
    if fn == "inv" and arrays[0].size:
        m = np.moveaxis(full(arrays[0]), (0, 1), (-2, -1))
        c = np.linalg.cond(m)
        if not (c < 1e4).all() or np.abs(m).max() < 1e-25:
            return False
    return True


def setup_call(w, op):
    """The operands, the destination and keyword arguments of a call (or None)."""
    fn = op["fn"]
    A = w.get(op["a"]).view
    B = w.get(op["b"]).view if "b" in op else None
    out = w.buffers[op["out"]].view if op["out"] is not None else None
    pair = op.get("pair")
    if pair == "view":
        B = A[:]
    elif pair == "window":
        # two operands which overlap in memory
        n = A.shape[0]
        big = np.empty((n + 1, *A.shape[1:]))
        big[:n] = A
        big[n] = 0.7 * A[0]
        A, B = big[:n], big[1:]
    elif pair == "reversed":
        B = A[::-1]
    elif pair == "points":
        B = A[..., ::-1] if A.ndim > 1 else A[:]
    elif pair == "equal":
        B = np.array(A)
    alias = op.get("alias")
    if alias and out is not None:
        full_trail = A.shape[len(A.shape) - len(w.trail) :] == w.trail
        if alias == "A" and full_trail and A.shape == out.shape:
            out = A  # the classical in-place call
        elif alias == "B" and fn in ("tril_from_triu", "triu_from_tril", "inv") and A.shape == out.shape:
            out = A
        elif alias == "T" and fn in ("tril_from_triu", "triu_from_tril") and A.shape == out.shape:
            out = np.swapaxes(A, 0, 1)
        elif alias in ("rowA", "rowB") and fn in ("dya", "cdya") and out.shape[0] == A.shape[0]:
            # an operand which is stored in the destination
            row = out[1] if op["out"] % 2 else out[:, 2]
            src = A if alias == "rowA" else B
            if np.broadcast_shapes(src.shape, row.shape) == row.shape and src is not out:
                row[...] = np.array(src)
                if alias == "rowA":
                    A = row
                else:
                    B = row
        elif alias == "shift" and fn == "inv":
            big = np.full((7, *w.trail), np.nan)
            big[:6] = A
            A, out = big[:6], big[1:]
    kw = {}
    if "dim" in op and op["dim"] != 6:
        kw["dim"] = op["dim"]
    return fn, A, B, out, kw


def snapshot(w):
    return [b.block.tobytes() for b in w.all()]


def run_ops(w, ops, ctx, checks, threads=False):
    """Execute the calls; ``checks`` collects what is compared."""
    kept = []
    for n, op in enumerate(ops):
        k = op["op"]
        if k == "poison":
            fill(w.buffers[op["o"]].view, op["how"], op["seed"])
            ctx.count("fault:destination_poisoned")
            ctx.trace(k, op["how"])
            continue
        if k == "edit":
            v = w.operands[op["a"]].view
            if op["how"] == "scale":
                v *= 1.1
            elif v.size:
                g = np.random.default_rng([op["seed"], 1])
                v[...] = v[(slice(None),) * (v.ndim - 1) + (slice(None, None, -1),)].copy() if op["how"] == "poke" and v.ndim > len(SHAPES["66"]) else v * g.uniform(0.8, 1.2)
            ctx.trace(k, op["how"])
            continue
        fn, A, B, out, kw = setup_call(w, op)
        lib = resolve("math." + fn)
        if not usable(fn, A, B):
            ctx.count("skipped_irregular_operands")
            continue
        a0 = np.array(A)
        b0 = a0 if B is A else (np.array(B) if B is not None else None)
        what = f"op {n} {fn}{A.shape} alias={op.get('alias')} pair={op.get('pair')}"
        want = definition(fn, a0, b0, kw.get("dim", A.shape[0]))
        if fn in ("tril_from_triu", "triu_from_tril") and kw.get("dim") is None and A.shape[0] != 6:
            kw["dim"] = A.shape[0]
            want = definition(fn, a0, b0, A.shape[0])
        det = None
        if fn == "inv" and op.get("det"):
            m = np.moveaxis(full(a0), (0, 1), (-2, -1))
            det = np.array(np.linalg.det(m))
            kw["determinant"] = det
            if op["det"] == "keep":
                # a determinant array which the caller keeps using
                key = det.shape
                old = w.det.setdefault(key, np.array(det))
                old[...] = det
                kw["determinant"] = old
        args = (A,) if B is None else (A, B)
        copies = (a0,) if B is None else (a0, b0)
        if "bad" in op and out is not None:
            bad = {
                "shape": np.full((5, *out.shape[1:]), np.nan),
                "ro": np.broadcast_to(np.array(np.nan), out.shape),
                "int": np.zeros(out.shape, dtype=int),
            }[op["bad"]]
            before = snapshot(w)
            try:
                lib(*args, out=bad, **kw)
            except Exception:
                ctx.count("fault:unusable_destination")
            ctx.check(snapshot(w) == before, "operand-changed", f"{what}: arrays changed by a call with an unusable destination")
            ctx.trace(k, fn, "bad", op["bad"])
            continue
        before = [(b, b.block.tobytes(), b.view) for b in w.all()]
        others = [
            (b, raw)
            for b, raw, v in before
            if out is None or not np.may_share_memory(b.block, out)
        ]
        if out is None:
            got = lib(*args, **kw)
        else:
            kw["out"] = out
            if op.get("fault") and not threads:
                probe = Injector(None, -1, op["fault"]["opcode"])
                ck = dict(kw, out=np.full(out.shape, np.nan))
                probe.call(lib, *copies, **ck)
                at = 1 + int(op["fault"]["frac"] * probe.seen)
                inj = Injector(EXC[op["fault"]["exc"]]("interrupted"), min(at, probe.seen), op["fault"]["opcode"])
                try:
                    inj.call(lib, *args, **kw)
                    raised = False
                except BaseException as e:
                    if e is not inj.exc:
                        raise
                    raised = True
                ctx.count("fault:interrupted_call", int(inj.fired))
                ctx.check(raised or not inj.fired, "exception-lost", f"{what}: the exception did not reach the caller")
                for b, raw in others:
                    ctx.check(b.block.tobytes() == raw, "operand-changed", f"{what}: an operand was changed by an interrupted call")
                ctx.check(all(b.intact() for b in w.all()), "margin-changed", f"{what}: memory around the destination was changed")
                ctx.trace(k, fn, "interrupted", inj.where)
                continue
            got = lib(*args, **kw)
        # -- the result and the destination
        shape = want.shape if out is None else out.shape
        w_ = np.broadcast_to(want, shape)
        if out is not None:
            ok = isinstance(got, np.ndarray) and (
                got is out
                or (got.shape == out.shape and got.strides == out.strides and got.ctypes.data == out.ctypes.data)
            )
            ctx.check(ok, "destination-not-returned", f"{what}: the destination is not returned")
        d = same(np.array(got), w_, rtol=1e-8)
        if d:
            ctx.violate("definition", f"{what} out={'given' if out is not None else None}: {d} (full-tensor definition)")
        if out is not None:
            d = same(np.array(out), w_, rtol=1e-8)
            if d:
                ctx.violate("destination", f"{what}: destination {d}")
            kw2 = {x: y for x, y in kw.items() if x != "out"}
            if threads:
                checks.append((lib, copies, {x: np.array(y) if isinstance(y, np.ndarray) else y for x, y in kw2.items()}, np.array(out), what))
            else:
                ref = lib(*copies, **kw2)
                d = same(np.array(out), np.broadcast_to(ref, out.shape), rtol=1e-10)
                if d:
                    ctx.violate("outless", f"{what}: {d} (against a newly allocated result)")
                if det is not None:
                    ctx.check(np.array_equal(kw2["determinant"], det), "operand-changed", f"{what}: the determinant was changed")
        else:
            kept.append((got, got.tobytes(), what))
            for b, raw, v in before:
                ctx.check(not np.may_share_memory(got, b.block) or not np.shares_memory(got, b.block), "result-aliases-operand", f"{what}: the new result shares memory with an operand")
        if out is None or not np.may_share_memory(A, out):
            ctx.check(np.array_equal(A, a0), "operand-changed", f"{what}: the first operand was changed")
        if B is not None and (out is None or not np.may_share_memory(B, out)):
            ctx.check(np.array_equal(B, b0), "operand-changed", f"{what}: the second operand was changed")
        for b, raw in others:
            ctx.check(b.block.tobytes() == raw, "operand-changed", f"{what}: an array which is not the destination was changed")
        ctx.check(all(b.intact() for b in w.all()), "margin-changed", f"{what}: memory around the destination was changed")
        for r, raw, wh in kept:
            ctx.check(r.tobytes() == raw, "result-changed", f"{what}: changed the result of {wh}")
        ctx.count("results_compared")
        if out is not None:
            ctx.count("fn:" + fn)
            if op.get("alias") and (np.may_share_memory(A, out) or (B is not None and np.may_share_memory(B, out))):
                ctx.count("probe:destination_overlaps_operand")
        if op.get("pair"):
            ctx.count("probe:operands_" + op["pair"])
        ctx.trace(k, fn, A.shape, op.get("alias"), op.get("pair"), op["out"] is None, op["a"])
        ctx.log(n, fn, A.shape)


def execute(plan, ctx):
    if "clients" not in plan:
        w = World(plan, plan)
        run_ops(w, plan["ops"], ctx, None)
        ctx.sim_steps = len(plan["ops"])
        ctx.nontrivial = ctx.counts["results_compared"] >= 3
        return
    worlds = [World(plan, c) for c in plan["clients"]]
    for w in worlds[1:]:
        w.operands = worlds[0].operands  # shared, read only
    for o in worlds[0].operands:
        o.view.setflags(write=False)
    todo = [[] for _ in worlds]

    def client(i):
        return lambda: run_ops(worlds[i], plan["clients"][i]["ops"], ctx, todo[i], threads=True)

    sim, tasks = run_clients(plan, ctx, [client(i) for i in range(len(worlds))])
    for t in tasks:
        if t.error is not None:
            raise t.error
    for checks in todo:
        for lib, args, kw, got, what in checks:
            d = same(got, np.broadcast_to(lib(*args, **kw), got.shape), rtol=1e-10)
            if d:
                ctx.violate("outless", f"{what}: {d} (against a newly allocated result, threads)")
    ctx.nontrivial = sim.preemptions > 0 and ctx.counts["results_compared"] >= 2


def shrink(plan):
    yield from shrink_decisions(plan)
    if "clients" in plan:
        for k, c in enumerate(plan["clients"]):
            for c2 in shrink_lists(c, ["ops"], 0):
                q = dict(plan)
                q["clients"] = plan["clients"][:k] + [c2] + plan["clients"][k + 1 :]
                yield q
        return
    yield from shrink_lists(plan, ["ops"])
    if plan["trail"]:
        q = dict(plan)
        q["trail"] = []
        q["operands"] = [dict(o, trail=[]) for o in plan["operands"]]
        yield q
    for key in ("operands", "buffers"):
        for k, o in enumerate(plan[key]):
            if o["layout"] != "C":
                q = dict(plan)
                q[key] = [dict(x) for x in plan[key]]
                q[key][k]["layout"] = "C"
                yield q
