"""P09: every plot draws exactly its own curves on exactly its own axes."""

import numpy as np

from .. import umodels
from ..core import shrink_lists
from ..labworld import LC, MODELS, Lab, MaterialFault, gen_p0, gen_setup, ref_stress
from ..world import same

PRELOAD = ["scipy.optimize", "matplotlib.pyplot", "matplotlib.figure", "matplotlib.backends.backend_agg"]


def generate(rng, tier, torch):
    no = rng.choice([1, 1, 2])
    labs = []
    for _ in range(no):
        s = gen_setup(rng)
        s["unit"] = rng.choice([1.0, 1.0, 1e4, 1e-3])
        if rng.random() < 0.4:
            s["titles"] = [rng.choice(["a load case", "a", "", None]) for _ in s["lcs"]]
        labs.append({"setup": s, "p0": gen_p0(rng, s["kind"]), "simp": gen_p0(rng, s["kind"])})
    ops = [{"op": "subplots", "n": rng.choice([1, 2, 3])}]
    if rng.random() < 0.06:
        ops.append({"op": "many", "n": rng.choice([12, 21, 24])})  # matplotlib warns at 20
    nopt = 0
    maxopt = 2 if rng.random() < 0.7 else 4
    for _ in range(rng.randint(6, 14)):
        r = rng.random()
        lab = rng.randrange(no)
        k = rng.randrange(3)
        ax = rng.choice([None, None, rng.randrange(1000), rng.randrange(1000), rng.randrange(1000)])
        style = {
            "args": rng.choice([[], [], ["C1"], ["o--"], ["k"]]),
            "kw": rng.choice([{}, {}, {"lw": 3}, {"alpha": 0.5}, {"color": "r"}]),
            "label": rng.choice([None, None, "curve", ""]),
            "xlabel": rng.choice([None, None, None, "x title"]),
            "ylabel": rng.choice([None, None, None, "y title"]),
            "inner": None,
        }
        # what the material does while it is evaluated for the plot
        inner = rng.choice([None, None, "figure", "sca", "plot"])
        if style["args"] and "color" in style["kw"]:
            style["kw"] = {}
        if r < 0.42:
            ops.append({"op": "ss", "lab": lab, "what": rng.choice(["sim", "exp"]), "k": k, "ax": ax, **style, "inner": inner})
        elif r < 0.58:
            ops.append({"op": "fd", "lab": lab, "k": k, "ax": ax, **style})
        elif r < 0.64 and nopt < maxopt:
            nopt += 1
            ops.append({"op": "opt", "lab": lab, "title": rng.choice([None, "A title"]), "fit": rng.random() < 0.6, "inner": inner, "k": k})
        elif r < 0.7:
            ops.append({"op": "subplots", "n": rng.choice([1, 2, 3])})
        elif r < 0.75:
            ops.append({"op": "figure", "pyplot": rng.random() < 0.5})
        elif r < 0.82:
            ops.append({"op": "sca", "ax": rng.randrange(1000)})
        elif r < 0.87:
            ops.append({"op": "close", "fig": rng.randrange(1000)})
        elif r < 0.93:
            ops.append(
                {
                    "op": "fail",
                    "how": rng.choice(["material", "kwarg", "shape", "axes"]),
                    "lab": lab,
                    "k": k,
                    "ax": ax,
                    "which": rng.choice(["ss", "opt", "fd"]),
                }
            )
        else:
            ops.append({"op": "params", "lab": lab, "k": k, "seed": rng.randrange(10**6), "of": rng.choice(["sim", "sim", "opt", "opt-item"])})
            if ops[-1]["of"] != "sim" and nopt < maxopt:
                # ... of the optimizer: shown by its next plot
                nopt += 1
                ops.append({"op": "opt", "lab": lab, "title": None, "fit": False, "inner": None, "k": k})
    return {"labs": labs, "ops": ops}


def state_of(ax):
    """What an axes shows."""
    lines = []
    for ln in ax.get_lines():
        lab = str(ln.get_label())
        lines.append(
            (
                np.asarray(ln.get_xdata(orig=True), dtype=float).tobytes(),
                np.asarray(ln.get_ydata(orig=True), dtype=float).tobytes(),
                "" if lab.startswith("_") else lab,
                repr((ln.get_color(), ln.get_linewidth(), ln.get_linestyle(), ln.get_marker(), ln.get_alpha(), ln.get_visible())),
            )
        )
    return {
        "lines": lines,
        "texts": [t.get_text() for t in ax.texts],
        "patches": len(ax.patches),
        "collections": len(ax.collections),
        "xlabel": ax.get_xlabel(),
        "ylabel": ax.get_ylabel(),
        "title": ax.get_title(),
        "legend": ax.get_legend() is not None,
        "view": repr((ax.get_xscale(), ax.get_yscale(), ax.get_visible(), ax.axison, ax.get_facecolor(), ax.figure.get_suptitle())),
    }


DEFAULT = {lc: f"{lc} Tension" for lc in LC}
XSS, YSS = r"Stretch $l/L$", r"Force per undeformed area $F/A$"
XFD, YFD = r"Displacement $d$", r"Force $F$"


def execute(plan, ctx):
    import matplotlib
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    labs, fail = [], {"on": False, "inner": None}

    def hook(mat, calls):
        if fail["on"]:
            raise MaterialFault("material failed")
        if fail["inner"] is not None:
            do, fail["inner"] = fail["inner"], None
            do()

    for l in plan["labs"]:
        labs.append(Lab(l["setup"], np.array(l["p0"]), hook=hook, sim_params=list(l["simp"])))
    axes = []  # every axes ever seen: [axes, state or None if closed]
    figs = []  # figures in pyplot's care, by number
    rc = dict(matplotlib.rcParams)
    nplots = 0

    def managed():
        return [m.canvas.figure for m in matplotlib._pylab_helpers.Gcf.get_all_fig_managers()]

    def interfere(op):
        """Arm the material: it uses pyplot for itself while a plot is made."""

        def do():
            ctx.count("fault:reentrant_" + op["inner"])
            if op["inner"] == "figure":
                fig = plt.figure()
                fig.add_subplot()
            elif op["inner"] == "plot":
                lab = labs[op["lab"] % len(labs)]
                fig, _ = lab.experiments[op["k"] % len(lab.experiments)].plot_stress_stretch(label="monitor")
            else:
                live = [q for q in axes if q[1] is not None and q[0].figure in managed()]
                if live:
                    plt.sca(live[op["k"] % len(live)][0])
                return
            figs[:] = sorted([*figs, fig.number])
            register(fig)

        if op.get("inner"):
            fail["inner"] = do

    def contents():
        out = []
        for lab in labs:
            for e in lab.experiments:
                out += [e.displacement.tobytes(), e.force.tobytes(), e.stretch.tobytes(), e.label]
            for s in lab.simulations:
                out += [s.stretch.tobytes(), np.array([*s.parameters], dtype=float).tobytes(), s.label, tuple(s.labels)]
            out += [np.asarray(lab.opt.parameters, dtype=float).tobytes()]
        return out

    def find(ax):
        for q in axes:
            if q[0] is ax:
                return q
        return None

    def audit(what, target=None, new_figs=0, tolerate=False):
        """Everything but ``target`` is as before; new_figs figures have appeared."""
        nums = plt.get_fignums()
        added = [n for n in nums if n not in figs]
        gone = [n for n in figs if n not in nums]
        ctx.check(not gone, "figure-closed", lambda: f"{what}: figures {gone} disappeared")
        if tolerate:
            ctx.check(len(added) <= 1, "figures-added", lambda: f"{what}: {len(added)} figures appeared")
        else:
            ctx.check(len(added) == new_figs, "figures-added", lambda: f"{what}: {len(added)} instead of {new_figs} figures appeared")
        figs[:] = nums
        known = {}
        for q in axes:
            if q[1] is not None:
                known.setdefault(id(q[0].figure), (q[0].figure, []))[1].append(q[0])
        for fig, own in known.values():
            extra = [a for a in fig.axes if all(a is not b for b in own)]
            ctx.check(not extra, "axes-added", lambda: f"{what}: {len(extra)} axes were added to an existing figure")
            ctx.check(len(fig.axes) == len(own), "axes-removed", lambda: f"{what}: axes were removed from a figure")
        for q in axes:
            if q[1] is None or q[0] is target:
                continue
            s = state_of(q[0])
            if s != q[1]:
                diff = [k for k in s if s[k] != q[1][k]]
                ctx.violate("other-axes-changed", f"{what}: {diff} of other axes changed ({len(q[1]['lines'])} -> {len(s['lines'])} lines)")
        ctx.check(dict(matplotlib.rcParams) == rc, "settings-changed", lambda: f"{what}: rcParams changed")

    def pick(sel):
        live = [q for q in axes if q[1] is not None]
        if sel is None or not live:
            return None
        return live[sel % len(live)]

    def register(fig):
        for a in fig.axes:
            if find(a) is None:
                axes.append([a, state_of(a)])

    def close_to(x, y):
        return len(x) == len(y) and np.allclose(x, y, rtol=1e-8, atol=1e-7)

    def shows(ln, x, y):
        return close_to(np.frombuffer(ln[0], dtype=float), x) and close_to(np.frombuffer(ln[1], dtype=float), y)

    def check_line(what, ln, x, y, label):
        gx = np.frombuffer(ln[0], dtype=float)
        gy = np.frombuffer(ln[1], dtype=float)
        ctx.check(close_to(gx, x) and close_to(gy, y), "curve-data-wrong", lambda: f"{what}: plotted data {gx[:4]}..., {gy[:4]}... instead of {np.asarray(x)[:4]}..., {np.asarray(y)[:4]}...")
        ctx.check(ln[2] == (label or ""), "label-wrong", lambda: f"{what}: label {ln[2]!r} instead of {label!r}")

    def sim_curve(lab, k):
        s = lab.simulations[k]
        p = np.array([*s.parameters], dtype=float)
        return s.stretch, ref_stress(lab.setup["kind"], lab.setup["lcs"][k], s.stretch, p)

    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        ctx.count("op:" + k)
        what = f"op {n} {k}"
        before = contents()
        if k in ("ss", "fd"):
            lab = labs[op["lab"] % len(labs)]
            j = op["k"] % len(lab.experiments)
            obj = lab.simulations[j] if k == "ss" and op["what"] == "sim" else lab.experiments[j]
            q = pick(op["ax"])
            kw = dict(op["kw"])
            for key in ("label", "xlabel", "ylabel"):
                if op[key] is not None:
                    kw[key] = op[key]
            if q is not None:
                kw["ax"] = q[0]
            old = q[1] if q is not None else None
            interfere(op)
            fig, ax = (obj.plot_stress_stretch if k == "ss" else obj.plot_force_displacement)(*op["args"], **kw)
            fail["inner"] = None
            nplots += 1
            what += f" of {type(obj).__name__} on {'given axes' if q is not None else 'a new figure'}"
            audit(what, target=ax, new_figs=0 if q is not None else 1)
            if q is not None:
                ctx.check(ax is q[0], "wrong-axes-returned", what)
            else:
                ctx.check(find(ax) is None, "plotted-on-old-axes", lambda: f"{what}: the returned axes existed before")
                old = {"lines": [], "texts": [], "patches": 0, "collections": 0, "xlabel": "", "ylabel": "", "title": "", "legend": False, "view": None}
                ctx.check(len(fig.axes) == 1, "extra-artists", lambda: f"{what}: {len(fig.axes)} axes in the new figure")
            ctx.check(fig is ax.figure, "wrong-figure-returned", what)
            s = state_of(ax)
            ctx.check(s["lines"][: len(old["lines"])] == old["lines"], "earlier-curve-changed", what)
            ctx.check(len(s["lines"]) == len(old["lines"]) + 1, "number-of-curves", lambda: f"{what}: {len(s['lines']) - len(old['lines'])} curves instead of 1")
            if k == "fd":
                x, y = np.asarray(lab.arrays[j][0]), np.asarray(lab.arrays[j][1])
            elif op["what"] == "exp":
                x = 1 + np.asarray(lab.arrays[j][0]) / lab.setup["length"]
                y = np.asarray(lab.arrays[j][1]) / lab.setup["area"]
            else:
                x, y = sim_curve(lab, j)
            name = lab.setup.get("titles", [None] * 3)[j]
            if k == "fd" or op["what"] == "exp":
                name = obj.label
                ctx.check(name == ("E" if lab.setup.get("samelabel") else f"E{j}-{lab.setup['lcs'][j]}"), "label-wrong", lambda: f"{what}: the experiment has the label {name!r}")
            elif name is None:
                name = DEFAULT[lab.setup["lcs"][j]]
            label = op["label"] if op["label"] is not None else name
            check_line(what, s["lines"][-1], x, y, label)
            xl = op["xlabel"] or (XSS if k == "ss" else XFD)
            yl = op["ylabel"] or (YSS if k == "ss" else YFD)
            ctx.check(s["xlabel"] == xl and s["ylabel"] == yl, "axis-title-wrong", lambda: f"{what}: {s['xlabel']!r}, {s['ylabel']!r} instead of {xl!r}, {yl!r}")
            for key in ("texts", "patches", "collections", "title", "legend"):
                ctx.check(s[key] == old[key], "extra-artists", lambda: f"{what}: {key} changed from {old[key]} to {s[key]}")
            if q is not None:
                ctx.check(s["view"] == old["view"], "axes-changed", lambda: f"{what}: {old['view']} -> {s['view']}")
                q[1] = s
            else:
                register(fig)
            ctx.check(contents() == before, "data-changed", what)
        elif k == "opt":
            lab = labs[op["lab"] % len(labs)]
            with np.errstate(all="ignore"):
                if op["fit"]:
                    lab.opt.curve_fit()
                elif not hasattr(lab.opt, "residuals"):
                    lab.opt.init_curve_fit()
                before = contents()
                interfere(op)
                fig, ax = lab.opt.plot(title=op["title"])
                fail["inner"] = None
            nplots += 1
            audit(what, target=ax, new_figs=1)
            ctx.check(find(ax) is None, "plotted-on-old-axes", what)
            ctx.check(fig is ax.figure, "wrong-figure-returned", what)
            ctx.check(len(fig.axes) == 1, "extra-artists", lambda: f"{what}: {len(fig.axes)} axes")
            s = state_of(ax)
            m = len(lab.experiments)
            ctx.check(len(s["lines"]) == 2 * m, "number-of-curves", lambda: f"{what}: {len(s['lines'])} curves instead of {2 * m}")
            left = list(s["lines"])
            for j in range(m):
                e = lab.experiments[j]
                x, y = sim_curve(lab, j)
                cand = [ln for ln in left if ln[2] == e.label]
                cand = [ln for ln in cand if shows(ln, x, y)] or cand
                ctx.check(len(cand) == 1 or lab.setup.get("samelabel") and cand, "label-wrong", lambda: f"{what}: {len(cand)} curves with label {e.label!r}")
                check_line(what + f" simulation {j}", cand[0], x, y, e.label)
                left.remove(cand[0])
                lbl = f"{e.label} (Experiment)"
                cand = [ln for ln in left if ln[2] == lbl]
                x = 1 + np.asarray(lab.arrays[j][0]) / lab.setup["length"]
                y = np.asarray(lab.arrays[j][1]) / lab.setup["area"]
                cand = [ln for ln in cand if shows(ln, x, y)] or cand
                ctx.check(len(cand) == 1 or lab.setup.get("samelabel") and cand, "label-wrong", lambda: f"{what}: {len(cand)} curves with label {lbl!r}")
                check_line(what + f" experiment {j}", cand[0], x, y, lbl)
                left.remove(cand[0])
            ctx.check(s["xlabel"] == XSS and s["ylabel"] == YSS, "axis-title-wrong", lambda: f"{what}: {s['xlabel']!r}, {s['ylabel']!r}")
            ctx.check(s["title"] == (op["title"] or ""), "axis-title-wrong", lambda: f"{what}: title {s['title']!r}")
            ctx.check(s["legend"], "legend-missing", what)
            text = " ".join(s["texts"])
            for name, v in zip(lab.labels, np.asarray(lab.opt.parameters, dtype=float)):
                ctx.check(f"{name} = {v:1.2g}" in text, "annotation-wrong", lambda: f"{what}: parameter {name} = {v:1.2g} is not stated in {text!r}")
            for v in np.asarray(lab.opt.errors, dtype=float):
                ctx.check(f"{2 * v:1.2g}" in text, "annotation-wrong", lambda: f"{what}: error {2 * v:1.2g} is not stated in {text!r}")
            norm = f"{np.linalg.norm(lab.opt.residuals):1.4g}"
            ctx.check(norm in text, "annotation-wrong", lambda: f"{what}: norm of residuals {norm} is not stated in {text!r}")
            ctx.check(contents() == before, "data-changed", what)
            register(fig)
        elif k == "subplots":
            fig, _ = plt.subplots(1, op["n"])
            figs[:] = plt.get_fignums()
            register(fig)
        elif k == "many":
            for _ in range(op["n"]):
                fig = plt.figure()
                fig.add_subplot()
                register(fig)
            figs[:] = plt.get_fignums()
            ctx.count("fault:many_open_figures")
        elif k == "figure":
            if op["pyplot"]:
                fig = plt.figure()
            else:
                fig = Figure()
                fig.add_subplot()
            figs[:] = plt.get_fignums()
            register(fig)
        elif k == "sca":
            q = pick(op["ax"])
            if q is not None and q[0].figure in [plt.figure(m) for m in figs]:
                plt.sca(q[0])
        elif k == "close":
            if figs:
                num = figs[op["fig"] % len(figs)]
                fig = plt.figure(num)
                for q in axes:
                    if q[0].figure is fig:
                        q[1] = None
                plt.close(num)
                figs[:] = plt.get_fignums()
        elif k == "fail":
            lab = labs[op["lab"] % len(labs)]
            j = op["k"] % len(lab.experiments)
            q = pick(op["ax"])
            kw = {"ax": q[0]} if q is not None else {}
            e, s = lab.experiments[j], lab.simulations[j]
            undo = None
            fn, args = (lambda: (s.plot_stress_stretch(**kw))), None
            if op["which"] == "fd":
                fn = lambda: e.plot_force_displacement(**kw)  # noqa: E731
            if op["how"] == "material":
                fail["on"] = True
                if op["which"] == "opt" and hasattr(lab.opt, "residuals"):
                    fn = lambda: lab.opt.plot()  # noqa: E731
                    kw, q = {}, None
                else:
                    fn = lambda: s.plot_stress_stretch(**kw)  # noqa: E731
            elif op["how"] == "kwarg":
                kw["unknown_property"] = 1
            elif op["how"] == "shape":
                if op["which"] == "fd":
                    undo = (e, "displacement", e.displacement)
                    e.displacement = e.displacement[:3]
                else:
                    undo = (e, "stretch", e.stretch)
                    e.stretch = e.stretch[:3]
                    fn = lambda: e.plot_stress_stretch(**kw)  # noqa: E731
            else:
                kw["ax"] = "not axes"
                q = None
            err = None
            try:
                fn()
            except Exception as x:
                err = x
            fail["on"] = False
            if undo:
                setattr(*undo)
            what += f" {op['how']} {op['which']}"
            ctx.count(f"fault:{op['how']}")
            ctx.check(err is not None, "failure-swallowed", what)
            if op["how"] == "material":
                ctx.check(isinstance(err, MaterialFault), "failure-replaced", lambda: f"{what}: {type(err).__name__}: {err}")
            audit(what, target=q[0] if q is not None else None, tolerate=q is None)
            if q is not None:
                q[1] = state_of(q[0])
            for num in figs:
                if all(a[0].figure is not plt.figure(num) for a in axes):
                    register(plt.figure(num))
            ctx.check(contents() == before, "data-changed", what)
        elif k == "params":
            lab = labs[op["lab"] % len(labs)]
            j = op["k"] % len(lab.simulations)
            g = np.random.default_rng([op["seed"], 4])
            p = g.uniform(0.05, 0.5, len(MODELS[lab.setup["kind"]][0]))
            if op.get("of", "sim") == "sim":
                lab.simulations[j].parameters = p
            elif op["of"] == "opt":
                lab.opt.parameters = p
            else:
                lab.opt.parameters[j % len(p)] = p[0]
        ctx.trace(k, op.get("what"), op.get("ax") is None, op.get("how"), op.get("which"), op.get("label"))
        ctx.log(n, k, len(axes), len(figs))
    ctx.nontrivial = nplots >= 2
    ctx.count("plots_compared", nplots)
    ctx.sim_steps = len(plan["ops"])
    plt.close("all")


def shrink(plan):
    yield from shrink_lists(plan, ["ops"])


__all__ = ["umodels", "same"]
