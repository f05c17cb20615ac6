"""Documented mechanics of the simulated solver (independent of the package).

Conversions of stresses and tangents of any configuration to the first Piola-Kirchhoff
stress and its derivative, and the documented strain energies.
"""

import numpy as np

from . import world
from .world import stretches

IDX = np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])


def tensor2(S):
    return S[IDX]


def tensor4(C4):
    return C4[IDX[:, :, None, None], IDX[None, None]]


def minv(F):
    return np.moveaxis(np.linalg.inv(np.moveaxis(F, (0, 1), (-2, -1))), (-2, -1), (0, 1))


def mdet(F):
    return np.linalg.det(np.moveaxis(F, (0, 1), (-2, -1)))


def to_P(s, F, stress):
    """First Piola-Kirchhoff stress of a stress in the configuration of a space."""
    trail = F.shape[2:]
    if not s["finalize"]:
        S = tensor2(np.broadcast_to(stress, (6, *trail)))
        return np.einsum("iI...,IJ...->iJ...", F, S)
    T = np.broadcast_to(stress, (3, 3, *trail))
    if s["area"] is None:
        # the area vector refers to the deformed configuration
        T = mdet(F) * np.einsum("Jj...,aj...->aJ...", minv(F), T)
    if s["force"] is not None:
        # the force vector refers to the undeformed configuration
        T = np.einsum("iI...,IJ...->iJ...", F, T)
    return np.array(T)


def to_A(s, F, tangent, stress):
    """Derivative of the first Piola-Kirchhoff stress with respect to F."""
    trail = F.shape[2:]
    if not s["finalize"]:
        C4 = tensor4(np.broadcast_to(tangent, (6, 6, *trail)))
        S = tensor2(np.broadcast_to(stress, (6, *trail)))
        A = np.einsum("iI...,kK...,IJKL...->iJkL...", F, F, C4)
        return A + np.einsum("ik,JL...->iJkL...", np.eye(3), S)
    A = np.broadcast_to(tangent, (3, 3, 3, 3, *trail))
    if s["area"] is None:
        Fi = minv(F)
        A = mdet(F) * np.einsum("Jj...,Ll...,ajbl...->aJbL...", Fi, Fi, A)
    if s["force"] is not None:
        A = np.einsum("iI...,kK...,IJKL...->iJkL...", F, F, A)
    return np.array(A)


# -- energies -------------------------------------------------------------------------
def inv_energy(m, I1, I2, I3):
    if m["k"] == "tod":
        p = {"C10": 0, "C01": 0, "C11": 0, "C20": 0, "C30": 0, **m["p"]}
        u = 0 if m.get("strain") else 3
        a, b = I1 - u, I2 - u
        return p["C10"] * a + p["C01"] * b + p["C11"] * a * b + p["C20"] * a**2 + p["C30"] * a**3
    if m["k"] == "poly":
        d = [I1 - 3, I2 - 3, I3 - 1]
        W = sum(a * x for a, x in zip(m["a"], d))
        return W + sum(m["B"][i][j] * d[i] * d[j] for i in range(3) for j in range(3)) / 2
    if m["k"] == "torch":
        p = m["p"]
        if m["fn"] == "yeoh":
            return p["C10"] * (I1 - 3) + p["C20"] * (I1 - 3) ** 2 + p["C30"] * (I1 - 3) ** 3
        if m["fn"] == "mr":
            return p["C10"] * (I1 - 3) + p["C01"] * (I2 - 3) + p["C11"] * (I1 - 3) * (I2 - 3)
        if m["fn"] == "nh":
            return p["mu"] / 2 * (I1 - 3) - p["mu"] / 2 * np.log(I3) + p["lmbda"] / 8 * np.log(I3) ** 2
        mu, b = p["mu"], p["b"]
        return mu / (2 * b) * (np.exp(b * (I1 - 3)) - 1) + mu / 7 * (I2 - 3) * (I3 - 1)
    raise ValueError(m["k"])


def str_energy(m, lam):
    if m["k"] == "gim":
        return gen_energy(m["inner"], m, lam)
    if m["k"] == "ogden":
        return sum(2 * mu / k**2 * (lam**k - 1).sum(axis=0) for mu, k in zip(m["mu"], m["alpha"]))
    W = m["mu"] / m["kk"] * (lam ** m["kk"]).sum(axis=0)
    return W + m["cross"] / 2 * (lam.sum(axis=0) - 3) ** 2


def strain_measures(fun, k):
    """(E(lambda), E0, E0', E0'') of a generalized strain or deformation."""
    if fun == "strain":
        return lambda x: (x**k - 1) / k, 0.0, 1.0, k - 1.0
    return lambda x: x**k, 1.0, float(k), k * (k - 1.0)


def gen_energy(m, f, lam):
    E, E0, d0, dd0 = strain_measures(f["fun"], f["exponent"])
    _, R0, r0, rr0 = strain_measures(f["fun"], 2)
    c1 = (rr0 + r0) / (dd0 + d0)
    c2 = (2 * R0 * (rr0 + r0) - r0**2) / (2 * E0 * (dd0 + d0) - d0**2)
    e = E(lam)
    J1 = e.sum(axis=0)
    J2 = e[0] * e[1] + e[1] * e[2] + e[0] * e[2]
    J3 = e[0] * e[1] * e[2]
    return inv_energy(m, c1 * (J1 - 3 * E0) + 3 * E0, c2 * (J2 - 3 * E0**2) + 3 * E0**2, J3)


def energy(spec, i, F):
    """Strain energy density of space i at a deformation gradient (3, 3, ...)."""
    s = spec["spaces"][i]
    f = spec["frameworks"][s["f"]]
    m = spec["models"][f["m"]]
    J = mdet(F)
    if s["k"] == "Distortional":
        F = J ** (-1 / 3) * F
    elif s["k"] == "Dilatational":
        F = np.eye(3).reshape(3, 3, *[1] * (F.ndim - 2)) * np.abs(J) ** (1 / 3)
    if f["k"] == "inv":
        return inv_energy(m, *world.invariants(F))
    lam = stretches(F)
    if f["k"] == "str":
        return str_energy(m, lam)
    return gen_energy(m, f, lam)


def scale_model(m, factor):
    """The same model in another unit system of the stress."""
    m = dict(m)
    if m["k"] == "tod":
        m["p"] = {k: v * factor for k, v in m["p"].items()}
    elif m["k"] == "poly":
        m["a"] = [v * factor for v in m["a"]]
        m["B"] = [[v * factor for v in r] for r in m["B"]]
    elif m["k"] == "ogden":
        m["mu"] = [v * factor for v in m["mu"]]
    elif m["k"] == "ustr":
        m["mu"] *= factor
        m["cross"] *= factor
    elif m["k"] == "gim":
        m["inner"] = scale_model(m["inner"], factor)
    elif m["k"] == "damage":
        for k in ("C10", "C01", "C20", "C3"):
            m[k] *= factor
    elif m["k"] == "torch":
        m["p"] = {k: v * (1 if k == "b" else factor) for k, v in m["p"].items()}
    return m
