"""Material models of the simulated users: the callbacks the library calls back into.

All are written from the templates in the README.  ``probe`` (if set) is called at every
entry with (method, arguments) and may raise: it is the user-callback fault seam.
"""

import numpy as np

PROBE = None


def _probe(model, method, args):
    if PROBE is not None:
        PROBE(model, method, args)


class UserPoly:
    """Full quadratic polynomial in the invariants, absent terms are None.

    psi = a.(I-I0) + 1/2 (I-I0).B.(I-I0)
    """

    def __init__(self, a, B, I0=(3.0, 3.0, 1.0), scale=1.0):
        self.a = [float(x) * scale for x in a]
        self.B = [[float(x) * scale for x in row] for row in B]
        self.I0 = I0

    def _used(self, i):
        return self.a[i] != 0 or any(self.B[i][j] != 0 for j in range(3))

    def gradient(self, I1, I2, I3, statevars):
        _probe(self, "gradient", (I1, I2, I3, statevars))
        d = [I1 - self.I0[0], I2 - self.I0[1], I3 - self.I0[2]]
        out = []
        for i in range(3):
            if not self._used(i):
                out.append(None)
                continue
            g = self.a[i]
            for j in range(3):
                if self.B[i][j] != 0:
                    g = g + self.B[i][j] * d[j]
            out.append(g)
        return (*out, statevars)

    def hessian(self, I1, I2, I3, statevars_old):
        _probe(self, "hessian", (I1, I2, I3, statevars_old))
        B = self.B
        return [
            B[i][j] if B[i][j] != 0 else None
            for i, j in [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
        ]


class UserDamage:
    """Invariant-based softening with the largest I1 reached as the state variable.

    psi_1 = g(z) (C10 + 2 C20 (I1 - I10)), psi_2 = g(z) C01, psi_3 = C3 (I3 - 1)
    z_new = max(z_old, I1 - I10), g = 1 - a (1 - exp(-z/b))
    """

    def __init__(self, C10, C01, C20, C3, a, b, I10=3.0, nstate=1):
        self.C10, self.C01, self.C20, self.C3 = C10, C01, C20, C3
        self.a, self.b, self.I10 = a, b, I10
        self.nstate = nstate

    def _state(self, I1, z):
        zn = np.maximum(z, I1 - self.I10)
        e = np.exp(-zn / self.b)
        return zn, 1 - self.a * (1 - e), -self.a / self.b * e

    def gradient(self, I1, I2, I3, statevars):
        _probe(self, "gradient", (I1, I2, I3, statevars))
        zn, g, dg = self._state(I1, statevars[0])
        dWdI1 = g * (self.C10 + 2 * self.C20 * (I1 - self.I10))
        dWdI2 = g * self.C01 if self.C01 else None
        dWdI3 = self.C3 * (I3 - 1) if self.C3 else None
        new = np.array(np.broadcast_arrays(zn, *[s for s in statevars[1:]]))
        if len(new) > 1:
            new[1] = new[1] + I1  # an accumulating variable: must advance once per step
        return dWdI1, dWdI2, dWdI3, new

    def hessian(self, I1, I2, I3, statevars_old):
        _probe(self, "hessian", (I1, I2, I3, statevars_old))
        z = statevars_old[0]
        zn, g, dg = self._state(I1, z)
        load = (I1 - self.I10) > z
        w1 = self.C10 + 2 * self.C20 * (I1 - self.I10)
        d11 = g * 2 * self.C20 + load * dg * w1
        d12 = None
        return d11, None, (self.C3 if self.C3 else None), d12, None, None


class UserStretch:
    """Stretch-based model written from the README template (lists of components).

    dpsi/dlam_a = g(z) mu lam_a^(k-1), z_new = max(z_old, sum lam - 3)
    """

    def __init__(self, mu, k, a=0.0, b=1.0, arrays=False, cross=0.0):
        self.mu, self.k, self.a, self.b = mu, k, a, b
        self.arrays = arrays
        self.cross = cross

    def _g(self, lam, z):
        s = lam[0] + lam[1] + lam[2] - 3
        zn = np.maximum(z, s) if z is not None else s
        return zn, 1 - self.a * (1 - np.exp(-zn / self.b))

    def gradient(self, lam, statevars):
        _probe(self, "gradient", (lam, statevars))
        z = statevars[0] if self.a else None
        g = 1.0
        new = statevars
        if self.a:
            zn, g = self._g(lam, z)
            new = np.array([zn])
        out = [g * self.mu * lam[i] ** (self.k - 1) for i in range(3)]
        if self.cross:
            s = lam[0] + lam[1] + lam[2] - 3
            out = [o + self.cross * s for o in out]
        if self.arrays:
            return np.array(out), new
        return out, new

    def hessian(self, lam, statevars_old):
        _probe(self, "hessian", (lam, statevars_old))
        z = statevars_old[0] if self.a else None
        g = 1.0
        if self.a:
            zn, g = self._g(lam, z)
        d = [g * self.mu * (self.k - 1) * lam[i] ** (self.k - 2) for i in range(3)]
        m = [None, None, None]
        if self.cross:
            d = [x + self.cross for x in d]
            m = [self.cross + 0 * lam[0]] * 3
        if self.arrays:
            z0 = 0 * lam[0]
            return np.array([*d, *[z0 if x is None else x for x in m]])
        return (*d, *m)


class State:
    """State variables as an object of the user."""

    def __init__(self, z):
        self.z = z


class Protocol:
    """A stateful model with checks of the state protocol.

    Wraps UserDamage/UserStretch, packs the state in the form a user might choose, and
    (``frozen``) ignores what it is given and uses a state of its own instead.
    """

    def __init__(self, inner, form="array", frozen=None, use=None):
        self.inner = inner
        self.form = form
        self.use = use
        self.frozen = frozen
        self.last_new = None
        self.log = []

    @staticmethod
    def pack(z, form):
        if form == "list":
            return [np.array(x) for x in z]
        if form == "tuple":
            return tuple(np.array(x) for x in z)
        if form == "dict":
            return {"z": np.array(z)}
        if form == "f32":
            return np.array(z, dtype=np.float32)
        if form == "object":
            return State(np.array(z))
        return np.array(z)

    @staticmethod
    def unpack(s, form):
        if form == "object":
            return s.z
        return s["z"] if form == "dict" else s

    def old(self, s, kin):
        """The old state; None is a virgin material."""
        if s is None:
            like = kin[0] if isinstance(self.inner, UserStretch) else kin
            return np.zeros((getattr(self.inner, "nstate", 1), *np.shape(like)))
        return self.unpack(s, self.form)

    def gradient(self, *args):
        _probe(self, "gradient", args)
        *kin, s = args
        z = self.frozen if self.frozen is not None else self.old(s, kin[0])
        self.log.append(("gradient", self.use))
        *d, new = self.inner.gradient(*kin, z)
        self.last_new = self.pack(new, self.form)
        return (*d, self.last_new)

    def hessian(self, *args):
        _probe(self, "hessian", args)
        *kin, s = args
        z = self.frozen if self.frozen is not None else self.old(s, kin[0])
        return self.inner.hessian(*kin, z)


class OwnInvariants:
    """Returns arrays it keeps (and checks), or the very arrays it was given.

    psi = a.I + 1/2 I1^2 (with ``passin``)
    """

    def __init__(self, a, passin=False, form="array", fresh=False):
        self.a = list(a)
        self.passin = passin
        self.form = form
        self.fresh = fresh
        self.owned = []  # (array, contents at creation)
        self.cache = {}

    def const(self, value, like):
        shape = np.shape(like)
        if self.fresh:
            return np.full((1,) * len(shape) if self.form == "small" else shape, float(value))
        key = (value, shape)
        if key not in self.cache:
            A = np.full(shape, float(value))
            if self.form == "ro":
                A.setflags(write=False)
            elif self.form == "bc":
                A = np.broadcast_to(np.array(float(value)), shape)
            elif self.form == "small":
                A = np.full((1,) * len(shape), float(value))
            self.cache[key] = A
            self.owned.append((A, A.tobytes()))
        return self.cache[key]

    def intact(self):
        return all(A.tobytes() == b for A, b in self.owned)

    def gradient(self, I1, I2, I3, statevars):
        _probe(self, "gradient", (I1, I2, I3, statevars))
        if self.passin:
            d1 = np.array(I1) if self.fresh else I1
        else:
            d1 = self.const(self.a[0], I1)
        d2 = self.const(self.a[1], I1) if self.a[1] else None
        d3 = self.const(self.a[2], I1) if self.a[2] else None
        return d1, d2, d3, statevars

    def hessian(self, I1, I2, I3, statevars_old):
        _probe(self, "hessian", (I1, I2, I3, statevars_old))
        d11 = self.const(1.0, I1) if self.passin else None
        d12 = self.const(0.0, I1) if self.a[1] else None
        return d11, None, None, d12, None, None


class OwnStretches(OwnInvariants):
    """As before in the principal stretches: psi = a0 sum(lam) or 1/2 sum(lam^2)."""

    def gradient(self, lam, statevars):
        _probe(self, "gradient", (lam, statevars))
        lam = np.asarray(lam) if not isinstance(lam, (list, tuple)) else lam
        if self.passin:
            out = np.array(lam) if self.fresh else lam
        elif self.a[2]:
            out = self.const(self.a[0], np.asarray(lam))
        else:
            out = [self.const(self.a[0], lam[0]) for _ in range(3)]
        return out, statevars

    def hessian(self, lam, statevars_old):
        _probe(self, "hessian", (lam, statevars_old))
        v = 1.0 if self.passin else 0.0
        if self.a[2]:
            # the moduli as one array
            key = ("moduli", v, np.shape(lam[0]))
            if key not in self.cache or self.fresh:
                A = np.zeros((6, *np.shape(lam[0])))
                A[:3] = v
                if self.form == "ro":
                    A.setflags(write=False)
                self.cache[key] = A
                self.owned.append((A, A.tobytes()))
            return self.cache[key]
        d = [self.const(v, lam[0])] * 3
        z = self.const(0.0, lam[0])
        return [*d, z, z, z]


# -- strain energy functions for TorchModel -------------------------------------------
def t_yeoh(I1, I2, I3, C10, C20, C30):
    _probe("torch", "energy", ())
    return C10 * (I1 - 3) + C20 * (I1 - 3) ** 2 + C30 * (I1 - 3) ** 3


def t_mr(I1, I2, I3, C10, C01, C11):
    _probe("torch", "energy", ())
    return C10 * (I1 - 3) + C01 * (I2 - 3) + C11 * (I1 - 3) * (I2 - 3)


def t_nh(I1, I2, I3, mu, lmbda):
    _probe("torch", "energy", ())
    return mu / 2 * (I1 - 3) - mu / 2 * I3.log() + lmbda / 8 * I3.log() ** 2


def t_exp(I1, I2, I3, mu, b):
    _probe("torch", "energy", ())
    return mu / (2 * b) * ((b * (I1 - 3)).exp() - 1) + mu / 7 * (I2 - 3) * (I3 - 1)


TORCH = {"yeoh": t_yeoh, "mr": t_mr, "nh": t_nh, "exp": t_exp}
