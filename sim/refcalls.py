"""Calls evaluated by fresh objects in a pristine process (see pristine.py)."""

import numpy as np

from . import world


def evaluate(spec, level, i, method, args, err=None):
    """One call on a freshly built object graph."""
    g, j = world.only(spec, level, i)
    obj = world.Graph(g).get(level, j)
    if err:
        with np.errstate(**err):
            return getattr(obj, method)(*args)
    return getattr(obj, method)(*args)


def double():
    """Double precision in torch, as the documentation recommends, from now on."""
    import torch

    torch.set_default_dtype(torch.float64)


def function(name, args, kwargs):
    """One call of a library function, name relative to the package."""
    return resolve(name)(*args, **kwargs)


def resolve(name):
    import hyperelastic as hel

    obj = hel
    for part in name.split("."):
        obj = getattr(obj, part)
    return obj


def count_events(spec, level, i, method, args, opcode, skip):
    """How many fault points (line or opcode events) one call passes."""
    from . import inject

    g, j = world.only(spec, level, i)
    obj = world.Graph(g).get(level, j)
    inj = inject.Injector(None, -1, opcode, skip)
    try:
        inj.call(getattr(obj, method), *args)
    except Exception:
        pass
    return inj.seen
