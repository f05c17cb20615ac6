"""Plans, runs, results: one seed is one exactly repeatable execution."""

import hashlib
import json
import random
from collections import Counter


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    """The machinery, not the code under test, is at fault."""


class Ctx:
    """What a run has at hand: the pristine reference, counters and the event log."""

    def __init__(self, ref, plan):
        self.ref = ref
        self.plan = plan
        self.counts = Counter()
        self.logh = hashlib.sha256()
        self.shape = hashlib.sha256()
        self.nlog = 0
        self.decisions = None
        self.sim_steps = 0
        self.sim_time = 0.0
        self.events = []
        self.nontrivial = False

    def log(self, *event):
        """Append to the event log (kept as a hash, plus the last events)."""
        s = repr(event)
        self.logh.update(s.encode())
        self.nlog += 1
        self.events.append(s if len(s) < 300 else s[:300])
        if len(self.events) > 40:
            self.events.pop(0)

    def trace(self, *key):
        """Append to the structural trace (interleaving / fault history) measure."""
        self.shape.update(repr(key).encode())

    def count(self, key, n=1):
        self.counts[key] += n

    def violate(self, kind, detail):
        raise Violation(kind, detail)

    def check(self, cond, kind, detail):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    # pristine evaluation -------------------------------------------------------
    def pristine(self, fn, *args, mod="sim.refcalls"):
        out = self.ref.call(mod, fn, *args)
        self.counts["pristine_evaluations"] += 1
        return out


def rng_for(prop, seed, tag=""):
    return random.Random(f"{prop}-{seed}-{tag}")


def dumps(obj):
    return json.dumps(obj, sort_keys=True, separators=(",", ":"))


# -- generic shrinking --------------------------------------------------------------
def chunks_removed(seq, minimum=0):
    """Smaller versions of a list: halves, quarters, ..., single elements removed."""
    n = len(seq)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            rest = seq[:a] + seq[a + size :]
            if len(rest) >= minimum and len(rest) < n:
                yield rest
        size //= 2
    if n == 1 and minimum == 0:
        yield []


def shrink_lists(plan, keys, minimum=1):
    for key in keys:
        if plan.get(key):
            m = minimum if key == "ops" else 0
            for smaller in chunks_removed(plan[key], m):
                q = dict(plan)
                q[key] = smaller
                yield q


def shrink_decisions(plan):
    """Fewer preemptions in a recorded schedule (forced switches stay)."""
    dec = plan.get("decisions")
    if not dec:
        return
    pre = [d for d in dec if d[1] == "p"]
    rest = [d for d in dec if d[1] != "p"]
    for smaller in chunks_removed(pre):
        q = dict(plan)
        q["decisions"] = smaller + rest
        yield q
    for smaller in chunks_removed(rest):
        q = dict(plan)
        q["decisions"] = pre + smaller
        yield q
