"""Self tests of the machinery.

--setup: the environment is complete (nothing is built: Python sources only).
(no argument): determinism of the simulator over seeds, worker counts and hash seeds.
"""

import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def setup():
    import importlib.util

    for m in ("numpy", "scipy", "matplotlib", "einsumt", "torch", "felupe"):
        if importlib.util.find_spec(m) is None:
            print("missing:", m)
            return 1
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    from sim.props.meta import META

    print("ready:", ", ".join(sorted(META)))
    return 0


def determinism(props, n=40):
    from sim import driver
    from sim.props.meta import META

    bad = 0
    for p in props or sorted(META):
        every = META[p].get("torch_every", 0)
        logs = []
        for workers, hs in ((8, "0"), (3, "5"), (8, "11")):
            pool = driver.Pool(p, workers, hashseed=hs, ntorch=1 if every else 0)
            try:
                res = pool.map(
                    [
                        {"id": i, "seed": 7_000_000 + i, "tier": "quick", "torch": bool(every) and i % every == every - 1}
                        for i in range(n)
                    ]
                )
            finally:
                pool.close()
            logs.append({r["id"]: (r.get("log"), r.get("error")) for r in res})
        diff = [i for i in logs[0] if len({log[i][0] for log in logs}) != 1 or logs[0][i][1]]
        bad += len(diff)
        print(p, "runs", n, "x 3, different event logs:", len(diff), diff[:5], flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        sys.exit(setup())
    sys.exit(determinism(sys.argv[1:]))
