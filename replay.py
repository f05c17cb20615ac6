"""replay.py <file>: run a recorded history again; exit 1 when it fails the same way."""

import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    from sim import driver

    with open(sys.argv[1]) as f:
        rec = json.load(f)
    torch = rec["plan"].get("torch")
    pool = driver.Pool(rec["property"], 1, ntorch=1 if torch else 0)
    try:
        r = pool.one({"id": 0, "plan": rec["plan"], "torch": torch})
    finally:
        pool.close()
    if r.get("error"):
        print(r["error"])
        os._exit(2)
    for e in r.get("events", []):
        print("  ", e)
    v = r.get("violation")
    if v:
        print(f"VIOLATION property={rec['property']} replay={sys.argv[1]}")
        print(f"  {v['kind']}: {v['detail']}")
        print(f"  same event log as recorded: {r.get('log') == rec.get('log')}")
        sys.stdout.flush()
        os._exit(1)
    print("the recorded history no longer fails")
    sys.stdout.flush()
    os._exit(0)
