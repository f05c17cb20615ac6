"""check.py <property>: decide one property (VERIF_SEED, VERIF_TIER)."""

import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    from sim import driver

    try:
        code = driver.main(sys.argv[1])
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
