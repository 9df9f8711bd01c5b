#!/usr/bin/env python3
"""check.py ID: decide one property from /repo's current source (see DESIGN.md)."""
import os
import sys
import threading
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from sa import core
    from sa.registry import rules_for
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return core.run_check(pid, rules_for(pid), tier, seed)
    except core.AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid}: internal error")
        return 2


if __name__ == "__main__":
    sys.setrecursionlimit(12000)
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
