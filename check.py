#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decides one property from /repo's current sources."""
import sys, os, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(400000); threading.stack_size(512 * 1024 * 1024)


def main():
    from ppk import registry
    if len(sys.argv) < 2: print("usage: check.py ID"); return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    return registry.run(sys.argv[1], "thorough" if tier == "thorough" else "quick")


rc = [2]
def body():
    import traceback
    try: rc[0] = main()
    except SystemExit as e: rc[0] = e.code
    except BaseException: traceback.print_exc(); rc[0] = 2
t = threading.Thread(target=body); t.start(); t.join()
sys.stdout.flush()
sys.exit(rc[0])
