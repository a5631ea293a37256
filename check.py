#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of the current /repo tree by static analysis."""
import os
import sys
import threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.setrecursionlimit(200000)


def run():
    from analyzer import check
    sys.exit(check.main(sys.argv[1:]))


if __name__ == "__main__":
    import resource
    if not os.environ.get("VERIF_STACK"):
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (1 << 29, resource.getrlimit(resource.RLIMIT_STACK)[1]))
        except Exception:
            pass
        os.environ["VERIF_STACK"] = "1"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    run()
