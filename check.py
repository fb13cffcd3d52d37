#!/usr/bin/env python3
"""Decide one property of /repo's current tree by static analysis.

usage: check.py <ID> [--tier quick|thorough]
exit 0: every obligation of the property holds or is not refuted; exit 1: "VIOLATION property=<ID> replay=<file>".
"""
import json, os, sys, time, traceback, hashlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    from sa import runner
    rc = runner.run(pid, tier, t0)
    sys.stdout.flush()
    global RC
    RC = rc

RC = 1
if __name__ == "__main__":
    th = threading.Thread(target=main)
    th.start(); th.join()
    sys.exit(RC)
