#!/opt/venv/bin/python
"""replay.py FILE: run a recorded counterexample on the real code in /repo; exit 1 when it still fails."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import numpy  # noqa: F401,E402
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(6000)


def main():
    d = json.load(open(sys.argv[1]))
    mod = importlib.import_module("props." + d["property"].lower())
    from symex import harness as h
    env = h.replay(mod.scenario, d["config"], d["values"], d["salt"])
    for lab, info in env.failures[:5]:
        print(f"{d['property']} [{d['config']['name']}] {lab}: {str(h.jsonable(info))[:1200]}")
    if not env.failures:
        print("not reproduced")
    elif "-q" not in sys.argv:
        for ev in env.trace:
            print("   ", ev[0], str(h.jsonable(ev[1]))[:400])
    return 1 if env.reproduced else 0


if __name__ == "__main__":
    sys.exit(main())
