"""Replay one recorded input against the unmodified code, natively.

    python -m sx.replay FILE        exit 1 if the property fails on it
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sx import runner   # noqa: E402


def main():
    d = json.load(open(sys.argv[1]))
    sc = runner.Scratch()
    out = sys.stdout
    try:
        r = runner.run_native(d["property"], d["scenario"], d["inputs"], sc)
    finally:
        sc.close()
    sys.stdout = out
    print(json.dumps({"status": r.status, "message": r.msg, "trace": r.tb}))
    return 1 if r.status in ("fail", "crash", "hang") else 0


if __name__ == "__main__":
    sys.exit(main())
