"""Replay one recorded counterexample against the real code; exit 1 if it fails there."""
import json
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from pyvc import native  # noqa: E402


def main():
    import logging
    j = json.load(open(sys.argv[1]))
    sys.path.insert(0, os.environ.get("PYVC_ROOT", "/repo"))
    logging.disable(logging.CRITICAL + 10)
    spec = native.load(j["property"])[j["harness"]]
    param = None if j["param"] is None else native.params_of(spec)[j["param"]]
    h, st = native.run_one(spec, param, j["draws"], random.Random(1))
    print(j["property"], j["harness"], j.get("param_value"), "->", st)
    for lab, det in h.failures:
        print("failed:", lab)
        print(det)
    return 1 if st == "fail" else 0


sys.exit(main())
