#!/usr/bin/env python3
"""run_check.py <ID> [--tier quick|thorough] [--seed N] [--case NAME] [--replay FILE]

Decides one property by running the real code of /repo under the monitors in rtm/props.
"""
import os
import sys

ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
       "MKL_NUM_THREADS": "1", "NUMEXPR_NUM_THREADS": "1", "CUDA_VISIBLE_DEVICES": "", "PYTHONPATH": "/repo"}
PY = "/opt/venv/bin/python"
if os.environ.get("RTM_CHILD") != "1":
    env = dict(os.environ, RTM_CHILD="1", **ENV)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)

import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("RTM_REPO", "/repo")
sys.path.insert(0, REPO)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--idx", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        a.property, a.seed, a.case, a.idx = rp["property"], rp["seed"], [rp["case"]], rp["idx"]
    from rtm import core
    try:
        import skada
        import torch
        torch.set_num_threads(1)
        where = os.path.realpath(skada.__file__)
        assert where.startswith(os.path.realpath(REPO) + os.sep), f"skada imported from {where}"
        if a.self_test:
            from rtm import selftest
            return selftest.main()
        importlib.import_module(f"rtm.props.{a.property.lower()}")
    except Exception:
        import traceback
        tb = traceback.format_exc()
        # importing the library itself must work: a tree whose package cannot be imported
        # satisfies none of the properties, but the harness failing is not a verdict.
        print(tb)
        return 2
    if a.idx is not None:
        r = core.run_one(a.property, a.case[0], a.idx, a.seed)
        print(json.dumps(r, indent=1)[:20000])
        return 1 if r["violations"] else 0
    tasks, res, inc, wall = core.run_property(a.property, a.tier, a.seed, only=a.case, jobs=a.jobs, scale=a.scale)
    return core.finish(a.property, a.tier, a.seed, tasks, res, inc, wall, partial=bool(a.case))


if __name__ == "__main__":
    sys.exit(main())
