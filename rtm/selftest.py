"""The monitors themselves must fire on a known-bad execution and stay quiet on a good one."""
import importlib
import os

import numpy as np

from . import core, watch


def main():
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")
    n = 0
    for f in sorted(os.listdir(here)):
        if f.startswith("c") and f.endswith(".py"):
            importlib.import_module(f"rtm.props.{f[:-3]}")
            n += 1
    a = np.arange(6.0)
    b = np.arange(12.0)[::2]
    good, bad = core.Rec(), core.Rec()
    with watch.unchanged(good, "k", a=a, b=b):
        a + 1
    with watch.unchanged(bad, "k", a=a, b=b):
        a[2] += 1
        b.base[1] = 7  # a neighbour of the view
    assert not good.violations and len(bad.violations) == 2, (good.violations, bad.violations)
    r = core.Rec()
    r.equal([1.0, np.nan], [1.0, np.nan], "same")
    assert not r.violations
    r.equal([1, 2], [1, 3], "differs")
    r.close(np.ones(3), np.ones((3, 1)), "shape")
    r.rejects("accepts", lambda: 1)
    assert [v["key"] for v in r.violations] == ["differs", "shape", "accepts"], r.violations
    s = watch.global_rng_state()
    assert s == watch.global_rng_state()
    np.random.rand()
    assert s != watch.global_rng_state()
    print(f"self-test: {n} property modules, monitors fire as they should")
    return 0
