"""Monitors wrapped around one call: argument contents, global random state."""
import contextlib
import hashlib
import random

import numpy as np
import torch

from .core import digest


def snapshot(o, depth=0, seen=None):
    """Content digest of an argument: arrays bitwise, containers and datasets by content."""
    if isinstance(o, np.ndarray):
        b = o
        while isinstance(getattr(b, "base", None), np.ndarray):
            b = b.base
        return ("nd", o.shape, str(o.dtype), o.strides, o.flags.writeable,
                digest(o), digest(b) if b is not o else None)
    if isinstance(o, torch.Tensor):
        return ("t", tuple(o.shape), str(o.dtype), o.requires_grad, digest(o.detach().cpu().numpy()))
    if isinstance(o, dict):
        return ("d", tuple((repr(k), snapshot(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snapshot(v, depth + 1) for v in o))
    if type(o).__name__ == "DomainAwareDataset":
        return ("dad", tuple(o.domain_names_.items()), tuple(snapshot(tuple(x)) for x in o.domains_))
    if type(o).__name__ == "DeepDADataset":
        return ("ddd", snapshot(o.as_dict()), o.has_weights)
    if type(o).__module__.startswith("pandas"):
        return ("pd", digest(o.to_numpy()), tuple(map(str, getattr(o, "columns", []))))
    return ("o", id(o)) if not isinstance(o, (int, float, str, bool, type(None))) else ("v", repr(o))


@contextlib.contextmanager
def unchanged(rec, key, **objs):
    """Every object handed to the call is bitwise the same afterwards, also when the call raises."""
    before = {k: snapshot(v) for k, v in objs.items()}
    try:
        yield
    finally:
        for k, v in objs.items():
            rec.event("arguments-watched")
            rec.expect(snapshot(v) == before[k], f"{key}:{k}", f"argument {k!r} was modified by the call", arg=v)


def global_rng_state():
    s = np.random.get_state()
    return digest(str(s[0]), s[1], s[2], s[3], s[4], repr(random.getstate()), torch.get_rng_state())


def scramble(rng):
    """Put the process-wide generators in an arbitrary state."""
    s = int(rng.integers(2**31 - 1))
    np.random.seed(s)
    random.seed(s + 1)
    torch.manual_seed(s + 2)
