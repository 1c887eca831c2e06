"""Mechanical extraction: the real functions of /repo are traced to jaxprs on every run."""
from __future__ import annotations
import os, sys
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
if SRC not in sys.path:
    sys.path.insert(0, SRC)
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import numpy as np
from jax import export

F64 = np.float64


def sds(shape=(), dtype=F64):
    return jax.ShapeDtypeStruct(shape, dtype)


_N = None


def symdim():
    """The symbolic grid length n (any n >= 2)."""
    global _N
    if _N is None:
        _N, = export.symbolic_shape("n", constraints=("n >= 2",))
    return _N


def trace(fn, *avals):
    return jax.make_jaxpr(fn)(*avals)


def count_eqns(jaxpr):
    n = 0
    for e in jaxpr.eqns:
        n += 1
        for v in e.params.values():
            for j in (v if isinstance(v, (tuple, list)) else (v,)):
                if hasattr(j, "jaxpr"):
                    n += count_eqns(j.jaxpr)
                elif hasattr(j, "eqns"):
                    n += count_eqns(j)
    return n
