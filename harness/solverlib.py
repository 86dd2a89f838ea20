"""Shared pieces of the solver harnesses: small systems and independent reference iterations."""

import contextlib
from unittest import mock

import numpy as np

MATS = dict(
    full=[[1.0, 0.5], [0.25, 1.0], [0.5, 2.0]],
    neg=[[1.0, -0.5], [0.5, 1.0]],
    wide=[[1.0, 0.5, 0.25], [0.0, 1.0, 2.0]],
    zrow=[[1.0, 1.0], [0.0, 0.0], [0.5, 1.0]],
    zcol=[[1.0, 0.0, 0.5], [2.0, 0.0, 1.0]],
    eye=[[1.0, 0.0], [0.0, 1.0]],
    three=[[1.0, 0.5, 0.0], [0.25, 1.0, 0.5], [0.0, 0.5, 2.0]],
)


def matrix(kind):
    return np.array(MATS[kind])


def op(M, vs=None, ps=None):
    from corrct import operators, projectors

    if isinstance(M, str):
        if M == "identity":
            return operators.TransformIdentity((2,))
        M = matrix(M)
    return projectors.ProjectorMatrix(M, vs or (M.shape[1],), ps or (M.shape[0],))


def solver(name, **k):
    from corrct import solvers

    return getattr(solvers, name)(leave_progress=False, **k)


def sart_funcs(M):
    """SART on a stack of single-ray 'angles': A(x, i) -> 1 detector pixel per angle."""

    def A(x, i):
        return np.array([M[i] @ x]) if not isinstance(x, np.ndarray) or x.dtype != object else (M[i] * x).sum()[None]

    def At(y, i):
        return M[i] * y[0]

    return A, At


@contextlib.contextmanager
def fixed_order(perm):
    """SART draws its row order at random: here it is an input."""
    with mock.patch("numpy.random.permutation", lambda n: np.array(perm)):
        yield


def order(c, n):
    p = c.permutation("order", n)
    return [int(c.concretize(p[i])) for i in range(n)]


def nz(t):
    """Scaling denominators: negligible entries count as one."""
    return np.where(t / np.max(t) < 1e-5, 1.0, t)


def scalings(M, bm=None, xm=None, extra=0.0, rt=1.0, rs=1.0):
    a = np.abs(M)
    bo = np.ones(M.shape[0]) if bm is None else bm
    xo = np.ones(M.shape[1]) if xm is None else xm
    tau = rt / nz(a.T @ bo + extra)
    sig = rs / nz(a @ xo)
    return tau, sig


def clamp(x, lo, hi, xm):
    if lo is not None:
        x = np.maximum(x, lo)
    if hi is not None:
        x = np.minimum(x, hi)
    if xm is not None:
        x = x * xm
    return x
