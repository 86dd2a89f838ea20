"""P03: decompositions are inverted exactly by their transpose: wavelets, Fourier, SVD."""

import numpy as np

from vf.ctx import case


def roundtrip(c, A, lim=1.0):
    x = c.array("x", tuple(int(i) for i in A.dir_shape), -lim, lim)
    y = A(x)
    c.shape("coeffs_shape", y, A.adj_shape)
    r = A.T(y)
    c.shape("rec_shape", r, A.dir_shape)
    c.close("perfect_reconstruction", r, x, tol=1e-4)
    return x, y


@case("P03", params=[dict(shape=s, w=w, lvl=l, ax=a, norm=n) for s, w, l, a, n in (
    ((8,), "db1", 1, None, True), ((8,), "db1", 2, None, False), ((4, 4), "db1", 2, None, True), ((2, 8), "db2", 1, (-1,), True),
    ((8,), "db2", 2, None, True), ((8,), "bior2.2", 1, None, False), ((4, 2, 4), "db1", 1, (0, 2), True), ((4, 4, 4), "db1", 2, None, True))])
def stationary(c, shape, w, lvl, ax, norm):
    from corrct import operators as ops

    roundtrip(c, ops.TransformStationaryWavelet(shape, w, lvl, axes=ax, normalized=norm))


@case("P03", params=[dict(shape=s, w=w, lvl=l, ax=a, pad=p) for s, w, l, a, p in (
    ((5,), "db1", 1, None, "edge"), ((5,), "db1", 2, None, "constant"), ((3, 5), "db1", 1, None, "edge"), ((3, 6), "db1", 2, (-1,), "reflect"),
    ((7,), "db2", 2, None, "edge"), ((3, 4), "db1", 2, None, "wrap"), ((3, 2, 5), "db1", 1, (0, -1), "edge"))])
def stationary_padded(c, shape, w, lvl, ax, pad):
    """Sizes that are not a multiple of 2**level are padded on demand and cropped back."""
    from corrct import operators as ops

    roundtrip(c, ops.TransformStationaryWavelet(shape, w, lvl, axes=ax, pad_on_demand=pad))


@case("P03", params=[dict(shape=s, w=w, lvl=l, ax=a, pad=p) for s, w, l, a, p in (
    ((8,), "db1", 1, None, None), ((8,), "db1", 3, None, "constant"), ((7,), "db1", 2, None, "constant"), ((8,), "db2", 1, None, "zero"),
    ((4, 4), "db1", 2, None, None), ((3, 5), "db1", 1, None, "constant"), ((3, 6), "db1", 1, (-1,), "symmetric"), ((6,), "db2", 2, None, "periodic"),
    ((7, 5), "db2", 1, None, "zero"), ((4, 2, 4), "db1", 1, (0, 2), "constant"), ((3, 4), "db1", 1, None, "constant"), ((8,), "db2", 1, None, "periodization"),
    ((6, 8), "db2", 1, (1,), "periodization"))])
def decimated(c, shape, w, lvl, ax, pad):
    from corrct import operators as ops

    kw = {} if pad is None else dict(pad_on_demand=pad)
    roundtrip(c, ops.TransformDecimatedWavelet(shape, w, lvl, axes=ax, **kw))


@case("P03")
def decimated_adjoint_first(c):
    """The inverse works on an operator that never ran forward."""
    from corrct import operators as ops

    A = ops.TransformDecimatedWavelet((8,), "db1", 2, pad_on_demand="constant")
    B = ops.TransformDecimatedWavelet((8,), "db1", 2, pad_on_demand="constant")
    y = c.array("y", tuple(int(i) for i in A.adj_shape), -1, 1)
    r1 = A.T(y)
    B(np.ones(8))
    c.close("same_inverse", r1, B.T(y))


@case("P03", params=[dict(shape=s, ax=a) for s, a in (((4,), None), ((3, 2), None), ((2, 4), -1), ((2, 3, 2), (0, 2)))])
def fourier(c, shape, ax):
    from corrct import operators as ops

    A = ops.TransformFourier(shape, axes=ax)
    x, y = roundtrip(c, A)
    c.close("energy", (y * y).sum(), (x * x).sum(), tol=1e-4)


@case("P03", params=[dict(shape=s, rows=r, cols=cc, rescale=q) for s, r, cc, q in (
    ((2, 2), (0,), (-1,), False), ((2, 3), (0,), (-1,), True), ((3, 2), (0,), (1,), True), ((2, 2, 2), (0,), (-2, -1), False),
    ((2, 2, 2), (1,), (-1,), True), ((2, 3, 2), (2,), (0, 1), False), ((1, 2, 3), (1,), (-1,), True), ((1, 3, 1), (1,), (-1,), True))])
def svd(c, shape, rows, cols, rescale):
    """np.linalg.svd enters as its contract: U diag(s) Vt equals its argument."""
    from corrct import operators as ops

    roundtrip(c, ops.TransformSVD(shape, axes_rows=rows, axes_cols=cols, rescale=rescale))
