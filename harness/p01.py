"""P01: every linear operator and its transpose are adjoint: <A x, y> == <x, A^T y>."""

import numpy as np

from vf.ctx import case


def inner(a, b):
    return (np.asarray(a) * np.asarray(b)).sum()


def adjoint_check(c, A, tag="adj", lim=1.0, inside=None):
    x = c.array("x", tuple(int(s) for s in A.dir_shape), -lim, lim)
    y = c.array("y", tuple(int(s) for s in A.adj_shape), -lim, lim)
    if inside is not None:
        x = x * inside
        y = y * inside
    Ax = A(x)
    Aty = A.T(y)
    c.shape(tag + "_fshape", Ax, A.adj_shape)
    c.shape(tag + "_bshape", Aty, A.dir_shape)
    c.close(tag, inner(Ax, y), inner(x, Aty), tol=1e-4)
    # the same through the flattened scipy LinearOperator interface
    c.close(tag + "_matvec", A.matvec(x.flatten()), Ax.flatten(), tol=1e-4)
    c.close(tag + "_rmatvec", A.rmatvec(y.flatten()), Aty.flatten(), tol=1e-4)


S3 = [dict(shape=s) for s in ((3,), (2, 3), (2, 2, 2))]


@case("P01", params=S3)
def identity(c, shape):
    from corrct import operators as ops

    adjoint_check(c, ops.TransformIdentity(shape))


@case("P01", params=S3)
def diagonal(c, shape):
    from corrct import operators as ops

    adjoint_check(c, ops.TransformDiagonalScaling(shape, c.array("sc", shape, -3, 3)))


@case("P01", params=[dict(shape=s, ax=a) for s, a in (((4,), None), ((3, 4), None), ((3, 4), 0), ((2, 3, 2), (-2, -1)), ((2, 2, 3), (0, 2)))])
def gradient(c, shape, ax):
    from corrct import operators as ops

    adjoint_check(c, ops.TransformGradient(shape, axes=ax, pad_mode="constant"))


def interior(shape, axes, extra=()):
    m = np.zeros(shape)
    axes = range(-len(shape), 0) if axes is None else np.array(axes, ndmin=1)
    sl = [slice(None)] * len(shape)
    for a in axes:
        sl[a] = slice(1, -1)
    m[tuple(sl)] = 1
    return m


@case("P01", params=[dict(shape=s, ax=a, pad=p) for s, a, p in (((5,), None, "edge"), ((4, 4), None, "edge"), ((4, 4), -1, "wrap"), ((3, 4), (0, 1), "reflect"))])
def gradient_interior(c, shape, ax, pad):
    """Other boundary rules: adjoint for images and fields that vanish on the boundary."""
    from corrct import operators as ops

    adjoint_check(c, ops.TransformGradient(shape, axes=ax, pad_mode=pad), inside=interior(shape, ax))


@case("P01", params=[dict(shape=s, ax=a, pad=p) for s, a, p in (((4,), None, "constant"), ((3, 4), None, "constant"), ((3, 4), 0, "edge"), ((3, 3), None, "edge"), ((2, 3, 3), (-2, -1), "edge"))])
def laplacian(c, shape, ax, pad):
    from corrct import operators as ops

    adjoint_check(c, ops.TransformLaplacian(shape, axes=ax, pad_mode=pad))


@case("P01", params=[dict(shape=s, ks=k) for s, k in (((5,), (3,)), ((4, 3), (3, 3)), ((3, 4), (1, 3)), ((6,), (5,)), ((3, 3, 2), (3, 1, 1)))])
def convolution(c, shape, ks):
    from corrct import operators as ops

    k = c.array("k", ks, -2, 2)
    adjoint_check(c, ops.TransformConvolution(shape, k, pad_mode="constant", flip_adjoint=True))


@case("P01", params=[dict(shape=s, pad=p) for s, p in (((5,), "constant"), ((5,), "wrap"), ((4, 4), "constant"))])
def convolution_symmetric(c, shape, pad):
    from corrct import operators as ops

    h = c.array("k", (2,), -2, 2)
    k1 = np.stack([h[1], h[0], h[1]])
    k = k1 if len(shape) == 1 else k1[:, None] * k1[None, :]
    adjoint_check(c, ops.TransformConvolution(shape, k, pad_mode=pad))


@case("P01", params=[dict(shape=s, ax=a) for s, a in (((4,), None), ((3,), None), ((3, 2), None), ((2, 4), -1), ((2, 4), 0), ((2, 2, 3), (0, 2)))])
def fourier(c, shape, ax):
    from corrct import operators as ops

    adjoint_check(c, ops.TransformFourier(shape, axes=ax))


WL = [dict(shape=s, w=w, lvl=l, ax=a) for s, w, l, a in (
    ((8,), "db1", 1, None), ((8,), "db1", 2, None), ((4, 4), "db1", 1, None), ((4, 4), "db1", 2, None),
    ((8,), "db2", 1, None), ((2, 4), "db1", 1, (-1,)), ((8,), "sym2", 1, None))]


@case("P01", params=WL, thorough_params=[dict(shape=(8, 8), w="db1", lvl=2, ax=None), dict(shape=(2, 4, 4), w="db1", lvl=1, ax=(-2, -1)), dict(shape=(16,), w="db4", lvl=1, ax=None)])
def stationary_wavelet(c, shape, w, lvl, ax):
    from corrct import operators as ops

    adjoint_check(c, ops.TransformStationaryWavelet(shape, w, lvl, axes=ax))


@case("P01", params=[dict(shape=s, w=w, lvl=l, ax=a) for s, w, l, a in (
    ((8,), "db1", 1, None), ((8,), "db1", 2, None), ((4, 4), "db1", 2, None), ((8,), "db1", 3, None), ((2, 4), "db1", 1, (-1,)))])
def decimated_wavelet(c, shape, w, lvl, ax):
    from corrct import operators as ops

    adjoint_check(c, ops.TransformDecimatedWavelet(shape, w, lvl, axes=ax))


@case("P01", params=[dict(vs=(2, 3), ps=(4,)), dict(vs=(4,), ps=(2, 3))])
def projector_matrix(c, vs, ps):
    from corrct import projectors

    M = c.array("M", (int(np.prod(ps)), int(np.prod(vs))), -2, 2)
    adjoint_check(c, projectors.ProjectorMatrix(M, vs, ps))


@case("P01", params=[dict(vs=(3,), ps=(2, 2))])
def functions(c, vs, ps):
    from corrct import operators as ops

    M = c.array("M", (int(np.prod(ps)), int(np.prod(vs))), -2, 2)
    A = ops.TransformFunctions(vs, ps, lambda x: (M @ x.reshape(-1)).reshape(ps), lambda y: (M.T @ y.reshape(-1)).reshape(vs))
    adjoint_check(c, A)


@case("P01", params=[dict(shape=(3,))])
def gradient_edge(c, shape):
    """Default (edge) boundary rule, all images (known finding: only adjoint in the interior)."""
    from corrct import operators as ops

    adjoint_check(c, ops.TransformGradient(shape))


@case("P01", params=[dict(shape=(4,)), dict(shape=(3, 3))])
def convolution_edge(c, shape):
    """Default (edge) boundary rule, symmetric 3-point kernel, all images."""
    from corrct import operators as ops

    h = c.array("k", (2,), -2, 2)
    k = np.stack([h[1], h[0], h[1]])
    adjoint_check(c, ops.TransformConvolution(shape, k if len(shape) == 1 else k[:, None] * k[None, :]))


@case("P01", params=[dict(shape=(5,))])
def convolution_edge5(c, shape):
    """Default (edge) boundary rule, symmetric 5-point kernel, all images (known finding: only adjoint in the interior)."""
    from corrct import operators as ops

    h = c.array("k", (3,), -2, 2)
    adjoint_check(c, ops.TransformConvolution(shape, np.stack([h[2], h[1], h[0], h[1], h[2]])))
