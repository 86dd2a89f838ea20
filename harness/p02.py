"""P02: operator algebra: linearity, (A^T)^T = A, explicit matrix, absolute value, no side effects."""

import numpy as np

from vf.ctx import case

OPS = ["identity", "diag", "gradient", "gradient_ax", "laplacian", "conv", "conv2", "fourier", "swt", "swt2", "dwt", "matrix", "functions"]


def build(c, kind):
    from corrct import operators as ops
    from corrct import projectors

    if kind == "identity":
        return ops.TransformIdentity((2, 3))
    if kind == "diag":
        return ops.TransformDiagonalScaling((2, 3), c.array("sc", (2, 3), -3, 3))
    if kind == "gradient":
        return ops.TransformGradient((3, 3), pad_mode="constant")
    if kind == "gradient_ax":
        return ops.TransformGradient((2, 4), axes=(-1,), pad_mode="constant")
    if kind == "laplacian":
        return ops.TransformLaplacian((3, 3))
    if kind == "conv":
        return ops.TransformConvolution((5,), c.array("k", (3,), -2, 2), pad_mode="constant", flip_adjoint=True)
    if kind == "conv2":
        return ops.TransformConvolution((3, 4), c.array("k", (1, 3), -2, 2), pad_mode="constant", flip_adjoint=True)
    if kind == "fourier":
        return ops.TransformFourier((2, 3))
    if kind == "swt":
        return ops.TransformStationaryWavelet((4, 4), "db1", 1)
    if kind == "swt2":
        return ops.TransformStationaryWavelet((8,), "db2", 2)
    if kind == "dwt":
        return ops.TransformDecimatedWavelet((4, 4), "db1", 1)
    if kind == "matrix":
        return projectors.ProjectorMatrix(c.array("M", (4, 6), -2, 2), (2, 3), (2, 2))
    M = c.array("M", (4, 3), -2, 2)
    return ops.TransformFunctions((3,), (2, 2), lambda x: (M @ x.reshape(-1)).reshape((2, 2)), lambda y: M.T @ y.reshape(-1))


def sh(s):
    return tuple(int(i) for i in s)


@case("P02", params=[dict(kind=k) for k in OPS])
def linearity(c, kind):
    A = build(c, kind)
    x1, x2 = c.array("x1", sh(A.dir_shape), -1, 1), c.array("x2", sh(A.dir_shape), -1, 1)
    y1, y2 = c.array("y1", sh(A.adj_shape), -1, 1), c.array("y2", sh(A.adj_shape), -1, 1)
    a = c.real("a", -2, 2)
    c.close("forward", A(a * x1 + x2), a * A(x1) + A(x2), tol=1e-4)
    c.close("transpose", A.T(a * y1 + y2), a * A.T(y1) + A.T(y2), tol=1e-4)
    c.close("zero", A(np.zeros(sh(A.dir_shape))), 0.0)


@case("P02", params=[dict(kind=k) for k in OPS])
def involution(c, kind):
    A = build(c, kind)
    x = c.array("x", sh(A.dir_shape), -1, 1)
    y = c.array("y", sh(A.adj_shape), -1, 1)
    x0, y0 = x.copy(), y.copy()
    At, Att, Attt = A.T, A.T.T, A.T.T.T
    c.check("shape_t", tuple(At.shape) == (A.shape[1], A.shape[0]))
    c.check("shape_tt", tuple(Att.shape) == tuple(A.shape))
    Ax, Aty = A(x), At(y)
    c.close("double_transpose", Att(x), Ax)
    c.close("triple_transpose", Attt(y), Aty)
    c.close("adjoint_is_transpose", A.H(y), Aty)
    c.close("mul_forward", A * x.flatten(), Ax.flatten(), tol=1e-4)
    c.close("mul_transpose", At * y.flatten(), Aty.flatten(), tol=1e-4)
    c.close("transposed_rmatvec", At.rmatvec(x.flatten()), Ax.flatten(), tol=1e-4)
    c.close("rmatvec_tt", Att.rmatvec(y.flatten()), Aty.flatten(), tol=1e-4)
    c.close("x_untouched", x, x0)
    c.close("y_untouched", y, y0)


@case("P02", params=[dict(kind=k) for k in OPS])
def explicit(c, kind):
    A = build(c, kind)
    x = c.array("x", sh(A.dir_shape), -1, 1)
    y = c.array("y", sh(A.adj_shape), -1, 1)
    E = A.explicit()
    c.shape("eshape", E, A.shape)
    c.close("explicit_is_operator", E @ x.flatten(), A(x).flatten(), tol=1e-4)
    Et = A.T.explicit()
    c.shape("etshape", Et, (A.shape[1], A.shape[0]))
    c.close("explicit_t_is_transpose_operator", Et @ y.flatten(), A.T(y).flatten(), tol=1e-4)


@case("P02", params=[dict(kind=k) for k in ("diag", "conv", "conv2", "matrix", "convedge")])
def absolute(c, kind):
    """|A| is the operator whose matrix is the absolute value of that of A (zero padded convolutions), and its transpose is its adjoint."""
    from corrct import operators as ops

    if kind == "convedge":
        k = c.array("k", (3,), -2, 2)
        A = ops.TransformConvolution((5,), k, pad_mode="wrap", flip_adjoint=True)
        R = ops.TransformConvolution((5,), np.abs(k), pad_mode="wrap", flip_adjoint=True)
        x = c.array("x", (5,), -1, 1)
        c.close("abs_wrap", A.absolute()(x), R(x), tol=1e-4)
        c.close("abs_wrap_t", A.absolute().T(x), R.T(x), tol=1e-4)
        return
    A = build(c, kind)
    B = A.absolute()
    E, F = A.explicit(), B.explicit()
    c.close("abs_matrix", F, np.abs(E), tol=1e-4)
    x = c.array("x", sh(A.dir_shape), -1, 1)
    y = c.array("y", sh(A.adj_shape), -1, 1)
    c.close("abs_adjoint", (B(x) * y).sum(), (x * B.T(y)).sum(), tol=1e-4)
    c.close("original_kept", A(x).flatten(), E @ x.flatten(), tol=1e-4)


@case("P02")
def functions_symmetric(c):
    """TransformFunctions without an adjoint uses the function for both directions."""
    from corrct import operators as ops

    s = c.array("s", (3,), -2, 2)
    A = ops.TransformFunctions((3,), (3,), lambda x: s * x)
    x = c.array("x", (3,), -1, 1)
    c.close("sym", A.T(x), A(x))
    c.raises("abs_unsupported", AttributeError, A.absolute)


@case("P02", params=[dict(kind=k, dtype=d) for k in ("identity", "diag", "gradient", "gradient_ax", "laplacian", "conv", "fourier", "swt", "dwt", "matrix", "functions") for d in ("int64", "uint16")])
def integers(c, kind, dtype):
    """Images and data of integers, signed or not, are transformed as the numbers they are, in both directions; any numbers."""
    A = build(c, kind)
    x = c.intarray("x", sh(A.dir_shape), 0, 9, dtype=np.dtype(dtype))
    y = c.intarray("y", sh(A.adj_shape), 0, 9, dtype=np.dtype(dtype))
    c.close("direct", A(x), A(x * 1.0), tol=1e-4)
    c.close("adjoint", A.T(y), A.T(y * 1.0), tol=1e-4)
