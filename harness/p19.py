"""P19: hyper-parameter tuning: order of the results, cross-validation masks, losses, and the fit of the minimum."""

import inspect

import numpy as np

from harness import sched
from harness.p16 import patched
from vf.ctx import case


def info(cv=1.0, n=1, it=None, r0=1.0):
    from corrct.solvers import SolutionInfo

    s = SolutionInfo("T", max_iterations=n, tolerance=None, residual0_cv=r0)
    s.residuals_cv = np.stack(list(cv)) if isinstance(cv, (list, tuple)) else np.stack([cv] * n)
    s.iterations = n if it is None else it
    return s


def mode(c, n, par, perm=None):
    """The evaluation mode: serial, threads, or a given executor, with every completion order."""
    if par == "serial":
        return False, sched.scheduled(None)
    perm = sched.order(c, n) if perm is None else perm
    if par == "exec":
        pool = sched.Pool(perm)
        return pool, sched.scheduled(perm, [pool])
    return (2 if par == "threads" else True), sched.scheduled(perm)


PARS = ("serial", "threads", "true", "exec")


@case("P19", params=[dict(par=p, init=i, n=n) for p in PARS for i in (True, False) for n in (3,)] + [dict(par="threads", init=True, n=1)])
def results_order(c, par, init, n):
    """The i-th reconstruction and information are those of the i-th hyper-parameter value, in serial and in parallel, for every completion order of the tasks, any values; both functions receive their keywords."""
    from corrct import param_tuning as pt

    hp = c.array("hp", (n,), -2, 2)
    a, k = c.array("a", (2,), -2, 2), c.real("k", -2, 2)
    pe, ctx = mode(c, n, par)
    lc = pt.LCurve(lambda rec: rec.sum(), parallel_eval=pe)
    seen = []

    def init_fun(h, shift=0.0):
        return (h, shift)

    def run(s, scale=1.0):
        h, sh = s if init else (s, 0.0)
        rec = a * h * scale + sh
        seen.append(rec)
        return rec, info(h)

    with ctx:
        if init:
            init_fun.__signature__ = inspect.signature(lambda h: h)  # the keywords do not count as parameters
            lc.task_init_function = init_fun
        lc.task_exec_function = run
        recs, infos, perf = lc.process_hp_vals(hp, init_fun_kwds=dict(shift=k) if init else None, exec_fun_kwds=dict(scale=k))
    c.check("counts", (len(recs), len(infos), len(perf.tasks_perf), len(seen)) == (n, n, n, n))
    for i in range(n):
        c.close(f"rec_{i}", recs[i], a * hp[i] * k + (k if init else 0.0), tol=1e-6)
        c.close(f"info_{i}", infos[i].residuals_cv[0], hp[i], tol=1e-6)


@case("P19", params=[dict(par=p, exc=e) for p in PARS for e in ("ValueError", "RuntimeError")])
def failures(c, par, exc):
    """A failing task makes the evaluation fail with its error, whichever value fails and in whichever order tasks complete."""
    from corrct import param_tuning as pt

    n = 3
    bad = int(c.concretize(c.integer("bad", 0, n - 1)))
    err = dict(ValueError=ValueError, RuntimeError=RuntimeError)[exc]
    pe, ctx = mode(c, n, par)
    lc = pt.LCurve(lambda rec: rec.sum(), parallel_eval=pe)

    def run(h):
        if int(h) == bad:
            raise err("failed")
        return np.ones(2), info()

    lc.task_exec_function = run
    with ctx:
        c.raises("fails", err, lambda: lc.process_hp_vals(np.arange(n)))


@case("P19", params=[dict(par=p) for p in PARS])
def lcurve(c, par):
    """L-curve losses are the loss function of each reconstruction, in the order of the values."""
    from corrct import param_tuning as pt

    n = 3
    hp, a = c.array("hp", (n,), 0.1, 2), c.array("a", (2,), -2, 2)
    pe, ctx = mode(c, n, par)
    lc = pt.LCurve(lambda rec: rec[0] - 2 * rec[1], parallel_eval=pe)
    lc.task_init_function = lambda h: h
    lc.task_exec_function = lambda h: (a + h, info(h))
    with ctx:
        f, recs, infos, perf = lc.compute_loss_values(hp, return_all=True)
        f2 = lc.compute_loss_values(hp)
    c.shape("shape", f, (n,))
    for i in range(n):
        r = a + hp[i]
        c.close(f"loss_{i}", f[i], r[0] - 2 * r[1], tol=1e-5)
        c.close(f"again_{i}", f2[i], f[i], tol=1e-5)
        c.close(f"rec_{i}", recs[i], r, tol=1e-6)


@case("P19", params=[dict(par=p) for p in ("serial", "threads")])
def errors(c, par):
    """Reconstruction errors are the l1 norms and squared l2 norms of the differences from the ground truth, in the order of the values."""
    from corrct import param_tuning as pt

    n = 2
    hp, a, g = c.array("hp", (n,), 0.1, 2), c.array("a", (2,), -2, 2), c.array("g", (2,), -2, 2)
    pe, ctx = mode(c, n, par)
    lc = pt.LCurve(lambda rec: rec[0], parallel_eval=pe)
    lc.task_exec_function = lambda h: (a * h, info(h))
    with ctx:
        e1, e2 = lc.compute_reconstruction_error(hp, g)
    for i in range(n):
        d = g - a * hp[i]
        c.close(f"l1_{i}", e1[i], np.abs(d).sum(), tol=1e-5)
        c.close(f"l2_{i}", e2[i], (d * d).sum(), tol=1e-4)


@case("P19", params=[dict(par=p, kf=k, m=m) for p, k, m in (("serial", False, 2), ("serial", True, 3), ("threads", False, 2), ("threads", True, 2), ("exec", True, 2), ("serial", False, 1))])
def cross_validation(c, par, kf, m):
    """Every round of cross-validation solves with its own mask, each loss is the relative residual of the last iteration that was done (also of solves that stop early), averages and deviations are over the rounds, and the caller's keywords are left alone; any residuals and completion order."""
    from corrct import param_tuning as pt

    n, its = 2, 3
    hp = np.array([0.5, 2.0])
    r = c.array("r", (m, n, its), 0.1, 2)
    r0 = c.real("r0", 1, 2)
    stop = [int(c.concretize(c.integer(f"stop{j}", 1, its))) for j in range(n)] if par == "serial" else [its] * n
    pe, ctx = mode(c, n, par)
    cv = pt.CrossValidation((3, 2), cv_fraction=None if kf else 0.3, num_averages=m, parallel_eval=pe, mask_param_name="msk")
    cv.task_init_function = lambda h: h
    used = []

    def run(h, msk=None, other=None):
        q = [i for i in range(m) if msk is cv.data_cv_masks[i]]
        used.append((q, other))
        j = 0 if float(h) < 1 else 1
        row = [r[q[0], j, i] if i < stop[j] else 0.0 for i in range(its)]
        return np.ones(2) * float(h), info(row, n=its, it=stop[j], r0=r0)

    cv.task_exec_function = run
    kw = dict(other=7)
    with ctx:
        avg, std, vals = cv.compute_loss_values(hp, exec_fun_kwds=kw)
        avg2, _, res = cv.compute_loss_values(hp, exec_fun_kwds=kw, return_all=True)
    c.check("kwds", kw == dict(other=7) and all(o == 7 for _, o in used))
    c.check("masks", sorted(q[0] for q, _ in used) == sorted(list(range(m)) * n * 2) and len(vals) == m and len(res) == m)
    for j in range(n):
        want = np.stack([r[i, j, stop[j] - 1] / r0 for i in range(m)])
        for i in range(m):
            c.close(f"val_{j}_{i}", vals[i][j], want[i], tol=1e-6)
            c.close(f"info_{j}_{i}", res[i][1][j].residuals_cv[stop[j] - 1], r[i, j, stop[j] - 1], tol=1e-6)
        mean = want.sum() / m
        c.close(f"avg_{j}", avg[j], mean, tol=1e-5)
        c.close(f"avg2_{j}", avg2[j], mean, tol=1e-5)
        c.close(f"std_{j}", std[j] * std[j], ((want - mean) ** 2).sum() / m, tol=1e-4)
        c.le(f"std_pos_{j}", 0.0, std[j])


@case("P19", params=[dict(par=p, w=w) for p in PARS for w in ("lcurve", "cv", "errors")])
def reporting(c, par, w):
    """Asking for progress messages and timings changes no result, in every evaluation mode; cross-validation also works without further keywords."""
    import contextlib
    import io

    from corrct import param_tuning as pt

    n = 2
    hp, a, g = c.array("hp", (n,), 0.1, 2), c.array("a", (2,), -2, 2), c.array("g", (2,), -2, 2)
    perm = None if par == "serial" else sched.order(c, n)
    for verbose in (False, True):
        pe, ctx = mode(c, n, par, perm)
        kw = dict(parallel_eval=pe, verbose=verbose, print_timings=verbose)
        run = lambda h, b_test_mask=None: (a * h, info(h, r0=2.0))
        with ctx, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            if w == "cv":
                t = pt.CrossValidation((2, 2), cv_fraction=0.5, num_averages=1, **kw)
                t.task_exec_function = run
                f, s, v = t.compute_loss_values(hp)
            else:
                t = pt.LCurve(lambda rec: rec[0] - rec[1] * 3, **kw)
                t.task_exec_function = run
                f = t.compute_loss_values(hp) if w == "lcurve" else t.compute_reconstruction_error(hp, g)
        for i in range(n):
            r = a * hp[i]
            if w == "cv":
                c.close(f"avg_{verbose}_{i}", f[i], hp[i] / 2, tol=1e-6)
                c.close(f"std_{verbose}_{i}", s[i], 0.0, tol=1e-6)
                c.close(f"val_{verbose}_{i}", v[0][i], hp[i] / 2, tol=1e-6)
            elif w == "lcurve":
                c.close(f"loss_{verbose}_{i}", f[i], r[0] - r[1] * 3, tol=1e-5)
            else:
                c.close(f"l1_{verbose}_{i}", f[0][i], np.abs(g - r).sum(), tol=1e-5)
                c.close(f"l2_{verbose}_{i}", f[1][i], ((g - r) * (g - r)).sum(), tol=1e-4)


@case("P19", params=[dict(scale=s) for s in ("linear", "log")])
def fit_method(c, scale):
    """The fit offered by cross-validation finds the vertex of parabolic losses, whatever the deviations; any vertex inside the range."""
    from corrct import param_tuning as pt

    xs = np.array([-1.0, 0.0, 1.0])
    w, b, d = c.real("w", -0.9, 0.9), c.real("b", -5, 5), c.array("d", (3,), 0, 1)
    f = np.stack([b + 1.5 * (x - w) * (x - w) for x in xs])
    if scale == "log":
        c.exp_anchors(xs * np.log(10.0))
    t = pt.CrossValidation((2, 2), num_averages=1, parallel_eval=False)
    x, v = t.fit_loss_min(10.0**xs if scale == "log" else xs, f, d, scale=scale)
    c.close("vertex", c.log(x) / np.log(10.0) if scale == "log" else x, w, tol=1e-3)
    c.close("value", v, b, tol=1e-3)
    if scale == "log":
        x2, v2 = t.fit_loss_min(10.0**xs, f)
        c.close("default", x2, x, tol=1e-3)
        c.close("default_value", v2, v, tol=1e-3)


@case("P19")
def old_names(c):
    """The deprecated names of the task functions and of the range of values still work."""
    import warnings

    from corrct import param_tuning as pt

    h, a = c.real("h", 0.1, 1), c.real("a", -1, 1)
    t = pt.LCurve(lambda r: r[0], parallel_eval=False)
    ini, ex = lambda x: x + a, lambda x: (np.stack([x]), info(x))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t.solver_spawning_function, t.solver_calling_function = ini, ex
        c.check("same", t.solver_spawning_function is ini and t.task_init_function is ini and t.solver_calling_function is ex)
        v = t.get_lambda_range(1.0, 100.0, 2)
    c.close("loss", t.compute_loss_values([h])[0], h + a, tol=1e-6)
    c.close("range", v, pt.get_lambda_range(1.0, 100.0, num_per_order=2), tol=1e-6)


@case("P19", params=[dict(shape=s, k=k) for s, k in (((2, 2), 2), ((3, 2), 4), ((5,), 2), ((2, 2), 3), ((2, 1, 2), 5), ((3,), 1))])
def kfold_masks(c, shape, k):
    """K-fold masks select every data point exactly once, and folds differ by at most one point; every shuffle."""
    from corrct import param_tuning as pt

    n = int(np.prod(shape))
    p = c.permutation("p", n)

    class Rng:
        def permutation(self, m):
            assert int(m) == n
            return np.array(p)

    with patched(np.random, default_rng=lambda *a, **k: Rng()):
        masks = pt.create_k_fold_test_masks(shape, k)
    c.check("count", len(masks) == k)
    for m in masks:
        c.shape("shape", m, shape)
    c.close("partition", sum(m for m in masks), np.ones(shape), tol=1e-9)
    for i, m in enumerate(masks):
        c.close(f"binary_{i}", m * (1 - m), np.zeros(shape), tol=1e-9)
        s = m.sum()
        c.check(f"even_{i}", (s >= n // k) & (s <= -(-n // k)))


@case("P19", params=[dict(shape=s) for s in ((2, 2), (1, 3), (4,))])
def random_mask(c, shape):
    """Random test masks select exactly the rounded-up fraction of the points, the first of the shuffled ones; every shuffle, any fraction."""
    from corrct import param_tuning as pt

    n = int(np.prod(shape))
    p = c.permutation("p", n)
    fr = c.real("fr", 0.01, 1)
    with patched(np.random, permutation=lambda m: np.array(p)):
        m = pt.create_random_test_mask(shape, fr)
    c.shape("shape", m, shape)
    c.close("binary", m * (1 - m), np.zeros(shape), tol=1e-9)
    s = m.sum()
    c.check("count", (s >= fr * n - 1e-6) & (s < fr * n + 1 + 1e-6))
    c.close("first", np.ravel(m)[p[0]], 1.0, tol=1e-9)


@case("P19", params=[dict(pos=k, scale=s) for k in ("mid", "first", "last") for s in ("linear", "log")])
def fit_vertex(c, pos, scale):
    """The fitted minimum of losses on a convex parabola is its vertex (in the chosen scale) when inside the range of values, and the smallest sample otherwise."""
    from corrct import param_tuning as pt

    xs = np.array([-2.0, -1.0, 0.0, 1.0, 2.0])
    lo, hi = dict(mid=(-1.4, 1.4), first=(-3.5, -1.6), last=(1.6, 3.5))[pos]
    w, b = c.real("w", lo, hi), c.real("b", -5, 5)
    f = np.stack([b + 1.5 * (x - w) * (x - w) for x in xs])
    hp = 10.0**xs if scale == "log" else xs
    if scale == "log":
        c.exp_anchors(xs * np.log(10.0))
    x, v = pt.fit_func_min(hp, f, scale=scale)
    inside = (w > -2 + 1e-4) & (w < 2 - 1e-4)
    outside = (w < -2 - 1e-4) | (w > 2 + 1e-4)
    got = c.log(x) / np.log(10.0) if scale == "log" else x
    k = 0 if pos == "first" else 4
    c.check("vertex", ~inside | (abs(got - w) < 1e-3))
    c.check("value", ~inside | (abs(v - b) < 1e-3))
    if pos != "mid":
        c.check("sample", ~outside | ((abs(got - xs[k]) < 1e-4) & (abs(v - f[k]) < 1e-4)))


@case("P19", params=[dict(n=n) for n in (3, 4)])
def fit_any(c, n):
    """For any losses the reported minimum lies inside the values' range and is no larger than the smallest loss (constant ones included); wrong lengths are refused."""
    from corrct import param_tuning as pt

    xs = np.arange(n) * 1.0
    f = c.array("f", (n,), -2, 2)
    x, v = pt.fit_func_min(xs, f, scale="linear")
    c.le("lo", 0.0, x, tol=1e-6)
    c.le("hi", x, n - 1.0, tol=1e-6)
    for i in range(n):
        c.le(f"smallest_{i}", v, f[i], tol=1e-5)
    k = c.real("k", -2, 2)
    x, v = pt.fit_func_min(xs, np.stack([k] * n), scale="linear")
    c.close("const", v, k, tol=1e-6)
    c.le("const_lo", 0.0, x, tol=1e-6)
    c.le("const_hi", x, n - 1.0, tol=1e-6)
    c.raises("short", ValueError, lambda: pt.fit_func_min(xs[:2], f[:2]))
    c.raises("lengths", ValueError, lambda: pt.fit_func_min(xs, f[: n - 1]))
    c.raises("scale", ValueError, lambda: pt.fit_func_min(xs, f, scale="cubic"))


@case("P19", params=[dict(num=k, al=a) for k, a in ((1, True), (1, False), (2, True), (2, False), (4, False))], thorough_params=[dict(num=4, al=True)], bt=600)
def value_range(c, num, al):
    """Ranges of values are geometric with the requested number of steps per order of magnitude, start at (or after, when aligned to the powers of ten) the start, and reach the end; any start and end."""
    from corrct import param_tuning as pt

    step = 10 ** (1 / num)
    s, e = c.real("s", 0.11, 9.9), c.real("e", 10.1, 99)
    ks = np.arange(-1 * num, 3 * num + 1)
    c.exp_anchors(np.concatenate([ks, ks + 0.0015]) / num * np.log(10.0))
    v = pt.get_lambda_range(s, e, num_per_order=num, aligned_order=al)
    m = len(v)
    for i in range(m - 1):
        c.close(f"step_{i}", v[i + 1] / v[i], step, tol=1e-5)
    if al:
        c.check("start", (v[0] >= s * 0.9999) & (v[0] <= s * step * 1.0001))
        c.check("end", (v[-1] <= e * 1.0011) & (v[-1] * step >= e * 1.00001))
        ok = False
        for k in ks:
            ok = ok | (abs(v[0] - step**k) < 1e-4 * step**k)
        c.check("aligned", ok)
    else:
        c.close("start", v[0], s, tol=1e-6)
        c.check("end", (v[-1] >= e * 0.99) & (v[-1] <= e * step * 1.001))


@case("P19")
def functions(c):
    """Task functions are accepted only with the parameters they are called with, running without them is refused, and so is cross-validation without a mask parameter."""
    from corrct import param_tuning as pt

    h = c.real("h", 0, 1)
    lc = pt.LCurve(lambda r: r, parallel_eval=False)
    ok = lambda x: x
    lc.task_init_function = ok
    c.check("init", lc.task_init_function is ok)
    lc.task_init_function = None
    c.check("no_init", lc.task_init_function is None)
    for nm, v in (("two", lambda a, b: a), ("none", lambda: 1), ("value", 3)):
        def setit(v=v):
            lc.task_init_function = v
        c.raises("init_" + nm, ValueError, setit)
    for nm, v in (("none", lambda: 1), ("value", 3)):
        def setit(v=v):
            lc.task_exec_function = v
        c.raises("exec_" + nm, ValueError, setit)
    c.raises("get", ValueError, lambda: lc.task_exec_function)
    c.raises("process", ValueError, lambda: lc.process_hp_vals([h]))
    c.raises("loss", ValueError, lambda: pt.LCurve(lambda a, b: a))
    c.raises("loss_value", ValueError, lambda: pt.LCurve(3))
    cv = pt.CrossValidation((2, 2), num_averages=1, parallel_eval=False)
    c.raises("cv", ValueError, lambda: cv.compute_loss_values([h]))
    cv.task_exec_function = lambda x: x
    c.raises("cv_mask", ValueError, lambda: cv.compute_loss_values([h]))
    lc.task_exec_function = lambda x: (np.ones(1) * x, info(x))
    lc.parallel_eval = "many"
    c.raises("mode", ValueError, lambda: lc.process_hp_vals([h]))
    lc.parallel_eval = True
    with sched.scheduled(None):
        recs, _, _ = lc.process_hp_vals(h)
    c.close("single", recs[0], np.stack([h]), tol=1e-6)


@case("P19", params=[dict(n=n) for n in (0, 1, 2)])
def batches(c, n):
    """Performance batches add up: appended tasks count into processing and total times, and sums of batches keep all tasks, leaving the operands."""
    from corrct import param_tuning as pt

    t = c.array("t", (3, 3), 0, 100)
    b = pt.PerfMeterBatch(init_time_s=t[2, 0])
    for i in range(n):
        b.append(pt.PerfMeterTask(t[i, 0], t[i, 1], t[i, 2]))
    tot = sum((t[i, 2] for i in range(n)), 0.0)
    c.close("proc", b.proc_time_s, tot, tol=1e-5)
    c.close("total", b.total_time_s, tot, tol=1e-5)
    o = pt.PerfMeterBatch(init_time_s=t[2, 1], proc_time_s=t[2, 2], total_time_s=t[0, 0], tasks_perf=[pt.PerfMeterTask(1, 2, 3)])
    s = b + o
    c.close("sum", np.stack([s.init_time_s, s.proc_time_s, s.total_time_s]), np.stack([t[2, 0] + t[2, 1], tot + t[2, 2], tot + t[0, 0]]), tol=1e-5)
    c.check("tasks", len(s.tasks_perf) == n + 1 and len(b.tasks_perf) == n and len(o.tasks_perf) == 1)
    c.check("fresh", pt.PerfMeterBatch().tasks_perf == [])
