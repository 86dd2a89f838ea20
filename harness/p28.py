"""P28: ASTRA backends: geometry handed to the toolbox, data routing, resources.

The toolbox itself is not installed: it is replaced by a stand-in that records
geometries and objects, and whose kernels are matrices of inputs.
"""

import types
from contextlib import ExitStack, contextmanager

import numpy as np

from harness.p15 import rot_z
from harness.p16 import patched
from vf.ctx import case


class Fault(RuntimeError):
    pass


class FakeAstra:
    """Records geometries and live objects; kernels are rows of a matrix of inputs."""

    def __init__(self, c, mats=None, fail_at=None, kind=""):
        self.c = c
        self.mats = mats
        self.calls = 0
        self.fail_at = fail_at
        self.live = {}
        self.next = 1
        self.log = []
        me = self

        def new(what, obj):
            i = me.next
            me.next += 1
            me.live[i] = (what, obj)
            return i

        def step():
            me.calls += 1
            if me.fail_at is not None and me.fail_at == me.calls:
                raise Fault(f"call {me.calls}")

        def delete(what):
            def f(ids):
                for i in ids if isinstance(ids, list) else [ids]:
                    assert me.live[i][0] == what, (i, what)
                    del me.live[i]
            return f

        def data(nd):
            def link(name, geom, arr):
                step()
                assert name == ("-vol" if geom["kind"] == "vol" else "-sino")
                assert arr.ndim == nd and tuple(arr.shape) == tuple(geom["size"]), (arr.shape, geom["size"])
                assert arr.dtype == np.float32 or me.c.sym
                return new("data", (geom, arr))
            return types.SimpleNamespace(link=link, delete=delete("data"))

        self.data2d, self.data3d = data(2), data(3)

        def run(aid):
            step()
            cfg = me.live[aid][1]
            typ = cfg["type"]
            me.log.append(typ)
            pg, prj = me.live[cfg["ProjectionDataId"]][1]
            pid = cfg["ProjectorId"]
            assert me.live[pid][0] == "projector" and me.live[pid][1][1] is pg
            fwd = typ.startswith("FP")
            vg, vol = me.live[cfg["VolumeDataId" if fwd else "ReconstructionDataId"]][1]
            me.kernel(pg, vol, prj, fwd)

        def create(cfg):
            step()
            return new("algorithm", cfg)

        self.algorithm = types.SimpleNamespace(create=create, run=run, delete=delete("algorithm"))
        self.creators = types.SimpleNamespace(astra_dict=lambda t: dict(type=t))
        self.projector = types.SimpleNamespace(delete=delete("projector"))
        self.experimental = types.SimpleNamespace(
            direct_FP3D=lambda pid, vol, prj: (step(), me.kernel(me.live[pid][1][1], vol, prj, True)),
            direct_BP3D=lambda pid, vol, prj: (step(), me.kernel(me.live[pid][1][1], vol, prj, False)),
        )
        self.new = new

    def create_vol_geom(self, *a):
        n = [int(x) for x in a[: len(a) // 3]]
        size = (n[0], n[1]) if len(n) == 2 else (n[2], n[0], n[1])
        return dict(kind="vol", size=size, rows=n[0], cols=n[1], extent=list(a[len(a) // 3 :]))

    def create_proj_geom(self, typ, *a):
        vec = a[-1]
        det = [int(x) for x in a[:-1]]
        size = (len(vec), det[0]) if len(det) == 1 else (det[0], len(vec), det[1])
        return dict(kind="prj", type=typ, det=det, vec=vec, size=size)

    def create_projector(self, typ, pg, vg, opts):
        return self.new("projector", (typ, pg, vg, opts))

    def which(self, pg):
        """Angles of a geometry, by identity of its vectors with the reference ones."""
        if len(pg["vec"]) == len(self.all):
            return list(range(len(self.all)))
        out = []
        for row in pg["vec"]:
            out.append(next(i for i, r in enumerate(self.all) if all(abs(float(a) - float(b)) < 1e-5 for a, b in zip(row, r))))
        return out

    def kernel(self, pg, vol, prj, fwd):
        ids = self.which(pg)
        x = vol.reshape(-1)
        if not fwd:
            vol[...] = 0
        for k, w in enumerate(ids):
            p = prj[k] if prj.ndim == 2 else prj[:, k, :]
            if fwd:
                p[...] = (self.mats[w] @ x).reshape(p.shape)
            else:
                vol[...] = vol + (self.mats[w].T @ p.reshape(-1)).reshape(vol.shape)


@contextmanager
def astra(c, fake, cuda=True, direct=False):
    from corrct import _projector_backends as pb
    from corrct import projectors

    with ExitStack() as st:
        for k, v in dict(astra=fake, has_astra=True, has_cuda=cuda, has_astra_direct=direct).items():
            had = hasattr(pb, k)
            old = getattr(pb, k, None)
            setattr(pb, k, v)
            st.callback(lambda k=k, had=had, old=old: setattr(pb, k, old) if had else delattr(pb, k))
        st.enter_context(patched(projectors, astra_available=True))
        yield pb


def prj_geom(c, kind, n, ratio=1.0):
    """A geometry with inputs for positions and detector axes (n = 1 or one per angle)."""
    from corrct import models

    src = c.array("src", (n, 3), -3, 3)
    det = c.array("det", (n, 3), -3, 3)
    u = c.array("u", (1, 3), -1, 1)
    v = c.array("v", (1, 3), -1, 1)
    return models.ProjectionGeometry(
        geom_type=kind, src_pos_xyz=src, det_pos_xyz=det, det_u_xyz=u, det_v_xyz=v, rot_dir_xyz=np.array([0.0, 0.0, -1.0]), pix2vox_ratio=ratio
    )


@case("P28", params=[dict(dim=d, direct=x, own=o, vox=v, det=s) for d, x, o, v, s in (
    (2, False, None, 1.0, None), (2, False, "parallel2d", 0.5, None), (2, False, "parallel2d", 1.0, (3,)), (3, False, "parallel3d", 1.0, None), (3, False, "cone", 0.5, (3, 2)),
    (3, False, None, 0.5, None), (2, False, "fanflat", 1.0, None), (2, True, "fanflat", 1.0, (3,)), (2, True, None, 0.5, None), (2, True, "parallel2d", 1.0, (3,)), (3, True, "parallel3d", 0.5, None), (3, True, "cone", 1.0, (3, 2)), (3, True, None, 1.0, None))])
def geometry(c, dim, direct, own, vox, det):
    """Volume and projection geometries handed to the toolbox have the volume's extent, the detector's shape, and the source, detector and pixel axes rotated by each angle, in the units of the volume; the given geometry is left alone; any angles, positions, axes and axis shift."""
    n = 2
    ang = c.array("a", (n,), -3.1, 3.1)
    shape = (4, 4) if dim == 2 else (4, 4, 2)
    fake = FakeAstra(c)
    with astra(c, fake, direct=direct) as pb:
        from corrct import models

        vg = models.VolumeGeometry(_vol_shape_xyz=np.array(shape), vox_size=vox)
        if own:
            # fields are in detector pixels, for the magnifying geometries
            ratio = 2.0 if own in ("cone", "fanflat") else 1.0
            g = prj_geom(c, own, 1, ratio)
            if det:
                g.det_shape_vu = np.array(det)
            fields = [g.src_pos_xyz.copy(), g.det_pos_xyz.copy(), g.det_u_xyz.copy(), g.det_v_xyz.copy()]
            shift = None
        else:
            g = None
            shift = c.real("shift", -2, 2)
            e = np.eye(3)
            fields = [np.array([[0.0, -1.0, 0.0]]), np.stack([np.stack([shift, 0.0 * shift, 0.0 * shift])]), e[:1], e[2:]]
        b = pb.ProjectorBackendDirectASTRA() if direct else pb.ProjectorBackendASTRA()
        b.initialize_geometry(vg, ang, rot_axis_shift_pix=shift, prj_geom=g, create_single_projs=True)
        # ASTRA's 2D coordinates have the opposite rotation
        sign = -1.0 if dim == 2 and not direct else 1.0
        want = []
        for f in fields if not (dim == 2 and not direct) else fields[:3]:
            r = np.stack([rot_z(c, sign * ang[i], f[0]) for i in range(n)])
            want.append(r[:, :2] if dim == 2 and not direct else r)
        want = np.concatenate(want, axis=1)
        if own:
            want = want / ratio
        got = b.proj_geom_all["vec"]
        c.shape("vectors", got, (n, 6 if dim == 2 and not direct else 12))
        c.close("vec", got, want, tol=1e-4)
        for i in range(n):
            c.close(f"single_{i}", b.proj_geom_ind[i]["vec"], want[i : i + 1], tol=1e-4)
        t = "cone_vec" if own == "cone" or (own == "fanflat" and direct) else "fanflat_vec" if own == "fanflat" else ("parallel_vec" if dim == 2 and not direct else "parallel3d_vec")
        eff = [int(s * vox) for s in shape]
        wd = list(det) if det else ([eff[1]] if dim == 2 else [eff[2], eff[1]])
        full = wd if (dim == 3 or not direct) else [1, *wd]
        for p in [b.proj_geom_all, *b.proj_geom_ind]:
            c.check("type", p["type"] == t)
            c.check("det", p["det"] == full)
        half = [s * vox / 2 for s in (shape if (dim == 3 or not direct) else (*shape, 1))]
        c.close("extent", np.array(b.astra_vol_geom["extent"]), np.array([s * q for s in half for q in (-1, 1)]), tol=1e-9)
        c.check("rows", (b.astra_vol_geom["rows"], b.astra_vol_geom["cols"]) == (4, 4))
        c.check("prj_shape", tuple(int(x) for x in b.get_prj_shape()) == ((n, wd[0]) if dim == 2 else (wd[0], n, wd[1])))
        c.check("vol_shape", tuple(int(x) for x in b.get_vol_shape()) == ((4, 4) if dim == 2 else (2, 4, 4)))
        b.make_ready()
        fact = [p[1][3] for p in fake.live.values()]
        c.check("sampling", all(o == dict(VoxelSuperSampling=1, DetectorSuperSampling=int(1 / min(1, vox))) for o in fact))
        c.check("projectors", len(fact) == n + 1)
        c.check("projector_geoms", all(p[1][2] is b.astra_vol_geom for p in fake.live.values()))
        b.dispose()
        c.check("released", not fake.live)
        if own:
            for f, h, nm in zip(fields, (g.src_pos_xyz, g.det_pos_xyz, g.det_u_xyz, g.det_v_xyz), "sduv"):
                c.close("kept_" + nm, h, f, tol=0)
            c.check("det_kept", g.det_shape_vu is None if det is None else tuple(g.det_shape_vu) == det)
            # the same geometry serves a volume of another size
            b2 = type(b)()
            vg2 = models.VolumeGeometry(_vol_shape_xyz=np.array([6, 6] if dim == 2 else [6, 6, 4]), vox_size=vox)
            b2.initialize_geometry(vg2, ang, prj_geom=g)
            w2 = list(det) if det else ([int(6 * vox)] if dim == 2 else [int(4 * vox), int(6 * vox)])
            c.check("reuse", b2.proj_geom_all["det"][-len(w2) :] == w2)


@case("P28", params=[dict(dim=d, direct=x, cuda=q, n=n) for d, x, q, n in ((2, False, True, 2), (2, False, False, 2), (3, False, True, 2), (2, True, True, 2), (3, True, True, 2), (2, False, True, 1), (3, False, True, 1), (2, True, True, 1), (3, True, True, 1))])
def routing(c, dim, direct, cuda, n):
    """Projections and back-projections are the toolbox's kernels applied to the right angles, in the shapes that projector and backend declare, all angles at once or one by one; inputs are left alone; any volumes, data and kernels."""
    size = 2
    vsh = (size, size) if dim == 2 else (2, size, size)
    nv, nd = int(np.prod(vsh)), size * (2 if dim == 3 else 1)
    M = c.array("M", (n, nd, nv), -1, 1)
    x = c.array("x", vsh, -2, 2)
    inten = c.array("I", (n,), 0.5, 2)
    psh = (n, size) if dim == 2 else (2, n, size)
    p = c.array("p", psh[::-1], -2, 2).T
    fake = FakeAstra(c, M)
    with astra(c, fake, cuda=cuda, direct=direct):
        from corrct import projectors

        ang = np.linspace(0, 1.2, n + 1)[:n] + 0.1
        for it in (None, inten):
            A = projectors.ProjectorUncorrected((size, size) if dim == 2 else (size, size, 2), ang, create_single_projs=True, prj_intensities=it, backend="astra")
            c.check("backend", type(A.projector_backend).__name__ == ("ProjectorBackendDirectASTRA" if direct else "ProjectorBackendASTRA"))
            fake.all = [list(map(float, r)) for r in A.projector_backend.proj_geom_all["vec"]]
            s = [1.0] * n if it is None else it
            x0, p0 = x.copy(), p.copy()
            with A:
                got = A.fp(x)
                lines = [A.fp_angle(x, i) for i in range(n)]
                back = A.bp(p)
                pl = [p[i] if dim == 2 else p[:, i, :] for i in range(n)]
                backs = [A.bp_angle(pl[i], i) for i in range(n)]
                call = A(x)
            nm = "i" if it is not None else "u"
            want = np.stack([(M[i] @ x.reshape(-1)).reshape(psh[:-2] + psh[-1:]) * s[i] for i in range(n)], axis=-2)
            wb = [(M[i].T @ pl[i].reshape(-1)).reshape(vsh) * s[i] for i in range(n)]
            c.shape("fp_shape" + nm, got, psh)
            c.close("fp" + nm, got, want, tol=1e-4)
            c.close("call" + nm, call, want, tol=1e-4)
            c.shape("bp_shape" + nm, back, vsh)
            c.close("bp" + nm, back, sum(wb), tol=1e-4)
            for i in range(n):
                c.shape(f"line_shape{nm}{i}", lines[i], psh[:-2] + psh[-1:])
                c.close(f"line{nm}{i}", lines[i], want[..., i, :], tol=1e-4)
                c.close(f"back{nm}{i}", backs[i], wb[i], tol=1e-4)
            c.close("x" + nm, x, x0, tol=0)
            c.close("p" + nm, p, p0, tol=0)
            c.check("released" + nm, not fake.live)


@case("P28", params=[dict(dim=d, direct=x) for d in (2, 3) for x in (False, True)])
def faults(c, dim, direct):
    """If any toolbox call fails during a (back-)projection the error is reported, nothing but the projectors stays allocated, the next projection is right, and leaving the block releases everything; any failing call."""
    n, size = 2, 2
    vsh = (size, size) if dim == 2 else (2, size, size)
    nv, nd = int(np.prod(vsh)), size * (2 if dim == 3 else 1)
    M = c.array("M", (n, nd, nv), -1, 1)
    x = c.array("x", vsh, -2, 2)
    k = c.integer("k", 1, 5 if not direct else 2)
    back = c.boolean("back")
    k = c.concretize(k)
    fake = FakeAstra(c, M)
    with astra(c, fake, direct=direct) as pb:
        from corrct import models

        b = pb.ProjectorBackendDirectASTRA() if direct else pb.ProjectorBackendASTRA()
        b.initialize_geometry(models.VolumeGeometry(_vol_shape_xyz=np.array([size] * 2 + [2] * (dim - 2))), np.array([0.1, 0.7]), create_single_projs=True)
        fake.all = [list(map(float, r)) for r in b.proj_geom_all["vec"]]
        p = np.ones((n, size) if dim == 2 else (2, n, size))
        b.make_ready()
        fake.fail_at = k
        failed = False
        try:
            if back:
                b.bp(p)
            else:
                b.fp(x)
        except Fault:
            failed = True
        steps = 1 if direct else 4
        c.check("reported", failed == (k <= steps))
        c.check("kept", sorted(v[0] for v in fake.live.values()) == ["projector"] * (n + 1))
        fake.fail_at = None
        got = b.fp(x)
        want = np.stack([(M[i] @ x.reshape(-1)).reshape(p.shape[:-2] + p.shape[-1:]) for i in range(n)], axis=-2)
        c.close("again", got, want, tol=1e-4)
        b.dispose()
        c.check("released", not fake.live)
        got = b.fp(x)
        c.close("revived", got, want, tol=1e-4)
        b.dispose()
        b.dispose()
        c.check("released2", not fake.live)


@case("P28")
def refused(c):
    """Three-dimensional volumes without GPU, single projections that were not prepared, data of the wrong shape, non-square volumes and unknown backends are refused; a missing toolbox falls back to scikit-image only by name; any values."""
    from corrct import _projector_backends as pb
    from corrct import models, projectors

    y = c.real("y", 0, 1)
    for direct in (False, True):
        fake = FakeAstra(c, c.array(f"M{int(direct)}", (2, 2, 4), -1, 1))
        with astra(c, fake, direct=direct):
            mk = pb.ProjectorBackendDirectASTRA if direct else pb.ProjectorBackendASTRA
            b = mk()
            b.initialize_geometry(models.VolumeGeometry(_vol_shape_xyz=np.array([2, 2])), np.array([0.1, 0.7]))
            c.raises(f"r1_{int(direct)}", ValueError, lambda: b.fp(np.ones((2, 2)) * y, 0))
            c.raises(f"r2_{int(direct)}", ValueError, lambda: b.bp(np.ones((2,)) * y, 0))
            c.raises(f"r3_{int(direct)}", ValueError, lambda: b.bp(np.ones((2, 3)) * y))
            c.raises(f"r4_{int(direct)}", ValueError, lambda: b.fp(np.ones((3, 2)) * y))
            c.raises(f"r5_{int(direct)}", ValueError, lambda: mk().initialize_geometry(models.VolumeGeometry(_vol_shape_xyz=np.array([2, 2])), np.array([0.1]), rot_axis_shift_pix="x"))
            b.dispose()
            c.check(f"released{int(direct)}", not fake.live)
            c.raises(f"r6_{int(direct)}", ValueError, lambda: projectors.ProjectorUncorrected((2, 3), [0.1]))
            c.raises(f"r7_{int(direct)}", ValueError, lambda: projectors.ProjectorUncorrected((2, 2), [0.1], backend="other"))
        with astra(c, fake, cuda=False, direct=direct):
            c.raises(f"r8_{int(direct)}", ValueError, lambda: mk().initialize_geometry(models.VolumeGeometry(_vol_shape_xyz=np.array([2, 2, 2])), np.array([0.1])))
    a = projectors.ProjectorUncorrected((2, 2), [0.1], backend="astra")
    c.check("fallback", isinstance(a.projector_backend, pb.ProjectorBackendSKimage))
    c.raises("r9", ValueError, lambda: projectors.ProjectorUncorrected((2, 2), [0.1], backend=pb.ProjectorBackendASTRA()))


@case("P28", params=[dict(dim=d, direct=x, nd=n, sym=s) for d, x, n, s in ((2, False, 1, True), (2, True, 2, False), (3, False, 2, True), (3, True, 1, False), (3, True, 2, True), (2, True, 1, True))])
def attenuated(c, dim, direct, nd, sym):
    """Attenuated projections through the toolbox are its kernels applied to the image times the map of each angle and detector, with the weights, and back-projections their adjoint (without attenuation when not symmetric), collapsed detectors are their sum, in two and three dimensions; any images, maps, data, weights and kernels."""
    n, size = 2, 2
    vsh = (size, size) if dim == 2 else (2, size, size)
    lsh = (size,) if dim == 2 else (2, size)
    nv, nl = int(np.prod(vsh)), int(np.prod(lsh))
    M = c.array("M", (n, nl, nv), -1, 1)
    x = c.array("x", vsh, -2, 2)
    att = c.array("att", (n, nd, *vsh), 0, 1)
    wd = c.array("wd", (nd,), 0.25, 2) if sym else np.ones(nd)
    psh = (*lsh[:-1], n, size)
    y = c.array("y", (nd, *psh) if nd > 1 else psh, -1, 1)
    fake = FakeAstra(c, M)
    with astra(c, fake, direct=direct):
        from corrct import projectors

        p = projectors.ProjectorAttenuationXRF((size, size) if dim == 2 else (size, size, 2), [0.1, 0.7], att_maps=att.copy(), angles_detectors_rad=np.linspace(0.5, 1.5, nd),
                                               weights_detectors=wd, is_symmetric=sym, verbose=False, backend="astra")
        fake.all = [list(map(float, r)) for r in p.projector_backend.proj_geom_all["vec"]]
        with p:
            got = p(x)
            back = p.T(y)
            one = [p.bp_angle(y, a) for a in range(n)]
            if sym:
                p.collapse_detectors()
                total = p(x)
        c.check("released", not fake.live)
    Y = y if nd > 1 else y[None]
    want = np.stack([np.stack([wd[d] * (M[a] @ (x * att[a, d]).reshape(-1)).reshape(lsh) for a in range(n)], axis=-2) for d in range(nd)], axis=0)
    wb = [sum(wd[d] * (M[a].T @ Y[d][..., a, :].reshape(-1)).reshape(vsh) * (att[a, d] if sym else 1.0) for d in range(nd)) for a in range(n)]
    c.shape("shape", got, want.shape if nd > 1 else want.shape[1:])
    c.close("fp", got, want if nd > 1 else want[0], tol=1e-4)
    if sym:
        c.close("collapsed", total, want.sum(axis=0), tol=1e-4)
    c.close("bp", back, sum(wb), tol=1e-4)
    c.close("bp_angles", sum(one), sum(wb), tol=1e-4)


@case("P28", params=[dict(direct=x, own=o, kind=k) for x, o, k in ((False, False, "cone"), (True, True, "cone"), (False, True, "cone"), (False, False, "parallel3d"), (True, False, None))])
def weighted_fbp(c, direct, own, kind):
    """Filtered back-projection of cone-beam data weighs each pixel by the cosine of its ray before filtering, for any distances and data; parallel-beam data stay as they are, and so do the given data."""
    n, size, nv = 2, 4, 2
    fake = FakeAstra(c)
    d = c.real("d", 4, 40)
    b = c.array("b", (nv, n, size), -2, 2)
    fake.mats = np.array([[[((3 * i + 5 * j + 7 * k) % 5) - 2.0 for k in range(nv * size * size)] for j in range(nv * size)] for i in range(n)])
    with astra(c, fake, direct=direct):
        from corrct import models, projectors, solvers

        g = None
        if kind == "cone":
            g = models.get_prj_geom_cone(src_to_sam_dist=d, data_shape=(nv, n, size) if own else None, data_format="vwu")
        elif kind:
            g = models.get_prj_geom_parallel(geom_type="3d")
        A = projectors.ProjectorUncorrected((size, size, nv), np.array([0.1, 0.9]), prj_geom=g, backend="astra")
        fake.all = [list(range(100 * i, 100 * i + len(r))) for i, r in enumerate(A.projector_backend.proj_geom_all["vec"])]
        w = A.get_pre_weights()
        if kind == "cone":
            c.shape("weights", w, (nv, 1, size))
            for i in range(nv):
                for j in range(size):
                    q = (i - (nv - 1) / 2) ** 2 + (j - (size - 1) / 2) ** 2
                    c.close(f"w_{i}_{j}", w[i, 0, j] * w[i, 0, j] * (d * d + q), d * d, tol=1e-3)
        else:
            c.check("none", w is None)
        b0 = b.copy()
        h = np.array([((3 * i) % 7) / 4 for i in range(33)])
        with A:
            x, _ = solvers.FBP(fbp_filter=h)(A, b, 0)
            want = A.T(solvers.filters.FilterCustom(h)(b * w if w is not None else b))
        c.close("fbp", x, want, tol=1e-4)
        c.close("kept", b, b0, tol=0)
