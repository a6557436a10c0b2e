"""The public calls of the library, with valid unknown arguments placed on a given device."""
from . import interp as I
from . import ready as R
from . import slots as SL
from . import spec as S
from . import terms as T
from . import tensor as X
from . import layers as LY
from .nnprelude import lookup
from .terms import tt, ZERO, ONE

SO2 = "gconv.geometry.groups.so2:"
O2 = "gconv.geometry.groups.o2:"
SO3 = "gconv.geometry.groups.so3:"
O3 = "gconv.geometry.groups.o3:"
S2 = "gconv.geometry.groups.s2:"
IP = "gconv.geometry.interpolation:"
RP = "gconv.geometry.repulsion:"
FN = "gconv.gnn.functional:"
GN = "gconv.gnn:"
KER = R.KER
MOD = LY.MOD


class Args:
    """Arguments of one call: makes tensors on the device and remembers what they held."""

    def __init__(self, K, dev=X.CPU, tag="", dtype=None):
        self.K, self.dev, self.tag, self.dtype = K, dev, tag, dtype
        self.tensors = []          # (name, tensor, content before)
        self.objects = []          # (name, python object, snapshot)
        self.module = None
        self.stub_kernel = False
        self.layer_kind = None

    def reg(self, t, name=None):
        t.device = self.dev
        if self.dtype and X.is_float(t.dtype):
            t.dtype = self.dtype
        if t.name is None:
            t.name = name
        self.tensors.append((t.name or "argument", t, t.lam(), t.shape))
        return t

    def leaf(self, name, shape):
        return self.reg(self.K.leaf(name, shape))

    def n(self, name="B"):
        return self.K.size(name, conc=2)

    def quats(self, name, batch):
        return self.reg(S.unit_quats(self.K, name, batch)[0])

    def mats(self, name, batch):
        return self.reg(S.rotmats(self.K, name, batch)[0], name)

    def mats2(self, name, batch):
        a = T.Leaf(name)
        m = lambda b: S.rot2(T.elem(a, *b))  # noqa: E731
        return self.reg(X.mk(tuple(batch) + (2, 2), lambda *i: S.by_index(i[-2], [S.by_index(i[-1], r) for r in m(i[:-2])]),
                             origin=("arg", name)), name)

    def o2(self, name, batch):
        return self.reg(S.o2_elems(self.K, name, batch)[0])

    def o3(self, name, batch):
        return self.reg(S.o3_elems(self.K, name, batch)[0])

    def circle(self, name, batch):
        a = T.Leaf(name)
        return self.reg(X.mk(tuple(batch) + (2,), lambda *i: S.by_index(i[-1], [S.cos(T.elem(a, *i[:-1])), S.sin(T.elem(a, *i[:-1]))]),
                             origin=("arg", name)), name)

    def sphere(self, name, batch):
        lf = T.Leaf(name, unit_first=3)
        return self.reg(X.mk(tuple(batch) + (3,), lambda *i: T.elem(lf, *i), origin=("arg", name)), name)

    def signed(self, g, name, a, b):
        """a rotations, then b reflections, as O(2) or O(3) elements."""
        lf = T.Leaf(name, unit_first=4)
        n = X.norm(tt(a) + tt(b))

        def at(i):
            c = T.ite(T.lt(i, tt(a)), ONE, -ONE)
            if g == "o2":
                return [c, T.elem(lf, i, ZERO)]
            return [c] + [x for r in S.qmat([T.elem(lf, i, tt(k)) for k in range(4)]) for x in r]
        return self.reg(X.mk((n, tt(2 if g == "o2" else 10)), lambda i, k: S.by_index(k, at(i)), origin=("arg", name)), name)

    def dict(self, name, d):
        p = I.PyDict(dict(d))
        self.objects.append((name, p, dict(d)))
        return p

    def list(self, name, xs):
        p = I.PyList(list(xs))
        self.objects.append((name, p, list(xs)))
        return p


class Item:
    def __init__(self, title, entry, make, random=False, device=False, factory=False, cls=False, heavy=False):
        """make(A) -> (callable or 'module:name', args, kwargs).

        random: the result depends on random draws; factory: takes a device; cls: forward of a constructed module."""
        self.title, self.entry, self.make, self.random, self.factory, self.cls = title, entry, make, random, factory, cls
        self.heavy = heavy


def items():
    out = []

    def fn(entry, make, title=None, **kw):
        name = entry.split(":")
        t = title or "%s.%s" % (name[0].split(".")[-1], name[1])

        def mk(A):
            a, k = make(A)
            return entry, a, k
        out.append(Item(t, entry, mk, **kw))

    def one(entry, build, title=None, **kw):
        """One tensor argument, without and with leading axes."""
        fn(entry, lambda A: ([build(A, ())], {}), title=(title or "%s.%s" % (entry.split(":")[0].split(".")[-1],
                                                                            entry.split(":")[1])) + ", single", **kw)
        fn(entry, lambda A: ([build(A, (A.n("B"), A.n("C")))], {}), title, **kw)

    ang = lambda A, b: A.leaf("angle", b + (1,))  # noqa: E731
    quat = lambda A, b: A.quats("q", b)  # noqa: E731
    mat = lambda A, b: A.mats("R", b)  # noqa: E731
    eul = lambda A, b: A.leaf("euler", b + (3,))  # noqa: E731
    # ---- SO(2)
    one(SO2 + "angle_to_matrix", ang)
    one(SO2 + "angle_to_euclid", ang)
    one(SO2 + "inverse_angle", ang)
    one(SO2 + "inverse_matrix", lambda A, b: A.mats2("R", b))
    fn(SO2 + "left_apply_angle", lambda A: ([A.leaf("a", (A.n(), 1)), A.leaf("b", (A.n(), 1))], {}))
    fn(SO2 + "left_apply_to_angle", lambda A: ([A.leaf("a", (A.n(), 1)), A.leaf("b", (A.n("M"), 1))], {}))
    fn(SO2 + "left_apply_angle_to_R2", lambda A: ([A.leaf("a", (A.n(), 1)), A.leaf("grid", (A.n("X"), A.n("Y"), 2))], {}))
    fn(SO2 + "left_apply_matrix_to_R2", lambda A: ([A.mats2("R", (A.n(),)), A.leaf("grid", (A.n("X"), A.n("Y"), 2))], {}))
    fn(SO2 + "geodesic_distance_euclid", lambda A: ([A.circle("a", (A.n(),)), A.circle("b", (A.n(),))], {}))
    fn(SO2 + "geodesic_distance", lambda A: ([A.leaf("a", (A.n(), 1)), A.leaf("b", (A.n(), 1))], {}))
    fn(SO2 + "nearest_neighbour_distance", lambda A: ([A.leaf("a", (3, 1))], {}))
    fn(SO2 + "uniform_grid", lambda A: ([A.K.int(A.n())], {}), factory=True)
    fn(SO2 + "random_grid", lambda A: ([A.K.int(A.n())], {}), factory=True, random=True)
    for m in ("rbf", "nearest"):
        fn(SO2 + "grid_sample", lambda A, m=m: ([A.leaf("q", (A.n(), 1)), A.leaf("s", (A.n("L"), A.n("S"))), A.leaf("g", (A.n("L"), 1))],
                                                {"mode": m, "width": A.K.positive("w")}), "so2.grid_sample, " + m)
        fn(SO3 + "grid_sample", lambda A, m=m: ([A.mats("q", (A.n(),)), A.leaf("s", (A.n("L"), A.n("S"))), A.mats("g", (A.n("L"),))],
                                                {"mode": m, "width": A.K.positive("w")}), "so3.grid_sample, matrices, " + m)
        fn(SO3 + "grid_sample", lambda A, m=m: ([A.quats("q", (A.n(),)), A.leaf("s", (A.n("L"), A.n("S"))), A.quats("g", (A.n("L"),))],
                                                {"mode": m, "width": A.K.positive("w")}), "so3.grid_sample, quaternions, " + m)
        for g, P in (("o2", O2), ("o3", O3)):
            fn(P + "grid_sample", lambda A, m=m, g=g: (
                [getattr(A, g)("q", (tt(2),)), A.leaf("s", (tt(3), A.n("S"))), A.signed(g, "g", 2, 1), (2, 1)],
                {"mode": m, "rotation_width": A.K.positive("w1"), "reflection_width": A.K.positive("w2")}),
               "%s.grid_sample, %s" % (g, m))
    # ---- O(2), O(3)
    for g, P, apply, to, rn, d in (("o2", O2, "left_apply_angle", "left_apply_to_angle", "left_apply_to_R2", 2),
                                   ("o3", O3, "left_apply_O3", "left_apply_to_O3", "left_apply_to_R3", 3)):
        def el(A, name, b, g=g):
            return getattr(A, g)(name, b)
        fn(P + "inverse", lambda A, el=el: ([el(A, "a", (A.n(),))], {}))
        fn(P + "det", lambda A, el=el: ([el(A, "a", (A.n(),))], {}))
        fn(P + apply, lambda A, el=el: ([el(A, "a", (A.n(),)), el(A, "b", (A.n(),))], {}))
        fn(P + to, lambda A, el=el: ([el(A, "a", (A.n(),)), el(A, "b", (A.n("M"),))], {}))
        fn(P + rn, lambda A, el=el, d=d: ([el(A, "a", (A.n(),)), A.leaf("grid", tuple(A.n("X%d" % j) for j in range(d)) + (d,))], {}))
        if g == "o2":
            fn(P + "uniform_grid", lambda A: ([(A.K.int(A.n()), A.K.int(A.n("M")))], {}), factory=True)
            fn(P + "random_grid", lambda A: ([A.K.int(A.n())], {}), factory=True, random=True)
        else:
            for s in ((2, 3), (3, 0), (0, 2)):
                fn(P + "uniform_grid", lambda A, s=s: ([s], {}), "o3.uniform_grid, %s" % (s,), factory=True)
                fn(P + "uniform_grid", lambda A, s=s: ([s], {"matrix_only": True}), "o3.uniform_grid, %s, matrices" % (s,),
                   factory=True)
            fn(P + "random_grid", lambda A: ([A.K.int(A.n())], {}), factory=True, random=True)
    # ---- SO(3)
    for m in ("matrix_x", "matrix_y", "matrix_z"):
        one(SO3 + m, lambda A, b: A.leaf("theta", b))
    one(SO3 + "quat_inverse", quat)
    one(SO3 + "matrix_inverse", mat)
    one(SO3 + "euler_to_quat", eul)
    one(SO3 + "euler_to_matrix", eul)
    one(SO3 + "matrix_to_quat", mat)
    fn(SO3 + "matrix_to_euler", lambda A: ([A.mats("R", (A.n(),))], {"no_warn": True}))
    one(SO3 + "quat_to_matrix", quat)
    fn(SO3 + "quat_to_euler", lambda A: ([A.quats("q", (A.n(),))], {}))
    fn(SO3 + "left_apply_quat", lambda A: ([A.quats("p", (A.n(),)), A.quats("q", (A.n(),))], {}))
    fn(SO3 + "left_apply_matrix", lambda A: ([A.mats("R", (A.n(),)), A.mats("Q", (A.n(),))], {}))
    fn(SO3 + "left_apply_to_matrix", lambda A: ([A.mats("R", (A.n(),)), A.mats("Q", (A.n("M"),))], {}))
    fn(SO3 + "left_apply_to_R3", lambda A: ([A.mats("R", (A.n(),)), A.leaf("grid", (A.n("X"), A.n("Y"), A.n("Z"), 3))], {}))
    fn(SO3 + "so3_log", lambda A: ([A.mats("R", (A.n(),))], {}))
    fn(SO3 + "quaternion_log", lambda A: ([A.quats("q", (A.n(),))], {}))
    fn(SO3 + "geodesic_distance", lambda A: ([A.quats("p", (A.n(),)), A.quats("q", (A.n(),))], {}), "so3.geodesic_distance, quaternions")
    fn(SO3 + "geodesic_distance", lambda A: ([A.mats("p", (A.n(),)), A.mats("q", (A.n(),))], {}), "so3.geodesic_distance, matrices")
    fn(SO3 + "nearest_neighbour_distance", lambda A: ([A.quats("q", (3,))], {}), "so3.nearest_neighbour_distance, quaternions")
    fn(SO3 + "nearest_neighbour_distance", lambda A: ([A.mats("q", (3,))], {}), "so3.nearest_neighbour_distance, matrices")
    for r in ("random_quat", "random_matrix", "random_euler"):
        fn(SO3 + r, lambda A: ([A.K.int(A.n())], {}), factory=True, random=True)
        fn(SO3 + r, lambda A: ([(A.K.int(A.n()), 2)], {}), "so3.%s, tuple" % r, factory=True, random=True)
    for p in ("quat", "matrix"):
        for n in (1, 2, 5, 24):
            fn(SO3 + "uniform_grid", lambda A, n=n, p=p: ([n, p], {"show_pbar": False}), "so3.uniform_grid, %d, %s" % (n, p), factory=True)
    for p in ("quat", "matrix", "euler"):
        fn(SO3 + "uniform_grid", lambda A, p=p: ([25, p], {"show_pbar": False, "steps": 1}), "so3.uniform_grid, 25, %s" % p,
           factory=True, random=True, heavy=True)
    for g in ("identity", "klein_group", "tetrahedral", "octahedral", "icosahedral"):
        fn(SO3 + g, lambda A: ([], {}), factory=True)
    for g in ("cyclic_x", "cyclic_y", "cyclic_z"):
        fn(SO3 + g, lambda A: ([A.K.int(A.n())], {}), factory=True)
    for a in ("x", "y", "z"):
        fn(SO3 + "cyclic", lambda A, a=a: ([A.K.int(A.n()), a], {}), "so3.cyclic, " + a, factory=True)
    # ---- S2
    sph = lambda A, b: A.leaf("angles", b + (2,))  # noqa: E731
    fn(S2 + "spherical_to_euclid", lambda A: ([sph(A, (A.n(),))], {}))
    fn(S2 + "spherical_to_euler", lambda A: ([sph(A, (A.n(),))], {}))
    fn(S2 + "spherical_to_euler_neg_gamma", lambda A: ([sph(A, (A.n(),))], {}))
    fn(S2 + "euclid_to_spherical", lambda A: ([A.sphere("x", (A.n(),))], {}))
    fn(S2 + "geodesic_distance_s2", lambda A: ([A.sphere("x", (A.n(),)), A.sphere("y", (A.n(),))], {}))
    fn(S2 + "random_s2", lambda A: ([(A.K.int(A.n()),)], {}), factory=True, random=True)
    for p in ("euclidean", "spherical", "euler"):
        for neg in (False, True):
            fn(S2 + "uniform_grid_s2", lambda A, p=p, neg=neg: ([3, p], {"show_pbar": False, "steps": 1, "set_alpha_as_neg_gamma": neg}),
               "s2.uniform_grid_s2, %s, %s" % (p, neg), factory=True, random=True, heavy=True)
    # ---- interpolation
    fn(IP + "RBF_gauss", lambda A: ([A.leaf("d", (A.n(), A.n("C"))), A.K.positive("w")], {}))
    fn(IP + "interpolate_RBF", lambda A: (data(A), {"dist_fn": euclid(A.K), "width": A.K.positive("w")}))
    fn(IP + "interpolate_NN", lambda A: (data(A), {"dist_fn": euclid(A.K)}))
    fn(IP + "interpolate_BCC", lambda A: (data(A, 4), {"dist_fn": euclid(A.K)}))
    # ---- repulsion
    fn(RP + "columb_energy", lambda A: ([A.leaf("d", (A.n(), A.n("C")))], {}))
    fn(RP + "repulse", lambda A: ([A.leaf("grid", (3, 2))], {
        "show_pbar": False, "steps": 2, "metric_fn": pnorm(A.K), "step_size": A.K.positive("lr"), "alpha": 0}))
    # ---- coordinates and masks
    for d in (2, 3):
        fn(FN + "create_grid_R%d" % d, lambda A: ([A.K.int(A.K.size("k", lo=2, conc=3))], {}), factory=True)
        fn(FN + "create_spherical_mask_R%d" % d, lambda A: ([A.K.int(A.K.size("k", lo=2, conc=3))], {}), factory=True)
    modules(out)
    return out


def data(A, L=None):
    N, Kn, L, C, D = A.n("N"), A.n("Kn"), tt(L or 3), A.n("S"), 3
    return [A.leaf("nodes", (N, Kn, D)), A.leaf("grid", (N, L, D)), A.leaf("signal", (N, L, C))]


def euclid(K):
    """Euclidean distance over the last axis."""
    nrm = K.lib("torch.linalg.vector_norm")
    return I.Builtin("euclidean distance", lambda a, b: K.call(nrm, X.ew(lambda x, y: x - y, [a, b]), dim=-1))


pnorm = euclid


# ------------------------------------------------------------------ modules
GROUPS = ("SE2", "E2", "SE3", "E3")
CLASS = {"lifting": "GLiftingKernel", "separable": "GSeparableKernel", "full": "GKernel", "subgroup": "GSubgroupKernel"}
LAYER = {"lifting": "GLiftingConv", "separable": "GSeparableConv", "full": "GConv"}


def elements(A, G, name, n):
    n = tt(n)
    if G.name == "SE2":
        return A.leaf(name, (n, 1))
    if G.name == "E2":
        return A.o2(name, (n,))
    if G.name == "E3":
        return A.o3(name, (n,))
    return A.mats(name, (n,))


def build(A, entry, *args, **kw):
    """A module on A's device."""
    m = A.K.call(entry, *args, **kw)
    if A.dev != X.CPU:
        A.K.method(m, "to", A.dev)
    if A.dtype:
        A.K.method(m, {"float64": "double", "float16": "half"}[A.dtype])
    A.module = m
    return m


def unknown_weights(A, m, kind, d):
    """The layer's kernel yields unknown weights."""
    K = A.K

    def w(*grids):
        k3, two = (tt(3),) * d, tt(2)
        n = [g.shape[0] for g in grids]
        if kind == "lifting":
            r = (X.leaf_tensor("KW", (two, n[0], two) + k3),)
        elif kind == "full":
            r = (X.leaf_tensor("KW", (two, n[1], two, n[0]) + k3),)
        else:
            r = (X.leaf_tensor("KH", (two, n[1], two, n[0]) + (ONE,) * d), X.leaf_tensor("KW", (two, n[1], ONE) + k3))
        for t in r:
            t.device = grids[0].device
            t.dtype = A.dtype or grids[0].dtype
        return r if len(r) > 1 else r[0]
    K.attr(m, "kernel").attrs["forward"] = I.Builtin("kernel weights", w)


def modules(out):
    def add(title, entry, make, **kw):
        out.append(Item(title, entry, make, cls=True, **kw))

    for g in GROUPS:
        G = R.Group(g)
        for kind in ("lifting", "separable", "full"):
            for mask in (True, False):
                for hmode in (("rbf", "nearest") if kind != "lifting" and mask else ("rbf",)):
                    def ker(A, G=G, g=g, kind=kind, mask=mask, hmode=hmode):
                        kw = {"mask": mask}
                        if kind != "lifting":
                            kw["group_sampling_mode"] = hmode
                            kw["group_kernel_size"] = (3, 2) if G.two else 3
                        m = build(A, KER + CLASS[kind] + g, 4, 2, 3, groups=2, **kw)
                        a = [elements(A, G, "inH", 2)] if kind != "lifting" else []
                        return m, a + [elements(A, G, "outH", 3)], {}
                    add("%s%s%s%s" % (CLASS[kind], g, "" if mask else ", no mask", ", nearest" if hmode != "rbf" else ""),
                        KER + CLASS[kind] + g, ker)
            for out_grid in (False, True):
                for permute in (False, True):
                    def lay(A, G=G, g=g, kind=kind, out_grid=out_grid, permute=permute):
                        kw = {"permute_output_grid": permute, "bias": True, "padding": 1, "padding_mode": "circular"}
                        if G.two and kind != "lifting":
                            kw["group_kernel_size"] = (3, 2)
                        m = build(A, GN + LAYER[kind] + g, 2, 2, 3, **kw)
                        A.layer_kind = (kind, G.d)
                        if A.stub_kernel:
                            unknown_weights(A, m, kind, G.d)
                        ns = (4, 5, 6)[:G.d]
                        a = [A.leaf("x", (2, 2) + ((2,) if kind != "lifting" else ()) + ns)]
                        if kind != "lifting":
                            a.append(elements(A, G, "inH", 2))
                        if out_grid:
                            a.append(elements(A, G, "outH", 3))
                        return m, a, {}
                    add("%s%s%s%s" % (LAYER[kind], g, ", output grid" if out_grid else "", ", permuted" if permute else ""),
                        GN + LAYER[kind] + g, lay, random=permute, heavy=True)

    def sub(A):
        m = build(A, KER + "GSubgroupKernelSO3", 4, 2, 3, groups=2)
        G = R.Group("SO3")
        return m, [elements(A, G, "inH", 2), elements(A, G, "outH", 3)], {}
    add("GSubgroupKernelSO3", KER + "GSubgroupKernelSO3", sub)

    # base kernels with unknown operations
    for kind in ("lifting", "separable", "full", "subgroup"):
        for det in (True, False):
            def base(A, kind=kind, det=det):
                sl = SL.Slots((2,), 2)
                H = A.leaf("grid_H", (3, 2))
                Rn = A.leaf("grid_Rn", (3, 3, 2)) if kind != "subgroup" else None
                kw = {"inverse_H": sl.b("inverse_H")}
                if kind != "subgroup":
                    kw.update(left_apply_to_Rn=sl.b("left_apply_to_Rn"), sample_Rn=sl.b("sample_Rn"), mask=A.leaf("mask", (3, 3)),
                              sample_Rn_kwargs=A.dict("sample_Rn_kwargs", {"mode": "bilinear"}))
                if kind != "lifting":
                    kw.update(left_apply_to_H=sl.b("left_apply_to_H"), sample_H=sl.b("sample_H"),
                              sample_H_kwargs=A.dict("sample_H_kwargs", {"width": 2}))
                if det:
                    kw["det_H"] = sl.b("det_H")
                pos = [4, 2, (3, 3), (2, 1), H, Rn] if kind != "subgroup" else [4, 2, (1, 1), (2, 1), H]
                m = build(A, KER + CLASS[kind], *pos, groups=2, **kw)
                a = [A.leaf("inH", (2, 2))] if kind != "lifting" else []
                return m, a + [A.leaf("outH", (2, 2))], {}
            add("%s%s" % (CLASS[kind], ", determinant" if det else ""), KER + CLASS[kind], base)

    for kind in ("lifting", "separable", "full"):
        for d in (2, 3):
            def layer(A, kind=kind, d=d):
                sl = SL.Slots((2,), d)
                H, Rn = A.leaf("grid_H", (3, 2)), A.leaf("grid_Rn", (3,) * d + (d,))
                kw = {k: sl.b(k) for k in ("inverse_H", "left_apply_to_Rn", "sample_Rn")}
                if kind != "lifting":
                    kw.update({k: sl.b(k) for k in ("left_apply_to_H", "sample_H")})
                k = A.K.call(KER + CLASS[kind], 4, 2, (3,) * d, (2, 1), H, Rn, groups=2, **kw)
                m = build(A, MOD + "%s%dd" % (LAYER[kind], d), 4, 2, (3,) * d, (2, 1), k, groups=2, bias=True,
                          padding=A.list("padding", [1] * d), stride=A.list("stride", [2, 1, 2][:d]),
                          dilation=A.list("dilation", [1, 2, 1][:d]), padding_mode="reflect")
                x = A.leaf("x", (2, 4) + ((2,) if kind != "lifting" else ()) + (4, 5, 6)[:d])
                a = [A.leaf("inH", (2, 2))] if kind != "lifting" else []
                return m, [x] + a + [A.leaf("outH", (2, 2))], {}
            add("%s%dd" % (LAYER[kind], d), MOD + "%s%dd" % (LAYER[kind], d), layer)

    def feature(A, d):
        ns = tuple(A.K.size("X%d" % j, lo=6, conc=6 + j) for j in range(d))
        return A.leaf("x", (A.n("B"), A.K.size("C", conc=3), A.n("H")) + ns)
    for d in (2, 3):
        for cls, a in ([("G%sSpatialPool%dd" % (k, d), [2]) for k in ("Max", "Avg")] +
                       [("GAdaptive%sSpatialPool%dd" % (k, d), [3]) for k in ("Max", "Avg")]):
            add("%s" % cls, GN + cls, lambda A, cls=cls, a=a, d=d: (build(A, GN + cls, *a), [feature(A, d), A.leaf("H", (A.n("H"), 2))], {}))
        for kind in ("BatchNorm", "InstanceNorm"):
            for track in (False, True):
                cls = "G%s%dd" % (kind, d)

                def norm(A, cls=cls, d=d, track=track):
                    m = build(A, GN + cls, 3, affine=True, track_running_stats=track)
                    A.K.call(A.K.attr(m, "eval"))
                    x = A.leaf("x", (2, 3, 2) + (4, 5, 6)[:d])
                    return m, [x, A.leaf("H", (2, 2))], {}
                add("%s, evaluation%s" % (cls, ", running statistics" if track else ""), GN + cls, norm)
        if d == 2:
            for k in ("Max", "Avg"):
                for cls in ("G%sGroupPool" % k, "G%sGlobalPool" % k):
                    add(cls, GN + cls, lambda A, cls=cls: (build(A, GN + cls), [feature(A, 2), A.leaf("H", (A.n("H"), 2))], {}))
            for cls in ("GReLU", "GLeakyReLU", "GGELU"):
                add(cls, GN + cls, lambda A, cls=cls: (build(A, GN + cls), [feature(A, 2), A.leaf("H", (A.n("H"), 2))], {}))

            def lnorm(A):
                m = build(A, GN + "GLayerNorm", (3, 2, 4, 5))
                return m, [A.leaf("x", (2, 3, 2, 4, 5)), A.leaf("H", (2, 2))], {}
            add("GLayerNorm", GN + "GLayerNorm", lnorm)

            def wrap(A):
                m = build(A, GN + "GWrap", A.K.call(lookup(A.K.it, "torch.nn.Tanh")))
                return m, [feature(A, 2), A.leaf("H", (A.n("H"), 2))], {}
            add("GWrap", GN + "GWrap", wrap)
