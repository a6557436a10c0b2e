"""C30: ready-made layers are equivariant."""
from .. import ready as R
from .. import slots as SL
from .. import spec as S
from .. import terms as T
from .. import tensor as X
from ..ready import Group
from ..terms import tt, ZERO, ONE
from . import c11

EXPLANATION = """Every ready-made layer and kernel of SE(2), E(2), SE(3) and E(3) is run abstractly twice: on an unknown input
with unknown grids of elements, and on the input rotated (or reflected) by a symmetry of the voxel lattice with all elements
multiplied from the left by that symmetry.  The two results are related as terms: the second at a rotated position has to be
the first at the position.  Nothing is assumed about the learned weights, the features, the elements, or the group
interpolation, which stays an unknown function of query, signal, reference grid and options.  Subgroup kernels, which do not
depend on space, are compared for an arbitrary group element.  Stacks of lifting, norm, activation, group convolution,
global pooling are compared end to end: the pooled result must not change at all."""
RULE = "layer(r x, r H_in, r H_out)[r p] = layer(x, H_in, H_out)[p] for generators r of the lattice symmetries"
NOTE = ("Decided at fixed small channel counts, grid sizes and spatial sizes, at all positions of one orbit type each, for the "
        "generators of the lattice symmetries (quarter turns, point reflection); rotations in between are not exact symmetries "
        "of a voxel grid, for them the property is approximate and not decided here (C12 decides the sampled kernels).")

MOD, GN, KER = "gconv.gnn.modules:", "gconv.gnn:", "gconv.gnn.kernels:"
GROUPS = ("SE2", "E2", "SE3", "E3")
IDN = {2: [[1, 0], [0, 1]], 3: [[1, 0, 0], [0, 1, 0], [0, 0, 1]]}


def symmetries(G):
    """Generators of the lattice symmetries: (name, element, signed permutation matrix on coordinates)."""
    z = [[0, -1, 0], [1, 0, 0], [0, 0, 1]]
    x = [[1, 0, 0], [0, 0, -1], [0, 1, 0]]
    quarter = S.TWO_PI * T.inv(tt(4))

    def flat(m):
        return [tt(v) for r in m for v in r]
    if G.d == 2:
        m = [[0, -1], [1, 0]]
        if not G.two:
            return [("quarter turn", [quarter], m)]
        return [("quarter turn", [ONE, quarter], m),
                ("reflected quarter turn", [-ONE, quarter], [[0, 1], [-1, 0]])]
    if not G.two:
        return [("quarter turn about z", flat(z), z), ("quarter turn about x", flat(x), x)]
    return [("quarter turn about z", [ONE] + flat(z), z), ("quarter turn about x", [ONE] + flat(x), x),
            ("reflected quarter turn about x", [-ONE] + flat(x), [[-v for v in r] for r in x])]


def sides(n, d):
    return (n,) * d if isinstance(n, int) else tuple(n)


def moved_sides(m, n, d):
    n = sides(n, d)
    return tuple(n[d - 1 - next(b for b in range(d) if m[d - 1 - j][b])] for j in range(d))


def move(m, p, n):
    """Position p in an array of sides n moved by the signed permutation m of coordinates (last axis first)."""
    d = len(p)
    n = sides(n, d)
    out = [None] * d
    for a in range(d):
        for b in range(d):
            if m[a][b]:
                q = p[d - 1 - b]
                out[d - 1 - a] = q if m[a][b] > 0 else X.norm(tt(n[d - 1 - b]) - 1 - q)
    return out


def back(m):
    return [list(c) for c in zip(*m)]


def left(G, r, H):
    """r times every element of H."""
    sl = SL.Slots(G.es, G.d)

    def fn(i, *q):
        return sl.at(G.prod(r, G.comps(H, i)), q)
    return X.mk(H.shape, fn, H.dtype, H.device)


def turned(x, m, n, d):
    """The feature map x rotated by m."""
    k = x.ndim - d
    ns = moved_sides(m, n, d)
    return X.mk(x.shape[:k] + tuple(tt(s) for s in ns), lambda *i: x.at(*i[:k], *move(back(m), list(i[k:]), ns)), x.dtype, x.device, x.grad_deps)


def orbit(n, d):
    """Representative positions: a corner, an edge, the inside."""
    n = sides(n, d)
    c = [[0] * d, [0] + [v // 2 for v in n[1:]], [1] + [0] * (d - 1), [v // 2 for v in n]]
    if d == 3:
        c.append([0, 1, n[2] - 1])
    out = []
    for p in c:
        if p not in out:
            out.append(p)
    return [[tt(v) for v in p] for p in out]


OPTS = {"SE2": [{}, {"padding": "same"}, {"padding": 1, "padding_mode": "reflect"}, {"padding": 1, "padding_mode": "replicate"},
                {"padding": 1, "padding_mode": "circular"}, {"stride": 2, "padding": 1}, {"dilation": 2, "padding": 1},
                {"mask": False}, {"bias": True}, {"spatial_sampling_mode": "nearest"}, {"spatial_sampling_padding_mode": "zeros"},
                {"groups": 2}, {"sides": (4, 6)}, {"sides": (5, 7), "stride": 2, "padding": 1, "padding_mode": "circular"}]}
OPTS["E2"] = OPTS["SE2"]
OPTS["SE3"] = [{}, {"padding": "same"}, {"padding": 1, "padding_mode": "replicate"}, {"groups": 2, "bias": True, "mask": False},
               {"sides": (3, 4, 5)}]
OPTS["E3"] = OPTS["SE3"]


def sizes(G, kind, P=2, N=2):
    kw = {}
    if kind != "lifting":
        if G.two:
            kw = dict(group_kernel_size=(2, 2), group_rotation_sampling_width=0.5, group_reflection_sampling_width=0.7)
        else:
            kw = dict(group_kernel_size=3, group_sampling_width=0.5)
    return kw


def make(K, G, g, kind, ci, co, k, own=True, **kw):
    a = dict(sizes(G, kind))
    a.update(kw)
    if own and "grid_H" not in a:
        a["grid_H"] = G.grid(K, "gridH" + kind, (2, 1) if G.two else 2)
        a.pop("group_kernel_size", None)
        if G.two and kind != "lifting":
            a["group_kernel_size"] = (2, 1)
    return K.call(MOD + c11.NAMES[kind] + g, ci, co, k, permute_output_grid=False, **a)


def same(K, got, want, what):
    K.eq(X.norm(got), X.norm(want), what, rule="equivariance")


def layer(K, g, kind, sym, opt, k=3):
    G = Group(g)
    d = G.d
    name, r, m = sym
    gr = opt.get("groups", 1)
    opt = dict(opt)
    n = sides(opt.pop("sides", 5), d)
    ci, co = (2, 2) if gr == 2 or d == 2 else (1, 2)
    if kind == "lifting":
        opt = {k_[8:] if k_.startswith("spatial_") else k_: v for k_, v in opt.items()}
    L = make(K, G, g, kind, ci, co, k, **opt)
    outH = c11.elements(K, G, "outH", 2)
    args, args2 = [], []
    if kind == "lifting":
        x = K.leaf("x", (1, ci) + n)
    else:
        inH = c11.elements(K, G, "inH", 2)
        x = K.leaf("x", (1, ci, 2) + n)
        args, args2 = [inH], [left(G, r, inH)]
    y, h = K.call(L, x, *args, outH)
    y2, h2 = K.call(L, turned(x, m, n, d), *args2, left(G, r, outH))
    for e in range(2):
        for a, b in zip(G.comps(left(G, r, h), tt(e)), G.comps(h2, tt(e))):
            same(K, b, a, "output grid of the rotated input")
    K.require(all(v.const is not None for v in y.shape), "shape", "output sizes are numbers", X.show_shape(y.shape))
    no = tuple(int(v.const) for v in y.shape[-d:])
    K.shape(y2, y.shape[:-d] + tuple(tt(v) for v in moved_sides(m, no, d)), "features of the moved input")
    for j, p in enumerate(orbit(no, d)):
        for o in range(co):
            e = tt((j + o) % 2)
            same(K, y2.at(ZERO, tt(o), e, *move(m, p, no)), y.at(ZERO, tt(o), e, *p),
                 "%s of the input moved by a %s, channel %d, at the moved position %s" % (
                     c11.NAMES[kind] + g, name, o, tuple(int(q.const) for q in p)))


def kernels(ck, g, kind):
    """Sampled weights move with the elements; the part on the subgroup does not change for any common left factor."""
    from .c12 import CLASS
    G = Group(g)
    d = G.d
    ent = KER + CLASS[kind] + g

    def body(K, sym, k, mask):
        kw = sizes(G, kind)
        kw["grid_H"] = G.grid(K, "gridH", (2, 1) if G.two else 2)
        kw.pop("group_kernel_size", None)
        if G.two and kind != "lifting":
            kw["group_kernel_size"] = (2, 1)
        K1 = K.call(ent, 2, 2, k, mask=mask, **kw)
        outH = c11.elements(K, G, "outH", 2)
        inH = c11.elements(K, G, "inH", 2)
        if sym is None:
            r = G.comps(c11.elements(K, G, "r", 1), ZERO)
            m = None
        else:
            _, r, m = sym
        grids = [outH] if kind == "lifting" else [inH, outH]
        a = K.call(K1, *grids)
        b = K.call(K1, *[left(G, r, t) for t in grids])
        if kind == "separable":
            a, ra = a[0], a[1]
            b, rb = b[0], b[1]
            for o in range(2):
                for i in range(2):
                    for e in range(2):
                        at = (tt(o), tt(1 - e), tt(i), tt(e)) + (ZERO,) * d
                        same(K, b.at(*at), a.at(*at), "subgroup weights of %s with all elements multiplied from the left" % CLASS[kind])
            if m is None:
                return
            a, b = ra, rb
        pre = {"lifting": lambda o, e: (tt(o), tt(e), tt(1 - o)), "separable": lambda o, e: (tt(o), tt(e), ZERO),
               "full": lambda o, e: (tt(o), tt(e), tt(1 - o), tt(o))}[kind]
        for j, p in enumerate(orbit(k, d)):
            at = pre(j % 2, j // 2 % 2)
            same(K, b.at(*at, *move(m, p, k)), a.at(*at, *p), "sampled weights of %s with all elements multiplied by a %s, at "
                 "the moved position" % (CLASS[kind] + g, sym[0]))
    for sym in symmetries(G) + ([None] if kind == "separable" else []):
        for k, mask in ((3, True), (4, False), (5, True)) if d == 2 else ((3, True), (4, False)):
            ck.case("%s%s, %s, size %d%s" % (CLASS[kind], g, sym[0] if sym else "any element", k, ", mask" if mask else ""),
                    lambda K, sym=sym, k=k, mask=mask: body(K, sym, k, mask), ent, stubs=R.sampler_stubs(), modes=[])


def subgroup(ck):
    def body(K):
        G = Group("SO3")
        k = K.call(KER + "GSubgroupKernelSO3", 2, 2, 4, grid_H=G.grid(K, "gridH", 2), sampling_width=0.5)
        el = c11.elements(K, Group("SE3"), "el", 5)
        es = tuple(tt(e) for e in G.es)
        row = lambda a, b: X.mk((tt(b - a),) + es, lambda i, *q: el.at(i + a, *q), origin=("arg", "el"))  # noqa: E731
        inH, outH = row(0, 2), row(2, 4)
        r = G.comps(el, tt(4))
        a = K.call(k, inH, outH)
        b = K.call(k, left(G, r, inH), left(G, r, outH))
        K.shape(b, a.shape, "subgroup kernel")
        for o in range(2):
            for e in range(2):
                at = (tt(o), tt(e), tt(1 - o), tt(1 - e), ZERO, ZERO, ZERO)
                same(K, b.at(*at), a.at(*at), "subgroup kernel of left-multiplied elements")
    ck.case("GSubgroupKernelSO3, any element", body, KER + "GSubgroupKernelSO3", stubs=R.sampler_stubs(), modes=[])


def stacks(ck, g, how):
    """A small network ending in pooling is invariant."""
    G = Group(g)
    d = G.d
    n = 3
    ent = MOD + "GLiftingConv" + g

    def body(K, sym):
        name, r, m = sym
        L1 = make(K, G, g, "lifting", 1, 1, 3, padding=1)
        L2 = make(K, G, g, how, 1, 1, 3)
        N = K.call(GN + "GInstanceNorm%dd" % d, 1)
        A = K.call(GN + "GReLU")
        P = K.call(GN + "GAvgGlobalPool")

        def net(x, H):
            y, h = K.call(L1, x, H)
            y, h = K.call(N, y, h)
            y, h = K.call(A, y, h)
            y, h = K.call(L2, y, h, h)
            return K.call(P, y, h)
        H = c11.elements(K, G, "H", 2)
        x = K.leaf("x", (1, 1) + (n,) * d)
        a, b = net(x, H), net(turned(x, m, n, d), left(G, r, H))
        K.shape(b, a.shape, "pooled features")
        at = (ZERO,) * a.ndim
        same(K, b.at(*at), a.at(*at), "globally pooled features of the rotated input")
    for sym in symmetries(G):
        ck.case("%s network with %s convolution, %s" % (g, how, sym[0]), lambda K, sym=sym: body(K, sym), ent,
                stubs=R.sampler_stubs(), modes=[])


def modules(ck):
    """Norms, activations and group pooling commute with the symmetries of the lattice; global pooling ignores them."""
    def run(K, g, sym, name, args, kw, n, out):
        G = Group(g)
        d = G.d
        _, r, m = sym
        M = K.call(GN + name, *args, **kw)
        x = K.leaf("x", (2, 2, 2) + (n,) * d)
        H = c11.elements(K, G, "H", 2)
        rH = left(G, r, H)

        def call(v, h):
            y = K.call(M, v, h)
            return y if isinstance(y, tuple) else (y, None)
        y, h = call(x, H)
        y2, h2 = call(turned(x, m, n, d), rH)
        K.shape(y2, y.shape, "features of the rotated input")
        if h is not None:
            for e in range(2):
                for a, b in zip(G.comps(left(G, r, h), tt(e)), G.comps(h2, tt(e))):
                    same(K, b, a, "grid of the rotated input")
        if out is None:
            at = (ZERO, ONE) + (ZERO,) * (y.ndim - 2)
            same(K, y2.at(*at), y.at(*at), "%s of the rotated input" % name)
            return
        k = y.ndim - d
        for j, p in enumerate(orbit(out, d)):
            at = tuple(tt((j + q) % 2) for q in range(k))
            same(K, y2.at(*at, *move(m, p, out)), y.at(*at, *p), "%s of the rotated input at the moved position" % name)
    for g in ("E2", "E3"):
        d = Group(g).d
        for sym in symmetries(Group(g)):
            todo = [("GInstanceNorm%dd" % d, (2,), {"affine": True}, 3, 3), ("GBatchNorm%dd" % d, (2,), {}, 3 if d == 2 else 2, 3 if d == 2 else 2),
                    ("GReLU", (), {}, 3, 3), ("GGELU", (), {}, 3, 3), ("GLeakyReLU", (), {}, 3, 3)]
            for kind in ("Max", "Avg"):
                todo += [("G%sGroupPool" % kind, (), {}, 3, 3), ("G%sGlobalPool" % kind, (), {}, 3, None)]
            for name, args, kw, n, out in todo:
                ck.case("%s%s on %d^%d, %s" % (name, args or "", n, d, sym[0]),
                        lambda K, g=g, sym=sym, name=name, args=args, kw=kw, n=n, out=out: run(K, g, sym, name, args, kw, n, out),
                        GN + name, modes=[])


def check(ck):
    modules(ck)
    for g in GROUPS:
        G = Group(g)
        for kind in c11.NAMES:
            ent = MOD + c11.NAMES[kind] + g
            kernels(ck, g, kind)
            for sym in symmetries(G):
                for opt in OPTS[g]:
                    ck.case("%s%s%s, %s" % (c11.NAMES[kind], g, opt or "", sym[0]),
                            lambda K, g=g, kind=kind, sym=sym, opt=opt: layer(K, g, kind, sym, opt), ent,
                            stubs=R.sampler_stubs(), modes=[])
    subgroup(ck)
    for g in ("SE2", "E2"):
        for how in ("separable", "full"):
            stacks(ck, g, how)
