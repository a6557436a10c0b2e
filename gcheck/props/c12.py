"""C12: each ready-made kernel uses the operations of one group consistently."""
from .. import ready as R
from .. import slots as SL
from .. import spec as S
from .. import terms as T
from .. import tensor as X
from ..ready import Group, Kernel
from ..terms import tt, ZERO, ONE
from .c07 import find_layout, one_param

EXPLANATION = """Every ready-made kernel is constructed abstractly with an unknown reference grid of its group (and with its
default grid), given unknown learned weights, and sampled for unknown grids of the group; the entry of the result at a
generic index is compared, as a term, with the specification that uses the group law, action and inverse of that one group,
its own sampling function on the stored reference grid, and coordinates and mask of the kernel's size and dimension."""
RULE = "sampled weight has the value number of the specification with the operations of the one group; no shape error"

KINDS = ("lifting", "separable", "full")
CLASS = {"lifting": "GLiftingKernel", "separable": "GSeparableKernel", "full": "GKernel"}
GROUPS = ("SE2", "E2", "SE3", "E3")
FIXED = [{"default": [2, 3, 2, 2, 3, 2, 2, 3, 2]}, {"default": [3, 2, 2, 3, 2, 2, 3, 1, 2]}]


def size_args(g, name):
    """A value for the group kernel size where it is required."""
    return {} if g not in ("E2", "E3") or "Lifting" in name else {"group_kernel_size": (2, 2)}


def grid_sizes(K, G):
    if G.two:
        n = (K.size("Nr"), K.size("Nm"))
        return n, X.norm(n[0] + n[1])
    n = K.size("N")
    return n, n


def width_args(G, K, kind):
    """Explicit widths and the sampling keyword arguments they stand for."""
    if kind == "lifting":
        return {}, {}
    if G.two:
        a, b = K.positive("wrot"), K.positive("wref")
        return (dict(group_rotation_sampling_width=a, group_reflection_sampling_width=b),
                dict(rotation_width=a, reflection_width=b))
    w = K.positive("width")
    return dict(group_sampling_width=w), dict(width=w)


def subkernel_args(G, K):
    w = K.positive("width")
    return dict(sampling_width=w), dict(width=w)


def check_kernel(K, G, kind, k, co, cig, ksz, gridH, hkw, mode="bilinear", pad="border", mask=True, hmode="rbf",
                 what="sampled kernel", tag=""):
    """Sample kernel instance k for unknown grids and compare with the specification."""
    d = G.d
    N = gridH.shape[0]
    kw = dict(hkw, mode=hmode)
    sp = Kernel(K, G, ksz, co, cig, None, gridH, mode, pad, mask, kw)
    ks = sp.kk
    if kind == "lifting":
        W = one_param(K, k, 2 + d, "learned weight")
        K.shape(W, (co, cig) + ks, "learned weight")
        lw = SL.content(W, "W" + tag)
        M = K.size("M")
        H = G.elements(K, "H", M)
        r = K.call(k, H)
        K.shape(r, (co, M, cig) + ks, what)
        o, h, i = K.fresh(co), K.fresh(M), K.fresh(cig)
        for pos in positions(K, ks):
            K.eq(r.at(o, h, i, *pos), sp.moved(lambda *q: T.elem(lw, o, i, *q), G.comps(H, h), pos), what)
        return
    P, Q = K.size("P"), K.size("Q")
    inH, outH = G.elements(K, "inH", P), G.elements(K, "outH", Q)
    g, e = K.fresh(Q), K.fresh(P)
    x, y = G.comps(outH, g), G.comps(inH, e)
    if kind == "full":
        W = one_param(K, k, 3 + d, "learned weight")
        K.shape(W, (N, co, cig) + ks, "learned weight")
        lw = SL.content(W, "W" + tag)
        r = K.call(k, inH, outH)
        K.shape(r, (co, Q, cig, P) + ks, what)
        for pos in positions(K, ks):
            find_layout(K, lambda o, i: r.at(o, g, i, e, *pos),
                        lambda o, i: sp.moved(lambda *q: sp.subgroup(x, y, lambda n: T.elem(lw, n, o, i, *q)), x, pos),
                        co, cig, what)
        return
    if kind == "subgroup":
        W = one_param(K, k, 3, "learned weight")
        K.shape(W, (N, co, cig), "learned weight")
        lw = SL.content(W, "W" + tag)
        r = K.call(k, inH, outH)
        K.shape(r, (co, Q, cig, P) + (tt(1),) * d, what)
        find_layout(K, lambda o, i: r.at(o, g, i, e, *([ZERO] * d)),
                    lambda o, i: sp.subgroup(x, y, lambda n: T.elem(lw, n, o, i)), co, cig, what)
        return
    WH, WS = one_param(K, k, 3, "subgroup weight"), one_param(K, k, 2 + d, "spatial weight")
    K.shape(WH, (N, co, cig), "learned subgroup weight")
    K.shape(WS, (co, tt(1)) + ks, "learned spatial weight")
    lh, ls = SL.content(WH, "WH" + tag), SL.content(WS, "WS" + tag)
    r = K.call(k, inH, outH)
    K.require(isinstance(r, tuple) and len(r) == 2, "type", "%s is a pair" % what, "it is %s" % (r,))
    rh, rs = r
    K.shape(rh, (co, Q, cig, P) + (tt(1),) * d, what + ", subgroup part")
    K.shape(rs, (co, Q, tt(1)) + ks, what + ", spatial part")
    find_layout(K, lambda o, i: rh.at(o, g, i, e, *([ZERO] * d)),
                lambda o, i: sp.subgroup(x, y, lambda n: T.elem(lh, n, o, i)), co, cig, what + ", subgroup part")
    o = K.fresh(co)
    for pos in positions(K, ks):
        K.eq(rs.at(o, g, ZERO, *pos), sp.moved(lambda *q: T.elem(ls, o, ZERO, *q), x, pos), what + ", spatial part")


def positions(K, ks):
    yield [K.fresh(k) for k in ks]


def same_grid(K, stored, given, what):
    K.require(isinstance(stored, X.Tensor), "type", "%s is a tensor" % what, "it is %s" % (stored,))
    K.tensor(stored, given.shape, lambda *i: given.at(*i), what, enum=0)


def buffer_grid(K, k, given, what):
    """The registered reference grid is the given one."""
    bs = [b for n, b in SL.buffers(k) if b is given]
    if not bs:
        bs = [b for n, b in SL.buffers(k) if n.endswith("grid_H")]
    if not bs:
        bs = [b for n, b in SL.buffers(k) if b.ndim == given.ndim and all(X.same_size(a, c) for a, c in zip(
            b.shape, given.shape))]
    K.require(len(bs) >= 1, "reference-grid", "%s: the given grid is stored as reference grid" % what,
              "no registered buffer of shape %s" % X.show_shape(given.shape))
    same_grid(K, bs[0], given, what + ": reference grid")


def build(K, g, kind, gridH, wkw, ksz, mask=True, co=None, **extra):
    G = Group(g)
    gr, og, cig = K.size("G"), K.size("Og"), K.size("Ig")
    co, ci = gr * og, gr * cig
    name = CLASS[kind] + g
    kw = dict(wkw)
    kw.update(extra)
    if kind != "lifting" and G.two and "group_kernel_size" not in kw:
        kw["group_kernel_size"] = (2, 2)
    k = K.call(R.KER + name, K.int(ci), K.int(co), ksz if isinstance(ksz, int) else K.int(ksz), groups=K.int(gr),
               grid_H=gridH, mask=mask, **kw)
    return k, co, cig


def check(ck):
    stubs = R.sampler_stubs()
    for g in GROUPS:
        G = Group(g)
        for kind in KINDS:
            ent = R.KER + CLASS[kind] + g
            for mask in (True, False):
                for hmode in (("rbf", "nearest") if kind != "lifting" and mask else ("rbf",)):
                    def body(K, g=g, G=G, kind=kind, mask=mask, hmode=hmode):
                        n, N = grid_sizes(K, G)
                        gridH = G.grid(K, "gridH", n)
                        wkw, hkw = width_args(G, K, kind)
                        ksz = K.size("K", conc=3)
                        extra = {} if kind == "lifting" else {"group_sampling_mode": hmode}
                        k, co, cig = build(K, g, kind, gridH, wkw, ksz, mask, **extra)
                        buffer_grid(K, k, gridH, ent)
                        if G.two:
                            hkw["signal_grid_size"] = tuple(K.int(x) for x in n)
                        check_kernel(K, G, kind, k, co, cig, ksz, gridH, hkw if kind != "lifting" else {}, mask=mask,
                                     hmode=hmode)
                    ck.case("%s%s, given grid%s, %s" % (CLASS[kind], g, ", mask" if mask else "", hmode), body, ent,
                            stubs=stubs, modes=FIXED)
            defaults(ck, g, G, kind, ent, stubs)
    for hmode in ("rbf", "nearest"):
        def so3(K, hmode=hmode):
            G = Group("SO3")
            N = K.size("N")
            gridH = G.grid(K, "gridH", N)
            w, hkw = subkernel_args(G, K)
            gr, og, cig = K.size("G"), K.size("Og"), K.size("Ig")
            k = K.call(R.KER + "GSubgroupKernelSO3", K.int(gr * cig), K.int(gr * og), 4, groups=K.int(gr), grid_H=gridH,
                       sampling_mode=hmode, **w)
            buffer_grid(K, k, gridH, "GSubgroupKernelSO3")
            check_kernel(K, G, "subgroup", k, gr * og, cig, 1, gridH, hkw, hmode=hmode)
        ck.case("GSubgroupKernelSO3, given grid, %s" % hmode, so3, R.KER + "GSubgroupKernelSO3", stubs=stubs, modes=FIXED)
    defaults(ck, "SO3", Group("SO3"), "subgroup", R.KER + "GSubgroupKernelSO3", stubs)


def defaults(ck, g, G, kind, ent, stubs):
    """Default reference grids: elements of the right group in the right layout, sampled without error."""
    sizes = [(3, 2), (2, 4)] if G.two else [4, 2]
    for n in sizes:
        def body(K, n=n):
            gr, og, cig = tt(1), K.size("Og"), K.size("Ig")
            co, ci = og, cig
            wkw, hkw = width_args(G, K, kind) if kind != "subgroup" else subkernel_args(G, K)
            args = [K.int(ci), K.int(co)] + ([] if kind == "subgroup" else [3])
            k = K.call(ent, *args, group_kernel_size=n, **wkw)
            N = sum(n) if G.two else n
            bs = [b for _, b in SL.buffers(k) if b.ndim == 1 + len(G.es) and all(
                X.same_size(a, tt(c)) for a, c in zip(b.shape, (N,) + G.es))]
            K.require(len(bs) >= 1, "reference-grid", "default reference grid of %s has shape %s" % (ent, (N,) + G.es),
                      "registered buffers have shapes %s" % [X.show_shape(b.shape) for _, b in SL.buffers(k)])
            gridH = bs[0]
            valid_grid(K, G, gridH, n, "default reference grid")
            if G.two:
                hkw["signal_grid_size"] = n
            check_kernel(K, G, kind, k, co, cig, 3, gridH, hkw if kind != "lifting" else {})
        ck.case("%s, default grid of %s" % (ent[len(R.KER):], n), body, ent, stubs=stubs)


def num(t):
    t = X.norm(tt(t))
    if t.const is not None:
        return float(t.const)
    v = T.numeric_const(t)
    if v is None:
        raise X.Incomplete("grid entry is not a constant: %s" % T.brief(t))
    return float(v)


def valid_grid(K, G, t, n, what):
    """Constant elements of the group, pairwise different; for O(n) rotations first."""
    N = sum(n) if G.two else n
    els = [[num(c) for c in G.comps(t, tt(i))] for i in range(N)]
    for i, x in enumerate(els):
        if G.two:
            K.require(x[0] == (1 if i < n[0] else -1), "order", "%s: rotations first" % what,
                      "element %d has coefficient %s" % (i, x[0]))
        m = x[1:] if G.name == "E3" else x if G.name in ("SE3", "SO3") else None
        if m:
            m = [m[0:3], m[3:6], m[6:9]]
            dev = max(abs(sum(m[a][c] * m[b][c] for c in range(3)) - (a == b)) for a in range(3) for b in range(3))
            det = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                   + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
            K.require(dev < 2e-3 and abs(det - 1) < 5e-3, "rotation", "%s: element %d is a rotation matrix" % (what, i),
                      "its rows have inner products off by %.2g, its determinant is %.3g" % (dev, det))
        else:
            a = x[-1]
            K.require(-1e-9 <= a < 6.2831855, "range", "%s: element %d is an angle in [0, 2 pi)" % (what, i), "it is %s" % a)
    for i in range(N):
        for j in range(i):
            K.require(max(abs(a - b) for a, b in zip(els[i], els[j])) > 1e-3, "distinct",
                      "%s: elements %d and %d differ" % (what, j, i), "both are %s" % (els[i],))
