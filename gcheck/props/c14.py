"""C14: default interpolation widths come from the grid's own density."""
import math

from .. import interp as I
from .. import ready as R
from .. import slots as SL
from .. import spec as S
from .. import terms as T
from .. import tensor as X
from ..ready import Group
from ..terms import tt, ZERO, ONE
from . import c12

EXPLANATION = """nearest_neighbour_distance of both modules is interpreted on unknown elements (angles, quaternions, rotation
matrices) for every grid size up to a bound; each entry has to be, as a term, the smallest distance to an element with another
index.  Every ready-made kernel and layer with a group sampler is constructed without widths for given unknown grids and for
its default grid and sampled; the widths that reach the sampling function are captured and have to equal 0.8 times the mean
nearest-neighbour distance of the subgroup's reference elements, and the given width where one was given for one subgroup
only."""
RULE = "width reaching the sampler = 0.8 * mean_i min_{j != i} d(g_i, g_j) over the subgroup's reference elements"
NOTE = "Grid sizes are bounded (2 to 5 elements per subgroup, 7 in the thorough tier) because sorting is interpreted at a fixed length."

SO2 = "gconv.geometry.groups.so2:"
SO3 = "gconv.geometry.groups.so3:"
FIXED = [{"default": [2, 3, 2, 2, 3, 2, 2, 3, 2]}]
EPS = {"so2": 1e-12, "so3": 1e-7}


def d_angle(a, b):
    return math.acos(max(-1.0, min(1.0, math.cos(a[0] - b[0]))))


def d_quat(a, b):
    return math.acos(max(-1.0, min(1.0 - 1e-7, abs(sum(x * y for x, y in zip(a, b))))))


def d_matrix(a, b):
    tr = sum(x * y for x, y in zip(a, b))
    return math.acos(max(-1.0, min(1.0 - 1e-7, math.sqrt(max(0.0, 1 + tr)) / 2)))


def nearest(els, dist):
    return [min(dist(x, y) for j, y in enumerate(els) if j != i) for i, x in enumerate(els)]


def split(v, n, m):
    return [v[m * i:m * (i + 1)] for i in range(n)]


def distances(ck, top):
    kinds = (("angles", SO2, 1, (1,), d_angle, lambda: T.Leaf("g", lo=0)), ("quaternions", SO3, 4, (4,), d_quat, None),
             ("matrices", SO3, 9, (3, 3), d_matrix, None))
    for name, mod, m, es, dist, _ in kinds:
        for n in range(2, top + 1):
            def body(K, name=name, mod=mod, m=m, es=es, dist=dist, n=n):
                if m == 1:
                    g = K.leaf("g", (n, 1))
                elif m == 4:
                    lf = T.Leaf("g", unit_first=4)
                    g = X.mk((tt(n), tt(4)), lambda *i: T.elem(lf, *i), origin=("arg", "g"))
                else:
                    lf = T.Leaf("g", rot=True)
                    g = X.mk((tt(n), tt(3), tt(3)), lambda i, a, b: T.elem(lf, i, 3 * a + b), origin=("arg", "g"))
                r = K.call(mod + "nearest_neighbour_distance", g)
                K.shape(r, (n,), "nearest neighbour distances")
                comps = [c for i in range(n) for c in SL.comps(g, (tt(i),), es)]
                for i in range(n):
                    def same(v, i=i):
                        return abs(v[0] - nearest(split(v[1:], n, m), dist)[i])
                    K.holds([r.at(tt(i))] + comps, same, "nearest neighbour distance of element %d of %d %s" % (i, n, name),
                            rule="nearest", want="the smallest distance to another element", tol=2e-3)
            ck.case("nearest_neighbour_distance, %d %s" % (n, name), body, mod + "nearest_neighbour_distance")


def capture(log):
    """Sampling functions that record the options they are called with."""
    out = {}
    for name, make in R.sampler_stubs().items():
        def make2(it, f, make=make, name=name):
            inner = make(it, f)

            def fn(*args, **kw):
                v = it.bind_args(f, args, kw)
                log.append((name, {n: v[n] for n in f.info.params}))
                # the width is looked at by itself: the sampled value is not
                return inner.fn(*[X.mknum(ONE, "float") if n.endswith("width") else v[n] for n in f.info.params])
            return I.Builtin(name, fn)
        out[name] = make2
    return out


def number(K, v, what):
    if isinstance(v, X.Tensor):
        n = 1
        for s in v.shape:
            K.require(X.is_one(s), "scalar", "%s is one number" % what, "it has shape %s" % X.show_shape(v.shape))
        return v.at(*([ZERO] * v.ndim))
    return X.num_term(v)


def grid(K, G, n):
    """Unknown valid elements of the group, for O(n) rotations first."""
    lf = T.Leaf("gridH", rot=True) if G.d == 3 else T.Leaf("gridH")
    if G.name == "SE2":
        return K.leaf("gridH", (n, 1))
    if G.name in ("SE3", "SO3"):
        return X.mk((tt(n), tt(3), tt(3)), lambda i, a, b: T.elem(lf, i, 3 * a + b), origin=("arg", "gridH"))
    a, b = n

    def fn(i, k):
        i, k = X.norm(i), X.norm(k)
        c = T.ite(T.lt(i, tt(a)), ONE, -ONE)
        if k.const is not None:
            return c if k.const == 0 else T.elem(lf, i, k - 1)
        return T.ite(T.eq(k, ZERO), c, T.elem(lf, i, k - 1))
    return X.mk((tt(a + b),) + tuple(tt(e) for e in G.es), fn, origin=("arg", "gridH"))


def widths(K, G, ent, log, n, own, given=None, kind="full"):
    """Build without widths, sample, and compare the captured widths."""
    kw = {}
    if own:
        kw["grid_H"] = grid(K, G, n)
        if G.two or kind == "subgroup":
            kw["group_kernel_size"] = (2, 2) if G.two else 2
    else:
        kw["group_kernel_size"] = n
    gv = {}
    for w in given or ():
        gv[w] = kw["group_%s_sampling_width" % w] = K.positive("w_" + w)
    args = [2, 2] + ([] if kind == "subgroup" else [3])
    k = K.call(ent, *args, **kw)
    if ent.startswith("gconv.gnn.modules"):
        k = K.attr(k, "kernel")
    if not own:
        N = sum(n) if G.two else n
        bs = [b for _, b in SL.buffers(k) if b.ndim == 1 + len(G.es) and all(
            X.same_size(a, tt(c)) for a, c in zip(b.shape, (N,) + G.es))]
        K.require(len(bs) == 1, "reference-grid", "one default reference grid of shape %s" % ((N,) + G.es,), "there are %d" % len(bs))
        g = bs[0]
    else:
        g = kw["grid_H"]
    del log[:]
    K.call(k, G.elements(K, "inH", K.size("P")), G.elements(K, "outH", K.size("Q")))
    K.require(len(log) >= 1, "sampled", "the group sampling function is called", "it is not")
    dist = d_angle if G.mod in ("so2", "o2") else d_matrix
    m = 1 if G.mod in ("so2", "o2") else 9
    parts = [("width", range(n))] if not G.two else [("rotation_width", range(n[0])), ("reflection_width", range(n[0], sum(n)))]
    for name, rows in parts:
        for fname, v in log:
            K.require(name in v, "sampler", "the sampling function takes a %s" % name, "%s takes %s" % (fname, sorted(v)))
            w = number(K, v[name], name)
            what = "%s of %s" % (name, ent.split(":")[1])
            key = name[:-6]
            if key in gv:
                K.eq(w, X.num_term(gv[key]), what, "given")
                continue
            comps = [c for i in rows for c in SL.comps(g, (tt(i),), G.es)[1 if G.two else 0:]]

            def same(v, c=len(rows)):
                return abs(v[0] - 0.8 * sum(nearest(split(v[1:], c, m), dist)) / c)
            K.holds([w] + comps, same, what, rule="width", tol=2e-3,
                    want="0.8 * mean nearest-neighbour distance of the %d reference elements" % len(rows))


MOD = "gconv.gnn.modules:"


def check(ck):
    top = 7 if ck.thorough else 5
    distances(ck, top)
    ents = []
    for g in c12.GROUPS:
        ents += [(g, R.KER + "GSeparableKernel" + g, "separable"), (g, R.KER + "GKernel" + g, "full"),
                 (g, MOD + "GSeparableConv" + g, "separable"), (g, MOD + "GConv" + g, "full")]
    ents.append(("SO3", R.KER + "GSubgroupKernelSO3", "subgroup"))
    for g, ent, kind in ents:
        G = Group(g)
        sizes = [(2, 3), (3, 2), (4, 2)] if G.two else [2, 3, 4]
        if ck.thorough:
            sizes += [(5, 3), (2, 5)] if G.two else [5, 6]
        for n in sizes:
            log = []

            def body(K, g=g, G=G, ent=ent, kind=kind, n=n, log=log):
                widths(K, G, ent, log, n, True, kind=kind)
            ck.case("%s, given grid of %s" % (ent.split(":")[1], n), body, ent, stubs=capture(log), modes=FIXED)
        for n in ([(4, 3), (2, 4)] if G.two else [4, 6]):
            log = []

            def body(K, g=g, G=G, ent=ent, kind=kind, n=n, log=log):
                widths(K, G, ent, log, n, False, kind=kind)
            ck.case("%s, default grid of %s" % (ent.split(":")[1], n), body, ent, stubs=capture(log), modes=FIXED)
        if G.two:
            for w in ("rotation", "reflection"):
                log = []

                def body(K, g=g, G=G, ent=ent, kind=kind, w=w, log=log):
                    widths(K, G, ent, log, (3, 2), True, (w,), kind=kind)
                ck.case("%s, given %s width only" % (ent.split(":")[1], w), body, ent, stubs=capture(log), modes=FIXED)
