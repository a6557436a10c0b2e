"""C15: interpolation reproduces its data and keeps batches and channels apart."""
from fractions import Fraction

from .. import interp as I
from .. import spec as S
from .. import terms as T
from .. import tensor as X
from ..terms import tt, ZERO, ONE

EXPLANATION = """The interpolation functions are run abstractly on unknown nodes, reference elements and signals with symbolic
sizes, a Euclidean distance and an unknown radial basis function.  The result at a generic (batch, node, channel) is compared,
as a term, with the specification: sum_l phi(d(node, g_l)) sum_j (M^-1)_lj s_j with M_lj = phi(d(g_l, g_j)) for radial basis
functions, the row of the arg-min of the distance for nearest, and for barycentric interpolation weights that are non-negative,
sum to one and vanish outside the three nearest; and with the same call on that batch entry, node and channel alone.  Nodes
equal to the reference elements have to give back the signal.  The sampling functions of SO(2) and SO(3) are compared with the
same specification for their own distances."""
RULE = "interpolant has the value number of the specification built from the same distance and basis"

IP = "gconv.geometry.interpolation:"
SO2 = "gconv.geometry.groups.so2:"
SO3 = "gconv.geometry.groups.so3:"
S2 = [{"default": [2, 3, 2, 3, 2, 3]}, {"default": [3, 2, 4, 2, 3, 2]}]


def euclid(K):
    """Euclidean distance over the last axis, with broadcasting."""
    norm = K.lib("torch.linalg.vector_norm")

    def fn(a, b):
        return K.call(norm, X.ew(lambda x, y: x - y, [a, b], "float32"), dim=-1)
    return I.Builtin("euclidean distance", fn)


def basis(K):
    def fn(d, width):
        w = X.num_term(width)
        return X.ew(lambda x: T.opq("rbf", x, w), [d], "float32")
    return I.Builtin("unknown basis", fn)


def data(K, D=None):
    N, Kn, L, C = K.size("N"), K.size("Kn"), K.size("L", lo=1), K.size("S")
    D = K.size("D") if D is None else tt(D)
    return N, Kn, L, C, D, K.leaf("nodes", (N, Kn, D)), K.leaf("grid", (N, L, D)), K.leaf("signal", (N, L, C))


def edist(n, x, y):
    k = T.fresh(n)
    d = x(k) - y(k)
    return T.fun("sqrt", T.sum_over([k], d * d))


def rbf_spec(L, phi, q, ref, sig):
    """phi(distance) of query/reference; ref pairs; sig(j)."""
    l, j = T.fresh(L), T.fresh(L)
    M = T.lam((L, L), lambda a, b: phi(ref(a), ref(b)))
    return T.sum_over([l, j], phi(q, ref(l)) * X.matinv_at(M, l, j) * sig(j))


def check(ck):
    gauss(ck)
    rbf(ck)
    nearest(ck)
    bcc(ck)
    samplers(ck)


def gauss(ck):
    ent = IP + "RBF_gauss"

    def value(K, x, want, what):
        w = K.positive("w")
        B = K.size("B")
        t = X.mk((B, tt(2)), lambda i, j: x(X.num_term(w), i, j))
        r = K.call(ent, t, w)
        K.shape(r, (B, tt(2)), "basis")
        i = K.fresh(B)
        K.holds([r.at(i, ONE), want(X.num_term(w), i)], lambda v: abs(v[0] - v[1]), what, tol=1e-5, want="the specified value")
    ck.case("RBF_gauss at distance zero", lambda K: value(K, lambda w, i, j: ZERO, lambda w, i: ONE, "value at zero"), ent)
    ck.case("RBF_gauss at the width", lambda K: value(K, lambda w, i, j: w, lambda w, i: T.const(Fraction(1, 2)), "value at the width"), ent)

    def all_(K):
        lf = T.Leaf("x")
        value(K, lambda w, i, j: T.elem(lf, i, j),
              lambda w, i: T.fun("exp", -(T.elem(lf, i, ONE) * T.elem(lf, i, ONE) * T.inv(w * w)) * T.fun("log", tt(2))), "value")
    ck.case("RBF_gauss anywhere", all_, ent)


def alone(K, fn, nodes, grid, signal, r, n, k, s, kw, what):
    """The same call on one batch entry, node and channel."""
    D, L = nodes.shape[-1], grid.shape[1]
    a = X.mk((ONE, ONE, D), lambda x, y, d: nodes.at(n, k, d))
    b = X.mk((ONE, L, D), lambda x, l, d: grid.at(n, l, d))
    c = X.mk((ONE, L, ONE), lambda x, l, y: signal.at(n, l, s))
    K.eq(r.at(n, k, s), K.call(fn, a, b, c, **kw).at(ZERO, ZERO, ZERO), what, rule="separation")


def rbf(ck):
    ent = IP + "interpolate_RBF"

    def spec(K, default=False):
        N, Kn, L, C, D, nodes, grid, signal = data(K)
        w = K.positive("w")
        kw = dict(dist_fn=euclid(K), width=w)
        if not default:
            kw["rbf"] = basis(K)
        r = K.call(ent, nodes, grid, signal, **kw)
        K.shape(r, (N, Kn, C), "interpolant")
        n, k, s = K.fresh(N), K.fresh(Kn), K.fresh(C)
        wt = X.num_term(w)

        def phi(x, y):
            d = edist(D, x, y)
            if default:
                return K.call(IP + "RBF_gauss", X.mk((), lambda: d), w).at()
            return T.opq("rbf", d, wt)
        K.eq(r.at(n, k, s), rbf_spec(L, phi, lambda d: nodes.at(n, k, d), lambda l: (lambda d: grid.at(n, l, d)),
                                     lambda j: signal.at(n, j, s)), "interpolant", tol=1e-5)
        alone(K, ent, nodes, grid, signal, r, n, k, s, kw, "interpolant of one batch entry, node and channel")
    ck.case("interpolate_RBF, unknown basis", spec, ent, modes=S2)
    ck.case("interpolate_RBF, default basis", lambda K: spec(K, True), ent, modes=S2)

    def reproduce(K, sizes=None):
        N, Kn, L, C, D, nodes, grid, signal = data(K, 3)
        w = K.positive("w")
        r = K.call(ent, grid, grid, signal, dist_fn=euclid(K), width=w)
        K.shape(r, (N, L, C), "interpolant")
        n, k, s = K.fresh(N), K.fresh(L), K.fresh(C)
        K.eq(r.at(n, k, s), signal.at(n, k, s), "interpolant at the reference elements", rule="reproduces", tol=1e-4)
    ck.case("interpolate_RBF at the reference elements", reproduce, ent, modes=S2)


def nearest(ck):
    ent = IP + "interpolate_NN"

    def spec(K):
        N, Kn, L, C, D, nodes, grid, signal = data(K)
        kw = dict(dist_fn=euclid(K))
        r = K.call(ent, nodes, grid, signal, **kw)
        K.shape(r, (N, Kn, C), "interpolant")
        n, k, s = K.fresh(N), K.fresh(Kn), K.fresh(C)
        l = T.fresh(L)
        at = T.order_stat("argos", T.close([l], edist(D, lambda d: nodes.at(n, k, d), lambda d: grid.at(n, l, d))), 0, False)
        K.eq(r.at(n, k, s), signal.at(n, at, s), "interpolant")
        alone(K, ent, nodes, grid, signal, r, n, k, s, kw, "interpolant of one batch entry, node and channel")
    ck.case("interpolate_NN", spec, ent, modes=S2)

    def extra(K):
        N, Kn, L, C, D, nodes, grid, _ = data(K)
        r = K.call(ent, grid, grid, X.mk((N, L, C), lambda n, l, s: T.elem(T.Leaf("signal"), n, l, s)), dist_fn=euclid(K))
        n, k, s = K.fresh(N), K.fresh(L), K.fresh(C)
        K.eq(r.at(n, k, s), T.elem(T.Leaf("signal"), n, k, s), "interpolant at the reference elements", rule="reproduces")
    ck.case("interpolate_NN at the reference elements", extra, ent, modes=S2)


def bcc(ck):
    ent = IP + "interpolate_BCC"
    modes = [{"default": [2, 2, 4, 2, 3, 2]}, {"default": [1, 3, 5, 1, 3, 2]}]

    def setup(K, sig=None):
        N, Kn, L, C = K.size("N"), K.size("Kn"), K.size("L", lo=3), K.size("S")
        nodes, grid = K.leaf("nodes", (N, Kn, 3)), K.leaf("grid", (N, L, 3))
        signal = K.leaf("signal", (N, L, C)) if sig is None else X.mk((N, L, C), sig)
        kw = dict(dist_fn=euclid(K))
        return N, Kn, L, C, nodes, grid, signal, kw

    def const(K):
        N, Kn, L, C, nodes, grid, signal, kw = setup(K, lambda n, l, s: tt(3))
        r = K.call(ent, nodes, grid, signal, **kw)
        K.shape(r, (N, Kn, C), "interpolant")
        n, k, s = K.fresh(N), K.fresh(Kn), K.fresh(C)
        # nodes opposite to the simplex of their nearest elements have no barycentric coordinate that is positive
        l = T.fresh(L)
        lm = T.close([l], edist(tt(3), lambda d: nodes.at(n, k, d), lambda d: grid.at(n, l, d)))
        near = [T.order_stat("argos", lm, j, False) for j in range(3)]
        simplex = X.mk((tt(3), tt(3)), lambda d, j: grid.at(n, T.ite(T.eq(j, ZERO), near[0], T.ite(T.eq(j, ONE), near[1], near[2])), d))
        sol = K.call(K.lib("torch.linalg.lstsq"), simplex, X.mk((tt(3), ONE), lambda d, z: nodes.at(n, k, d)))
        sol = K.it.getattr(sol, "solution")
        pos = [T.lt(T.const(Fraction(1, 1000)), sol.at(j, ZERO)) for j in range(3)]
        K.eq(r.at(n, k, s), tt(3), "interpolant of a constant signal", rule="weights sum to one",
             assume=(T.lor(T.lor(pos[0], pos[1]), pos[2]),))
    ck.case("interpolate_BCC of a constant signal", const, ent, modes=modes)

    def weights(K):
        a = T.sym("row", is_int=True, lo=0)
        N, Kn, L, C, nodes, grid, signal, kw = setup(K, lambda n, l, s: T.eq(l, a))
        r = K.call(ent, nodes, grid, signal, **kw)
        n, k, s = K.fresh(N), K.fresh(Kn), K.fresh(C)
        l = T.fresh(L)
        lm = T.close([l], edist(tt(3), lambda d: nodes.at(n, k, d), lambda d: grid.at(n, l, d)))
        near = [T.order_stat("argos", lm, j, False) for j in range(3)]
        K.holds([r.at(n, k, s), a] + near, lambda v: 0 if (-1e-9 <= v[0] <= 1 + 1e-9 and (v[1] in v[2:] or v[0] == 0)) else 1,
                "weight of a row", rule="convex combination of the three nearest", trials=40,
                want="a number in [0, 1], zero outside the three nearest")
    ck.case("interpolate_BCC weights", weights, ent, modes=modes)

    def separate(K):
        N, Kn, L, C, nodes, grid, signal, kw = setup(K)
        r = K.call(ent, nodes, grid, signal, **kw)
        K.shape(r, (N, Kn, C), "interpolant")
        n, k, s = K.fresh(N), K.fresh(Kn), K.fresh(C)
        alone(K, ent, nodes, grid, signal, r, n, k, s, kw, "interpolant of one batch entry, node and channel")
    ck.case("interpolate_BCC separates", separate, ent, modes=modes)

    def reproduce(K):
        N, Kn, L, C, nodes, grid, signal, kw = setup(K)
        r = K.call(ent, grid, grid, signal, **kw)
        n, k, s = K.fresh(N), K.fresh(L), K.fresh(C)
        K.eq(r.at(n, k, s), signal.at(n, k, s), "interpolant at the reference elements", rule="reproduces")
    ck.case("interpolate_BCC at the reference elements", reproduce, ent, modes=modes)


def samplers(ck):
    """grid_sample of so2 and so3 against the specification with the library's own distance of two elements."""
    for g, mod, n in (("so2", SO2, 1), ("so3", SO3, 4), ("so3 matrices", SO3, 9)):
        for mode in ("rbf", "nearest", None):
            def body(K, g=g, mod=mod, n=n, mode=mode):
                Q, L, C = K.size("Q"), K.size("L"), K.size("S")
                if n == 9:
                    (q, _), (ref, _) = S.rotmats(K, "q", (Q,)), S.rotmats(K, "ref", (L,))
                elif n == 4:
                    (q, _), (ref, _) = S.unit_quats(K, "q", (Q,)), S.unit_quats(K, "ref", (L,))
                else:
                    q, ref = K.leaf("q", (Q, 1)), K.leaf("ref", (L, 1))
                sig = K.leaf("signal", (L, C))
                w = K.positive("w")
                kw = {} if mode is None else {"mode": mode}
                r = K.call(mod + "grid_sample", q, sig, ref, width=w, **kw)
                K.shape(r, (Q, C), "sampled signal")
                i, s = K.fresh(Q), K.fresh(C)

                def dist(x, y):
                    """Distance as a function of the element sources."""
                    return K.call(mod + "geodesic_distance", X.mk((tt(min(n, 4)),), x), X.mk((tt(min(n, 4)),), y)).at()
                if n == 9:
                    lq, lr = T.Leaf("q", unit_first=4), T.Leaf("ref", unit_first=4)
                    src = lambda d: T.elem(lq, i, d)  # noqa: E731
                    refs = lambda l: (lambda d: T.elem(lr, l, d))  # noqa: E731
                else:
                    src = lambda d: q.at(i, d)  # noqa: E731
                    refs = lambda l: (lambda d: ref.at(l, d))  # noqa: E731
                if mode == "nearest":
                    l = T.fresh(L)
                    at = T.order_stat("argos", T.close([l], dist(src, refs(l))), 0, False)
                    K.eq(r.at(i, s), sig.at(at, s), "sampled signal")
                else:
                    phi = lambda x, y: K.call(IP + "RBF_gauss", X.mk((), lambda: dist(x, y)), w).at()  # noqa: E731
                    K.eq(r.at(i, s), rbf_spec(L, phi, src, refs, lambda j: sig.at(j, s)), "sampled signal", tol=1e-3)
            ck.case("%s.grid_sample, %s" % (g, mode or "default mode"), body, mod + "grid_sample", modes=S2)
