"""C17: geodesic distances are symmetric, invariant and well defined."""
import math

from .. import spec as S
from .. import terms as T
from .. import tensor as X
from ..terms import tt, ZERO, ONE

EXPLANATION = """Each distance function is run abstractly on unknown elements with every pattern of leading shapes that
broadcasts; each entry of the result is compared with the arc cosine of the clamped inner product of the two elements'
representing unit vectors, for given clamping bounds and for the default ones.  Symmetry, invariance under multiplication of
both elements by a third with the library's own product, under sign changes of quaternions and under full turns of angles are
compared as terms; equal and opposite elements must give a value strictly between 0 and pi, i.e. strictly inside the clamp."""
RULE = "distance = acos(clamp(<u, v>, -1 + eps, 1 - eps)), 0 < eps; invariances by value number"

SO2 = "gconv.geometry.groups.so2:"
SO3 = "gconv.geometry.groups.so3:"
S2 = "gconv.geometry.groups.s2:"
FNS = ((SO2 + "geodesic_distance", 1), (SO2 + "geodesic_distance_euclid", 2), (SO3 + "geodesic_distance", 4),
       (S2 + "geodesic_distance_s2", 3))


def inner(fn, n, a, b):
    if n == 1:
        return S.cos(a[0]) * S.cos(b[0]) + S.sin(a[0]) * S.sin(b[0])
    r = T.addmany([x * y for x, y in zip(a, b)])
    return T.fun("abs", r) if n == 4 else r


def unit(K, name, batch, n):
    """Unit vectors (angles for n = 1)."""
    lf = T.Leaf(name, unit_first=n) if n > 1 else T.Leaf(name)
    t = X.mk(tuple(batch) + (tt(n),), lambda *i: T.elem(lf, *i), origin=("arg", name))
    t.name = name
    return t


def comps(t, pre, n):
    return [t.at(*pre, tt(k)) for k in range(n)]


def shapes(K):
    a, b, c = K.size("A"), K.size("B"), K.size("C")
    one = ONE
    return {
        "single": ((), ()), "rank 1": ((a,), (a,)), "rank 2": ((a, b), (a, b)), "rank 3": ((a, b, c), (a, b, c)),
        "pairwise": ((a, one), (b,)), "one to many": ((), (b,)), "many to one": ((a, b), (one, one)),
        "batched pairs": ((c, a, one), (c, one, b)),
    }


def bcast(p, q, i):
    """Indices into shapes p and q of index i of the broadcast."""
    def pick(s):
        k = len(i) - len(s)
        return tuple(ZERO if X.is_one(x) else i[k + j] for j, x in enumerate(s))
    return pick(p), pick(q)


def out_shape(p, q):
    r = max(len(p), len(q))
    p, q = (ONE,) * (r - len(p)) + tuple(p), (ONE,) * (r - len(q)) + tuple(q)
    return tuple(b if X.is_one(a) else a for a, b in zip(p, q))


def check(ck):
    for fn, n in FNS:
        name = fn.split(".")[-1].replace(":", ".")
        for lay in ("single", "rank 1", "rank 2", "rank 3", "pairwise", "one to many", "many to one", "batched pairs"):
            for eps in ((None, "1e-3", "1e-7") if lay in ("rank 1", "pairwise") else (None,)):
                def body(K, fn=fn, n=n, lay=lay, eps=eps):
                    from fractions import Fraction
                    p, q = shapes(K)[lay]
                    x, y = unit(K, "x", p, n), unit(K, "y", q, n)
                    kw = {}
                    if eps:
                        kw["eps"] = X.mknum(T.const(Fraction(eps)), "float")
                    r = K.call(fn, x, y, **kw)
                    o = out_shape(p, q)
                    K.shape(r, o, "distance")
                    i = [K.fresh(s) for s in o]
                    a, b = bcast(p, q, i)
                    c = inner(fn, n, comps(x, a, n), comps(y, b, n))
                    if eps:
                        e = T.const(Fraction(eps))
                        K.eq(r.at(*i), T.fun("acos", T.fun("clamp", c, e - 1, ONE - e)), "distance")
                    else:
                        K.holds([r.at(*i), c], lambda v: abs(v[0] - math.acos(max(-1.0, min(1.0, v[1])))), "distance",
                                tol=5e-3, want="the arc cosine of the inner product", trials=12)
                ck.case("%s, %s%s" % (name, lay, ", eps " + eps if eps else ""), body, fn)
        ends(ck, fn, n, name)
    laws(ck)


def ends(ck, fn, n, name):
    def equal(K):
        a = K.size("A")
        x = unit(K, "x", (a,), n)
        i = K.fresh(a)
        K.holds([K.call(fn, x, x).at(i)], lambda v: 0 if 0 < v[0] < 5e-3 else 1, "equal elements are strictly inside the clamp",
                rule="clamp", want="a small positive distance")

    def opposite(K):
        a = K.size("A")
        x = unit(K, "x", (a,), n)
        y = X.mk(x.shape, (lambda *i: x.at(*i) + T.PI) if n == 1 else (lambda *i: -x.at(*i)))
        i = K.fresh(a)
        lo, hi = (0, 5e-3) if n == 4 else (math.pi - 5e-3, math.pi)
        K.holds([K.call(fn, x, y).at(i)], lambda v: 0 if lo < v[0] < hi else 1, "opposite elements are strictly inside the clamp",
                rule="clamp", want="a distance strictly between %g and %g" % (lo, hi))

    def ortho(K):
        # also at elements a quarter turn apart nothing is clamped
        if n == 1:
            x, y = [0.25], [0.25 + math.pi / 2]
        else:
            x, y = [0.6, 0.8] + [0.0] * (n - 2), [-0.8, 0.6] + [0.0] * (n - 2)
        from fractions import Fraction
        tx = X.mk((tt(n),), lambda k: S.by_index(k, [T.const(Fraction(v)) for v in x]))
        ty = X.mk((tt(n),), lambda k: S.by_index(k, [T.const(Fraction(v)) for v in y]))
        K.holds([K.call(fn, tx, ty).at()], lambda v: abs(v[0] - math.pi / 2), "distance of orthogonal elements", want="pi/2")

    for t, f in (("equal elements", equal), ("opposite elements", opposite), ("orthogonal elements", ortho)):
        ck.case("%s: %s" % (name, t), f, fn)

    def sym2(K):
        a = K.size("A")
        x, y = unit(K, "x", (a,), n), unit(K, "y", (a,), n)
        i = K.fresh(a)
        K.eq(K.call(fn, x, y).at(i), K.call(fn, y, x).at(i), "distance of (x, y) and of (y, x)", rule="symmetry")
    ck.case("%s: symmetry" % name, sym2, fn)


def laws(ck):
    def left(K, fn, prod, n):
        a = K.size("A")
        g, x, y = (unit(K, m, (a,), n) for m in "gxy")
        i = K.fresh(a)
        d = K.call(fn, K.call(prod, g, x), K.call(prod, g, y)).at(i)
        K.eq(d, K.call(fn, x, y).at(i), "distance after multiplication from the left", rule="invariance", tol=1e-4)
    ck.case("so2.geodesic_distance: left invariance", lambda K: left(K, SO2 + "geodesic_distance", SO2 + "left_apply_angle", 1),
            SO2 + "geodesic_distance")
    ck.case("so3.geodesic_distance: left invariance", lambda K: left(K, SO3 + "geodesic_distance", SO3 + "left_apply_quat", 4),
            SO3 + "geodesic_distance")

    def right(K):
        a = K.size("A")
        g, x, y = (unit(K, m, (a,), 4) for m in "gxy")
        i = K.fresh(a)
        p = SO3 + "left_apply_quat"
        d = K.call(SO3 + "geodesic_distance", K.call(p, x, g), K.call(p, y, g)).at(i)
        K.eq(d, K.call(SO3 + "geodesic_distance", x, y).at(i), "distance after multiplication from the right",
             rule="invariance", tol=1e-4)
    ck.case("so3.geodesic_distance: right invariance", right, SO3 + "geodesic_distance")

    def signs(K, a, b):
        n = K.size("A")
        x, y = unit(K, "x", (n,), 4), unit(K, "y", (n,), 4)
        neg = lambda t, s: X.mk(t.shape, lambda *i: s * t.at(*i))  # noqa: E731
        i = K.fresh(n)
        f = SO3 + "geodesic_distance"
        K.eq(K.call(f, neg(x, a), neg(y, b)).at(i), K.call(f, x, y).at(i), "distance of negated quaternions", rule="sign")
    for a, b in ((-1, 1), (1, -1), (-1, -1)):
        ck.case("so3.geodesic_distance: signs %d, %d" % (a, b), lambda K, a=a, b=b: signs(K, a, b), SO3 + "geodesic_distance")

    def turns(K):
        n = K.size("A")
        x, y = unit(K, "x", (n,), 1), unit(K, "y", (n,), 1)
        k, m = T.sym("turns", is_int=True), T.sym("turns2", is_int=True)
        i = K.fresh(n)
        f = SO2 + "geodesic_distance"
        d = K.call(f, X.mk(x.shape, lambda *j: x.at(*j) + 2 * T.PI * k), X.mk(y.shape, lambda *j: y.at(*j) + 2 * T.PI * m))
        K.eq(d.at(i), K.call(f, x, y).at(i), "distance after full turns", rule="turns", tol=1e-5)
    ck.case("so2.geodesic_distance: full turns", turns, SO2 + "geodesic_distance")

    def same(K):
        n = K.size("A")
        x, y = unit(K, "x", (n,), 1), unit(K, "y", (n,), 1)
        i = K.fresh(n)
        e = SO2 + "angle_to_euclid"
        d = K.call(SO2 + "geodesic_distance_euclid", K.call(e, x), K.call(e, y)).at(i)
        K.holds([d, K.call(SO2 + "geodesic_distance", x, y).at(i)], lambda v: abs(v[0] - v[1]),
                "distances of angles and of their vectors", tol=5e-3, rule="parameterization")
    ck.case("so2: distances of angles and vectors agree", same, SO2 + "geodesic_distance_euclid")
