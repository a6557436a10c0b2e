"""C25: random and reference elements are valid members with the requested shape."""
from fractions import Fraction
import itertools
import math

from .. import interp as I
from .. import spec as S
from .. import terms as T
from .. import tensor as X
from ..terms import tt, ZERO, ONE
from .c03 import dev, euler_num
from .c05 import any_angles, any_euler, exact_matrix
from .c05 import qmat as qmat_num

EXPLANATION = """Every sampling function is abstractly interpreted with each random draw as an unknown tensor of its distribution, for
all integer sizes and tuple shapes of rank 0 to 4 with symbolic sizes.  The value of an element is then a term over entries
of draws.  Angles have to be an affine image of one uniform entry onto [0, 2 pi); quaternions an isometry of four normal
entries divided by their norm; matrices, Euler angles and sphere coordinates have to describe the rotation (point) of such
four (three) normal entries; signs may depend on one further entry only, and both values must occur while no other value
does.  The index at which an element reads a draw has to be injective in the index of the element and different for different
parts of the element.  Uniform SO(2), O(2) and O(3) grids are compared with their closed form on symbolic sizes, O(3)
over unknown SO(3) grids.  Grids found by optimization run with the optimizer recorded: it has to be given distinct random
starting elements, the requested steps, step size and progress flag, and a distance that is the geodesic distance of the
space, and the result has to be the conversion of the optimized grid to the requested parameterization."""
RULE = "elements as terms over entries of random draws: distribution, range, injectivity of the draw index, closed form of reference grids"
ASSUMPTIONS = ["torch.rand draws from [0, 1) and torch.randn from the standard normal distribution, entries independent.",
               "A draw of exactly zero norm does not happen."]

SO2 = "gconv.geometry.groups.so2:"
O2 = "gconv.geometry.groups.o2:"
SO3 = "gconv.geometry.groups.so3:"
O3 = "gconv.geometry.groups.o3:"
S2 = "gconv.geometry.groups.s2:"


# ------------------------------------------------------------------ draws
class Draws:
    def __init__(self, K):
        self.K, self.log = K, K.it.ctx.draw_log
        self.leaves = {d["leaf"]: d for d in self.log}

    def of(self, *terms):
        """Entries of draws that these terms are made of."""
        out = []
        for t in terms:
            for a in T.collect(X.norm(tt(t)), lambda a: a.kind == "elem" and a.args[0] in self.leaves):
                if a not in out:
                    out.append(a)
        return sorted(out, key=lambda a: (a.args[0].name, [_key(x) for x in a.args[1:]]))

    def kind(self, a):
        return self.leaves[a.args[0]]["kind"]

    def info(self, a):
        return self.leaves[a.args[0]]


def _key(x):
    x = X.norm(tt(x))
    return (0, float(x.const)) if x.const is not None else (1, str(x))


def shapes(K, kinds):
    for k in kinds:
        if k == "int":
            n = K.size("N")
            yield (n,), K.int(n)
        else:
            B = tuple(K.size("B%d" % j) for j in range(k))
            yield B, tuple(K.int(b) for b in B)


def independent(K, D, t, B, parts, what):
    """No entry of a draw is used for two elements, nor for two parts of one element.
    parts: lists of tail indices that belong together."""
    i = tuple(T.fresh(b) for b in B)
    used = [D.of(*[t.at(*i, *k) for k in p]) for p in parts]
    for x, y in itertools.combinations(range(len(parts)), 2):
        both = [a for a in used[x] if a in used[y]]
        K.require(not both, "independent", "%s: the parts of an element come from different draws" % what,
                  "%s is used for both" % (T.show_atom(both[0]) if both else ""))
    const = all(X.norm(b).const is not None for b in B)
    for a in [a for u in used for a in u]:
        args = [X.norm(tt(x)) for x in a.args[1:]]
        if all(any(x is v for x in args) for v in i):
            K.good()
            continue
        missing = [v for v in i if not any(T._mentions(x, v) if not isinstance(v, T.Term) else _in(v, x) for x in args)]
        big = [v for v, b in zip(i, B) if v in missing and not _one(b)]
        if big:
            K.violate("independent", "%s: different elements come from different draws" % what,
                      "%s is read by every element along an axis" % T.show_atom(a))
        if not const:
            raise X.Incomplete("injectivity of the draw index %s" % T.show_atom(a))
    if const:
        n = [int(X.norm(b).const) for b in B]
        owner = {}
        for e in itertools.product(*[range(x) for x in n]):
            for a in D.of(*[t.at(*[tt(x) for x in e], *k) for p in parts for k in p]):
                K.require(owner.setdefault(a, e) == e, "independent", "%s: different elements come from different draws" % what,
                          "%s is used by elements %s and %s" % (T.show_atom(a), owner[a], e))


def _in(v, x):
    a = v.poly[0][0][0][0]
    return bool(T.collect(x, lambda b: b is a))


def _one(b):
    c = X.norm(tt(b)).const
    return c is not None and c <= 1


def num(t):
    t = X.norm(tt(t))
    if t.const is not None:
        return float(t.const)
    v = T.numeric_const(t)
    if v is None:
        raise X.Incomplete("not a constant: %s" % T.brief(t))
    return float(v)


N = 64


def lattice(D, a):
    """Values an entry of a draw takes: points of its range."""
    d, k = D.info(a), D.kind(a)
    if k == "uniform":
        return [Fraction(0), Fraction(1, 2)] + [Fraction(2 * j + 1, 2 * N) for j in range(N)]
    if k == "normal":
        return [Fraction(j - N // 2, 8) for j in range(N)]
    if k == "randint":
        lo, hi = int(num(X.num_term(d["lo"]))), int(num(X.num_term(d["hi"])))
        return [Fraction(j) for j in range(lo, min(hi, lo + 64))]
    raise X.Incomplete("distribution %s" % k)


def angle(K, D, e, what):
    a = D.of(e)
    K.require(len(a) == 1 and D.kind(a[0]) == "uniform", "distribution", "%s comes from one uniform draw" % what,
              "it is %s of %s draws" % (T.brief(tt(e)), [D.kind(x) for x in a]))
    if X.norm(tt(e)) is X.norm(S.TWO_PI * T.of_atom(a[0])):
        K.good()
        return
    v = sorted(num(T.subst(e, {a[0]: T.const(x)})) for x in [Fraction(2 * j + 1, 2 * N) for j in range(N)])
    ends = [num(T.subst(e, {a[0]: T.const(x)})) for x in (Fraction(0), Fraction(1, 2), 1 - Fraction(1, 2 ** 24))]
    K.require(all(-1e-9 <= x < 2 * math.pi for x in v + ends), "range", "%s lies in [0, 2 pi)" % what,
              "it takes the value %.7g" % ([x for x in v + ends if not -1e-9 <= x < 2 * math.pi] or [0])[0])
    step = 2 * math.pi / N
    bad = [x for j, x in enumerate(v) if abs(x - (j + .5) * step) > step]
    K.require(not bad, "distribution", "%s is uniform on [0, 2 pi)" % what, "got %s" % T.brief(tt(e)))


def sign(K, D, e, what):
    a = D.of(e)
    K.require(len(a) == 1, "distribution", "%s comes from one draw" % what, "it is %s" % T.brief(tt(e)))
    v = [num(T.subst(e, {a[0]: T.const(x)})) for x in lattice(D, a[0])]
    K.require(all(abs(abs(x) - 1) < 1e-9 for x in v), "member", "%s is 1 or -1" % what,
              "it can be %s" % ([x for x in v if abs(abs(x) - 1) >= 1e-9] or [0])[0])
    K.require(min(v) < 0 < max(v), "distribution", "%s can be 1 and -1" % what, "it is always %g" % v[0])


def gauss(K, D, terms, n, what):
    """The n standard normal entries these terms are made of."""
    a = D.of(*terms)
    K.require(len(a) == n and all(D.kind(x) == "normal" for x in a), "distribution",
              "%s comes from %d independent normal draws" % (what, n), "it comes from %s" % ", ".join(
                  "%s (%s)" % (T.show_atom(x), D.kind(x)) for x in a[:6]))
    d = [T.of_atom(x) for x in a]
    r = T.inv(T.fun("sqrt", T.addmany([x * x for x in d])))
    return a, [x * r for x in d]


def units(a):
    """Substitutions that make the draws a unit vector."""
    for j in range(len(a)):
        yield {x: (ONE if k == j else ZERO) for k, x in enumerate(a)}


def direction(K, D, e, n, what):
    """e: an isometry of normalized normal draws."""
    a, u = gauss(K, D, e, n, what)
    M = []
    try:
        for s in units(a):
            M.append([num(T.subst(x, s)) for x in e])
    except X.Incomplete:
        for x in e:
            bad = T.nowhere(X.norm(tt(x)), ONE, assume=K.path_terms(), seed=K.ck.seed)
            if bad is not None:
                K.violate("member", "%s is a unit vector" % what, "%s: %s" % (T.brief(tt(x)), bad.detail))
        raise
    dv = max(abs(sum(M[i][k] * M[j][k] for k in range(n)) - (i == j)) for i in range(n) for j in range(n))
    K.require(dv < 1e-6, "distribution", "%s is a normalized normal sample" % what, "got %s" % T.brief(e[0]))
    for k in range(n):
        K.eq(e[k], T.addmany([u[j] * T.const(Fraction(M[j][k]).limit_denominator(10 ** 6)) for j in range(n)]), "%s, component %d" % (what, k), tol=1e-5)


def check(ck):
    so2(ck)
    o2(ck)
    so3(ck)
    o3(ck)
    s2(ck)
    reference(ck)
    optimized_so3(ck)
    optimized_s2(ck)


def so2(ck):
    def body(K):
        for B, n in shapes(K, ["int"]):
            t = K.call(SO2 + "random_grid", n)
            K.shape(t, B + (tt(1),), "random SO(2) grid")
            D = Draws(K)
            i = tuple(K.fresh(b) for b in B)
            angle(K, D, t.at(*i, ZERO), "the angle")
            independent(K, D, t, B, [[(ZERO,)]], "random SO(2) grid")
    ck.case("so2.random_grid", body, SO2 + "random_grid")


def o2(ck):
    def body(K):
        for B, n in shapes(K, ["int"]):
            t = K.call(O2 + "random_grid", n)
            K.shape(t, B + (tt(2),), "random O(2) grid")
            D = Draws(K)
            i = tuple(K.fresh(b) for b in B)
            sign(K, D, t.at(*i, ZERO), "the coefficient")
            angle(K, D, t.at(*i, ONE), "the angle")
            independent(K, D, t, B, [[(ZERO,)], [(ONE,)]], "random O(2) grid")
    ck.case("o2.random_grid", body, O2 + "random_grid")


RANKS = ["int", 1, 2, 3, 0, 4]


def so3(ck):
    for r in RANKS:
        def quat(K, r=r):
            for B, n in shapes(K, [r]):
                t = K.call(SO3 + "random_quat", n)
                K.shape(t, B + (tt(4),), "random quaternions")
                D = Draws(K)
                i = tuple(K.fresh(b) for b in B)
                direction(K, D, [t.at(*i, tt(k)) for k in range(4)], 4, "a random quaternion")
                independent(K, D, t, B, [[(tt(k),) for k in range(4)]], "random quaternions")

        def matrix(K, r=r):
            for B, n in shapes(K, [r]):
                t = K.call(SO3 + "random_matrix", n)
                K.shape(t, B + (tt(3), tt(3)), "random matrices")
                D = Draws(K)
                i = tuple(K.fresh(b) for b in B)
                rotation(K, D, [[t.at(*i, tt(x), tt(y)) for y in range(3)] for x in range(3)], "a random matrix")
                independent(K, D, t, B, [[(tt(x), tt(y)) for x in range(3) for y in range(3)]], "random matrices")

        def euler(K, r=r):
            for B, n in shapes(K, [r]):
                t = K.call(SO3 + "random_euler", n)
                K.shape(t, B + (tt(3),), "random Euler angles")
                D = Draws(K)
                i = tuple(K.fresh(b) for b in B)
                angles(K, D, [t.at(*i, tt(x)) for x in range(3)], "random Euler angles")
                independent(K, D, t, B, [[(tt(x),) for x in range(3)]], "random Euler angles")
        lab = "int" if r == "int" else "tuple of %d" % r
        ck.case("so3.random_quat (%s)" % lab, quat, SO3 + "random_quat")
        ck.case("so3.random_matrix (%s)" % lab, matrix, SO3 + "random_matrix")
        if r != 4 or ck.thorough:
            ck.case("so3.random_euler (%s)" % lab, euler, SO3 + "random_euler")


def rotation(K, D, m, what):
    a, u = gauss(K, D, [x for r in m for x in r], 4, what)
    want = S.qmat(u)
    if all(X.norm(tt(m[x][y])) is X.norm(want[x][y]) for x in range(3) for y in range(3)) or T.same_by(
            [X.norm(tt(m[x][y])) for x in range(3) for y in range(3)] + [X.norm(want[x][y]) for x in range(3) for y in range(3)],
            lambda v: max(abs(p - q) for p, q in zip(v[:9], v[9:])), assume=K.path_terms(), tol=1e-5).ok:
        for x in range(3):
            for y in range(3):
                K.eq(m[x][y], want[x][y], "%s, entry %d, %d" % (what, x, y), tol=1e-5)
        return
    # another isometry of the draws: read it off, up to the sign of each quaternion
    qs = []
    for s in units(a):
        qs.append(quat_of([[num(T.subst(m[x][y], s)) for y in range(3)] for x in range(3)]))
    terms = [X.norm(tt(m[x][y])) for x in range(3) for y in range(3)] + u
    for sg in itertools.product((1, -1), repeat=3):
        Q = [[(1,) + sg][0][j] * qs[j][k] for j in range(4) for k in range(4)]

        def f(v):
            q = [sum(v[9 + j] * Q[4 * j + k] for j in range(4)) for k in range(4)]
            return dev([v[0:3], v[3:6], v[6:9]], qmat_num(q))
        r = T.same_by(terms, f, assume=K.path_terms(), tol=1e-4)
        if r.ok:
            G = [[sum(Q[4 * i + k] * Q[4 * j + k] for k in range(4)) for j in range(4)] for i in range(4)]
            if max(abs(G[i][j] - (i == j)) for i in range(4) for j in range(4)) < 1e-4:
                K.good("identity test")
                return
    K.violate("distribution", "%s is the rotation of a normalized normal sample" % what, "entry 0, 0 is %s" % T.brief(tt(m[0][0])))


def quat_of(m):
    """A unit quaternion of a rotation matrix (or of whatever it is)."""
    c = [1 + m[0][0] + m[1][1] + m[2][2], 1 + m[0][0] - m[1][1] - m[2][2],
         1 - m[0][0] + m[1][1] - m[2][2], 1 - m[0][0] - m[1][1] + m[2][2]]
    k = max(range(4), key=lambda j: c[j])
    rows = [[c[0], m[2][1] - m[1][2], m[0][2] - m[2][0], m[1][0] - m[0][1]],
            [m[2][1] - m[1][2], c[1], m[0][1] + m[1][0], m[0][2] + m[2][0]],
            [m[0][2] - m[2][0], m[0][1] + m[1][0], c[2], m[1][2] + m[2][1]],
            [m[1][0] - m[0][1], m[0][2] + m[2][0], m[1][2] + m[2][1], c[3]]]
    n = math.sqrt(sum(x * x for x in rows[k])) or 1.0
    return [x / n for x in rows[k]]


def angles(K, D, g, what):
    a, u = gauss(K, D, g, 4, what)
    c = S.qmat(u)[2][2]
    K.holds(g + u, lambda v: dev(euler_num(*v[:3]), qmat_num(v[3:7])), "rotation of %s" % what, rule="distribution",
            assume=(T.lt(T.const(Fraction(1, 1000)), ONE - c * c),), tol=1e-3, want="the rotation of a normalized normal sample",
            vacuous=True)


def o3(ck):
    for r in RANKS:
        def body(K, r=r):
            for B, n in shapes(K, [r]):
                t = K.call(O3 + "random_grid", n)
                K.shape(t, B + (tt(10),), "random O(3) grid")
                D = Draws(K)
                i = tuple(K.fresh(b) for b in B)
                sign(K, D, t.at(*i, ZERO), "the coefficient")
                rotation(K, D, [[t.at(*i, tt(1 + 3 * x + y)) for y in range(3)] for x in range(3)], "the rotation part")
                independent(K, D, t, B, [[(ZERO,)], [(tt(k),) for k in range(1, 10)]], "random O(3) grid")
        ck.case("o3.random_grid (%s)" % ("int" if r == "int" else "tuple of %d" % r), body, O3 + "random_grid")


def point(b, g):
    return [S.sin(b) * S.cos(g), S.sin(b) * S.sin(g), S.cos(b)]


def s2(ck):
    for r in (1, 2, 3, 0, 4):
        def body(K, r=r):
            for B, n in shapes(K, [r]):
                t = K.call(S2 + "random_s2", n)
                K.shape(t, B + (tt(2),), "random sphere points")
                D = Draws(K)
                i = tuple(K.fresh(b) for b in B)
                direction(K, D, point(t.at(*i, ZERO), t.at(*i, ONE)), 3, "a random point")
                independent(K, D, t, B, [[(ZERO,), (ONE,)]], "random sphere points")
        ck.case("s2.random_s2 (tuple of %d)" % r, body, S2 + "random_s2")


# ------------------------------------------------------------------ reference grids
def multiples(K, t, n, at, what):
    """at(i), i < n, are the n multiples of 2 pi / n."""
    c = X.norm(tt(n)).const
    if c is None:
        i = K.fresh(n)
        K.eq(at(i), S.TWO_PI * i * T.inv(n), "%s, angle of element i" % what)
        return
    c = int(c)
    v = sorted(num(at(tt(i))) for i in range(c))
    for i in range(c):
        K.require(abs(v[i] - 2 * math.pi * i / c) < 1e-5, "uniform", "%s contains %d * 2 pi / %d" % (what, i, c),
                  "the angles are %s" % v[:8])


def so3_leaf(it, f):
    """Unknown SO(3) grids, one for each size."""
    def fn(*args, **kw):
        v = it.bind_args(f, args, kw)
        n = X.num_term(v[f.info.params[0]])
        it.ctx.so3_requests = getattr(it.ctx, "so3_requests", []) + [v.get("parameterization", "quat")]
        lf = T.Leaf("SO3 grid")
        p = v.get("parameterization", "quat")
        tail = {"matrix": (3, 3), "quat": (4,), "euler": (3,)}[p.lower() if isinstance(p, str) else "quat"]
        c = X.norm(n).const
        if c is not None and c == 0:
            return X.mk((ZERO,), lambda *i: ZERO)
        return X.mk((n,) + tuple(tt(x) for x in tail), lambda *i: T.elem(lf, n, *i))
    return I.Builtin("uniform_grid", fn)


def reference(ck):
    def so2_(K):
        n = K.size("N")
        t = K.call(SO2 + "uniform_grid", K.int(n))
        K.shape(t, (n, tt(1)), "uniform SO(2) grid")
        multiples(K, t, n, lambda i: t.at(i, ZERO), "uniform SO(2) grid")
    ck.case("so2.uniform_grid", so2_, SO2 + "uniform_grid")
    top = 65 if ck.thorough else 33

    def so2_n(K):
        for n in range(top):
            t = K.call(SO2 + "uniform_grid", n)
            K.shape(t, (tt(n), tt(1)), "uniform SO(2) grid of %d" % n)
            multiples(K, t, n, lambda i: t.at(i, ZERO), "uniform SO(2) grid of %d" % n)
    ck.case("so2.uniform_grid, small sizes", so2_n, SO2 + "uniform_grid", modes=[])

    def o2_at(K, a, b, ta, tb):
        t = K.call(O2 + "uniform_grid", (a, b))
        K.shape(t, (ta + tb, tt(2)), "uniform O(2) grid")
        for off, m, s in ((ZERO, ta, ONE), (ta, tb, -ONE)):
            c = X.norm(m).const
            if c is None:
                i = K.fresh(m)
                K.eq(t.at(off + i, ZERO), s, "coefficient of part %s" % T.brief(s))
            else:
                for i in range(int(c)):
                    K.eq(t.at(off + i, ZERO), s, "coefficient of part %s" % T.brief(s))
            multiples(K, t, m, lambda i: t.at(off + i, ONE), "part %s of the uniform O(2) grid" % T.brief(s))

    def o2_(K):
        a, b = K.size("A"), K.size("B")
        o2_at(K, K.int(a), K.int(b), a, b)
    ck.case("o2.uniform_grid", o2_, O2 + "uniform_grid")

    def o2_n(K):
        for a, b in itertools.product((0, 1, 2, 3, 5, 8), repeat=2):
            o2_at(K, a, b, tt(a), tt(b))
    ck.case("o2.uniform_grid, small sizes", o2_n, O2 + "uniform_grid", modes=[])

    def o3_at(K, a, b, ta, tb):
        for only in (False, True):
            t = K.call(O3 + "uniform_grid", (a, b), matrix_only=only)
            K.shape(t, (ta + tb,) + ((tt(3), tt(3)) if only else (tt(10),)), "uniform O(3) grid")
            for off, m, s in ((ZERO, ta, ONE), (ta, tb, -ONE)):
                if X.norm(m).const == 0:
                    continue
                i = K.fresh(m)
                for x, y in itertools.product(range(3), repeat=2):
                    want = T.elem(T.Leaf("SO3 grid"), m, i, tt(x), tt(y))
                    got = t.at(off + i, tt(x), tt(y)) if only else t.at(off + i, tt(1 + 3 * x + y))
                    K.eq(got, want, "part %s of the uniform O(3) grid, entry %d, %d" % (T.brief(s), x, y))
                if not only:
                    K.eq(t.at(off + i, ZERO), s, "coefficient of part %s" % T.brief(s))

    def o3_(K):
        a, b = K.size("A"), K.size("B")
        o3_at(K, K.int(a), K.int(b), a, b)
    stub = {"gconv.geometry.groups.so3.uniform_grid": so3_leaf}
    ck.case("o3.uniform_grid", o3_, O3 + "uniform_grid", stubs=stub)

    def o3_n(K):
        for a, b in itertools.product((0, 1, 2, 5, 26), repeat=2):
            if a + b:
                o3_at(K, a, b, tt(a), tt(b))
    ck.case("o3.uniform_grid, small sizes", o3_n, O3 + "uniform_grid", stubs=stub, modes=[])


# ------------------------------------------------------------------ optimized grids
def recorder(log):
    def stub(it, f):
        def fn(*args, **kw):
            v = it.bind_args(f, args, kw)
            g = v[f.info.params[0]]
            lf = T.Leaf("optimized")
            start = X.mk(g.shape, _frozen(g), g.dtype, g.device)
            log.append(dict(v, start=start, first=f.info.params[0]))
            new = X.mk(g.shape, lambda *i: T.elem(lf, *i), g.dtype, g.device)
            if it.truth(v.get("in_place", False)):
                X.write(g, new, "repulse")
                return g
            return new
        return I.Builtin("repulse", fn)
    return {"gconv.geometry.repulsion.repulse": stub}


def _frozen(g):
    from ..torchlib import copy_of
    k = copy_of(g)
    return lambda *i: k.at(*i)


def exact_quat(it, f):
    """Quaternions of Euler angles, as stated by C03."""
    def half(a):
        return S.cos(a * T.const(Fraction(1, 2))), S.sin(a * T.const(Fraction(1, 2)))

    def fn(*args, **kw):
        g = it.bind_args(f, args, kw)[f.info.params[0]]

        def el(*i):
            (ca, sa), (cb, sb), (cg, sg) = [half(g.at(*i, tt(k))) for k in range(3)]
            return S.qmul(S.qmul([cg, ZERO, ZERO, sg], [cb, ZERO, sb, ZERO]), [ca, ZERO, ZERO, sa])
        return X.mk(g.shape[:-1] + (tt(4),), lambda *i: S.by_index(i[-1], el(*i[:-1])), g.dtype, g.device)
    return I.Builtin("euler_to_quat", fn)


EXACT = {"gconv.geometry.groups.so3.random_euler": any_euler, "gconv.geometry.groups.so3.euler_to_quat": exact_quat,
         "gconv.geometry.groups.so3.euler_to_matrix": exact_matrix, "gconv.geometry.groups.so3.matrix_to_euler": any_angles}


def once(K, log):
    K.require(bool(log), "optimized", "the grid is optimized", "it is not")
    if len(log) > 1:
        raise X.Incomplete("the grid is optimized in %d parts" % len(log))


def given(K, v, name, want, what):
    got = v.get(name)
    K.require(got is not None, "forwarded", what, "it is not given")
    K.eq(X.num_term(got), X.num_term(want), what, rule="forwarded")


def optimized_so3(ck):
    ent = SO3 + "uniform_grid"
    for n in (2, 3, 25, 40):
        for pb in (True, False):
            log = []

            def body(K, n=n, pb=pb, log=log):
                del log[:]
                steps, lr = K.int(K.size("steps")), K.positive("lr")
                p = "euler"
                K.call(ent, n, p, steps=steps, step_size=lr, show_pbar=pb)
                once(K, log)
                v = log[0]
                given(K, v, "steps", steps, "the requested number of steps is made")
                given(K, v, "step_size", lr, "the requested step size is used")
                K.require(K.it.truth(v["show_pbar"]) is pb, "forwarded", "the progress bar is shown as requested", "it is not")
                start = v["start"]
                K.shape(start, (tt(n), tt(3)), "starting grid")
                D = Draws(K)
                i = K.fresh(tt(n))
                g = [start.at(i, tt(x)) for x in range(3)]
                if any(T.collect(x, lambda a: a.kind == "elem" and a.args[0] is T.Leaf("random angles")) for x in g):
                    for x in range(3):
                        K.eq(g[x], T.elem(T.Leaf("random angles"), i, tt(x)), "angle %d of a starting element" % x)
                else:
                    angles(K, D, g, "the starting grid")
                    independent(K, D, start, (tt(n),), [[(tt(x),) for x in range(3)]], "starting grid")
                metric(K, v, 3)
            ck.case("so3.uniform_grid of %d, optimized%s" % (n, ", with progress bar" if pb else ""), body, ent,
                    stubs=dict(EXACT, **recorder(log)))
    log = []

    def default(K):
        del log[:]
        n = 27
        K.call(ent, n, "matrix", show_pbar=False)
        v = log[0]
        K.holds([X.num_term(v["step_size"])], lambda x: abs(x[0] - n ** (1 / 3)), "default step size", rule="forwarded",
                want="n ** (1 / 3)")
        K.eq(X.num_term(v["steps"]), tt(200), "default number of steps", rule="forwarded")
    ck.case("so3.uniform_grid, default optimization", default, ent, stubs=dict(EXACT, **recorder(log)))


def metric(K, v, dim):
    """metric(transform(x), transform(y)) is the geodesic distance of the space (up to the guard of acos)."""
    lf = T.Leaf("point")
    B = K.size("P")
    x = X.mk((B, tt(1), tt(dim)), lambda *i: T.elem(lf, tt(0), *i))
    y = X.mk((tt(1), B, tt(dim)), lambda *i: T.elem(lf, tt(1), *i))
    f = v.get("transform_fn")
    fx, fy = (K.call(f, x), K.call(f, y)) if f is not None else (x, y)
    d = K.call(v["metric_fn"], fx, fy)
    K.shape(d, (B, B), "distances")
    i, j = K.fresh(B), K.fresh(B)
    a = [T.elem(lf, tt(0), i, ZERO, tt(k)) for k in range(dim)]
    b = [T.elem(lf, tt(1), ZERO, j, tt(k)) for k in range(dim)]

    def dist(w):
        g, p, q = w[0], w[1:1 + dim], w[1 + dim:]
        if dim == 3:
            A, C = euler_num(*p), euler_num(*q)
            c = (sum(A[r][s] * C[r][s] for r in range(3) for s in range(3)) - 1) / 2
        else:
            pt = lambda s: (math.sin(s[0]) * math.cos(s[1]), math.sin(s[0]) * math.sin(s[1]), math.cos(s[0]))  # noqa: E731
            c = sum(r * s for r, s in zip(pt(p), pt(q)))
        # the distance of quaternions is half the rotation angle
        return abs(g * (2 if dim == 3 else 1) - math.acos(max(-1.0, min(1.0, c))))
    K.holds([d.at(i, j)] + a + b, dist, "distance that is optimized", rule="metric", tol=2e-3, want="the geodesic distance" if dim == 2 else "half the rotation angle")


def optimized_s2(ck):
    ent = S2 + "uniform_grid_s2"
    log = []
    for p in ("spherical", "euclidean", "euler", "matrix", "quat", "Euclidean", "QUAT"):
        for neg in (False, True):
            def body(K, p=p, neg=neg):
                del log[:]
                n = K.size("N")
                steps, lr = K.int(K.size("steps")), K.positive("lr")
                t = K.call(ent, K.int(n), p, set_alpha_as_neg_gamma=neg, steps=steps, step_size=lr, show_pbar=False)
                low = p.lower()
                tail = {"spherical": (2,), "euclidean": (3,), "euler": (3,), "matrix": (3, 3), "quat": (4,)}[low]
                K.shape(t, (n,) + tuple(tt(x) for x in tail), "sphere grid")
                once(K, log)
                v = log[0]
                given(K, v, "steps", steps, "the requested number of steps is made")
                given(K, v, "step_size", lr, "the requested step size is used")
                K.require(not K.it.truth(v["show_pbar"]), "forwarded", "the progress bar is hidden as requested", "it is not")
                i = K.fresh(n)
                lf = T.Leaf("optimized")
                b, g = T.elem(lf, i, ZERO), T.elem(lf, i, ONE)
                e = (-g if neg else ZERO, b, g)
                want = {"spherical": [b, g], "euclidean": point(b, g), "euler": list(e)}.get(low)
                if want:
                    for k, w in enumerate(want):
                        K.eq(t.at(i, tt(k)), w, "coordinate %d of an element" % k)
                elif low == "matrix":
                    for x, y in itertools.product(range(3), repeat=2):
                        K.eq(t.at(i, tt(x), tt(y)), S.euler(*e)[x][y], "entry %d, %d of an element" % (x, y), tol=1e-5)
                else:
                    q = [t.at(i, tt(k)) for k in range(4)]
                    c = S.cos(b)
                    K.holds(q + list(e), lambda w: max(dev(qmat_num(w[:4]), euler_num(*w[4:])), abs(sum(x * x for x in w[:4]) - 1)),
                            "rotation of an element", tol=1e-3, want="the rotation of the Euler angles",
                            assume=(T.lt(T.const(Fraction(1, 1000)), ONE - c * c),), vacuous=True)
                start = v["start"]
                K.shape(start, (n, tt(2)), "starting grid")
                D = Draws(K)
                direction(K, D, point(start.at(i, ZERO), start.at(i, ONE)), 3, "a starting point")
                independent(K, D, start, (n,), [[(ZERO,), (ONE,)]], "starting grid")
                metric(K, v, 2)
            ck.case("s2.uniform_grid_s2 as %s%s" % (p, ", alpha = -gamma" if neg else ""), body, ent, stubs=recorder(log))

    def unknown(K):
        for p in ("", "rpy", "sphere"):
            K.expect_raise("ValueError", ent, 4, p, show_pbar=False, what="parameterization %r is rejected" % p)
    ck.case("s2.uniform_grid_s2, unknown parameterization", unknown, ent, stubs=recorder(log))
