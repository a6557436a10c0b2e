"""C03: rotation parameterizations convert without changing the rotation."""
from fractions import Fraction
import itertools
import math

from .. import spec as S
from .. import terms as T
from .. import tensor as X
from ..terms import tt, ZERO, ONE

EXPLANATION = """Every conversion is abstractly interpreted on unknown inputs of leading ranks 0 to 3 (4 for the closed forms) with symbolic
sizes; the abstract result is converted back to a rotation matrix (or point) by the specification's formulas and
compared entrywise with the rotation (or point) described by the input.  For matrix_to_quat the comparison is made
separately on each branch of the largest-component distinction, and on constant matrices of every branch border
(elements of the octahedral group); Euler conversions additionally on a lattice of constant angles, and at gimbal lock on exact rational rotations."""
RULE = "rotation described by the result = rotation described by the input, at every index of every leading shape"

SO2 = "gconv.geometry.groups.so2:"
SO3 = "gconv.geometry.groups.so3:"
S2 = "gconv.geometry.groups.s2:"


def batch(K, r):
    return tuple(K.size("B%d" % k) for k in range(r))


def vals(t, i, n):
    return [t.at(*i, tt(k)) for k in range(n)]


def table(rows, shape_tail, name="x"):
    """A constant tensor of len(rows) elements."""
    def fn(*i):
        r = [x for x in rows]

        def dig(v, ix):
            if not ix:
                return tt(v)
            return S.by_index(ix[0], [dig(x, ix[1:]) for x in v])
        return dig(r, i)
    return X.mk((tt(len(rows)),) + tuple(tt(s) for s in shape_tail), fn, origin=("arg", name))


def check(ck):
    for r in (0, 1, 2, 3, 4):
        axis(ck, r)
        euler(ck, r)
        quat(ck, r)
        circle(ck, r)
        sphere(ck, r)
    for r in (0, 1, 2, 3):
        to_quat(ck, r)
        to_euler(ck, r)
    constants(ck)
    flat(ck)


def axis(ck, r):
    for name, spec in (("matrix_x", S.Rx), ("matrix_y", S.Ry), ("matrix_z", S.Rz)):
        def body(K, name=name, spec=spec):
            B = batch(K, r)
            t = K.leaf("theta", B)
            K.tensor(K.call(SO3 + name, t), B + (3, 3), lambda *i: S.pick(spec(t.at(*i[:-2])), i[-2], i[-1]), name)
        ck.case("so3.%s (leading rank %d)" % (name, r), body, SO3 + name)


def euler(ck, r):
    def mat(K):
        B = batch(K, r)
        g = K.leaf("g", B + (3,))
        K.tensor(K.call(SO3 + "euler_to_matrix", g), B + (3, 3),
                 lambda *i: S.pick(S.euler(*vals(g, i[:-2], 3)), i[-2], i[-1]), "matrix of Euler angles", tol=2e-5)
    ck.case("so3.euler_to_matrix (leading rank %d)" % r, mat, SO3 + "euler_to_matrix")


def quat(ck, r):
    def mat(K):
        B = batch(K, r)
        q, e = S.unit_quats(K, "q", B)
        K.tensor(K.call(SO3 + "quat_to_matrix", q), B + (3, 3),
                 lambda *i: S.pick(S.qmat(e(*i[:-2])), i[-2], i[-1]), "matrix of a quaternion")
    ck.case("so3.quat_to_matrix (leading rank %d)" % r, mat, SO3 + "quat_to_matrix")


def circle(ck, r):
    def mat(K):
        B = batch(K, r)
        a = K.leaf("a", B + (1,))
        K.tensor(K.call(SO2 + "angle_to_matrix", a), B + (2, 2),
                 lambda *i: S.pick(S.rot2(a.at(*i[:-2], ZERO)), i[-2], i[-1]), "matrix of an angle")
        K.tensor(K.call(SO2 + "angle_to_euclid", a), B + (2,),
                 lambda *i: S.by_index(i[-1], [S.cos(a.at(*i[:-1], ZERO)), S.sin(a.at(*i[:-1], ZERO))]),
                 "point of an angle")
    ck.case("so2.angle_to_matrix, angle_to_euclid (leading rank %d)" % r, mat, SO2 + "angle_to_matrix")


def point(b, g):
    return [S.sin(b) * S.cos(g), S.sin(b) * S.sin(g), S.cos(b)]


def sphere(ck, r):
    def to_euclid(K):
        B = batch(K, r)
        g = K.leaf("g", B + (2,))
        K.tensor(K.call(S2 + "spherical_to_euclid", g), B + (3,),
                 lambda *i: S.by_index(i[-1], point(*vals(g, i[:-1], 2))), "point of spherical coordinates")
    ck.case("s2.spherical_to_euclid (leading rank %d)" % r, to_euclid, S2 + "spherical_to_euclid")

    def to_sph(K):
        B = batch(K, r)
        lf = T.Leaf("x", unit_first=3)
        x = X.mk(B + (3,), lambda *i: T.elem(lf, *i), origin=("arg", "x"))
        g = K.call(S2 + "euclid_to_spherical", x)
        K.shape(g, B + (2,), "spherical coordinates")
        for i in K.indices(B):
            p = point(*vals(g, i, 2))
            for k in range(3):
                K.eq(p[k], x.at(*i, tt(k)), "point of the spherical coordinates, component %d" % k)
    ck.case("s2.euclid_to_spherical (leading rank %d)" % r, to_sph, S2 + "euclid_to_spherical")


def flat(ck):
    def ext(K):
        N = K.size("N")
        g = K.leaf("g", (N, 2))
        K.tensor(K.call(S2 + "spherical_to_euler", g), (N, 3),
                 lambda n, k: S.by_index(k, [ZERO, g.at(n, ZERO), g.at(n, ONE)]), "Euler angles, alpha = 0")
        K.tensor(K.call(S2 + "spherical_to_euler_neg_gamma", g), (N, 3),
                 lambda n, k: S.by_index(k, [-g.at(n, ONE), g.at(n, ZERO), g.at(n, ONE)]),
                 "Euler angles, alpha = -gamma")
    ck.case("s2.spherical_to_euler", ext, S2 + "spherical_to_euler")


def largest(q, k):
    """q[k]**2 is the largest squared component."""
    return tuple(T.le(q[j] * q[j] + Fraction(1, 1000), q[k] * q[k]) for j in range(4) if j != k)


def same_rotation(v):
    """Deviation of two quaternions from being equal up to sign."""
    p, q = v[:4], v[4:8]
    return min(max(abs(a - b) for a, b in zip(p, q)), max(abs(a + b) for a, b in zip(p, q)))


def qmat_num(q):
    w, x, y, z = q
    return [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]


def euler_num(al, be, ga):
    def rz(t):
        return [[math.cos(t), -math.sin(t), 0], [math.sin(t), math.cos(t), 0], [0, 0, 1]]
    ry = [[math.cos(be), 0, math.sin(be)], [0, 1, 0], [-math.sin(be), 0, math.cos(be)]]
    mm = lambda A, B: [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    return mm(mm(rz(ga), ry), rz(al))


def dev(A, B):
    return max(abs(A[i][j] - B[i][j]) for i in range(3) for j in range(3))


def to_quat(ck, r):
    def body(K):
        B = batch(K, r)
        R, m = S.rotmats(K, "R", B)
        lf = T.Leaf("R", unit_first=4)
        p = K.call(SO3 + "matrix_to_quat", R)
        K.shape(p, B + (4,), "quaternion")
        for i in K.indices(B):
            got = vals(p, i, 4)
            src = [T.elem(lf, *i, tt(k)) for k in range(4)]
            for k in range(4):
                # same rotation up to sign: |<got, src>| = 1 together with |got| = 1
                K.holds(got + src, same_rotation, "quaternion on the branch of component %d" % k,
                        vacuous=True, assume=largest(src, k), want="the source quaternion up to sign")
    ck.case("so3.matrix_to_quat (leading rank %d)" % r, body, SO3 + "matrix_to_quat")

    def eq(K):
        B = batch(K, r)
        g = K.leaf("g", B + (3,))
        p = K.call(SO3 + "euler_to_quat", g)
        K.shape(p, B + (4,), "quaternion")
        for i in K.indices(B):
            for k in range(1):
                K.holds(vals(p, i, 4) + vals(g, i, 3), lambda v: dev(qmat_num(v[:4]), euler_num(*v[4:7])),
                        "rotation of the quaternion", tol=2e-5, want="the rotation of the Euler angles")
    ck.case("so3.euler_to_quat (leading rank %d)" % r, eq, SO3 + "euler_to_quat")


def to_euler(ck, r):
    def inside(b):
        return (T.lt(tt(Fraction(1, 100)), S.sin(b)),)

    def body(K):
        B = batch(K, r)
        g0 = T.Leaf("g0")
        an = lambda *b: [T.elem(g0, *b, tt(k)) for k in range(3)]
        R = X.mk(B + (3, 3), lambda *i: S.by_index(i[-2], [S.by_index(i[-1], row) for row in S.euler(*an(*i[:-2]))]),
                 origin=("arg", "R"))
        g = K.call(SO3 + "matrix_to_euler", R, no_warn=True)
        K.shape(g, B + (3,), "Euler angles")
        for i in K.indices(B):
            c = S.cos(an(*i)[1])
            K.holds(vals(g, i, 3) + an(*i), lambda v: dev(euler_num(*v[:3]), euler_num(*v[3:6])),
                    "rotation of the Euler angles", want="the rotation of the matrix",
                    assume=(T.lt(tt(Fraction(1, 10000)), ONE - c * c),), vacuous=True)
    ck.case("so3.matrix_to_euler (leading rank %d)" % r, body, SO3 + "matrix_to_euler")

    def qe(K):
        B = batch(K, r)
        q, e = S.unit_quats(K, "q", B)
        g = K.call(SO3 + "quat_to_euler", q)
        K.shape(g, B + (3,), "Euler angles")
        for i in K.indices(B):
            c = S.qmat(e(*i))[2][2]
            K.holds(vals(g, i, 3) + e(*i), lambda v: dev(euler_num(*v[:3]), qmat_num(v[3:7])),
                    "rotation of the Euler angles", want="the rotation of the quaternion",
                    assume=(T.lt(tt(Fraction(1, 10000)), ONE - c * c),), vacuous=True)
    ck.case("so3.quat_to_euler (leading rank %d)" % r, qe, SO3 + "quat_to_euler")


def octahedral():
    h = T.fun("sqrt", tt(Fraction(1, 2)))
    out = []
    for k in range(4):
        out.append([ONE if j == k else ZERO for j in range(4)])
    for s in itertools.product((1, -1), repeat=3):
        out.append([tt(Fraction(1, 2))] + [tt(Fraction(x, 2)) for x in s])
    for a, b in itertools.combinations(range(4), 2):
        for s in (1, -1):
            v = [ZERO] * 4
            v[a], v[b] = h, h * s
            out.append(v)
    return out


POLES = [(3, 4, 5), (4, -3, 5), (5, 12, 13), (-8, 15, 17), (-12, -5, 13), (1, 0, 1), (0, 1, 1)]
POLES = [(tt(Fraction(a, c)), tt(Fraction(b, c))) for a, b, c in POLES]


def constants(ck):
    els = octahedral()

    def mq(K):
        R = table([S.qmat(q) for q in els], (3, 3), "R")
        p = K.call(SO3 + "matrix_to_quat", R)
        K.shape(p, (len(els), 4), "quaternions")
        for n, q in enumerate(els):
            got = vals(p, (tt(n),), 4)
            dot = T.addmany([a * b for a, b in zip(got, q)])
            K.eq(dot * dot, ONE, "squared inner product for element %d of the octahedral group" % n)
    ck.case("so3.matrix_to_quat on the octahedral group", mq, SO3 + "matrix_to_quat")

    def poles(K, quat):
        """Rotations about the z axis, and those that turn it over: one angle is arbitrary, the rotation is not."""
        qs = [[c, ZERO, ZERO, s] for c, s in POLES] + [[ZERO, c, s, ZERO] for c, s in POLES]
        if quat:
            g = K.call(SO3 + "quat_to_euler", table(qs, (4,), "q"))
        else:
            g = K.call(SO3 + "matrix_to_euler", table([S.qmat(q) for q in qs], (3, 3), "R"), no_warn=True)
        K.shape(g, (len(qs), 3), "Euler angles")
        for n, q in enumerate(qs):
            K.holds(vals(g, (tt(n),), 3) + q, lambda v: dev(euler_num(*v[:3]), qmat_num(v[3:7])),
                    "rotation of the Euler angles", want="the rotation they are computed from", tol=1e-4)
    ck.case("so3.matrix_to_euler at gimbal lock", lambda K: poles(K, False), SO3 + "matrix_to_euler")
    ck.case("so3.quat_to_euler at gimbal lock", lambda K: poles(K, True), SO3 + "quat_to_euler")

    angles = [Fraction(x, 100) for x in (0, 1, 7, 60, 157, 250, 400, -30, -313)]
    combos = [(a, b, c) for a in angles[1::3] + angles[:1] for b in angles for c in angles[2::3]]
    if not ck.thorough:
        combos = combos[::2]

    def em(K):
        g = table([[tt(x) for x in c] for c in combos], (3,), "g")
        m = K.call(SO3 + "euler_to_matrix", g)
        K.shape(m, (len(combos), 3, 3), "matrices")
        for n, c in enumerate(combos):
            W = S.euler(*[tt(x) for x in c])
            for a in range(3):
                for b in range(3):
                    K.eq(m.at(tt(n), tt(a), tt(b)), W[a][b], "matrix entry %d,%d at angles %s" % (
                        a, b, tuple(map(float, c))), tol=2e-5)
    ck.case("so3.euler_to_matrix at constant angles", em, SO3 + "euler_to_matrix")
