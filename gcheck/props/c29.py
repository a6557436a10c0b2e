"""C29: logarithms are rotation vectors."""
from .. import catalogue as CT
from .. import spec as S
from .. import tensor as X
from .. import terms as T
from ..terms import tt, ZERO, ONE

EXPLANATION = """The logarithm of matrices is interpreted abstractly on the rotation matrices of unknown unit quaternions (every rotation), with no, one
and two leading axes of unknown size, the logarithm of quaternions on unknown quaternions of any length; the resulting terms are compared
with the rotation vector written down from the definition (twice the arc cosine of the real part, times the unit axis, on the half of the
quaternions with non-negative real part).  The identity is passed as a constant."""
RULE = "value number of the result = angle times unit axis (and logarithm of the length); identity gives zero"


def rotvec(q):
    """Angle in [0, pi] times axis."""
    w, v = q[0], q[1:]
    s = T.ite(T.lt(w, ZERO), -ONE, ONE)
    n = T.fun("sqrt", sum((x * x for x in v), ZERO))
    a = T.fun("acos", s * w) * 2
    return [s * x * a * T.inv(n) for x in v]


def matrices(K, nb):
    batch = tuple(K.size("B%d" % j) for j in range(nb))
    lf = T.Leaf("q", unit_first=4)
    q = lambda b: [T.elem(lf, *b, tt(k)) for k in range(4)]  # noqa: E731
    R = X.mk(batch + (3, 3), lambda *i: S.by_index(i[-2], [S.by_index(i[-1], r) for r in S.qmat(q(i[:-2]))]), origin=("arg", "R"))
    r = K.call(CT.SO3 + "so3_log", R)
    K.tensor(r, batch + (3,), lambda *i: S.by_index(i[-1], rotvec(q(i[:-1]))), "rotation vector", tol=1e-4)


def mat_identity(K, n):
    sh = (tt(3), tt(3)) if n is None else (tt(n), tt(3), tt(3))
    R = X.mk(sh, lambda *i: T.eq(i[-2], i[-1]), origin=("arg", "R"))
    r = K.call(CT.SO3 + "so3_log", R)
    K.tensor(r, sh[:-1], lambda *i: ZERO, "logarithm of the identity", tol=1e-4)


def quats(K, unit):
    n = K.size("N")
    lf = T.Leaf("q", unit_first=4) if unit else T.Leaf("q")
    q = lambda i: [T.elem(lf, i, tt(k)) for k in range(4)]  # noqa: E731
    Q = X.mk((n, tt(4)), lambda i, k: T.elem(lf, i, k), origin=("arg", "q"))
    r = K.call(CT.SO3 + "quaternion_log", Q)

    def want(i, k):
        w, v = q(i)[0], q(i)[1:]
        ln = T.fun("sqrt", sum((x * x for x in q(i)), ZERO))
        vn = T.fun("sqrt", sum((x * x for x in v), ZERO))
        a = T.fun("acos", w * T.inv(ln))
        return S.by_index(k, [T.fun("log", ln)] + [x * a * T.inv(vn) for x in v])
    K.tensor(r, (n, tt(4)), want, "logarithm of the quaternion", tol=1e-5)


def quat_identity(K):
    Q = X.tensor_from([[1.0, 0.0, 0.0, 0.0], [0.5, 0.5, 0.5, 0.5], [0.0, 1.0, 0.0, 0.0]], None, X.CPU)
    r = K.call(CT.SO3 + "quaternion_log", Q)
    p = T.PI
    t = [p * T.const(1) * T.inv(tt(3)) * T.inv(T.fun("sqrt", tt(3)))] * 3
    want = [[ZERO] * 4, [ZERO] + t, [ZERO, p * T.inv(tt(2)), ZERO, ZERO]]
    K.tensor(r, (tt(3), tt(4)), lambda i, k: S.by_index(i, [S.by_index(k, w) for w in want]), "logarithms of (1, 0, 0, 0) and others",
             tol=1e-5)


def check(ck):
    for nb in (0, 1, 2):
        ck.case("so3.so3_log, %d leading axes" % nb, lambda K, nb=nb: matrices(K, nb), CT.SO3 + "so3_log")
    for n in (None, 3):
        ck.case("so3.so3_log of %s identity matrices" % n, lambda K, n=n: mat_identity(K, n), CT.SO3 + "so3_log")
    for u in (True, False):
        ck.case("so3.quaternion_log, %s quaternions" % ("unit" if u else "all"), lambda K, u=u: quats(K, u), CT.SO3 + "quaternion_log")
    ck.case("so3.quaternion_log of the identity and fixed quaternions", quat_identity, CT.SO3 + "quaternion_log")
