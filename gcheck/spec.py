"""Specification formulas, as terms."""
from fractions import Fraction

from . import terms as T
from . import tensor as X
from .terms import ZERO, ONE, tt, ite

PI = T.PI
TWO_PI = PI * 2
LN2 = T.const(Fraction("0.69314718"))


def cos(t):
    return T.fun("cos", tt(t))


def sin(t):
    return T.fun("sin", tt(t))


def rot2(a):
    """2x2 rotation matrix by angle a as a nested list."""
    return [[cos(a), -sin(a)], [sin(a), cos(a)]]


def Rx(a):
    return [[ONE, ZERO, ZERO], [ZERO, cos(a), -sin(a)], [ZERO, sin(a), cos(a)]]


def Ry(a):
    return [[cos(a), ZERO, sin(a)], [ZERO, ONE, ZERO], [-sin(a), ZERO, cos(a)]]


def Rz(a):
    return [[cos(a), -sin(a), ZERO], [sin(a), cos(a), ZERO], [ZERO, ZERO, ONE]]


def mmul(A, B):
    return [[T.addmany([A[i][k] * B[k][j] for k in range(len(B))]) for j in range(len(B[0]))] for i in range(len(A))]


def mvec(A, v):
    return [T.addmany([A[i][k] * v[k] for k in range(len(v))]) for i in range(len(A))]


def mT(A):
    return [list(r) for r in zip(*A)]


def eye(n):
    return [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]


def euler(al, be, ga):
    """Rz(gamma) Ry(beta) Rz(alpha) in the repository's naming: alpha, beta, gamma = angles 0, 1, 2."""
    return mmul(mmul(Rz(ga), Ry(be)), Rz(al))


def qmul(p, q):
    a, b, c, d = p
    w, x, y, z = q
    return [a * w - b * x - c * y - d * z,
            a * x + b * w + c * z - d * y,
            a * y - b * z + c * w + d * x,
            a * z + b * y - c * x + d * w]


def qmat(q):
    w, x, y, z = q
    return [[w * w + x * x - y * y - z * z, (x * y - w * z) * 2, (x * z + w * y) * 2],
            [(x * y + w * z) * 2, w * w - x * x + y * y - z * z, (y * z - w * x) * 2],
            [(x * z - w * y) * 2, (y * z + w * x) * 2, w * w - x * x - y * y + z * z]]


def qdist_cos(p, q):
    return T.fun("abs", T.addmany([a * b for a, b in zip(p, q)]))


def pick(rows, *idx):
    """Entry of a nested list at constant indices."""
    r = rows
    for i in idx:
        r = r[int(tt(i).const)]
    return r


def by_index(k, values):
    """values[k] for a term k (constant or not)."""
    k = tt(k)
    if k.const is not None:
        return values[int(k.const)]
    r = values[-1]
    for j in range(len(values) - 2, -1, -1):
        r = ite(T.eq(k, tt(j)), values[j], r)
    return r


# ------------------------------------------------------------------ inputs
def unit_quats(K, name, batch):
    lf = T.Leaf(name, unit_first=4)
    t = X.mk(tuple(batch) + (4,), lambda *i: T.elem(lf, *i), origin=("arg", name))
    t.name = name
    return t, (lambda *b: [T.elem(lf, *b, tt(k)) for k in range(4)])


def rotmats(K, name, batch):
    """Rotation matrices, as images of unit quaternions."""
    lf = T.Leaf(name, unit_first=4)

    def mat(*b):
        return qmat([T.elem(lf, *b, tt(k)) for k in range(4)])

    def fn(*i):
        m = mat(*i[:-2])
        return by_index(i[-2], [by_index(i[-1], r) for r in m])
    t = X.mk(tuple(batch) + (3, 3), fn, origin=("arg", name))
    t.name = name
    return t, mat


def matrices(K, name, batch, n=3):
    lf = T.Leaf(name)
    t = X.mk(tuple(batch) + (n, n), lambda *i: T.elem(lf, *i), origin=("arg", name))
    return t, (lambda *b: [[T.elem(lf, *b, tt(i), tt(j)) for j in range(n)] for i in range(n)])


def o2_elems(K, name, batch):
    s = T.Leaf(name + ".coeff", sign=True)
    a = T.Leaf(name + ".angle")

    def el(*b):
        return [T.elem(s, *b), T.elem(a, *b)]
    t = X.mk(tuple(batch) + (2,), lambda *i: by_index(i[-1], el(*i[:-1])), origin=("arg", name))
    t.name = name
    return t, el


def o3_elems(K, name, batch, general=False):
    s = T.Leaf(name + ".coeff", sign=True)
    lf = T.Leaf(name + ".rot") if general else T.Leaf(name + ".rot", unit_first=4)

    def coeff(*b):
        return T.elem(s, *b)

    def mat(*b):
        if general:
            return [[T.elem(lf, *b, tt(3 * i + j)) for j in range(3)] for i in range(3)]
        return qmat([T.elem(lf, *b, tt(k)) for k in range(4)])

    def fn(*i):
        k = i[-1]
        b = i[:-1]
        if k.const is None and general:
            return ite(T.eq(k, ZERO), coeff(*b), T.elem(lf, *b, k - 1))
        m = mat(*b)
        return by_index(k, [coeff(*b)] + [x for r in m for x in r])
    t = X.mk(tuple(batch) + (10,), fn, origin=("arg", name))
    t.name = name
    return t, coeff, mat


def batch_shapes(K, ranks=(1, 0, 2, 3)):
    pass
