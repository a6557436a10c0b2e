"""C01: group products and inverses."""
from .. import spec as S
from .. import terms as T
from .. import tensor as X
from ..terms import tt, ZERO, ONE

EXPLANATION = """Each product, pairwise product and inverse of so2, o2, so3 and o3 is abstractly interpreted on
operands with unknown entries and symbolic leading sizes; every entry of the abstract result is compared with the
group law (angle sum modulo 2*pi, coefficient product, Hamilton product, matrix product), and inverse times element
with the identity.  The group laws themselves are associative and compatible with the representations."""
RULE = "result[index] has the value number of the group law at that index, for every index and every size"

SO2 = "gconv.geometry.groups.so2:"
O2 = "gconv.geometry.groups.o2:"
SO3 = "gconv.geometry.groups.so3:"
O3 = "gconv.geometry.groups.o3:"


def batch(K, rank):
    return tuple(K.size("B%d" % k) for k in range(rank))


def check(ck):
    for r in (0, 1, 2, 3, 4):
        products(ck, r)
        inverses(ck, r)
    broadcast(ck)
    pairwise(ck)
    range_(ck)


def products(ck, r):
    lab = " (leading rank %d)" % r

    def so2(K):
        B = batch(K, r)
        a, b = K.leaf("a", B + (1,)), K.leaf("b", B + (1,))
        K.tensor(K.call(SO2 + "left_apply_angle", a, b), B + (1,),
                 lambda *i: T.mod(a.at(*i) + b.at(*i), S.TWO_PI), "product of angles")
    ck.case("so2.left_apply_angle" + lab, so2, SO2 + "left_apply_angle")

    def o2(K):
        B = batch(K, r)
        a, ea = S.o2_elems(K, "a", B)
        b, eb = S.o2_elems(K, "b", B)

        def want(*i):
            x, y = ea(*i[:-1]), eb(*i[:-1])
            return S.by_index(i[-1], [x[0] * y[0], T.mod(x[1] + y[1], S.TWO_PI)])
        K.tensor(K.call(O2 + "left_apply_angle", a, b), B + (2,), want, "product of O(2) elements")
    ck.case("o2.left_apply_angle" + lab, o2, O2 + "left_apply_angle")

    def quat(K):
        B = batch(K, r)
        p, q = K.leaf("p", B + (4,)), K.leaf("q", B + (4,))

        def want(*i):
            b = i[:-1]
            return S.by_index(i[-1], S.qmul([p.at(*b, tt(k)) for k in range(4)], [q.at(*b, tt(k)) for k in range(4)]))
        K.tensor(K.call(SO3 + "left_apply_quat", p, q), B + (4,), want, "product of quaternions")
    ck.case("so3.left_apply_quat" + lab, quat, SO3 + "left_apply_quat")

    def mat(K):
        B = batch(K, r)
        a, ma = S.matrices(K, "a", B)
        b, mb = S.matrices(K, "b", B)
        K.tensor(K.call(SO3 + "left_apply_matrix", a, b), B + (3, 3),
                 lambda *i: S.pick(S.mmul(ma(*i[:-2]), mb(*i[:-2])), i[-2], i[-1]), "product of matrices")
    ck.case("so3.left_apply_matrix" + lab, mat, SO3 + "left_apply_matrix")

    def o3(K):
        B = batch(K, r)
        a, ca, ma = S.o3_elems(K, "a", B, general=True)
        b, cb, mb = S.o3_elems(K, "b", B, general=True)
        K.tensor(K.call(O3 + "left_apply_O3", a, b), B + (10,), lambda *i: o3_prod(ca, ma, cb, mb, i[:-1], i[:-1], i[-1]),
                 "product of O(3) elements", enum=10)
    ck.case("o3.left_apply_O3" + lab, o3, O3 + "left_apply_O3")


def o3_prod(ca, ma, cb, mb, i, j, k):
    m = S.mmul(ma(*i), mb(*j))
    return S.by_index(k, [ca(*i) * cb(*j)] + [x for r in m for x in r])


def inverses(ck, r):
    lab = " (leading rank %d)" % r

    def so2(K):
        B = batch(K, r)
        a = K.leaf("a", B + (1,))
        inv = K.call(SO2 + "inverse_angle", a)
        K.shape(inv, B + (1,), "inverse angle")
        for i in K.indices(B + (1,)):
            s = inv.at(*i) + a.at(*i)
            K.eq(S.cos(s), ONE, "cos(inverse + angle)")
            K.eq(S.sin(s), ZERO, "sin(inverse + angle)")
    ck.case("so2.inverse_angle" + lab, so2, SO2 + "inverse_angle")

    def so2m(K):
        B = batch(K, r)
        a = T.Leaf("a")
        m = lambda *b: S.rot2(T.elem(a, *b))
        R = X.mk(B + (2, 2), lambda *i: S.by_index(i[-2], [S.by_index(i[-1], row) for row in m(*i[:-2])]), origin=("arg", "R"))
        inv = K.call(SO2 + "inverse_matrix", R)
        K.tensor(inv, B + (2, 2), lambda *i: S.pick(S.mT(m(*i[:-2])), i[-2], i[-1]), "inverse rotation matrix")
    ck.case("so2.inverse_matrix" + lab, so2m, SO2 + "inverse_matrix")

    def o2(K):
        B = batch(K, r)
        a, ea = S.o2_elems(K, "a", B)
        inv = K.call(O2 + "inverse", a)
        K.shape(inv, B + (2,), "inverse of O(2) elements")
        for i in K.indices(B):
            x = ea(*i)
            K.eq(inv.at(*i, ZERO) * x[0], ONE, "coefficient of inverse * element")
            s = inv.at(*i, ONE) + x[1]
            K.eq(S.cos(s), ONE, "cos of the angle of inverse * element")
            K.eq(S.sin(s), ZERO, "sin of the angle of inverse * element")
    ck.case("o2.inverse" + lab, o2, O2 + "inverse")

    def quat(K):
        B = batch(K, r)
        q, eq_ = S.unit_quats(K, "q", B)
        inv = K.call(SO3 + "quat_inverse", q)
        K.shape(inv, B + (4,), "inverse quaternion")
        for i in K.indices(B):
            p = S.qmul([inv.at(*i, tt(k)) for k in range(4)], eq_(*i))
            for k in range(4):
                K.eq(p[k], ONE if k == 0 else ZERO, "component %d of inverse * element" % k)
    ck.case("so3.quat_inverse" + lab, quat, SO3 + "quat_inverse")

    def mat(K):
        B = batch(K, r)
        R, m = S.rotmats(K, "R", B)
        inv = K.call(SO3 + "matrix_inverse", R)
        K.tensor(inv, B + (3, 3), lambda *i: S.pick(S.mT(m(*i[:-2])), i[-2], i[-1]), "inverse matrix")
    ck.case("so3.matrix_inverse" + lab, mat, SO3 + "matrix_inverse")

    def o3(K):
        B = batch(K, r)
        a, c, m = S.o3_elems(K, "a", B)
        inv = K.call(O3 + "inverse", a)

        def want(*i):
            b = i[:-1]
            return S.by_index(i[-1], [c(*b)] + [x for row in S.mT(m(*b)) for x in row])
        K.tensor(inv, B + (10,), want, "inverse of O(3) elements", enum=10)
    ck.case("o3.inverse" + lab, o3, O3 + "inverse")


def broadcast(ck):
    """(N, 1, ...) with (M, ...)."""
    def so2(K):
        N, M = K.size("N"), K.size("M")
        a, b = K.leaf("a", (N, 1, 1)), K.leaf("b", (M, 1))
        K.tensor(K.call(SO2 + "left_apply_angle", a, b), (N, M, 1),
                 lambda i, j, k: T.mod(a.at(i, ZERO, k) + b.at(j, k), S.TWO_PI), "broadcast product")
    ck.case("so2.left_apply_angle broadcasting", so2, SO2 + "left_apply_angle")

    def mat(K):
        N, M = K.size("N"), K.size("M")
        a, ma = S.matrices(K, "a", (N, 1))
        b, mb = S.matrices(K, "b", (M,))
        K.tensor(K.call(SO3 + "left_apply_matrix", a, b), (N, M, 3, 3),
                 lambda i, j, k, l: S.pick(S.mmul(ma(i, ZERO), mb(j)), k, l), "broadcast product")
    ck.case("so3.left_apply_matrix broadcasting", mat, SO3 + "left_apply_matrix")

    def o3(K):
        N, M = K.size("N"), K.size("M")
        a, ca, ma = S.o3_elems(K, "a", (N, 1), general=True)
        b, cb, mb = S.o3_elems(K, "b", (M,), general=True)
        K.tensor(K.call(O3 + "left_apply_O3", a, b), (N, M, 10),
                 lambda i, j, k: o3_prod(ca, ma, cb, mb, (i, ZERO), (j,), k), "broadcast product", enum=10)
    ck.case("o3.left_apply_O3 broadcasting", o3, O3 + "left_apply_O3")

    def o2(K):
        N, M = K.size("N"), K.size("M")
        a, ea = S.o2_elems(K, "a", (N, tt(1)))
        b, eb = S.o2_elems(K, "b", (M,))
        K.tensor(K.call(O2 + "left_apply_angle", a, b), (N, M, 2),
                 lambda i, j, k: S.by_index(k, [ea(i, ZERO)[0] * eb(j)[0], T.mod(ea(i, ZERO)[1] + eb(j)[1], S.TWO_PI)]),
                 "broadcast product")
    ck.case("o2.left_apply_angle broadcasting", o2, O2 + "left_apply_angle")


def pairwise(ck):
    def so2(K):
        N, M = K.size("N"), K.size("M")
        a, b = K.leaf("a", (N, 1)), K.leaf("b", (M, 1))
        K.tensor(K.call(SO2 + "left_apply_to_angle", a, b), (N, M, 1),
                 lambda i, j, k: T.mod(a.at(i, k) + b.at(j, k), S.TWO_PI), "pairwise product of angles")
    ck.case("so2.left_apply_to_angle", so2, SO2 + "left_apply_to_angle")

    def o2(K):
        N, M = K.size("N"), K.size("M")
        a, ea = S.o2_elems(K, "a", (N,))
        b, eb = S.o2_elems(K, "b", (M,))
        K.tensor(K.call(O2 + "left_apply_to_angle", a, b), (N, M, 2),
                 lambda i, j, k: S.by_index(k, [ea(i)[0] * eb(j)[0], T.mod(ea(i)[1] + eb(j)[1], S.TWO_PI)]),
                 "pairwise product of O(2) elements")
    ck.case("o2.left_apply_to_angle", o2, O2 + "left_apply_to_angle")

    def so3(K):
        N, M = K.size("N"), K.size("M")
        a, ma = S.matrices(K, "a", (N,))
        b, mb = S.matrices(K, "b", (M,))
        K.tensor(K.call(SO3 + "left_apply_to_matrix", a, b), (N, M, 3, 3),
                 lambda i, j, k, l: S.pick(S.mmul(ma(i), mb(j)), k, l), "pairwise product of matrices")
    ck.case("so3.left_apply_to_matrix", so3, SO3 + "left_apply_to_matrix")

    def o3(K):
        N, M = K.size("N"), K.size("M")
        a, ca, ma = S.o3_elems(K, "a", (N,), general=True)
        b, cb, mb = S.o3_elems(K, "b", (M,), general=True)
        K.tensor(K.call(O3 + "left_apply_to_O3", a, b), (N, M, 10),
                 lambda i, j, k: o3_prod(ca, ma, cb, mb, (i,), (j,), k), "pairwise product of O(3) elements", enum=10)
    ck.case("o3.left_apply_to_O3", o3, O3 + "left_apply_to_O3")


def range_(ck):
    """Compatibility with the representation."""
    def so2(K):
        N = K.size("N")
        a, b = K.leaf("a", (N, 1)), K.leaf("b", (N, 1))
        m = K.call(SO2 + "angle_to_matrix", K.call(SO2 + "left_apply_angle", a, b))
        K.tensor(m, (N, 2, 2), lambda i, k, l: S.pick(S.mmul(S.rot2(a.at(i, ZERO)), S.rot2(b.at(i, ZERO))), k, l),
                 "matrix of a product")
    ck.case("so2 product and matrices", so2, SO2 + "angle_to_matrix")

    def q(K):
        N = K.size("N")
        a, ea = S.unit_quats(K, "a", (N,))
        b, eb = S.unit_quats(K, "b", (N,))
        m = K.call(SO3 + "quat_to_matrix", K.call(SO3 + "left_apply_quat", a, b))
        K.tensor(m, (N, 3, 3), lambda i, k, l: S.pick(S.mmul(S.qmat(ea(i)), S.qmat(eb(i))), k, l),
                 "matrix of a quaternion product")
    ck.case("so3 quaternion product and matrices", q, SO3 + "left_apply_quat")
