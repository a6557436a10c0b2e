"""C02: group elements act on coordinates as the linear maps they represent."""
from .. import spec as S
from .. import terms as T
from .. import tensor as X
from ..terms import tt, ZERO, ONE

EXPLANATION = """The actions of so2, o2, so3 and o3 on coordinate grids are abstractly interpreted on N unknown elements
and a grid of unknown vectors of symbolic, pairwise different extents; every entry of the result is compared with the
element's matrix times the vector at that position.  The composition law is checked by feeding the abstract result of
one action into another, determinants against the determinant of the matrix read off the action on the basis."""
RULE = "result[n, *position, c] = sum_d M(element n)[c, d] * grid[*position, d], element index first"

SO2 = "gconv.geometry.groups.so2:"
O2 = "gconv.geometry.groups.o2:"
SO3 = "gconv.geometry.groups.so3:"
O3 = "gconv.geometry.groups.o3:"


def sp(K, n):
    return tuple(K.size(s) for s in ("D0", "D1", "D2")[:n])


def vec(g, pos, n):
    return [g.at(*pos, tt(k)) for k in range(n)]


def check(ck):
    ck.known_finding("o2-det-action", lambda v: v.rule == "det-of-reflection")
    actions2(ck)
    actions3(ck)
    composition(ck)
    determinants(ck)


def actions2(ck):
    def angle(K):
        N = K.size("N")
        P = sp(K, 2)
        a, g = K.leaf("a", (N, 1)), K.leaf("grid", P + (2,))
        K.tensor(K.call(SO2 + "left_apply_angle_to_R2", a, g), (N,) + P + (2,),
                 lambda n, *i: S.by_index(i[-1], S.mvec(S.rot2(a.at(n, ZERO)), vec(g, i[:-1], 2))), "rotated grid")
    ck.case("so2.left_apply_angle_to_R2", angle, SO2 + "left_apply_angle_to_R2")

    def mat(K):
        N = K.size("N")
        P = sp(K, 2)
        a, m = S.matrices(K, "a", (N,), 2)
        g = K.leaf("grid", P + (2,))
        K.tensor(K.call(SO2 + "left_apply_matrix_to_R2", a, g), (N,) + P + (2,),
                 lambda n, *i: S.by_index(i[-1], S.mvec(m(n), vec(g, i[:-1], 2))), "transformed grid")
    ck.case("so2.left_apply_matrix_to_R2", mat, SO2 + "left_apply_matrix_to_R2")

    def o2(K):
        N = K.size("N")
        P = sp(K, 2)
        a, e = S.o2_elems(K, "a", (N,))
        g = K.leaf("grid", P + (2,))
        K.tensor(K.call(O2 + "left_apply_to_R2", a, g), (N,) + P + (2,),
                 lambda n, *i: e(n)[0] * S.by_index(i[-1], S.mvec(S.rot2(e(n)[1]), vec(g, i[:-1], 2))),
                 "transformed grid")
    ck.case("o2.left_apply_to_R2", o2, O2 + "left_apply_to_R2")


def actions3(ck):
    for r in (0, 1, 2, 3):
        def so3(K, r=r):
            B = tuple(K.size("B%d" % k) for k in range(r))
            P = sp(K, 3)
            a, m = S.matrices(K, "a", B, 3)
            g = K.leaf("grid", P + (3,))
            K.tensor(K.call(SO3 + "left_apply_to_R3", a, g), B + P + (3,),
                     lambda *i: S.by_index(i[-1], S.mvec(m(*i[:r]), vec(g, i[r:-1], 3))), "transformed grid")
        ck.case("so3.left_apply_to_R3 (leading rank %d)" % r, so3, SO3 + "left_apply_to_R3")

        def o3(K, r=r):
            B = tuple(K.size("B%d" % k) for k in range(r))
            P = sp(K, 3)
            a, c, m = S.o3_elems(K, "a", B, general=True)
            g = K.leaf("grid", P + (3,))
            K.tensor(K.call(O3 + "left_apply_to_R3", a, g), B + P + (3,),
                     lambda *i: c(*i[:r]) * S.by_index(i[-1], S.mvec(m(*i[:r]), vec(g, i[r:-1], 3))),
                     "transformed grid")
        ck.case("o3.left_apply_to_R3 (leading rank %d)" % r, o3, O3 + "left_apply_to_R3")


def composition(ck):
    def run(K, prod, act, a, b, n, row):
        P = sp(K, n)
        g = K.leaf("grid", P + (n,))
        got = K.call(act, K.call(prod, a, b), g)
        inner = K.call(act, b, g)
        # the inner result at one element is a grid again
        one = X.select(inner, 0, 0)
        K.shape(got, (a.shape[0],) + P + (n,), "action of a product")
        outer = K.call(act, a, one)
        K.tensor(got, (a.shape[0],) + P + (n,), lambda *i: outer.at(*i), "action of a product")

    def so2(K):
        run(K, SO2 + "left_apply_angle", SO2 + "left_apply_angle_to_R2", K.leaf("a", (K.size("N"), 1)),
            K.leaf("b", (1, 1)), 2, 1)
    ck.case("so2: action of a product", so2, SO2 + "left_apply_angle_to_R2")

    def o2(K):
        run(K, O2 + "left_apply_angle", O2 + "left_apply_to_R2", S.o2_elems(K, "a", (K.size("N"),))[0],
            S.o2_elems(K, "b", (tt(1),))[0], 2, 2)
    ck.case("o2: action of a product", o2, O2 + "left_apply_to_R2")

    def so3(K):
        run(K, SO3 + "left_apply_matrix", SO3 + "left_apply_to_R3", S.matrices(K, "a", (K.size("N"),))[0],
            S.matrices(K, "b", (tt(1),))[0], 3, 3)
    ck.case("so3: action of a product", so3, SO3 + "left_apply_to_R3")

    def o3(K):
        run(K, O3 + "left_apply_O3", O3 + "left_apply_to_R3", S.o3_elems(K, "a", (K.size("N"),), general=True)[0],
            S.o3_elems(K, "b", (tt(1),), general=True)[0], 3, 10)
    ck.case("o3: action of a product", o3, O3 + "left_apply_to_R3")


def determinants(ck):
    def basis(K, act, e, n):
        g = X.mk((tt(n),) + (tt(1),) * (n - 1) + (tt(n),), lambda *i: T.eq(i[0], i[-1]), origin=("arg", "grid"))
        out = K.call(act, e, g)
        return lambda m: [[out.at(m, tt(d), *([ZERO] * (n - 1)), tt(c)) for d in range(n)] for c in range(n)]

    def o2(K):
        N = K.size("N")
        a, e = S.o2_elems(K, "a", (N,))
        d = K.call(O2 + "det", a)
        K.shape(d, (N, 1), "determinants")
        M = basis(K, O2 + "left_apply_to_R2", a, 2)
        n = K.fresh(N)
        m = M(n)
        want = m[0][0] * m[1][1] - m[0][1] * m[1][0]
        got = d.at(n, ZERO)
        c = e(n)[0]
        if T.same(got, c).ok and T.same(want, ONE).ok:
            K.violate("det-of-reflection", "determinant of an O(2) element",
                      "det reports the coefficient, the action has determinant 1")
        K.eq(got, want, "determinant of an O(2) element")
    ck.case("o2.det", o2, O2 + "det")

    def o3(K):
        N = K.size("N")
        a, c, mat = S.o3_elems(K, "a", (N,))
        d = K.call(O3 + "det", a)
        M = basis(K, O3 + "left_apply_to_R3", a, 3)
        n = K.fresh(N)
        m = M(n)
        K.shape(d, (N, 1), "determinants")
        want = ZERO
        for i in range(3):
            j, k = (i + 1) % 3, (i + 2) % 3
            want = want + m[0][i] * (m[1][j] * m[2][k] - m[1][k] * m[2][j])
        K.eq(d.at(n, ZERO), want, "determinant of an O(3) element")
    ck.case("o3.det", o3, O3 + "det")

    for r in (0, 1, 2, 3):
        def o3b(K, r=r):
            B = tuple(K.size("B%d" % k) for k in range(r))
            a, c, mat = S.o3_elems(K, "a", B, general=True)
            K.tensor(K.call(O3 + "det", a), B + (1,), lambda *i: c(*i[:-1]), "determinants")
            a, e = S.o2_elems(K, "a", B)
            K.tensor(K.call(O2 + "det", a), B + (1,), lambda *i: e(*i[:-1])[0], "determinants")
        ck.case("det (leading rank %d)" % r, o3b, O3 + "det")
