"""C16: O(n) sampling treats rotations and reflections as separate sheets."""
import itertools
from fractions import Fraction

from .. import ready as R
from .. import terms as T
from .. import tensor as X
from ..terms import tt, ZERO, ONE

EXPLANATION = """o2.grid_sample and o3.grid_sample are run abstractly for every arrangement of rotations and reflections among the
queried elements (all sign patterns up to a length), with unknown angles / rotation matrices, unknown signals, unknown
reference elements, symbolic sheet sizes and unknown widths.  Row q of the result has to be, as a term, the row that
so2/so3.grid_sample gives for that element alone on the rotation rows (with the rotation width) or on the reflection rows
(with the reflection width) of the reference signal."""
RULE = "row q of the result is the interpolant of element q on its own sheet with that sheet's width"
ASSUMPTIONS = ["A queried sheet has at least one reference element."]
NOTE = "Sign patterns of the queried elements are enumerated up to length 5 (thorough: 7)."

G = "gconv.geometry.groups."
MODES = [{"default": [2, 3, 2, 2, 3]}, {"default": [1, 2, 3, 1, 2]}]


SUB = {k: v for k, v in R.sampler_stubs().items() if "so2" in k or "so3" in k}


def matrices(K, name, n):
    """Unknown rotation matrices, flattened."""
    lf = T.Leaf(name, rot=True)
    return X.mk((n, tt(9)), lambda i, j: T.elem(lf, i, j))


def build(K, g, name, n, sign, n_pos=None):
    """n elements; sign is a list of +-1, or None with the first n_pos rotations."""
    def coef(i):
        if sign is None:
            return T.ite(T.lt(tt(i), tt(n_pos)), ONE, -ONE)
        c = tt(i).const
        if c is not None:
            return tt(sign[int(c)])
        r = tt(sign[-1])
        for k in range(len(sign) - 1):
            r = T.ite(T.eq(tt(i), tt(k)), tt(sign[k]), r)
        return r
    if g == "o2":
        lf = T.Leaf(name)
        part = X.mk((tt(n), ONE), lambda i, j: T.elem(lf, i))
    else:
        part = matrices(K, name, tt(n))
    cf = X.mk((tt(n), ONE), lambda i, j: coef(i))
    return K.call(K.lib("torch.cat"), [cf, part], dim=-1)


def check(ck):
    top = 7 if ck.thorough else 5
    for g in ("o2", "o3"):
        for Q in range(1, top + 1):
            for sign in itertools.product((1, -1), repeat=Q):
                modes = ("rbf", "nearest") if Q <= 3 or ck.thorough else ("rbf",)
                for mode in modes:
                    one(ck, g, list(sign), mode, True)
                if Q == 2:
                    one(ck, g, list(sign), None, True)
        for only in (1, -1):
            for Q in (1, 3):
                one(ck, g, [only] * Q, "rbf", False)


def one(ck, g, sign, mode, both):
    """both: the reference has both sheets; otherwise only the queried one."""
    ent = G + g + ":grid_sample"
    sub = G + ("so2" if g == "o2" else "so3") + ":grid_sample"

    def body(K):
        Q = len(sign)
        a = K.size("A") if both or sign[0] == 1 else ZERO
        b = K.size("B") if both or sign[0] == -1 else ZERO
        C = K.size("S")
        M = a + b
        grid = build(K, g, "q", Q, sign)
        if g == "o2":
            ra, rb = K.leaf("ra", (a, 1)), K.leaf("rb", (b, 1))
        else:
            ra, rb = matrices(K, "ra", a), matrices(K, "rb", b)
        fa, fb = ra, rb
        if g == "o3":
            ra, rb = K.method(fa, "unflatten", -1, (3, 3)), K.method(fb, "unflatten", -1, (3, 3))
        cat = K.lib("torch.cat")
        cf = X.mk((M, ONE), lambda i, j: T.ite(T.lt(i, a), ONE, -ONE))
        ref = K.call(cat, [cf, K.call(cat, [fa, fb], dim=0)], dim=-1)
        sa, sb = K.leaf("sa", (a, C)), K.leaf("sb", (b, C))
        sig = K.call(cat, [sa, sb], dim=0)
        w1, w2 = K.positive("w1"), K.positive("w2")
        kw = {} if mode is None else {"mode": mode}
        if mode is None:
            r = K.call(ent, grid, sig, ref, (K.int(a), K.int(b)))
            w1 = w2 = X.mknum(T.const(Fraction(1, 2)), "float")
        else:
            r = K.call(ent, grid, sig, ref, (K.int(a), K.int(b)), rotation_width=w1, reflection_width=w2, **kw)
        K.shape(r, (tt(Q), C), "sampled signal")
        s = K.fresh(C)
        for q in range(Q):
            if g == "o2":
                el = X.mk((ONE, ONE), lambda i, j: grid.at(tt(q), ONE))
            else:
                el = X.mk((ONE, tt(3), tt(3)), lambda i, j, k: grid.at(tt(q), ONE + 3 * j + k))
            if sign[q] == 1:
                want = K.call(sub, el, sa, ra, width=w1, **kw)
            else:
                want = K.call(sub, el, sb, rb, width=w2, **kw)
            K.eq(r.at(tt(q), s), want.at(ZERO, s), "row %d" % q, tol=1e-3)
    ck.case("%s.grid_sample %s, %s%s" % (g, "".join("+" if x > 0 else "-" for x in sign), mode or "defaults",
                                        "" if both else ", one sheet"), body, ent, modes=MODES, stubs=SUB, confirm=True)
