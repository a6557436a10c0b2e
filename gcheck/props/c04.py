"""C04: the named finite rotation groups are groups."""
from fractions import Fraction
import math

from .. import spec as S
from .. import terms as T
from .. import tensor as X
from ..terms import tt, ZERO, ONE
from .c03 import qmat_num, dev, vals

EXPLANATION = """The quaternion tables are read off the abstract results (constants of the source), and membership of
the identity, closure under product and inverse (up to sign), distinctness and order are decided by computing the
complete multiplication table.  The cyclic groups are interpreted for a symbolic order n and a generic element k, whose
rotation is compared with the rotation by 2*pi*k/n about the axis; axis selection is compared with the three groups."""
RULE = "complete multiplication table of constant tables; value number of element k of n for the cyclic groups"

SO3 = "gconv.geometry.groups.so3:"
ORDERS = (("identity", 1), ("klein_group", 4), ("tetrahedral", 12), ("octahedral", 24), ("icosahedral", 60))


def qmul(p, q):
    a, b, c, d = p
    w, x, y, z = q
    return (a * w - b * x - c * y - d * z, a * x + b * w + c * z - d * y,
            a * y - b * z + c * w + d * x, a * z + b * y - c * x + d * w)


def near(p, q, tol=2e-6):
    return abs(abs(sum(a * b for a, b in zip(p, q))) - 1) < tol


def show(q):
    return "(%s)" % ", ".join("%.4g" % x for x in q)


def check(ck):
    for name, n in ORDERS:
        def body(K, name=name, n=n):
            t = K.call(SO3 + name)
            K.shape(t, (n, 4), name)
            els = []
            for i in range(n):
                row = []
                for k in range(4):
                    v = X.norm(t.at(tt(i), tt(k)))
                    x = v.const
                    if x is None:
                        x = T.numeric_const(v)
                    if x is None:
                        raise X.Incomplete("table entry is not a constant: %s" % T.brief(v))
                    row.append(float(x))
                els.append(tuple(row))
            for i, q in enumerate(els):
                K.require(abs(sum(x * x for x in q) - 1) < 2e-6, "unit-quaternion",
                          "element %d of %s is a unit quaternion" % (i, name), show(q))
            for i in range(n):
                for j in range(i):
                    K.require(not near(els[i], els[j]), "distinct", "elements %d and %d of %s differ" % (j, i, name),
                              "both are %s" % show(els[i]))
            K.require(any(near(q, (1, 0, 0, 0)) for q in els), "identity", "%s contains the identity" % name,
                      "no element is +-(1,0,0,0)")
            for i, q in enumerate(els):
                qi = (q[0], -q[1], -q[2], -q[3])
                K.require(any(near(qi, r) for r in els), "inverse", "inverse of element %d of %s" % (i, name),
                          "%s is not an element" % show(qi))
            for i, p in enumerate(els):
                for j, q in enumerate(els):
                    r = qmul(p, q)
                    K.require(any(near(r, s) for s in els), "closure", "product of elements %d and %d of %s" % (
                        i, j, name), "%s is not an element" % show(r))
        ck.case("so3.%s" % name, body, SO3 + name)

    specs = {"x": S.Rx, "y": S.Ry, "z": S.Rz}

    def about(K, t, n, ax, lab):
        K.shape(t, (n, 4), lab)
        k = K.fresh(n)
        want = specs[ax](S.TWO_PI * k / n)
        K.holds(vals(t, (k,), 4) + [w for row in want for w in row],
                lambda v: dev(qmat_num(v[:4]), [v[4:7], v[7:10], v[10:13]]),
                "rotation of element k of %s" % lab, tol=1e-5, want="2*pi*k/n about the %s axis" % ax, trials=12)

    for ax in "xyz":
        def cyc(K, ax=ax):
            n = K.size("n")
            about(K, K.call(SO3 + "cyclic_" + ax, K.int(n)), n, ax, "cyclic_" + ax)
        ck.case("so3.cyclic_" + ax, cyc, SO3 + "cyclic_" + ax)
        for name in (ax, ax.upper()):
            def sel(K, ax=ax, name=name):
                n = K.size("n")
                about(K, K.call(SO3 + "cyclic", K.int(n), name), n, ax, "cyclic(n, %r)" % name)
            ck.case("so3.cyclic axis %r" % name, sel, SO3 + "cyclic")
        for n in range(1, 9 if not ck.thorough else 25):
            def fixed(K, ax=ax, n=n):
                t = K.call(SO3 + "cyclic_" + ax, K.int(n))
                K.shape(t, (n, 4), "cyclic_" + ax)
                for k in range(n):
                    want = specs[ax](S.TWO_PI * Fraction(k, n))
                    K.holds(vals(t, (tt(k),), 4) + [w for row in want for w in row],
                            lambda v: dev(qmat_num(v[:4]), [v[4:7], v[7:10], v[10:13]]),
                            "rotation of element %d of cyclic_%s(%d)" % (k, ax, n), tol=1e-5, trials=1,
                            want="2*pi*%d/%d about the %s axis" % (k, n, ax))
            ck.case("so3.cyclic_%s(%d)" % (ax, n), fixed, SO3 + "cyclic_" + ax)
    for bad in ("w", "", "xy", "a", "q", "XX", "axis", "0"):
        def rej(K, bad=bad):
            K.expect_raise("ValueError", SO3 + "cyclic", K.int(K.size("n")), bad, what="axis %r is rejected" % bad)
        ck.case("so3.cyclic rejects axis %r" % bad, rej, SO3 + "cyclic")
